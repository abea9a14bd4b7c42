package kit

import (
	"strings"

	"github.com/rdimitrov/go-tuf-metadata/metadata/updater"
	osshim "github.com/rdimitrov/go-tuf-metadata/zzverif/osshim"
	"github.com/rdimitrov/go-tuf-metadata/zzverif/vp"
)

// Roles are the five documents of a State.
var Roles = []string{"root", "timestamp", "snapshot", "targets", "deleg"}

// State is one published state of a repository with one delegated role, "deleg", that
// lists one target.
type State struct {
	R      *Repo
	V      map[string]int64
	Docs   map[string][]byte
	Target string
	DK     *vp.Key
	DE     *vp.J
}

// NewState describes a state in which every role has the given version.
func NewState(version int64, cs bool, target string) *State {
	s := &State{R: NewRepo(), V: map[string]int64{}, Target: target, DK: vp.EC(0), DE: Later()}
	s.R.CS, s.R.Full = cs, true
	for _, r := range Roles {
		s.V[r] = version
	}
	return s
}

// Build makes the documents, children first.
func (s *State) Build() *State {
	r := s.R
	r.RootV, r.TSV, r.SnV, r.TgV = vp.N(s.V["root"]), vp.N(s.V["timestamp"]), vp.N(s.V["snapshot"]), vp.N(s.V["targets"])
	d := Signed(TargetsJ(vp.N(s.V["deleg"]), s.DE, vp.O(s.Target, TargetJ([]byte("c"))), nil), s.DK)
	pattern := "*"
	if strings.Contains(s.Target, "/") {
		pattern = "*/*"
	}
	r.Delegations = DelegationsJ(KeyMap(s.DK), DelegJ("deleg", 1, false, vp.Strs(pattern), s.DK))
	r.SnapMeta = vp.O("deleg.json", r.meta(vp.N(s.V["deleg"]), d))
	s.Docs = map[string][]byte{"root": r.RootDoc(), "timestamp": r.TSDoc(), "snapshot": r.SnDoc(), "targets": r.TgDoc(), "deleg": d}
	return s
}

// URL is where the document of a role is published.
func (s *State) URL(role string) string {
	switch role {
	case "root":
		return Base + Name(true, s.V[role], role)
	case "timestamp":
		return Base + "timestamp.json"
	}
	return Base + Name(s.R.CS, s.V[role], role)
}

// Publish puts the state on the server.
func (s *State) Publish(n *Net) {
	for _, role := range Roles {
		n.Files[s.URL(role)] = s.Docs[role]
	}
}

// Store puts the state into the cache.
func (s *State) Store() {
	for _, role := range Roles {
		osshim.VPPut(MDir+"/"+role+".json", s.Docs[role])
	}
}

// Cached returns the file of a role in the cache.
func Cached(role string) ([]byte, bool) { return osshim.VPGet(MDir + "/" + role + ".json") }

// Session runs one update and lookup.
func Session(root []byte, n *Net, cache bool, target string) (*updater.Updater, error) {
	u, err := updater.New(Cfg2(root, n, cache))
	if err != nil {
		return nil, err
	}
	if err = u.Refresh(); err != nil {
		return u, err
	}
	_, err = u.GetTargetInfo(target)
	return u, err
}
