// Package c29: an honest repository is always followed to its newest state.
package c29

import (
	"strings"

	"github.com/rdimitrov/go-tuf-metadata/metadata/config"
	"github.com/rdimitrov/go-tuf-metadata/metadata/updater"
	"github.com/rdimitrov/go-tuf-metadata/zzverif/kit"
	osshim "github.com/rdimitrov/go-tuf-metadata/zzverif/osshim"
	"github.com/rdimitrov/go-tuf-metadata/zzverif/vp"
)

const events = 13

// history is what a repository published.
type history struct {
	states []*kit.State
	roots  map[string][]byte
	nextK  int
	sym    bool // versions grow by arbitrary amounts
}

func (h *history) key() *vp.Key {
	h.nextK++
	return vp.Ed(3 + h.nextK)
}

func (h *history) last() *kit.State { return h.states[len(h.states)-1] }

// add builds the documents of a state that differ from those of the state before it. A
// document that doesn't change is not made or signed again.
func (h *history) add(s *kit.State, changed map[string]bool, oldRoot *vp.Key) {
	r := s.R
	r.RootV, r.TSV, r.SnV, r.TgV = vp.N(s.V["root"]), vp.N(s.V["timestamp"]), vp.N(s.V["snapshot"]), vp.N(s.V["targets"])
	s.Docs = map[string][]byte{}
	doc := func(role string, build func() []byte) {
		if changed == nil || changed[role] {
			s.Docs[role] = build()
		} else {
			s.Docs[role] = h.last().Docs[role]
		}
	}
	meta := func(role string) *vp.J {
		if r.Full {
			return kit.MetaFull(vp.N(s.V[role]), s.Docs[role])
		}
		return kit.Meta(vp.N(s.V[role]))
	}
	doc("deleg", func() []byte {
		return kit.Signed(kit.TargetsJ(vp.N(s.V["deleg"]), s.DE, vp.O(s.Target, kit.TargetJ([]byte("c"))), nil), s.DK)
	})
	doc("targets", func() []byte {
		r.Delegations = kit.DelegationsJ(kit.KeyMap(s.DK), kit.DelegJ("deleg", 1, false, vp.Strs("*"), s.DK))
		return r.TgDoc()
	})
	doc("snapshot", func() []byte {
		return kit.Signed(kit.SnapshotJ(r.SnV, r.SnE, vp.O("deleg.json", meta("deleg"), "targets.json", meta("targets"))), r.SnK)
	})
	doc("timestamp", func() []byte { return kit.Signed(kit.TimestampJ(r.TSV, r.TSE, meta("snapshot")), r.TSK) })
	doc("root", func() []byte {
		keys := []*vp.Key{r.RootK}
		if oldRoot != nil && oldRoot != r.RootK {
			keys = append(keys, oldRoot)
		}
		return kit.Signed(r.RootJ(), keys...)
	})
	h.roots[s.URL("root")] = s.Docs["root"]
	h.states = append(h.states, s)
}

// expire lets the documents that one of the given events replaces have expired.
func expire(s *kit.State, later []int) {
	at := map[string]**vp.J{"root": &s.R.RootE, "timestamp": &s.R.TSE, "snapshot": &s.R.SnE, "targets": &s.R.TgE, "deleg": &s.DE}
	for _, e := range later {
		for _, role := range changes[e] {
			*at[role] = kit.Earlier()
		}
	}
}

// publish makes the next state; those of its new documents that one of the later events
// replaces have expired.
func (h *history) publish(event int, later ...int) {
	old := h.last()
	r := *old.R
	s := &kit.State{R: &r, V: map[string]int64{}, Target: old.Target, DK: old.DK, DE: old.DE}
	l := kit.Later()
	r.RootE, r.TSE, r.SnE, r.TgE = l, l, l, l
	s.DE = l
	expire(s, later)
	for k, v := range old.V {
		s.V[k] = v
	}
	changed := map[string]bool{}
	bump := func(roles ...string) {
		for _, x := range roles {
			changed[x] = true
			d := int64(1)
			if h.sym && x != "root" {
				d = vp.Int64In("bump", 1, 1<<40)
			}
			s.V[x] += d
		}
	}
	bump(changes[event]...)
	switch event {
	case 5:
		r.RootK = h.key()
	case 6:
		r.TSK = h.key()
	case 7:
		r.SnK = h.key()
	case 8:
		r.TgK = h.key()
	case 9:
		s.DK = h.key()
	case 10:
		r.CS = !r.CS
	case 11:
		r.RootK, r.TSK, r.SnK, r.TgK, s.DK = h.key(), h.key(), h.key(), h.key(), h.key()
	case 12:
		s.Target = "z"
	}
	h.add(s, changed, old.R.RootK)
}

// same tells whether a document of state a is still the current one in state b.
func same(a, b *kit.State, role string) bool { return a == b || a.V[role] == b.V[role] }

func newest(s *kit.State, u *updater.Updater) {
	ts := u.GetTrustedMetadataSet()
	vp.Assert(ts.Root.Signed.Version == s.V["root"] && ts.Root.Signed.ConsistentSnapshot == s.R.CS, "newest-root")
	vp.Assert(ts.Timestamp != nil && ts.Timestamp.Signed.Version == s.V["timestamp"], "newest-timestamp")
	vp.Assert(ts.Snapshot != nil && ts.Snapshot.Signed.Version == s.V["snapshot"], "newest-snapshot")
	vp.Assert(ts.Targets["targets"] != nil && ts.Targets["targets"].Signed.Version == s.V["targets"], "newest-targets")
	vp.Assert(ts.Targets["deleg"] != nil && ts.Targets["deleg"].Signed.Version == s.V["deleg"], "newest-delegated-targets")
}

func asked(n *kit.Net, role string) int {
	c := 0
	for _, u := range n.URLs {
		f := strings.TrimPrefix(u, kit.Base)
		if f == role+".json" || strings.HasSuffix(f, "."+role+".json") {
			c++
		}
	}
	return c
}

// session runs one client session against the newest state; had is the state in the cache, if any.
func session(h *history, net *kit.Net, root []byte, had map[string]*kit.State) {
	cur := h.last()
	net.URLs = nil
	u, err := kit.Session(root, net, true, cur.Target)
	vp.Log("ok", err == nil, len(net.URLs))
	vp.Assert(err == nil, "update-succeeds")
	if err != nil {
		return
	}
	newest(cur, u)
	for _, role := range kit.Roles {
		d, ok := kit.Cached(role)
		vp.Assert(ok && vp.SameBytes(d, cur.Docs[role]), "newest-stored")
	}
	vp.Assert(asked(net, "timestamp") == 1, "timestamp-fetched-once")
	for _, role := range []string{"snapshot", "targets", "deleg"} {
		n := asked(net, role)
		if s := had[role]; s != nil && same(s, cur, role) {
			vp.Assert(n == 0, "unchanged-metadata-reused")
		} else {
			vp.Assert(n == 1, "fetched-once")
		}
	}
}

// changes lists the roles whose documents an event changes.
var changes = [events][]string{
	1:  {"timestamp"},
	2:  {"timestamp", "snapshot"},
	3:  {"timestamp", "snapshot", "targets"},
	4:  {"timestamp", "snapshot", "deleg"},
	5:  {"root"},
	6:  {"root", "timestamp"},
	7:  {"root", "timestamp", "snapshot"},
	8:  {"root", "timestamp", "snapshot", "targets"},
	9:  {"timestamp", "snapshot", "targets", "deleg"},
	10: {"root"},
	11: kit.Roles,
	12: kit.Roles,
}

// start publishes the first state; those of its documents that one of the given events
// replaces have expired.
func start(cs, full bool, expired ...int) *history {
	osshim.VPReset()
	osshim.VPChdir("/work")
	osshim.VPMkdir(kit.MDir)
	h := &history{roots: map[string][]byte{}}
	s := kit.NewState(1, cs, "x")
	s.R.Full = full
	expire(s, expired)
	h.add(s, nil, nil)
	return h
}

func (h *history) net() *kit.Net {
	n := kit.NewNet()
	h.last().Publish(n)
	for u, d := range h.roots {
		n.Files[u] = d
	}
	return n
}

func store(h *history, had map[string]*kit.State) {
	for role, s := range had {
		osshim.VPPut(kit.MDir+"/"+role+".json", s.Docs[role])
	}
}

// CheckHistories: any two publications, any cached state, any trusted root.
func CheckHistories() {
	cs := vp.Bool("cs")
	first := []int{3, 4, 7, 10, 11, 9, 5, 0, 1, 2, 6, 8, 12}
	e1, e2 := first[vp.Choice("event", vp.Pick(6, len(first)))], vp.Choice("event", events)
	var h *history
	switch vp.Choice("mode", 3) {
	case 0:
		h = start(cs, true)
	case 1:
		h = start(cs, true, e1, e2)
	case 2:
		h = start(cs, false)
	}
	h.sym = !cs && e1 != 10 && e2 != 10
	h.publish(e1)
	h.publish(e2)
	c := vp.Choice("cached", 4) // 3: nothing
	had := map[string]*kit.State{}
	trusted := 0
	if c < 3 {
		for _, role := range kit.Roles {
			had[role] = h.states[c]
		}
		if vp.Bool("newer root") {
			trusted = c
		}
	}
	store(h, had)
	net := h.net()
	session(h, net, h.states[trusted].Docs["root"], had)
	// and again, from the root that was stored
	d, _ := kit.Cached("root")
	all := map[string]*kit.State{}
	for _, role := range kit.Roles {
		all[role] = h.last()
	}
	session(h, net, d, all)
	vp.Assert(len(net.URLs) == 2, "unchanged-metadata-reused")
	vp.Reach("followed")
}

// CheckMixed: every cached file from another state, or missing.
func CheckMixed() {
	cs := vp.Bool("cs")
	h := start(cs, vp.Bool("full"))
	e := []int{3, 4, 7, 8, 9, 11, 12}
	h.publish(e[vp.Choice("event", vp.Pick(4, 7))])
	had := map[string]*kit.State{}
	for _, role := range kit.Roles[1:] {
		if k := vp.Choice(role, 3); k < 2 {
			had[role] = h.states[k]
		}
	}
	store(h, had)
	net := h.net()
	// object stores answer 403 for what isn't there
	net.Missing = []int{404, 403}[vp.Choice("absent", 2)]
	session(h, net, h.states[0].Docs["root"], had)
	vp.Reach("mixed")
}

// CheckChain: three publications that change root in different ways, from any of the roots.
func CheckChain() {
	kinds := []int{5, 7, 10, 11, 6, 8, 12}
	var e []int
	for i := 0; i < 3; i++ {
		e = append(e, kinds[vp.Choice("event", vp.Pick(4, len(kinds)))])
	}
	cs := vp.Bool("cs")
	var h *history
	exp := vp.Bool("expired")
	if exp {
		h = start(cs, true, e...)
	} else {
		h = start(cs, true)
	}
	for i, x := range e {
		if exp {
			h.publish(x, e[i+1:]...)
		} else {
			h.publish(x)
		}
	}
	t := vp.Choice("trusted", 4)
	had := map[string]*kit.State{}
	if vp.Bool("cached") {
		for _, role := range kit.Roles {
			had[role] = h.states[t]
		}
	}
	store(h, had)
	session(h, h.net(), h.states[t].Docs["root"], had)
	vp.Reach("chain")
}

// CheckSessions: a session before and after every publication.
func CheckSessions() {
	h := start(vp.Bool("cs"), vp.Bool("full"))
	root := h.last().Docs["root"]
	had := map[string]*kit.State{}
	for i := 0; i < vp.Pick(2, 3); i++ {
		session(h, h.net(), root, had)
		for _, role := range kit.Roles {
			had[role] = h.last()
		}
		if vp.Bool("keep root") {
			root, _ = kit.Cached("root")
		}
		h.publish(vp.Choice("event", events))
	}
	session(h, h.net(), root, had)
	vp.Reach("sessions")
}

// CheckReuse: what an earlier session loaded isn't fetched again, and is enough without a network.
func CheckReuse() {
	osshim.VPReset()
	osshim.VPChdir("/c")
	osshim.VPMkdir(kit.MDir)
	osshim.VPMkdir(kit.TDir)
	r := kit.NewRepo()
	r.CS, r.Full = vp.Bool("cs"), vp.Bool("full")
	a, b := vp.Ed(4), vp.Ed(5)
	version := func() *vp.J { return vp.N([]int64{1, 1 << 40}[vp.Choice("version", 2)]) }
	lists := func(p string) *vp.J {
		if vp.Bool("lists") {
			return vp.O(p, kit.TargetJ([]byte("x")))
		}
		return vp.O()
	}
	va, vb := version(), version()
	r.Targets = lists("top")
	tb := lists("x")
	ta := lists("y")
	r.TgV = vp.N(3)
	db := kit.Signed(kit.TargetsJ(vb, kit.Later(), tb, nil), b)
	da := kit.Signed(kit.TargetsJ(va, kit.Later(), ta, kit.DelegationsJ(kit.KeyMap(b), kit.DelegJ("b", 1, false, vp.Strs("*"), b))), a)
	r.Delegations = kit.DelegationsJ(kit.KeyMap(a), kit.DelegJ("a", 1, vp.Bool("terminating"), vp.Strs("*"), a))
	meta := func(v *vp.J, d []byte) *vp.J {
		if r.Full {
			return kit.MetaFull(v, d)
		}
		return kit.Meta(v)
	}
	r.SnapMeta = vp.O("a.json", meta(va, da), "b.json", meta(vb, db))
	net := kit.NewNet()
	r.Publish(net)
	net.Files[kit.Base+kit.Name(r.CS, va.N, "a")] = da
	net.Files[kit.Base+kit.Name(r.CS, vb.N, "b")] = db
	path := []string{"top", "x", "y"}[vp.Choice("path", 3)]
	has := map[string]*vp.J{"top": r.Targets, "x": tb, "y": ta}[path].Get(path) != nil
	look := func(cfg *config.UpdaterConfig) bool {
		u, err := updater.New(cfg)
		vp.Assert(err == nil, "client-starts")
		if err != nil {
			return false
		}
		vp.Assert(u.Refresh() == nil, "refresh-succeeds")
		_, err = u.GetTargetInfo(path)
		return err == nil
	}
	cfg := kit.Cfg2(r.RootDoc(), net, true)
	vp.Assert(look(cfg) == has, "target-found")
	net.URLs = nil
	vp.Assert(look(cfg) == has, "target-found")
	for _, u := range net.URLs {
		vp.Assert(u == kit.Base+"2.root.json" || u == kit.Base+"timestamp.json", "unchanged-metadata-reused")
	}
	vp.Assert(len(net.URLs) == 2, "unchanged-metadata-reused")
	net.URLs = nil
	cfg.UnsafeLocalMode = true
	vp.Assert(look(cfg) == has, "cache-is-enough-without-a-network")
	vp.Assert(len(net.URLs) == 0, "cache-is-enough-without-a-network")
	if has {
		vp.Reach("reused")
	} else {
		vp.Reach("reused for a missing target")
	}
}
