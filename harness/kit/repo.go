package kit

import (
	"errors"
	"strconv"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"github.com/rdimitrov/go-tuf-metadata/metadata/config"
	osshim "github.com/rdimitrov/go-tuf-metadata/zzverif/osshim"
	"github.com/rdimitrov/go-tuf-metadata/zzverif/vp"
)

// Net is a repository server and records what is asked of it.
type Net struct {
	Files   map[string][]byte
	Status  map[string]int
	Fail    map[string]bool
	Make    func(u string) []byte // content of files that are not listed
	Missing int                   // status of files that don't exist; 0: 404
	NoLimit bool                  // ignore the length limit, as an unbounded fetcher would
	URLs    []string
	Lens    []int64
}

func NewNet() *Net {
	return &Net{Files: map[string][]byte{}, Status: map[string]int{}, Fail: map[string]bool{}}
}

var errTransport = errors.New("transport failure")

// DownloadFile implements the fetcher interface.
func (n *Net) DownloadFile(u string, max int64, _ time.Duration) ([]byte, error) {
	n.URLs = append(n.URLs, u)
	n.Lens = append(n.Lens, max)
	if n.Fail[u] {
		return nil, errTransport
	}
	if st := n.Status[u]; st != 0 {
		return nil, metadata.ErrDownloadHTTP{StatusCode: st, URL: u}
	}
	d, ok := n.Files[u]
	if !ok && n.Make != nil {
		d = n.Make(u)
		ok = d != nil
	}
	if !ok {
		if n.Missing != 0 {
			return nil, metadata.ErrDownloadHTTP{StatusCode: n.Missing, URL: u}
		}
		return nil, metadata.ErrDownloadHTTP{StatusCode: 404, URL: u}
	}
	if !n.NoLimit && vp.Len64(d) > max {
		return nil, metadata.ErrDownloadLengthMismatch{Msg: "too long"}
	}
	return d, nil
}

// Count is the number of requests for u.
func (n *Net) Count(u string) int {
	c := 0
	for _, x := range n.URLs {
		if x == u {
			c++
		}
	}
	return c
}

const (
	Base  = "https://r/m/"
	TBase = "https://r/t/"
	MDir  = "/c/m"
	TDir  = "/c/t"
)

// Cfg is a client configuration; the cache is disabled unless cache is set.
func Cfg(root []byte, n *Net, cache bool) *config.UpdaterConfig {
	osshim.VPReset()
	osshim.VPChdir("/c")
	return Cfg2(root, n, cache)
}

// Cfg2 keeps the file system of an earlier session.
func Cfg2(root []byte, n *Net, cache bool) *config.UpdaterConfig {
	return &config.UpdaterConfig{
		MaxRootRotations: 4, MaxDelegations: 8, RootMaxLength: 1 << 20, TimestampMaxLength: 1 << 20, SnapshotMaxLength: 1 << 20, TargetsMaxLength: 1 << 20,
		Fetcher: n, LocalTrustedRoot: root, LocalMetadataDir: MDir, LocalTargetsDir: TDir,
		RemoteMetadataURL: Base, RemoteTargetsURL: TBase, DisableLocalCache: !cache, PrefixTargetsWithHash: true,
	}
}

// Repo describes a repository with one key per role.
type Repo struct {
	CS                   bool
	RootK, TSK, SnK, TgK *vp.Key
	RootV, TSV, SnV, TgV *vp.J
	RootE, TSE, SnE, TgE *vp.J
	Targets              *vp.J
	Delegations          *vp.J
	SnapMeta             *vp.J // extra entries of the snapshot
	Full                 bool  // parents announce hashes and lengths
}

// NewRepo is a repository at version 1 everywhere.
func NewRepo() *Repo {
	one := vp.N(1)
	l := Later()
	return &Repo{CS: true, RootK: vp.Ed(0), TSK: vp.Ed(1), SnK: vp.Ed(2), TgK: vp.Ed(3),
		RootV: one, TSV: one, SnV: one, TgV: one, RootE: l, TSE: l, SnE: l, TgE: l, Targets: vp.O(), SnapMeta: vp.O()}
}

func (r *Repo) RootJ() *vp.J {
	return RootJ(r.RootV, r.RootE, r.CS, KeyMap(r.RootK, r.TSK, r.SnK, r.TgK),
		Roles4(RoleJ(1, r.RootK), RoleJ(1, r.TSK), RoleJ(1, r.SnK), RoleJ(1, r.TgK)))
}
func (r *Repo) RootDoc() []byte { return Signed(r.RootJ(), r.RootK) }
func (r *Repo) TgDoc() []byte {
	return Signed(TargetsJ(r.TgV, r.TgE, r.Targets, r.Delegations), r.TgK)
}
func (r *Repo) meta(v *vp.J, doc []byte) *vp.J {
	if r.Full {
		return MetaFull(v, doc)
	}
	return Meta(v)
}
func (r *Repo) SnDoc() []byte {
	m := r.SnapMeta.Copy().Put("targets.json", r.meta(r.TgV, r.TgDoc()))
	return Signed(SnapshotJ(r.SnV, r.SnE, m), r.SnK)
}
func (r *Repo) TSDoc() []byte {
	return Signed(TimestampJ(r.TSV, r.TSE, r.meta(r.SnV, r.SnDoc())), r.TSK)
}

// Name is a versioned metadata file name.
func Name(cs bool, v int64, role string) string {
	if cs {
		return strconv.FormatInt(v, 10) + "." + role + ".json"
	}
	return role + ".json"
}

// Publish puts the current top-level metadata on the server. Versions must be concrete.
func (r *Repo) Publish(n *Net) {
	n.Files[Base+Name(true, r.RootV.N, "root")] = r.RootDoc()
	n.Files[Base+"timestamp.json"] = r.TSDoc()
	n.Files[Base+Name(r.CS, r.SnV.N, "snapshot")] = r.SnDoc()
	n.Files[Base+Name(r.CS, r.TgV.N, "targets")] = r.TgDoc()
}
