package zzdemo

import (
	"crypto"
	"crypto/ed25519"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"github.com/rdimitrov/go-tuf-metadata/metadata/config"
	"github.com/rdimitrov/go-tuf-metadata/metadata/updater"
	"github.com/sigstore/sigstore/pkg/signature"
)

const base = "https://repo.example/m/"

// net is a repository server.
type net struct {
	files map[string][]byte
	asked []string
	lens  []int64
	code  int
}

func (n *net) DownloadFile(u string, max int64, _ time.Duration) ([]byte, error) {
	n.asked = append(n.asked, u)
	n.lens = append(n.lens, max)
	d, ok := n.files[u]
	if !ok {
		code := n.code
		if code == 0 {
			code = 404
		}
		return nil, metadata.ErrDownloadHTTP{StatusCode: code, URL: u}
	}
	if int64(len(d)) > max {
		return nil, metadata.ErrDownloadLengthMismatch{Msg: "too long"}
	}
	return d, nil
}

type key struct {
	priv ed25519.PrivateKey
	pub  *metadata.Key
}

func newKey() *key {
	_, p, err := ed25519.GenerateKey(nil)
	must(err)
	k, err := metadata.KeyFromPublicKey(p.Public())
	must(err)
	return &key{p, k}
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func signed[T metadata.Roles](m *metadata.Metadata[T], keys ...*key) []byte {
	m.ClearSignatures()
	for _, k := range keys {
		s, err := signature.LoadSigner(k.priv, crypto.Hash(0))
		must(err)
		_, err = m.Sign(s)
		must(err)
	}
	d, err := m.ToBytes(false)
	must(err)
	return d
}

// repo is a repository with one key per top-level role.
type repo struct {
	net
	rk, tk, sk, gk *key
	root           *metadata.Metadata[metadata.RootType]
	ts             *metadata.Metadata[metadata.TimestampType]
	sn             *metadata.Metadata[metadata.SnapshotType]
	tg             *metadata.Metadata[metadata.TargetsType]
	roles          map[string]*metadata.Metadata[metadata.TargetsType]
	roleKey        *key
}

func newRepo() *repo {
	e := time.Now().UTC().Add(24 * time.Hour).Truncate(time.Second)
	r := &repo{rk: newKey(), tk: newKey(), sk: newKey(), gk: newKey(), roleKey: newKey(),
		root: metadata.Root(e), ts: metadata.Timestamp(e), sn: metadata.Snapshot(e), tg: metadata.Targets(e),
		roles: map[string]*metadata.Metadata[metadata.TargetsType]{}}
	r.files = map[string][]byte{}
	must(r.root.Signed.AddKey(r.rk.pub, "root"))
	must(r.root.Signed.AddKey(r.tk.pub, "timestamp"))
	must(r.root.Signed.AddKey(r.sk.pub, "snapshot"))
	must(r.root.Signed.AddKey(r.gk.pub, "targets"))
	return r
}

// delegate adds a role below parent, which is nil for the top-level targets role.
func (r *repo) delegate(parent *metadata.Metadata[metadata.TargetsType], name string, terminating bool, paths ...string) *metadata.Metadata[metadata.TargetsType] {
	if parent == nil {
		parent = r.tg
	}
	if parent.Signed.Delegations == nil {
		parent.Signed.Delegations = &metadata.Delegations{Keys: map[string]*metadata.Key{}}
	}
	d := parent.Signed.Delegations
	d.Keys[r.roleKey.pub.ID()] = r.roleKey.pub
	d.Roles = append(d.Roles, metadata.DelegatedRole{Name: name, KeyIDs: []string{r.roleKey.pub.ID()}, Threshold: 1, Terminating: terminating, Paths: paths})
	if r.roles[name] == nil {
		r.roles[name] = metadata.Targets(r.tg.Signed.Expires)
	}
	return r.roles[name]
}

func target(path string, data []byte) *metadata.TargetFiles {
	t, err := metadata.TargetFile().FromBytes(path, data)
	must(err)
	return t
}

// publish signs everything and returns the root metadata.
func (r *repo) publish() []byte {
	cs := func(v int64, name string) string {
		if r.root.Signed.ConsistentSnapshot {
			return fmt.Sprintf("%s%d.%s.json", base, v, name)
		}
		return base + name + ".json"
	}
	for name, m := range r.roles {
		r.files[cs(m.Signed.Version, name)] = signed(m, r.roleKey)
		r.sn.Signed.Meta[name+".json"] = metadata.MetaFile(m.Signed.Version)
	}
	r.files[cs(r.tg.Signed.Version, "targets")] = signed(r.tg, r.gk)
	r.sn.Signed.Meta["targets.json"] = metadata.MetaFile(r.tg.Signed.Version)
	sn := signed(r.sn, r.sk)
	r.files[cs(r.sn.Signed.Version, "snapshot")] = sn
	if r.ts.Signed.Meta["snapshot.json"].Version != r.sn.Signed.Version {
		r.ts.Signed.Meta["snapshot.json"] = metadata.MetaFile(r.sn.Signed.Version)
	}
	r.files[base+"timestamp.json"] = signed(r.ts, r.tk)
	root := signed(r.root, r.rk)
	r.files[fmt.Sprintf("%s%d.root.json", base, r.root.Signed.Version)] = root
	return root
}

// client makes an updater whose cache is in dir.
func client(t *testing.T, root []byte, n *net, dir string, opts ...func(*config.UpdaterConfig)) (*updater.Updater, error) {
	t.Helper()
	cfg, err := config.New("https://repo.example/m", root)
	must(err)
	cfg.Fetcher = n
	cfg.RemoteMetadataURL = base
	cfg.RemoteTargetsURL = "https://repo.example/t/"
	cfg.LocalMetadataDir = filepath.Join(dir, "m")
	cfg.LocalTargetsDir = filepath.Join(dir, "t")
	for _, o := range opts {
		o(cfg)
	}
	return updater.New(cfg)
}

func put(dir, name string, data []byte) {
	p := filepath.Join(dir, "m", name)
	must(os.MkdirAll(filepath.Dir(p), 0755))
	must(os.WriteFile(p, data, 0644))
}

func (n *net) count(part string) int {
	c := 0
	for _, u := range n.asked {
		if strings.Contains(u, part) {
			c++
		}
	}
	return c
}

var _ = strings.Contains
