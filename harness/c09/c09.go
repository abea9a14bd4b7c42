// Package c09: what the library makes, its client accepts.
package c09

import (
	"bytes"
	"crypto"
	"errors"
	"fmt"
	"io"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"github.com/rdimitrov/go-tuf-metadata/metadata/repository"
	"github.com/rdimitrov/go-tuf-metadata/metadata/updater"
	"github.com/rdimitrov/go-tuf-metadata/zzverif/kit"
	osshim "github.com/rdimitrov/go-tuf-metadata/zzverif/osshim"
	"github.com/rdimitrov/go-tuf-metadata/zzverif/vp"
	"github.com/sigstore/sigstore/pkg/signature"
)

// signer signs with a test key.
type signer struct{ k *vp.Key }

func (s signer) SignMessage(m io.Reader, _ ...signature.SignOption) ([]byte, error) {
	b, err := io.ReadAll(m)
	if err != nil {
		return nil, err
	}
	if s.k.Scheme == vp.RSAPSS {
		return vp.SignAs(vp.RSAV15, s.k, b), nil
	}
	return vp.Sign(s.k, b), nil
}

func (s signer) PublicKey(...signature.PublicKeyOption) (crypto.PublicKey, error) {
	return pub(s.k), nil
}

var errKey = errors.New("key")

func pub(k *vp.Key) crypto.PublicKey {
	mk := &metadata.Key{}
	switch k.Scheme {
	case vp.Ed25519:
		*mk = metadata.Key{Type: "ed25519", Scheme: "ed25519", Value: metadata.KeyVal{PublicKey: vp.Hex(k.Pub)}}
	case vp.ECDSA:
		*mk = metadata.Key{Type: "ecdsa", Scheme: "ecdsa-sha2-nistp256", Value: metadata.KeyVal{PublicKey: string(k.Pub)}}
	default:
		*mk = metadata.Key{Type: "rsa", Scheme: "rsassa-pss-sha256", Value: metadata.KeyVal{PublicKey: string(k.Pub)}}
	}
	p, err := mk.ToPublicKey()
	vp.Assert(err == nil, "key-converts")
	return p
}

// tufKey is the metadata form of a key.
func tufKey(k *vp.Key) *metadata.Key {
	mk, err := metadata.KeyFromPublicKey(pub(k))
	vp.Assert(err == nil, "key-converts")
	return mk
}

type roots = metadata.Metadata[metadata.RootType]
type tss = metadata.Metadata[metadata.TimestampType]
type sns = metadata.Metadata[metadata.SnapshotType]
type tgs = metadata.Metadata[metadata.TargetsType]

// holder is what repository.New returns.
type holder interface {
	Root() *roots
	SetRoot(*roots)
	Snapshot() *sns
	SetSnapshot(*sns)
	Timestamp() *tss
	SetTimestamp(*tss)
	Targets(string) *tgs
	SetTargets(string, *tgs)
}

// maker maintains a repository the way examples/repository does.
type maker struct {
	h      holder
	keys   map[string][]*vp.Key // who signs a role
	need   map[string]int
	ids    map[*vp.Key]string
	order  []string // delegated roles
	paths  map[string][]string
	full   bool
	net    *kit.Net
	skip   string // role with a signature too few
	late   string // role changed after it was signed
	pretty bool
	prefix bool

	rootAt  int64
	rootDoc []byte
}

func (m *maker) ok(err error, what string) { vp.Assert(err == nil, what) }

var top = []string{"root", "timestamp", "snapshot", "targets"}

// start builds the first state. Versions grow by arbitrary amounts from arbitrary ones.
func start(later time.Time) *maker {
	m := &maker{h: repository.New(), keys: map[string][]*vp.Key{}, need: map[string]int{}, paths: map[string][]string{}, net: kit.NewNet(), prefix: true}
	m.h.SetRoot(metadata.Root(later))
	m.h.SetTimestamp(metadata.Timestamp(later))
	m.h.SetSnapshot(metadata.Snapshot(later))
	m.h.SetTargets("targets", metadata.Targets(later))
	for i, r := range top {
		m.need[r] = 1
		m.keys[r] = []*vp.Key{vp.Ed(i)}
		m.ok(m.h.Root().Signed.AddKey(tufKey(vp.Ed(i)), r), "key-added")
	}
	return m
}

// bump raises a version.
func (m *maker) bump(v *int64) { *v += vp.Int64In("bump", 1, 1<<40) }

// addTarget lists a target in a role.
func (m *maker) addTarget(role, path string, data []byte) {
	t, err := metadata.TargetFile().FromBytes(path, data, "sha256")
	m.ok(err, "target-described")
	md := m.h.Targets(role)
	md.Signed.Targets[path] = t
	name := vp.Hex(vp.SHA256(data)) + "." + path
	if !m.h.Root().Signed.ConsistentSnapshot || !m.prefix {
		name = path
	}
	m.net.Files[kit.TBase+name] = data
}

// change turns a role's content into its next version.
func (m *maker) change(role string) {
	switch role {
	case "root":
		m.h.Root().Signed.Version++
	case "timestamp":
		m.bump(&m.h.Timestamp().Signed.Version)
	case "snapshot":
		m.bump(&m.h.Snapshot().Signed.Version)
	default:
		m.bump(&m.h.Targets(role).Signed.Version)
	}
}

// delegate lets the top-level targets role delegate to a new role.
func (m *maker) delegate(role string, later time.Time, threshold int, ks ...*vp.Key) {
	md := m.h.Targets("targets")
	if md.Signed.Delegations == nil {
		md.Signed.Delegations = &metadata.Delegations{Keys: map[string]*metadata.Key{}}
	}
	md.Signed.Delegations.Roles = append(md.Signed.Delegations.Roles, metadata.DelegatedRole{Name: role, KeyIDs: []string{}, Threshold: threshold, Paths: []string{role + "-*"}})
	for _, k := range ks {
		m.ok(md.Signed.AddKey(tufKey(k), role), "key-added")
	}
	m.h.SetTargets(role, metadata.Targets(later))
	m.keys[role] = append([]*vp.Key{}, ks...)
	m.need[role] = threshold
	m.order = append(m.order, role)
}

var long = bytes.Repeat([]byte("longer"), 2000)

func sign[T metadata.Roles](m *maker, role string, md *metadata.Metadata[T], extra ...*vp.Key) []byte {
	md.ClearSignatures()
	ks := append(append([]*vp.Key{}, m.keys[role]...), extra...)
	if m.skip == role {
		ks = ks[:m.need[role]-1]
	}
	file := "/pub/" + role + ".json"
	if _, ok := osshim.VPGet(file); ok { // whatever was published before, it may have been longer
		osshim.VPPut(file, long)
	}
	for i, k := range ks {
		if i > 0 { // the other owners sign the file
			_, err := md.FromFile(file)
			m.ok(err, "written-metadata-loads")
		}
		_, err := md.Sign(signer{k})
		m.ok(err, "signed")
		m.ok(md.ToFile(file, m.pretty), "written")
	}
	if len(ks) == 0 {
		m.ok(md.ToFile(file, m.pretty), "written")
	}
	data, _ := osshim.VPGet(file)
	return data
}

func (m *maker) meta(version int64, data []byte) *metadata.MetaFiles {
	f := metadata.MetaFile(version)
	if m.full {
		f.Length = vp.Len64(data)
		f.Hashes = metadata.Hashes{"sha256": vp.SHA256(data)}
	}
	return f
}

// publish signs and writes everything.
func (m *maker) publish(extra ...*vp.Key) []byte {
	cs := m.h.Root().Signed.ConsistentSnapshot
	put := func(role string, version int64, data []byte) {
		if role == "timestamp" || !cs && role != "root" {
			m.net.Files[kit.Base+role+".json"] = data
		} else {
			m.net.Files[fmt.Sprintf("%s%d.%s.json", kit.Base, version, role)] = data
		}
	}
	for _, r := range append([]string{"targets"}, m.order...) {
		md := m.h.Targets(r)
		d := sign(m, r, md)
		if m.late == r {
			md.Signed.Expires = md.Signed.Expires.Add(time.Hour)
			m.ok(md.ToFile("/pub/x", m.pretty), "written")
			d, _ = osshim.VPGet("/pub/x")
		}
		put(r, md.Signed.Version, d)
		m.h.Snapshot().Signed.Meta[r+".json"] = m.meta(md.Signed.Version, d)
	}
	d := sign(m, "snapshot", m.h.Snapshot())
	put("snapshot", m.h.Snapshot().Signed.Version, d)
	m.h.Timestamp().Signed.Meta["snapshot.json"] = m.meta(m.h.Snapshot().Signed.Version, d)
	put("timestamp", 0, sign(m, "timestamp", m.h.Timestamp()))
	if m.rootAt != m.h.Root().Signed.Version { // a published root stays as it is
		m.rootAt = m.h.Root().Signed.Version
		m.rootDoc = sign(m, "root", m.h.Root(), extra...)
		put("root", m.rootAt, m.rootDoc)
	}
	return m.rootDoc
}

// follow runs a client session; it returns whether the refresh succeeded.
func (m *maker) follow(root []byte) (*updater.Updater, error) {
	cfg := kit.Cfg2(root, m.net, true)
	cfg.PrefixTargetsWithHash = m.prefix
	u, err := updater.New(cfg)
	m.ok(err, "client-starts")
	return u, u.Refresh()
}

// fetched checks that a target arrives.
func (m *maker) fetched(u *updater.Updater, path string, data []byte) {
	t, err := u.GetTargetInfo(path)
	vp.Assert(err == nil && t != nil, "listed-target-found")
	if err != nil || t == nil {
		return
	}
	vp.Assert(t.Length == int64(len(data)) && len(t.Hashes) == 1, "described-target-returned")
	_, got, err := u.DownloadTarget(t, "", "")
	vp.Assert(err == nil && vp.SameBytes(got, data), "listed-target-downloaded")
}

func begin() time.Time {
	osshim.VPReset()
	osshim.VPMkdir("/pub")
	osshim.VPChdir("/c")
	return vp.Now().Add(24 * time.Hour)
}

const steps = 11

// step maintains the repository and returns the keys that additionally sign the root.
func (m *maker) step(kind, n int, later time.Time) (extra []*vp.Key, applies bool) {
	k := vp.Ed(6 + n)
	root := m.h.Root()
	replace := func(role string) {
		m.ok(root.Signed.AddKey(tufKey(k), role), "key-added")
		m.ok(root.Signed.RevokeKey(tufKey(m.keys[role][0]).ID(), role), "key-revoked")
		m.keys[role] = append(append([]*vp.Key{}, m.keys[role][1:]...), k)
		m.change("root")
	}
	switch kind {
	case 0: // nothing but a new timestamp
	case 1, 2, 3: // another key for a role
		role := top[kind]
		replace(role)
	case 4: // another root key
		extra = []*vp.Key{m.keys["root"][0]}
		replace("root")
	case 5: // a second root key, both needed
		if m.need["root"] != 1 {
			return nil, false
		}
		m.ok(root.Signed.AddKey(tufKey(k), "root"), "key-added")
		root.Signed.Roles["root"].Threshold = 2
		m.keys["root"] = append(m.keys["root"], k)
		m.need["root"] = 2
		m.change("root")
	case 6: // a target
		m.change("targets")
		m.addTarget("targets", "t"+string(rune('0'+n)), []byte{byte(n), 7})
	case 7: // a delegation
		role := "r" + string(rune('0'+n))
		m.delegate(role, later, 1, k)
		m.addTarget(role, role+"-x", []byte{byte(n), 8})
		m.paths[role] = []string{role + "-x"}
		m.change("targets")
	case 8: // another key for a delegated role
		if len(m.order) == 0 {
			return nil, false
		}
		role := m.order[0]
		md := m.h.Targets("targets")
		m.ok(md.Signed.AddKey(tufKey(k), role), "key-added")
		m.ok(md.Signed.RevokeKey(tufKey(m.keys[role][0]).ID(), role), "key-revoked")
		m.keys[role] = append(append([]*vp.Key{}, m.keys[role][1:]...), k)
		m.change("targets")
	case 9: // one role's key signs for another role, too
		if m.keys["targets"][0] == m.keys["root"][0] {
			return nil, false
		}
		m.ok(root.Signed.AddKey(tufKey(m.keys["root"][0]), "targets"), "key-added")
		m.ok(root.Signed.RevokeKey(tufKey(m.keys["targets"][0]).ID(), "targets"), "key-revoked")
		m.keys["targets"] = []*vp.Key{m.keys["root"][0]}
		m.change("root")
	case 10: // a delegated role changes alone
		if len(m.order) == 0 {
			return nil, false
		}
		role := m.order[len(m.order)-1]
		m.change(role)
		m.addTarget(role, role+"-y", []byte{byte(n), 9})
		m.paths[role] = append(m.paths[role], role+"-y")
	}
	if kind != 0 {
		m.change("snapshot")
	}
	m.change("timestamp")
	return extra, true
}

// arrived checks that the client has everything the repository lists.
func (m *maker) arrived(u *updater.Updater) {
	ts := u.GetTrustedMetadataSet()
	vp.Assert(ts.Root.Signed.Version == m.h.Root().Signed.Version, "root-followed")
	vp.Assert(ts.Timestamp.Signed.Version == m.h.Timestamp().Signed.Version, "timestamp-followed")
	vp.Assert(ts.Snapshot.Signed.Version == m.h.Snapshot().Signed.Version, "snapshot-followed")
	vp.Assert(ts.Targets["targets"].Signed.Version == m.h.Targets("targets").Signed.Version, "targets-followed")
	for _, r := range append([]string{"targets"}, m.order...) {
		md := m.h.Targets(r)
		for _, p := range []string{"t0", "t1", "t2", "r0-x", "r1-x", "r2-x", "r0-y", "r1-y", "r2-y"} {
			if t := md.Signed.Targets[p]; t != nil {
				name := p
				if m.h.Root().Signed.ConsistentSnapshot && m.prefix {
					name = vp.Hex(t.Hashes["sha256"]) + "." + p
				}
				m.fetched(u, p, m.net.Files[kit.TBase+name])
			}
		}
	}
	t, err := u.GetTargetInfo("unlisted")
	vp.Assert(t == nil && err != nil, "unlisted-target")
}

// CheckHistory: every maintained state is accepted by a client that follows and by a new one.
func CheckHistory() {
	later := begin()
	m := start(later)
	m.h.Root().Signed.ConsistentSnapshot = vp.Bool("cs")
	m.full = vp.Bool("full")
	n := vp.Pick(2, 3)
	if n == 2 {
		m.pretty = vp.Bool("pretty")
	}
	first := m.publish()
	if n == 2 && vp.Bool("early") {
		u, err := m.follow(first)
		vp.Assert(err == nil, "made-repository-accepted")
		if err == nil {
			m.arrived(u)
		}
	}
	for i := 0; i < n; i++ {
		extra, applies := m.step(vp.Choice("step", steps), i, later)
		vp.Assume(applies)
		m.publish(extra...)
		if i < n-1 && !vp.Bool("follow") {
			continue
		}
		u, err := m.follow(first)
		vp.Assert(err == nil, "made-repository-accepted")
		if err == nil {
			m.arrived(u)
		}
	}
	vp.Reach("followed")
}

// CheckMistake: a role that lacks a signature, or was changed after it was signed, is refused.
func CheckMistake() {
	later := begin()
	m := start(later)
	role := append([]string{"d"}, top...)[vp.Choice("role", 5)]
	threshold := 1 + vp.Choice("threshold", 3)
	ks := []*vp.Key{vp.Ed(8), vp.EC(0), vp.RSA(0)}[:threshold]
	if vp.Bool("more") {
		ks = append(ks, vp.Ed(9))
	}
	dk := []*vp.Key{vp.Ed(7)}
	dn := 1
	if role == "d" {
		dk, dn = ks, threshold
	} else {
		root := m.h.Root()
		m.ok(root.Signed.RevokeKey(tufKey(m.keys[role][0]).ID(), role), "key-revoked")
		for _, k := range ks {
			m.ok(root.Signed.AddKey(tufKey(k), role), "key-added")
		}
		root.Signed.Roles[role].Threshold = threshold
		m.keys[role], m.need[role] = ks, threshold
	}
	m.delegate("d", later, dn, dk...)
	m.addTarget("d", "d-x", []byte("c"))
	wrong := vp.Choice("mistake", 4)
	switch wrong {
	case 1:
		m.skip = role
	case 2:
		m.late = role
		vp.Assume(role == "targets" || role == "d")
	case 3: // a signature of a key that was taken away
		vp.Assume(role != "d" && threshold == len(ks))
		m.ok(m.h.Root().Signed.RevokeKey(tufKey(ks[0]).ID(), role), "key-revoked")
	}
	first := m.publish()
	cfg := kit.Cfg2(first, m.net, true)
	u, err := updater.New(cfg)
	if role == "root" && wrong != 0 {
		vp.Assert(err != nil, "under-signed-metadata-refused")
		vp.Reach("root refused")
		return
	}
	m.ok(err, "client-starts")
	err = u.Refresh()
	if role != "d" && wrong != 0 {
		vp.Assert(err != nil, "under-signed-metadata-refused")
		vp.Reach("refused")
		return
	}
	m.ok(err, "made-repository-accepted")
	if err != nil {
		return
	}
	t, err := u.GetTargetInfo("d-x")
	vp.Assert((err == nil) == (wrong == 0), "under-signed-delegation-refused")
	if err == nil {
		vp.Assert(t.Length == 1, "described-target-returned")
		vp.Reach("accepted")
	} else {
		vp.Reach("delegation refused")
	}
}

// CheckBins: hash bins are made, given keys and found like named roles.
func CheckBins() {
	later := begin()
	m := start(later)
	bits := vp.Int("bits", 1, vp.Pick(2, 3))
	k := []*vp.Key{vp.Ed(8), vp.EC(0)}[vp.Choice("key", 2)]
	s := &metadata.SuccinctRoles{KeyIDs: []string{}, Threshold: 1, BitLength: bits, NamePrefix: "bin"}
	md := m.h.Targets("targets")
	md.Signed.Delegations = &metadata.Delegations{Keys: map[string]*metadata.Key{}, SuccinctRoles: s}
	old := vp.Ed(9)
	rotated := vp.Bool("rotated")
	if rotated {
		m.ok(md.Signed.AddKey(tufKey(old), "bin"), "key-added")
	}
	m.ok(md.Signed.AddKey(tufKey(k), "bin"), "key-added")
	if rotated {
		m.ok(md.Signed.RevokeKey(tufKey(old).ID(), "bin"), "key-revoked")
	}
	wrong := vp.Choice("mistake", 3)
	path := []string{"a", "b", "d/x"}[vp.Choice("path", 3)]
	for _, name := range s.GetRoles() {
		m.h.SetTargets(name, metadata.Targets(later))
		m.keys[name], m.need[name] = []*vp.Key{k}, 1
		if wrong == 1 {
			m.keys[name] = []*vp.Key{old}
		}
		m.order = append(m.order, name)
	}
	in := ""
	for _, r := range md.Signed.Delegations.GetRolesForTarget(path) {
		in = r.Name
	}
	vp.Assert(m.h.Targets(in) != nil, "bin-of-target-exists")
	if m.h.Targets(in) == nil {
		return
	}
	if wrong == 2 { // listed in another bin
		for _, name := range m.order {
			if name != in {
				in = name
				break
			}
		}
	}
	m.addTarget(in, path, []byte("c"))
	first := m.publish()
	u, err := m.follow(first)
	m.ok(err, "made-repository-accepted")
	if err != nil {
		return
	}
	if wrong != 0 {
		t, err := u.GetTargetInfo(path)
		vp.Assert(err != nil && t == nil, "target-of-another-bin")
		vp.Reach("not in its bin")
		return
	}
	if path != "d/x" { // fetched checks for names without folders
		m.fetched(u, path, []byte("c"))
	} else {
		t, err := u.GetTargetInfo(path)
		vp.Assert(err == nil && t != nil && t.Path == path, "listed-target-found")
	}
	vp.Reach("binned")
}

// CheckDefaults: freshly made metadata says what it is, and expires when told or at once.
func CheckDefaults() {
	begin()
	d := vp.Int64In("validity", -1<<30, 1<<30)
	at := time.Unix(vp.Now().Unix()+d, 0).UTC()
	given := vp.Bool("given")
	m := &maker{h: repository.New(), keys: map[string][]*vp.Key{}, need: map[string]int{}, paths: map[string][]string{}, net: kit.NewNet(), prefix: true}
	vp.Assert(m.h.Root() == nil && m.h.Timestamp() == nil && m.h.Snapshot() == nil && m.h.Targets("targets") == nil, "holder-starts-empty")
	var ex []time.Time
	if given {
		ex = []time.Time{at}
	}
	m.h.SetRoot(metadata.Root(ex...))
	m.h.SetTimestamp(metadata.Timestamp(ex...))
	m.h.SetSnapshot(metadata.Snapshot(ex...))
	m.h.SetTargets("targets", metadata.Targets(ex...))
	for i, r := range top {
		m.need[r] = 1
		m.keys[r] = []*vp.Key{vp.Ed(i)}
		m.ok(m.h.Root().Signed.AddKey(tufKey(vp.Ed(i)), r), "key-added")
	}
	r, ts, sn, tg := m.h.Root(), m.h.Timestamp(), m.h.Snapshot(), m.h.Targets("targets")
	vp.Assert(r.Signed.Type == "root" && ts.Signed.Type == "timestamp" && sn.Signed.Type == "snapshot" && tg.Signed.Type == "targets", "type")
	vp.Assert(r.Signed.Version == 1 && ts.Signed.Version == 1 && sn.Signed.Version == 1 && tg.Signed.Version == 1, "first-version")
	vp.Assert(r.Signed.ConsistentSnapshot && len(r.Signed.Roles) == 4 && len(tg.Signed.Targets) == 0, "empty-repository")
	for _, x := range top {
		vp.Assert(r.Signed.Roles[x] != nil && r.Signed.Roles[x].Threshold == 1, "one-signature-by-default")
	}
	now := vp.Now()
	if !given {
		soon := now.Add(time.Minute)
		vp.Assert(r.Signed.IsExpired(soon) && ts.Signed.IsExpired(soon) && sn.Signed.IsExpired(soon) && tg.Signed.IsExpired(soon), "expires-at-once-by-default")
		vp.Reach("no validity given")
		return
	}
	m.full = vp.Bool("full")
	first := m.publish()
	_, err := m.follow(first)
	vp.Assume(d != 0)
	vp.Assert((err == nil) == now.Before(at), "accepted-until-expiry")
	if err == nil {
		vp.Reach("accepted")
	} else {
		vp.Reach("expired")
	}
}

// CheckHolder: the holder gives back what was stored last for a role.
func CheckHolder() {
	h := holder(repository.New())
	other := holder(repository.New())
	var r *roots
	var ts *tss
	var sn *sns
	tg := map[string]*tgs{}
	names := []string{"targets", "d", "root", ""}
	for i := 0; i < vp.Pick(3, 5); i++ {
		switch vp.Choice("set", 5) {
		case 0:
			r = metadata.Root()
			h.SetRoot(r)
		case 1:
			ts = metadata.Timestamp()
			h.SetTimestamp(ts)
		case 2:
			sn = metadata.Snapshot()
			h.SetSnapshot(sn)
		case 3:
			n := names[vp.Choice("name", len(names))]
			tg[n] = metadata.Targets()
			h.SetTargets(n, tg[n])
		case 4:
			n := names[vp.Choice("name", len(names))]
			tg[n] = nil
			h.SetTargets(n, nil)
		}
		vp.Assert(h.Root() == r && h.Timestamp() == ts && h.Snapshot() == sn, "holder-returns-what-was-stored")
		for _, n := range names {
			vp.Assert(h.Targets(n) == tg[n], "holder-returns-what-was-stored")
			vp.Assert(other.Targets(n) == nil, "holders-are-separate")
		}
		vp.Assert(other.Root() == nil && other.Timestamp() == nil && other.Snapshot() == nil, "holders-are-separate")
	}
	vp.Reach("held")
}

// CheckFiles: a target described from a file is the one described from its bytes, and verifies.
func CheckFiles() {
	begin()
	n := vp.Choice("length", 3)
	data := vp.Bytes("b", n)
	osshim.VPPut("/pub/f", data)
	algs := [][]string{nil, {"sha256"}, {"sha512"}, {"sha256", "sha512"}}[vp.Choice("algs", 4)]
	t, err := metadata.TargetFile().FromFile("/pub/f", algs...)
	b, err2 := metadata.TargetFile().FromBytes("/pub/f", data, algs...)
	vp.Assert(err == nil && err2 == nil && t != nil && b != nil, "target-described")
	if err != nil || err2 != nil {
		return
	}
	vp.Assert(t.Equal(*b) && t.Length == int64(n), "file-described-like-its-content")
	vp.Assert(t.VerifyLengthHashes(data) == nil, "description-verifies")
	_, err = metadata.TargetFile().FromFile("/pub/absent", algs...)
	vp.Assert(err != nil, "absent-file")
	vp.Reach("described")
}
