// Package c32: questions don't change the answers.
package c32

import (
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"github.com/rdimitrov/go-tuf-metadata/metadata/trustedmetadata"
	"github.com/rdimitrov/go-tuf-metadata/metadata/updater"
	"github.com/rdimitrov/go-tuf-metadata/zzverif/kit"
	osshim "github.com/rdimitrov/go-tuf-metadata/zzverif/osshim"
	"github.com/rdimitrov/go-tuf-metadata/zzverif/vp"
)

// content are the targets, by path.
var content = map[string][]byte{"d/x": []byte("abc"), "e/y": []byte("de"), "e/z": []byte("f")}

var paths = []string{"d/x", "e/y", "e/z", "none"}

// publish makes a repository with three delegated roles, of which c has two parents.
func publish(net *kit.Net) (root []byte, sound bool) {
	r := kit.NewRepo()
	r.CS = !vp.Thorough() || vp.Bool("cs")
	a, b, other := vp.Ed(4), vp.Ed(5), vp.Ed(6)
	pat := func() *vp.J { return vp.Strs([]string{"*/*", "d/*"}[vp.Choice("paths", 2)]) }
	bad := vp.Choice("bad", 5)
	lists := func(ps ...string) *vp.J {
		t := vp.O()
		for _, p := range ps {
			t.Put(p, kit.TargetJ(content[p]))
		}
		return t
	}
	kc := b
	if bad == 1 {
		kc = other // only one of the parents trusts the role's key
	}
	r.Targets = lists("e/z")
	r.Delegations = kit.DelegationsJ(kit.KeyMap(a, b), kit.DelegJ("a", 1, vp.Bool("terminating"), pat(), a), kit.DelegJ("b", 1, false, vp.Strs("*/*"), b))
	docs := map[string]*vp.J{
		"a": kit.TargetsJ(vp.N(1), kit.Later(), vp.O(), kit.DelegationsJ(kit.KeyMap(kc), kit.DelegJ("c", 1, false, pat(), kc))),
		"b": kit.TargetsJ(vp.N(1), kit.Later(), lists("d/x"), kit.DelegationsJ(kit.KeyMap(b), kit.DelegJ("c", 1, false, vp.Strs("*/*"), b))),
		"c": kit.TargetsJ(vp.N(1), kit.Expiry(bad == 2), lists("d/x", "e/y"), nil),
	}
	keys := map[string]*vp.Key{"a": a, "b": b, "c": b}
	if bad == 3 {
		keys["b"] = other
	}
	for _, n := range []string{"a", "b", "c"} {
		r.SnapMeta.Put(n+".json", kit.Meta(vp.N(1)))
		if bad == 4 && n == "a" {
			continue
		}
		net.Files[kit.Base+kit.Name(r.CS, 1, n)] = kit.Signed(docs[n], keys[n])
	}
	r.Publish(net)
	for p, d := range content {
		u := p
		if r.CS {
			u = p[:2] + vp.Hex(vp.SHA256(d)) + "." + p[2:]
		}
		net.Files[kit.TBase+u] = d
	}
	return r.RootDoc(), bad == 0
}

// answer is what a client says to a question.
type answer struct {
	ok   bool
	info *metadata.TargetFiles
	data []byte
}

const questions = 8

func ask(u *updater.Updater, q int) answer {
	switch {
	case q < 4:
		t, err := u.GetTargetInfo(paths[q])
		return answer{ok: err == nil, info: t}
	case q < 7:
		t, err := u.GetTargetInfo(paths[q-4])
		if err != nil {
			return answer{}
		}
		_, d, err := u.DownloadTarget(t, "", "")
		return answer{err == nil, t, d}
	}
	if u.GetTrustedMetadataSet().Targets["targets"] == nil {
		if u.Refresh() != nil {
			return answer{}
		}
	}
	top := u.GetTopLevelTargets()
	return answer{ok: len(top) == 1, info: top["e/z"]}
}

func (a answer) same(b answer) bool {
	if a.ok != b.ok || (a.info == nil) != (b.info == nil) || !vp.SameBytes(a.data, b.data) {
		return false
	}
	return a.info == nil || a.info.Path == b.info.Path && a.info.Length == b.info.Length && len(a.info.Hashes) == 1 &&
		vp.SameBytes(a.info.Hashes["sha256"], b.info.Hashes["sha256"])
}

func start(root []byte, net *kit.Net, cache bool, limit int) *updater.Updater {
	cfg := kit.Cfg2(root, net, cache)
	cfg.MaxDelegations = limit
	u, err := updater.New(cfg)
	vp.Assert(err == nil, "client-starts")
	vp.Assume(err == nil)
	return u
}

func reset() {
	osshim.VPReset()
	osshim.VPChdir("/c")
	osshim.VPMkdir(kit.MDir)
	osshim.VPMkdir(kit.TDir)
}

// CheckClient: an answer doesn't depend on the questions before it.
func CheckClient() {
	reset()
	net := kit.NewNet()
	root, sound := publish(net)
	cache := vp.Bool("cache")
	limit := 8
	if sound {
		limit = []int{8, 1, 2}[vp.Choice("limit", 3)]
	}
	u := start(root, net, cache, limit)
	for i := 0; i < vp.Pick(2, 3)-1; i++ {
		ask(u, vp.Choice("earlier", questions))
	}
	q := vp.Choice("question", questions)
	got := ask(u, q)
	vp.Log(q, got.ok)
	again := ask(u, q)
	vp.Assert(got.same(again), "same-answer-again")
	if cache && vp.Bool("emptied") {
		reset()
	}
	fresh := ask(start(root, net, cache, limit), q)
	vp.Assert(got.same(fresh), "answer-independent-of-earlier-questions")
	if got.ok {
		vp.Reach("answered")
	} else {
		vp.Reach("refused")
	}
}

// CheckSeveral: clients of different repositories don't influence each other.
func CheckSeveral() {
	reset()
	type side struct {
		net  *kit.Net
		root []byte
		u    *updater.Updater
		s    *kit.State
	}
	var sides [2]*side
	for i := range sides {
		s := kit.NewState(int64(1+i), vp.Bool("cs"), []string{"x", "y"}[i])
		if i == 1 {
			s.R.RootK, s.R.TSK, s.R.SnK, s.R.TgK, s.DK = vp.Ed(8), vp.Ed(7), vp.Ed(6), vp.Ed(5), vp.Ed(9)
		}
		s.Build()
		net := kit.NewNet()
		s.Publish(net)
		d := &side{net: net, root: s.Docs["root"], s: s}
		cfg := kit.Cfg2(d.root, net, true)
		if i == 1 {
			cfg.LocalMetadataDir, cfg.LocalTargetsDir = "/c/m2", "/c/t2"
			osshim.VPMkdir("/c/m2")
			osshim.VPMkdir("/c/t2")
		}
		u, err := updater.New(cfg)
		vp.Assert(err == nil, "client-starts")
		if err != nil {
			return
		}
		d.u = u
		sides[i] = d
	}
	for i := 0; i < vp.Pick(3, 4); i++ {
		n := vp.Choice("client", 2)
		d := sides[n]
		if vp.Bool("look up") {
			_, own := d.u.GetTargetInfo([]string{"x", "y"}[n])
			_, foreign := d.u.GetTargetInfo([]string{"y", "x"}[n])
			vp.Assert(own == nil, "own-targets-found")
			vp.Assert(foreign != nil, "targets-of-another-repository-not-found")
			continue
		}
		if d.u.GetTrustedMetadataSet().Targets["targets"] == nil {
			vp.Assert(d.u.Refresh() == nil, "refresh-succeeds")
		}
	}
	for i, d := range sides {
		m := d.u.GetTrustedMetadataSet()
		vp.Assert(m.Root.Signed.Version == int64(1+i), "own-root")
		if m.Timestamp != nil {
			vp.Assert(m.Timestamp.Signed.Version == int64(1+i), "own-timestamp")
		}
	}
	vp.Reach("side by side")
}

// shared is a fetcher that returns slices which it uses again later.
type shared struct {
	*kit.Net
	last [][]byte
}

func (s *shared) DownloadFile(u string, max int64, d time.Duration) ([]byte, error) {
	for _, l := range s.last {
		wipe(l)
	}
	s.last = nil
	b, err := s.Net.DownloadFile(u, max, d)
	if err != nil {
		return nil, err
	}
	b = append([]byte{}, b...)
	s.last = append(s.last, b)
	return b, nil
}

func wipe(b []byte) {
	for i := range b {
		b[i] = 'x'
	}
}

// plain makes a state whose documents have the same bytes whatever the time is.
func plain(version int64, cs bool, target string) *kit.State {
	s := kit.NewState(version, cs, target)
	e := vp.S("2999-12-31T00:00:00Z")
	s.DE, s.R.RootE, s.R.TSE, s.R.SnE, s.R.TgE = e, e, e, e, e
	return s.Build()
}

func fresh(b []byte) []byte { return append([]byte{}, b...) }

// CheckBuffers: what is trusted doesn't change with the buffers it was read from.
func CheckBuffers() {
	s := plain(2, vp.Bool("cs"), "x")
	doc := map[string][]byte{}
	for _, r := range kit.Roles {
		doc[r] = fresh(s.Docs[r])
	}
	t, err := trustedmetadata.New(doc["root"])
	vp.Assert(err == nil, "root-accepted")
	if err != nil {
		return
	}
	use := func(i int) {
		if vp.Bool("overwritten") {
			wipe(doc[kit.Roles[i]])
		}
	}
	use(0)
	_, err = t.UpdateTimestamp(doc["timestamp"])
	vp.Assert(err == nil, "timestamp-accepted")
	use(1)
	_, err = t.UpdateSnapshot(doc["snapshot"], false)
	vp.Assert(err == nil, "snapshot-accepted")
	use(2)
	_, err = t.UpdateTargets(doc["targets"])
	vp.Assert(err == nil, "targets-accepted")
	use(3)
	_, err = t.UpdateDelegatedTargets(doc["deleg"], "deleg", "targets")
	vp.Assert(err == nil, "delegated-role-accepted")
	use(4)
	if err != nil {
		return
	}
	check := func(role string, b []byte, err error) {
		vp.Assert(err == nil && vp.SameJSON(b, s.Docs[role]), "trusted-documents-unchanged")
	}
	b, err := t.Root.ToBytes(false)
	check("root", b, err)
	b, err = t.Timestamp.ToBytes(false)
	check("timestamp", b, err)
	b, err = t.Snapshot.ToBytes(false)
	check("snapshot", b, err)
	b, err = t.Targets["targets"].ToBytes(false)
	check("targets", b, err)
	b, err = t.Targets["deleg"].ToBytes(false)
	check("deleg", b, err)
	vp.Assert(t.Root.VerifyDelegate("targets", t.Targets["targets"]) == nil, "trusted-documents-still-verify")
	vp.Reach("buffers overwritten")
}

// CheckFetcher: a fetcher may use its buffers again.
func CheckFetcher() {
	reset()
	net := kit.NewNet()
	old, cur := plain(1, true, "x"), plain(2, true, "y")
	cur.Publish(net)
	root := fresh(old.Docs["root"])
	if vp.Bool("older cached") {
		old.Store()
	}
	cfg := kit.Cfg2(root, net, true)
	cfg.Fetcher = &shared{Net: net}
	u, err := updater.New(cfg)
	vp.Assert(err == nil, "client-starts")
	if err != nil {
		return
	}
	if vp.Bool("root overwritten") {
		wipe(root)
	}
	_, err = u.GetTargetInfo("y")
	vp.Assert(err == nil, "update-succeeds")
	for _, r := range kit.Roles {
		d, ok := kit.Cached(r)
		vp.Assert(ok && vp.SameBytes(d, cur.Docs[r]), "cached-documents-are-the-accepted-ones")
	}
	vp.Reach("buffers used again")
}

// CheckDocuments: verifying, comparing and writing documents doesn't change them.
func CheckDocuments() {
	kind := vp.Choice("kind", 5)
	role, j := kit.Rich(kind)
	j.Put("version", vp.N(vp.Int64In("version", 1, 1<<52)))
	k := vp.Ed(2)
	ks := []*vp.Key{k, vp.Ed(3)}
	if vp.Bool("other order") {
		ks[0], ks[1] = ks[1], ks[0]
	}
	doc := kit.Signed(j, ks...)
	steps := vp.Pick(2, 3)
	switch kind {
	case 0:
		examine[metadata.RootType](doc, role, k, steps, func(m *metadata.Metadata[metadata.RootType], op int) bool {
			s := m.Signed
			switch op {
			case 0:
				return m.VerifyDelegate("targets", &metadata.Metadata[metadata.TargetsType]{}) != nil
			case 1:
				return m.Signed.IsExpired(vp.Now())
			case 2:
				for _, x := range s.Keys {
					_, err := x.ToPublicKey()
					return err == nil && x.ID() != ""
				}
			}
			return s.Roles["root"] != nil
		})
	case 1:
		examine[metadata.TimestampType](doc, role, k, steps, func(m *metadata.Metadata[metadata.TimestampType], op int) bool {
			if op == 0 {
				return m.Signed.IsExpired(vp.Now())
			}
			f := m.Signed.Meta["snapshot.json"]
			return f.VerifyLengthHashes([]byte("abc")) == nil
		})
	case 2:
		examine[metadata.SnapshotType](doc, role, k, steps, func(m *metadata.Metadata[metadata.SnapshotType], op int) bool {
			if op == 0 {
				return m.Signed.IsExpired(vp.Now())
			}
			f := m.Signed.Meta["targets.json"]
			return f.VerifyLengthHashes([]byte("abc")) == nil
		})
	default:
		examine[metadata.TargetsType](doc, role, k, steps, func(m *metadata.Metadata[metadata.TargetsType], op int) bool {
			s := m.Signed
			switch op {
			case 0:
				return m.VerifyDelegate([]string{"r", "bin-2"}[kind-3], &metadata.Metadata[metadata.TargetsType]{}) != nil
			case 1:
				return len(s.Delegations.GetRolesForTarget("a/b")) == 1
			case 2:
				return s.Targets["a/b"].VerifyLengthHashes([]byte("abcde")) == nil
			case 3:
				t, u := s.Targets["a/b"], metadata.TargetFiles{Length: 5, Hashes: metadata.Hashes{"sha256": []byte("x")}}
				return t.Equal(u) || u.Equal(*t)
			}
			if kind == 4 {
				return s.Delegations.SuccinctRoles.IsDelegatedRole("bin-2") && len(s.Delegations.SuccinctRoles.GetRoles()) == 8
			}
			d := s.Delegations.Roles[0]
			ok, err := d.IsDelegatedPath("a/c")
			return ok && err == nil
		})
	}
}

func examine[T metadata.Roles](doc []byte, role string, k *vp.Key, steps int, f func(m *metadata.Metadata[T], op int) bool) {
	m, err := (&metadata.Metadata[T]{}).FromBytes(doc)
	vp.Assert(err == nil, "document-loads")
	if err != nil {
		return
	}
	one, oneDoc := signer(role, k)
	said := map[int]bool{}
	for s := 0; s < steps; s++ {
		op := vp.Choice("op", 7)
		var r bool
		switch op {
		case 5:
			r = one.VerifyDelegate(role, m) == nil
			vp.Assert(r, "document-verifies")
		case 6:
			b, err := m.ToBytes(vp.Bool("pretty"))
			r = err == nil && len(b) > 0
		default:
			r = f(m, op)
		}
		was, ok := said[op]
		vp.Assert(!ok || was == r, "same-answer-again")
		said[op] = r
	}
	b, err := m.ToBytes(false)
	vp.Assert(err == nil && vp.SameJSON(b, doc), "documents-unchanged")
	b, err = one.ToBytes(false)
	vp.Assert(err == nil && vp.SameJSON(b, oneDoc), "documents-unchanged")
	vp.Assert(one.VerifyDelegate("root", one) == nil, "documents-still-verify")
	vp.Reach("document examined")
}

// signer authorises a key for a role, between others in any order.
func signer(role string, k *vp.Key) (*metadata.Metadata[metadata.RootType], []byte) {
	o, p := vp.Ed(0), vp.Ed(1)
	list := [][]*vp.Key{{o, k, p}, {p, k, o}}[vp.Choice("listed", 2)]
	roles := kit.Roles4(kit.RoleJ(1, o), kit.RoleJ(1, o), kit.RoleJ(1, o), kit.RoleJ(1, o)).Put(role, kit.RoleJ(1, list...))
	doc := kit.Signed(kit.RootJ(vp.N(1), kit.Later(), true, kit.KeyMap(o, k, p), roles), o)
	m, err := metadata.Root().FromBytes(doc)
	vp.Assert(err == nil, "root-loads")
	vp.Assume(err == nil)
	return m, doc
}
