// Package c23: adding and revoking keys.
package c23

import (
	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"github.com/rdimitrov/go-tuf-metadata/zzverif/kit"
	"github.com/rdimitrov/go-tuf-metadata/zzverif/vp"
)

// model is the expected state: the keys of each role.
type model struct {
	roles []string
	keys  []*vp.Key
	ids   []string
	has   [][]bool
	stray []bool // keys in the store that no role uses
}

func newModel(roles []string, nk int) *model {
	m := &model{roles: roles, stray: make([]bool, nk)}
	for i := 0; i < nk; i++ {
		m.keys = append(m.keys, vp.Ed(i+1))
		m.ids = append(m.ids, kit.ID(m.keys[i]))
	}
	for range roles {
		m.has = append(m.has, make([]bool, nk))
	}
	return m
}

func (m *model) used(k int) bool {
	for r := range m.roles {
		if m.has[r][k] {
			return true
		}
	}
	return false
}

// fill chooses the initial keys of every role.
func (m *model) fill(full int) {
	for r := range m.roles {
		for k := range m.keys {
			if r < full {
				m.has[r][k] = vp.Bool("has")
			}
		}
	}
}

func (m *model) of(r int) []*vp.Key {
	var ks []*vp.Key
	for k, key := range m.keys {
		if m.has[r][k] {
			ks = append(ks, key)
		}
	}
	return ks
}

func (m *model) store() []*vp.Key {
	var ks []*vp.Key
	for k, key := range m.keys {
		if m.used(k) {
			ks = append(ks, key)
		}
	}
	return ks
}

func contains(ids []string, id string) int {
	n := 0
	for _, x := range ids {
		if x == id {
			n++
		}
	}
	return n
}

// compare checks the key lists and the store.
func (m *model) compare(lists [][]string, store map[string]*metadata.Key) {
	for r := range m.roles {
		n := 0
		for k, id := range m.ids {
			c := contains(lists[r], id)
			if m.has[r][k] {
				vp.Assert(c == 1, "role-lists-key-once")
				n++
			} else {
				vp.Assert(c == 0, "role-lists-no-other-key")
			}
		}
		vp.Assert(len(lists[r]) == n, "role-lists-nothing-else")
	}
	n := 0
	for k, id := range m.ids {
		x, ok := store[id]
		if m.used(k) {
			vp.Assert(ok && x != nil && x.Value.PublicKey == vp.Hex(m.keys[k].Pub) && x.Type == "ed25519" && x.Scheme == "ed25519", "store-holds-used-key")
			n++
		} else {
			vp.Assert(!ok, "store-drops-unused-key")
		}
	}
	vp.Assert(len(store) == n, "store-holds-nothing-else")
}

type target interface {
	AddKey(*metadata.Key, string) error
	RevokeKey(string, string) error
}

func (m *model) key(k int) *metadata.Key {
	return &metadata.Key{Type: "ed25519", Scheme: "ed25519", Value: metadata.KeyVal{PublicKey: vp.Hex(m.keys[k].Pub)}}
}

// step performs one operation and updates the model.
func (m *model) step(t target, bins bool) {
	r := vp.Choice("role", len(m.roles)+1)
	name := "nobody"
	if r < len(m.roles) {
		name = m.roles[r]
	}
	if bins {
		r = 0 // the name doesn't matter for hash bins
	}
	if vp.Bool("add") {
		k := vp.Choice("key", len(m.keys))
		err := t.AddKey(m.key(k), name)
		vp.Assert((err == nil) == (r < len(m.roles)), "adding-fails-iff-role-unknown")
		if r < len(m.roles) {
			m.has[r][k] = true
		} else {
			vp.Reach("unknown role")
		}
		return
	}
	k := vp.Choice("key", len(m.keys)+1)
	id := "unknown"
	if k < len(m.keys) {
		id = m.ids[k]
	}
	err := t.RevokeKey(id, name)
	good := r < len(m.roles) && k < len(m.keys) && m.has[r][k]
	vp.Assert((err == nil) == good, "revoking-fails-iff-role-has-no-such-key")
	if good {
		m.has[r][k] = false
		vp.Reach("revoked")
	} else {
		vp.Reach("refused to revoke")
	}
}

// CheckRoot: sequences on root metadata.
func CheckRoot() {
	m := newModel([]string{"root", "targets", "snapshot"}, vp.Pick(2, 3))
	m.fill(3)
	o := vp.Ed(8)
	roles := vp.O("timestamp", kit.RoleJ(1, o))
	for r, n := range m.roles {
		roles.Put(n, kit.RoleJ(r+1, m.of(r)...))
	}
	doc, err := metadata.Root().FromBytes(vp.Doc(kit.Env(kit.RootJ(vp.N(1), kit.Later(), true, kit.KeyMap(append(m.store(), o)...), roles))))
	if err != nil {
		vp.Assert(false, "document-loads")
		return
	}
	s := &doc.Signed
	n := 2
	for i := 0; i < n; i++ {
		m.step(s, false)
		other := s.Roles["timestamp"]
		vp.Assert(len(s.Roles) == 4 && other != nil && len(other.KeyIDs) == 1 && other.KeyIDs[0] == kit.ID(o), "other-roles-untouched")
		vp.Assert(s.Keys[kit.ID(o)] != nil, "other-keys-untouched")
		rest := map[string]*metadata.Key{}
		for id, k := range s.Keys {
			if id != kit.ID(o) {
				rest[id] = k
			}
		}
		var lists [][]string
		for r, n := range m.roles {
			lists = append(lists, s.Roles[n].KeyIDs)
			vp.Assert(s.Roles[n].Threshold == r+1, "threshold-untouched")
		}
		m.compare(lists, rest)
	}
}

func targets(ds *vp.J) *metadata.TargetsType {
	doc, err := metadata.Targets().FromBytes(vp.Doc(kit.Env(kit.TargetsJ(vp.N(1), kit.Later(), vp.O(), ds))))
	if err != nil {
		vp.Assert(false, "document-loads")
		vp.Assume(false)
	}
	return &doc.Signed
}

// CheckDelegated: sequences on delegated roles.
func CheckDelegated() {
	m := newModel([]string{"b", "a", "c"}[:vp.Pick(2, 3)], 2)
	m.fill(len(m.roles))
	var rs []*vp.J
	for r, n := range m.roles {
		rs = append(rs, kit.DelegJ(n, r+1, r == 1, vp.Strs("*"), m.of(r)...))
	}
	s := targets(kit.DelegationsJ(kit.KeyMap(m.store()...), rs...))
	for i := 0; i < 3; i++ {
		m.step(s, false)
		ds := s.Delegations
		vp.Assert(ds != nil && len(ds.Roles) == len(m.roles) && ds.SuccinctRoles == nil, "roles-untouched")
		var lists [][]string
		for r, n := range m.roles {
			d := ds.Roles[r]
			vp.Assert(d.Name == n && d.Threshold == r+1 && d.Terminating == (r == 1) && len(d.Paths) == 1, "roles-untouched")
			lists = append(lists, d.KeyIDs)
		}
		m.compare(lists, ds.Keys)
	}
}

// CheckBins: sequences on hash bins.
func CheckBins() {
	m := newModel([]string{"bin"}, 3)
	m.fill(1)
	s := targets(vp.O("keys", kit.KeyMap(m.store()...), "succinct_roles",
		vp.O("bit_length", vp.N(2), "keyids", kit.IDs(m.of(0)...), "name_prefix", vp.S("bin"), "threshold", vp.N(2))))
	for i := 0; i < 3; i++ {
		m.step(s, true)
		ds := s.Delegations
		vp.Assert(ds != nil && len(ds.Roles) == 0 && ds.SuccinctRoles != nil && ds.SuccinctRoles.Threshold == 2 && ds.SuccinctRoles.BitLength == 2, "roles-untouched")
		m.compare([][]string{ds.SuccinctRoles.KeyIDs}, ds.Keys)
	}
}

// CheckNone: without delegations every request fails and changes nothing.
func CheckNone() {
	m := newModel(nil, 1)
	var ds *vp.J
	c := vp.Choice("delegations", 4)
	switch c {
	case 1:
		ds = vp.O("keys", vp.O())
	case 2:
		ds = kit.DelegationsJ(vp.O())
	case 3:
		ds = vp.O()
	}
	s := targets(ds)
	m.step(s, false)
	vp.Assert((s.Delegations == nil) == (c == 0), "nothing-changed")
	if s.Delegations != nil {
		vp.Assert(len(s.Delegations.Keys) == 0 && len(s.Delegations.Roles) == 0, "nothing-changed")
	}
}

// CheckNoStore: documents without a key store get one.
func CheckNoStore() {
	m := newModel([]string{"a"}, 2)
	if vp.Bool("root") {
		r := kit.RoleJ(1)
		j := kit.RootJ(vp.N(1), kit.Later(), true, vp.O(), vp.O("a", r))
		switch vp.Choice("keys", 3) {
		case 1:
			j.Del("keys")
		case 2:
			j.Put("keys", vp.Null())
		}
		doc, err := metadata.Root().FromBytes(vp.Doc(kit.Env(j)))
		if err != nil {
			return // a document without keys needn't be acceptable
		}
		m.step(&doc.Signed, false)
		m.compare([][]string{doc.Signed.Roles["a"].KeyIDs}, doc.Signed.Keys)
		return
	}
	ds := kit.DelegationsJ(vp.O(), kit.DelegJ("a", 1, false, vp.Strs("*")))
	bins := vp.Bool("bins")
	if bins {
		ds = vp.O("keys", vp.O(), "succinct_roles", vp.O("bit_length", vp.N(2), "keyids", kit.IDs(), "name_prefix", vp.S("bin"), "threshold", vp.N(2)))
	}
	switch vp.Choice("keys", 3) {
	case 1:
		ds.Del("keys")
	case 2:
		ds.Put("keys", vp.Null())
	}
	s := targets(ds)
	m.step(s, bins)
	if bins {
		m.compare([][]string{s.Delegations.SuccinctRoles.KeyIDs}, s.Delegations.Keys)
		return
	}
	m.compare([][]string{s.Delegations.Roles[0].KeyIDs}, s.Delegations.Keys)
}

// CheckIdentifiers: revoking with arbitrary identifiers, used by roles in any way.
func CheckIdentifiers() {
	const ids = "pqr"
	x, y, z := vp.StrIn("id", 1, ids), vp.StrIn("id", 1, ids), vp.StrIn("id", 1, ids)
	w := vp.StrIn("revoked", 1, "pqrs")
	name := vp.StrIn("role", 1, "abc")
	keys := vp.O()
	for _, i := range []string{"p", "q", "r"} {
		keys.Put(i, kit.KeyJ(vp.Ed(1)))
	}
	ka, kb := vp.A(vp.S(x), vp.S(y)), vp.A(vp.S(z))
	var t target
	var state func() ([]string, []string, map[string]*metadata.Key)
	kind := vp.Choice("kind", 3)
	if kind == 2 { // hash bins
		vp.Assume(name == "a" && z == x)
		s := targets(vp.O("keys", keys, "succinct_roles", vp.O("bit_length", vp.N(2), "keyids", ka, "name_prefix", vp.S("bin"), "threshold", vp.N(1))))
		t, state = s, func() ([]string, []string, map[string]*metadata.Key) {
			return s.Delegations.SuccinctRoles.KeyIDs, nil, s.Delegations.Keys
		}
	} else if kind == 1 {
		doc, err := metadata.Root().FromBytes(vp.Doc(kit.Env(kit.RootJ(vp.N(1), kit.Later(), true, keys,
			vp.O("a", vp.O("keyids", ka, "threshold", vp.N(1)), "b", vp.O("keyids", kb, "threshold", vp.N(1)))))))
		if err != nil {
			vp.Assert(false, "document-loads")
			return
		}
		s := &doc.Signed
		t, state = s, func() ([]string, []string, map[string]*metadata.Key) {
			return s.Roles["a"].KeyIDs, s.Roles["b"].KeyIDs, s.Keys
		}
	} else {
		s := targets(kit.DelegationsJ(keys, kit.DelegJ("a", 1, false, vp.Strs("*")).Put("keyids", ka), kit.DelegJ("b", 1, false, vp.Strs("*")).Put("keyids", kb)))
		t, state = s, func() ([]string, []string, map[string]*metadata.Key) {
			return s.Delegations.Roles[0].KeyIDs, s.Delegations.Roles[1].KeyIDs, s.Delegations.Keys
		}
	}
	err := t.RevokeKey(w, name)
	// a list may name the same key twice; both go
	wa, wb := []string{x, y}, []string{z}
	ok := false
	switch {
	case name == "a" && w == x && x == y:
		wa, ok = nil, true
	case name == "a" && w == x:
		wa, ok = []string{y}, true
	case name == "a" && w == y:
		wa, ok = []string{x}, true
	case name == "b" && w == z:
		wb, ok = nil, true
	}
	if kind == 2 {
		wb = nil
	}
	vp.Assert((err == nil) == ok, "revoking-fails-iff-role-has-no-such-key")
	a, b, store := state()
	same := func(p, q []string) bool {
		if len(p) != len(q) {
			return false
		}
		for i := range p {
			if p[i] != q[i] {
				return false
			}
		}
		return true
	}
	vp.Assert(same(a, wa) && same(b, wb), "only-that-key-leaves-that-role")
	for _, i := range []string{"p", "q", "r"} {
		dropped := ok && i == w && contains(wa, i)+contains(wb, i) == 0
		_, in := store[i]
		vp.Assert(in == !dropped, "store-drops-exactly-the-unused-key")
	}
	vp.Reach("compared")
}

// CheckListed: adding a key that the role lists already, whose entry in the store is
// missing, right or another key, next to a key that nobody uses.
func CheckListed() {
	k, other := vp.Ed(1), vp.Ed(2)
	id := kit.ID(k)
	keys := vp.O("unused", kit.KeyJ(vp.Ed(3)))
	switch vp.Choice("entry", 3) {
	case 1:
		keys.Put(id, kit.KeyJ(k))
	case 2:
		keys.Put(id, kit.KeyJ(other))
	}
	lists := []*vp.J{vp.A(), vp.A()}
	listed := [2]bool{vp.Bool("listed"), vp.Bool("listed")}
	for i := range lists {
		if listed[i] {
			lists[i] = vp.A(vp.S("p"), vp.S(id))
		}
	}
	name := []string{"a", "b"}[vp.Choice("role", 2)]
	var t target
	var state func() ([]string, []string, map[string]*metadata.Key)
	switch vp.Choice("kind", 3) {
	case 0:
		doc, err := metadata.Root().FromBytes(vp.Doc(kit.Env(kit.RootJ(vp.N(1), kit.Later(), true, keys,
			vp.O("a", vp.O("keyids", lists[0], "threshold", vp.N(1)), "b", vp.O("keyids", lists[1], "threshold", vp.N(1)))))))
		if err != nil {
			vp.Assert(false, "document-loads")
			return
		}
		s := &doc.Signed
		t, state = s, func() ([]string, []string, map[string]*metadata.Key) {
			return s.Roles["a"].KeyIDs, s.Roles["b"].KeyIDs, s.Keys
		}
	case 1:
		s := targets(kit.DelegationsJ(keys, kit.DelegJ("a", 1, false, vp.Strs("*")).Put("keyids", lists[0]), kit.DelegJ("b", 1, false, vp.Strs("*")).Put("keyids", lists[1])))
		t, state = s, func() ([]string, []string, map[string]*metadata.Key) {
			return s.Delegations.Roles[0].KeyIDs, s.Delegations.Roles[1].KeyIDs, s.Delegations.Keys
		}
	case 2:
		vp.Assume(name == "a" && !listed[1])
		s := targets(vp.O("keys", keys, "succinct_roles", vp.O("bit_length", vp.N(2), "keyids", lists[0], "name_prefix", vp.S("bin"), "threshold", vp.N(1))))
		t, state = s, func() ([]string, []string, map[string]*metadata.Key) {
			return s.Delegations.SuccinctRoles.KeyIDs, nil, s.Delegations.Keys
		}
	}
	vp.Assert(t.AddKey(&metadata.Key{Type: "ed25519", Scheme: "ed25519", Value: metadata.KeyVal{PublicKey: vp.Hex(k.Pub)}}, name) == nil, "adding-fails-iff-role-unknown")
	a, b, store := state()
	for i, l := range [][]string{a, b} {
		want := 0
		if listed[i] || name == []string{"a", "b"}[i] {
			want = 1
		}
		vp.Assert(contains(l, id) == want, "role-lists-key-once")
		if listed[i] {
			vp.Assert(len(l) == 2 && l[0] == "p", "role-lists-nothing-else")
		} else {
			vp.Assert(len(l) == want, "role-lists-nothing-else")
		}
	}
	x := store[id]
	vp.Assert(x != nil && x.Value.PublicKey == vp.Hex(k.Pub), "store-holds-used-key")
	u := store["unused"]
	vp.Assert(len(store) == 2 && u != nil && u.Value.PublicKey == vp.Hex(vp.Ed(3).Pub), "other-keys-untouched")
	vp.Reach("listed")
}

// CheckSharedList: roles built in memory from one list of key identifiers are still
// separate roles.
func CheckSharedList() {
	ids := []string{"p", "q", "r"}
	store := map[string]*metadata.Key{}
	for i, id := range ids {
		store[id] = &metadata.Key{Type: "ed25519", Scheme: "ed25519", Value: metadata.KeyVal{PublicKey: vp.Hex(vp.Ed(i + 1).Pub)}}
	}
	shared := make([]string, 3, []int{3, 5}[vp.Choice("room", 2)])
	copy(shared, ids)
	mine := shared[:vp.Choice("mine", 3)+1]
	names := []string{"targets", "snapshot"}
	var t target
	var lists func() [][]string
	switch vp.Choice("kind", 3) {
	case 0:
		md := metadata.Root()
		md.Signed.Keys = store
		md.Signed.Roles["targets"] = &metadata.Role{KeyIDs: mine, Threshold: 1}
		md.Signed.Roles["snapshot"] = &metadata.Role{KeyIDs: shared, Threshold: 1}
		t, lists = &md.Signed, func() [][]string {
			return [][]string{md.Signed.Roles["targets"].KeyIDs, md.Signed.Roles["snapshot"].KeyIDs}
		}
	case 1:
		md := metadata.Targets()
		names = []string{"a", "b"}
		md.Signed.Delegations = &metadata.Delegations{Keys: store, Roles: []metadata.DelegatedRole{
			{Name: "a", KeyIDs: mine, Threshold: 1, Paths: []string{"*"}}, {Name: "b", KeyIDs: shared, Threshold: 1, Paths: []string{"*"}}}}
		t, lists = &md.Signed, func() [][]string {
			return [][]string{md.Signed.Delegations.Roles[0].KeyIDs, md.Signed.Delegations.Roles[1].KeyIDs}
		}
	case 2: // the caller's own list
		md := metadata.Targets()
		md.Signed.Delegations = &metadata.Delegations{Keys: store, SuccinctRoles: &metadata.SuccinctRoles{KeyIDs: mine, Threshold: 1, BitLength: 2, NamePrefix: "a"}}
		t, lists = &md.Signed, func() [][]string { return [][]string{md.Signed.Delegations.SuccinctRoles.KeyIDs, shared} }
	}
	want := [][]string{append([]string{}, mine...), append([]string{}, ids...)}
	for i := 0; i < vp.Pick(2, 3); i++ {
		r := 0
		if !sharedBins(t) {
			r = vp.Choice("role", 2)
		}
		id := ids[vp.Choice("key", 3)]
		add := vp.Bool("add")
		has := contains(want[r], id) > 0
		if add {
			k := &metadata.Key{Type: "ed25519", Scheme: "ed25519", Value: metadata.KeyVal{PublicKey: vp.Hex(vp.Ed(7 + i).Pub)}}
			vp.Assert(t.AddKey(k, names[r]) == nil, "adding-fails-iff-role-unknown")
			if contains(want[r], k.ID()) == 0 {
				want[r] = append(want[r], k.ID())
			}
		} else {
			vp.Assert((t.RevokeKey(id, names[r]) == nil) == has, "revoking-fails-iff-role-has-no-such-key")
			var rest []string
			for _, x := range want[r] {
				if x != id {
					rest = append(rest, x)
				}
			}
			want[r] = rest
		}
		for q, l := range lists() {
			vp.Assert(len(l) == len(want[q]), "only-the-named-role-changes")
			for _, x := range want[q] {
				vp.Assert(contains(l, x) == 1, "only-the-named-role-changes")
			}
		}
	}
	vp.Reach("shared")
}

func sharedBins(t target) bool {
	s, ok := t.(*metadata.TargetsType)
	return ok && s.Delegations.SuccinctRoles != nil
}
