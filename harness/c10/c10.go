// Package c10: order of the search through delegations.
package c10

import (
	"github.com/rdimitrov/go-tuf-metadata/metadata/updater"
	"github.com/rdimitrov/go-tuf-metadata/zzverif/kit"
	osshim "github.com/rdimitrov/go-tuf-metadata/zzverif/osshim"
	"github.com/rdimitrov/go-tuf-metadata/zzverif/vp"
)

type edge struct {
	to          int
	match, term bool
}

type role struct {
	edges []edge
	lists bool
	size  int64
	bad   bool // can't be loaded
}

type graph struct {
	names []string
	roles map[int]*role // filled when the client asks for a role
	key   *vp.Key
	order []int
	fan   int
	top   bool
	known int
	deep  int // roles visited with the full number of delegations
	bad   int // how many delegated roles may be unusable
	docs  map[int][]byte
}

// doc decides the content of role i.
func (g *graph) doc(i int) []byte {
	if d, ok := g.docs[i]; ok {
		return d
	}
	d := g.make(i)
	g.docs[i] = d
	return d
}

func (g *graph) make(i int) []byte {
	r := &role{}
	if i > 0 || g.top {
		r.lists = vp.Bool("lists")
	}
	g.roles[i] = r
	g.order = append(g.order, i)
	fan := g.fan
	if len(g.order) > g.deep {
		fan = 1
	}
	version, expires, key := vp.N(1), kit.Later(), g.key
	if i > 0 && g.bad > 0 {
		c := vp.Choice("unusable", 5)
		r.bad = c > 0
		if r.bad {
			g.bad--
			fan = 0
		}
		switch c {
		case 1:
			return nil // not there
		case 2:
			key = vp.Ed(6)
		case 3:
			expires = kit.Earlier()
		case 4:
			version = vp.N(2)
		}
	}
	var ds []*vp.J
	used := map[int]bool{}
	for k := 0; k < fan; k++ {
		// the roles named so far, or the next new one (names don't matter
		// beyond their order, which is mixed)
		n := g.known + 1
		if n > len(g.names)-1 {
			n = len(g.names) - 1
		}
		to := vp.Choice("to", n+1) // 0: no further delegation
		if to == 0 {
			break
		}
		if used[to] {
			vp.Assume(false)
		}
		if to > g.known {
			g.known = to
		}
		used[to] = true
		pat := vp.StrIn("pat", 1, "de")
		e := edge{to: to, match: pat == "d", term: vp.Bool("terminating")}
		r.edges = append(r.edges, e)
		ds = append(ds, kit.DelegJ(g.names[to], 1, e.term, vp.Strs(pat+"/*"), g.key))
	}
	t := vp.O()
	if r.lists {
		r.size = vp.Int64In("size", 0, 1<<62)
		t.Put("d/x", vp.O("hashes", vp.O("sha256", vp.S("aa")), "length", vp.N(r.size)))
	}
	return kit.Signed(kit.TargetsJ(version, expires, t, kit.DelegationsJ(kit.KeyMap(g.key), ds...)), key)
}

// want is the specified search over what the repository says.
func (g *graph) want(limit int64) (visits []int, found int) {
	stack := []int{0}
	seen := map[int]bool{}
	found = -1
	for len(stack) > 0 && int64(len(visits)) <= limit {
		i := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if seen[i] {
			continue
		}
		seen[i] = true
		visits = append(visits, i)
		r := g.roles[i]
		if r == nil || r.bad {
			return
		}
		if r.lists {
			found = i
			return
		}
		var kids []int
		for _, e := range r.edges {
			if !e.match {
				continue
			}
			kids = append(kids, e.to)
			if e.term {
				stack = nil
				break
			}
		}
		for k := len(kids) - 1; k >= 0; k-- {
			stack = append(stack, kids[k])
		}
	}
	return
}

func search(n, fan, deep int, cache, limited bool) { searchWith(n, fan, deep, 0, cache, limited) }

func searchWith(n, fan, deep, bad int, cache, limited bool) {
	all := []string{"targets", "b", "a", "d", "c"}
	g := &graph{names: all[:n+1], roles: map[int]*role{}, key: vp.Ed(3), fan: fan, deep: deep, top: deep == 1, bad: bad, docs: map[int][]byte{}}
	r := kit.NewRepo()
	r.TgK = g.key
	sm := vp.O()
	for _, name := range g.names {
		sm.Put(name+".json", kit.Meta(vp.N(1)))
	}
	net := kit.NewNet()
	cfg := kit.Cfg(r.RootDoc(), net, cache)
	if cache {
		osshim.VPMkdir(kit.MDir)
	}
	net.Files[kit.Base+"timestamp.json"] = r.TSDoc()
	net.Files[kit.Base+"1.snapshot.json"] = kit.Signed(kit.SnapshotJ(vp.N(1), kit.Later(), sm), r.SnK)
	net.Make = func(u string) []byte {
		for i, name := range g.names {
			if u == kit.Base+"1."+name+".json" {
				return g.doc(i)
			}
		}
		return nil
	}
	limit := int64(n) + 1
	if limited {
		limit = vp.Int64In("limit", 0, int64(n)+1)
	}
	cfg.MaxDelegations = int(limit)
	u, err := updater.New(cfg)
	if err != nil {
		vp.Assert(false, "client-starts")
		return
	}
	got, err := u.GetTargetInfo("d/x")
	visits, found := g.want(limit)
	vp.Log("ok", err == nil, len(g.order))
	vp.Assert((err == nil) == (found >= 0), "found-iff-the-search-finds-it")
	if err == nil && found >= 0 {
		vp.Assert(got.Length == g.roles[found].size, "found-in-the-first-role-listing-it")
		vp.Reach("found")
		if found > 0 {
			vp.Reach("found in a delegated role")
		}
	} else {
		vp.Assert(got == nil, "nothing-returned-otherwise")
		vp.Reach("not found")
	}
	same := len(visits) == len(g.order)
	for k := 0; same && k < len(visits); k++ {
		same = visits[k] == g.order[k]
	}
	vp.Assert(same, "roles-visited-in-order")
	vp.Assert(int64(len(g.order)) <= limit+1, "no-more-roles-than-configured")
	// the answer depends on nothing else
	reqs := len(net.URLs)
	again, err2 := u.GetTargetInfo("d/x")
	vp.Assert((err2 == nil) == (err == nil), "same-answer-again")
	if err == nil && err2 == nil {
		vp.Assert(again.Length == got.Length, "same-answer-again")
	}
	if len(visits) > 0 && g.roles[visits[len(visits)-1]] != nil && g.roles[visits[len(visits)-1]].bad {
		vp.Reach("unusable role")
		return
	}
	vp.Assert(len(net.URLs) == reqs, "no-request-for-loaded-roles")
}

// CheckSearch: graphs over three delegated roles, two delegations from the
// first two roles and one from the others.
func CheckSearch() { search(3, 2, 2, false, false) }

// CheckWide: three delegations from the first role.
func CheckWide() { search(3, 3, 1, false, false) }

// CheckLimit: every limit on the number of roles.
func CheckLimit() { search(3, 2, 1, false, true) }

// CheckCachedSearch: the same answers when roles come from the cache.
func CheckCachedSearch() { search(2, 2, 1, true, true) }

// CheckUnusable: a role that is missing, badly signed, expired or of another version than
// announced ends the search, whatever less trusted roles say.
func CheckUnusable() { searchWith(3, 2, 1, 1, false, false) }

// CheckSearchAll: two delegations from every role.
//
//vp:thorough
func CheckSearchAll() { search(3, 2, 9, false, false) }

// CheckSearchFour: four delegated roles.
//
//vp:thorough
func CheckSearchFour() { search(4, 2, 2, false, false) }

// CheckLimitWide: every limit, three delegations from the first role.
//
//vp:thorough
func CheckLimitWide() { search(3, 3, 1, false, true) }

// CheckHistory: what a lookup answers doesn't depend on earlier lookups by the same
// client, even if one role is delegated by several others with different keys,
// thresholds and paths.
func CheckHistory() {
	keys := []*vp.Key{vp.Ed(4), vp.Ed(5)}
	r := kit.NewRepo()
	deleg := func(pattern string) *vp.J {
		th := 1
		ks := []*vp.Key{keys[vp.Choice("key", 2)]}
		if vp.Bool("both") {
			ks = keys
			th = 1 + vp.Choice("threshold", 2)
		}
		return kit.DelegationsJ(kit.KeyMap(ks...), kit.DelegJ("x", th, vp.Bool("terminating"), vp.Strs(pattern), ks...))
	}
	net := kit.NewNet()
	sm := vp.O()
	put := func(name string, v int64, doc []byte) {
		sm.Put(name+".json", kit.Meta(vp.N(v)))
		net.Files[kit.Base+kit.Name(true, v, name)] = doc
	}
	k := vp.Ed(3)
	shared := vp.Bool("top") // the top-level role delegates to x, too
	list := kit.DelegationsJ(kit.KeyMap(k, keys[0]), kit.DelegJ("p", 1, false, vp.Strs("d/*"), k), kit.DelegJ("q", 1, false, vp.Strs("e/*"), k))
	if shared {
		list = kit.DelegationsJ(kit.KeyMap(k, keys[0]), kit.DelegJ("x", 1, false, vp.Strs("d/*"), keys[0]), kit.DelegJ("q", 1, false, vp.Strs("e/*"), k))
	}
	put("targets", 1, kit.Signed(kit.TargetsJ(vp.N(1), kit.Later(), vp.O(), list), r.TgK))
	if !shared {
		put("p", 1, kit.Signed(kit.TargetsJ(vp.N(1), kit.Later(), vp.O(), deleg("d/*")), k))
	}
	put("q", 1, kit.Signed(kit.TargetsJ(vp.N(1), kit.Later(), vp.O(), deleg("*/*")), k))
	var by []*vp.Key
	for _, s := range keys {
		if vp.Bool("signs") {
			by = append(by, s)
		}
	}
	size := [2]int64{vp.Int64In("size", 0, 1<<62), vp.Int64In("size", 0, 1<<62)}
	names := []string{"d/x", "e/x"}
	t := vp.O()
	for i, n := range names {
		t.Put(n, vp.O("hashes", vp.O("sha256", vp.S("aa")), "length", vp.N(size[i])))
	}
	put("x", 1, kit.Signed(kit.TargetsJ(vp.N(1), kit.Later(), t, nil), by...))
	r.TgV = vp.N(1)
	root := r.RootDoc()
	sn := kit.Signed(kit.SnapshotJ(vp.N(1), kit.Later(), sm), r.SnK)
	net.Files[kit.Base+"1.snapshot.json"] = sn
	net.Files[kit.Base+"timestamp.json"] = kit.Signed(kit.TimestampJ(vp.N(1), kit.Later(), kit.Meta(vp.N(1))), r.TSK)
	cache := vp.Bool("cache")
	look := func(u *updater.Updater, i int) (bool, int64) {
		info, err := u.GetTargetInfo(names[i])
		if err != nil {
			return false, 0
		}
		return true, info.Length
	}
	fresh := func() *updater.Updater {
		cfg := kit.Cfg(root, net, cache)
		if cache {
			osshim.VPMkdir(kit.MDir)
		}
		u, err := updater.New(cfg)
		vp.Assert(err == nil, "client-starts")
		return u
	}
	one, two := fresh(), 0
	first := vp.Choice("first", 2)
	ok1, _ := look(one, first)
	two = 1 - first
	if vp.Bool("same") {
		two = first
	}
	gotOK, got := look(one, two)
	wantOK, want := look(fresh(), two)
	vp.Assert(gotOK == wantOK, "earlier-lookup-changes-answer")
	if gotOK && wantOK {
		vp.Reach("same-answer")
		vp.Assert(got == want && got == size[two], "earlier-lookup-changes-answer")
	}
	if ok1 && !wantOK {
		vp.Reach("refused-after-answer")
	}
	if !ok1 && wantOK {
		vp.Reach("answer-after-refused")
	}
}
