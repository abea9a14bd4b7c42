// Package c15: a multi-repository client returns a target only with the mapping's consensus.
package c15

import (
	"strings"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"github.com/rdimitrov/go-tuf-metadata/metadata/multirepo"
	"github.com/rdimitrov/go-tuf-metadata/zzverif/kit"
	"github.com/rdimitrov/go-tuf-metadata/zzverif/model"
	osshim "github.com/rdimitrov/go-tuf-metadata/zzverif/osshim"
	"github.com/rdimitrov/go-tuf-metadata/zzverif/vp"
)

const path = "d/x"

// rep is what a repository says about the target.
type rep struct {
	present bool
	length  int64
	hash    string
	alg     string
	long    bool // the digest has its full length
	down    bool
}

func (r *rep) same(o *rep) bool {
	// without a hash nothing says that it is the same content
	return r.length == o.length && r.alg != "" && r.alg == o.alg && r.hash == o.hash
}

// mapping is an entry of the map file.
type mapping struct {
	paths     []string
	match     bool // one of the paths matches
	repos     []int
	threshold int64
	term      bool
}

// pad is the number of bytes of a digest before the one that differs.
func (r *rep) pad() int {
	switch {
	case !r.long:
		return 0
	case r.alg == "sha512":
		return 63
	}
	return 31
}

func name(i int) string { return "r" + string(rune('0'+i)) }

func arbitrary(n int) []*rep {
	var out []*rep
	for i := 0; i < n; i++ {
		r := &rep{present: vp.Bool("present"), alg: "sha256"}
		if r.present {
			r.length = vp.Int64In("length", 0, 1<<62)
			r.hash = "a" + vp.StrIn("hash", 1, "ab")
		}
		out = append(out, r)
	}
	return out
}

// world publishes the repositories.
func world(reps []*rep) map[string][]byte {
	osshim.VPReset()
	files := map[string][]byte{}
	roots := map[string][]byte{}
	for i, r := range reps {
		repo := kit.NewRepo()
		repo.Targets = vp.O()
		if r.present {
			hashes := vp.O()
			if r.alg != "" {
				hashes.Put(r.alg, vp.S(strings.Repeat("00", r.pad())+r.hash))
			}
			repo.Targets.Put(path, vp.O("hashes", hashes, "length", vp.N(r.length)))
		}
		roots[name(i)] = repo.RootDoc()
		if r.down {
			continue
		}
		net := kit.NewNet()
		repo.Publish(net)
		for u, d := range net.Files {
			files["https://"+name(i)+"/"+strings.TrimPrefix(u, kit.Base)] = d
		}
	}
	model.Handler = func(method, u string) model.Response {
		if d, ok := files[u]; ok {
			return model.Response{Status: 200, Body: d, ContentLength: -1}
		}
		return model.Response{Status: 404}
	}
	return roots
}

func mapFile(n int, ms []mapping) []byte {
	repos := vp.O()
	for i := 0; i < n; i++ {
		repos.Put(name(i), vp.Strs("https://"+name(i)))
	}
	list := vp.A()
	for _, m := range ms {
		names := vp.A()
		for _, i := range m.repos {
			names.Vals = append(names.Vals, vp.S(name(i)))
		}
		list.Vals = append(list.Vals, vp.O("paths", vp.Strs(m.paths...), "repositories", names, "terminating", vp.B(m.term), "threshold", vp.N(m.threshold)))
	}
	return vp.Doc(vp.O("mapping", list, "repositories", repos))
}

func client(reps []*rep, ms []mapping) *multirepo.MultiRepoClient {
	roots := world(reps)
	cfg, err := multirepo.NewConfig(mapFile(len(reps), ms), roots)
	vp.Assert(err == nil, "map-file-accepted")
	if err != nil {
		return nil
	}
	cfg.DisableLocalCache = true
	c, err := multirepo.New(cfg)
	vp.Assert(err == nil, "client-starts")
	if err != nil {
		return nil
	}
	return c
}

// agreement is the specification: what the mappings decide.
func agreement(reps []*rep, ms []mapping) (info *rep, by []int) {
	for _, m := range ms {
		if !m.match {
			continue
		}
		var groups [][]int
		var seen [8]bool
		for _, i := range m.repos {
			if seen[i] || !reps[i].present || reps[i].down {
				continue
			}
			seen[i] = true
			found := false
			for k := range groups {
				if reps[groups[k][0]].same(reps[i]) {
					groups[k] = append(groups[k], i)
					found = true
					break
				}
			}
			if !found {
				groups = append(groups, []int{i})
			}
		}
		won := -1
		for k := range groups {
			if int64(len(groups[k])) >= m.threshold {
				if won >= 0 {
					return nil, nil // no consensus
				}
				won = k
			}
		}
		if won >= 0 {
			return reps[groups[won][0]], groups[won]
		}
		if m.term {
			return nil, nil
		}
	}
	return nil, nil
}

func hexOf(r *rep) []byte {
	n := func(c byte) byte { return c - 'a' + 10 }
	return append(make([]byte, r.pad()), n(r.hash[0])<<4|n(r.hash[1]))
}

func check(reps []*rep, ms []mapping) {
	c := client(reps, ms)
	if c == nil {
		return
	}
	info, by, err := c.GetTargetInfo(path)
	want, wantBy := agreement(reps, ms)
	vp.Log("ok", err == nil, len(by))
	if err != nil {
		vp.Assert(info == nil, "no-information-with-an-error")
		vp.Assert(want == nil, "consensus-found")
		vp.Reach("refused")
		return
	}
	vp.Assert(want != nil, "only-with-consensus")
	if want == nil {
		return
	}
	judge(info, by, want, wantBy)
	vp.Reach("agreed")
}

func judge(info *metadata.TargetFiles, by []string, want *rep, wantBy []int) {
	vp.Assert(info != nil && info.Length == want.length, "agreed-information")
	if want.alg == "" {
		vp.Assert(len(info.Hashes) == 0, "agreed-information")
	} else {
		vp.Assert(len(info.Hashes) == 1 && vp.SameBytes(info.Hashes[want.alg], hexOf(want)), "agreed-information")
	}
	vp.Assert(len(by) == len(wantBy), "agreeing-repositories")
	for _, i := range wantBy {
		n := 0
		for _, r := range by {
			if r == name(i) {
				n++
			}
		}
		vp.Assert(n == 1, "agreeing-repositories")
	}
}

// list chooses a list of up to max repositories, with repetitions.
func list(max, repos int) []int {
	n := vp.Choice("listed", max+1)
	var out []int
	for i := 0; i < n; i++ {
		out = append(out, vp.Choice("repo", repos))
	}
	return out
}

// CheckOne: any information, list of repositories and threshold in one mapping.
func CheckOne() {
	reps := arbitrary(3)
	check(reps, []mapping{{paths: []string{"d/*"}, match: true, repos: list(vp.Pick(3, 4), 3), threshold: vp.Int64In("threshold", -1<<62, 1<<62), term: vp.Bool("terminating")}})
}

// CheckFour: four repositories, all listed.
func CheckFour() {
	orders := [][]int{{0, 1, 2, 3}, {3, 1, 0, 2}, {0, 1, 0, 2, 1, 3}, {2, 2, 3, 1, 0}}
	reps := arbitrary(4)
	check(reps, []mapping{{paths: []string{"*", "d/*"}, match: true, repos: orders[vp.Choice("order", len(orders))], threshold: vp.Int64In("threshold", -1, 6), term: true}})
}

var lists = [][]int{{0, 1, 2}, {0, 0, 1}, {2}, {}, {0, 1}, {1, 2}}

func some(pre string) mapping {
	pats := [][]string{{"d/*"}, {"*"}, {"e", "d/?", "f"}, {"*/*", "d/x"}, {"e", "f/*"}, {}}
	p := vp.Choice(pre+"paths", len(pats))
	return mapping{paths: pats[p], match: p == 0 || p == 2 || p == 3, repos: lists[vp.Choice(pre+"list", vp.Pick(4, 6))], threshold: vp.Int64In(pre+"threshold", 0, 4), term: vp.Bool(pre + "terminating")}
}

// CheckOrder: two mappings.
func CheckOrder() {
	// fixed disagreement: 0 and 1 say the same, 2 differs; any of them may be silent
	reps := []*rep{{present: vp.Bool("p0"), length: 5, hash: "aa", alg: "sha256"}, {present: true, length: 5, hash: "aa", alg: "sha256"}, {present: vp.Bool("p2"), length: 5, hash: "ab", alg: "sha256"}}
	check(reps, []mapping{some("a."), some("b.")})
}

// CheckThree: three mappings over one repository each or all of them.
//
//vp:thorough
func CheckThree() {
	reps := arbitrary(3)
	var ms []mapping
	for i, pre := range []string{"a.", "b.", "c."} {
		p := vp.Choice(pre+"paths", 2)
		l := [][]int{{i}, {0, 1, 2}}[vp.Choice(pre+"list", 2)]
		ms = append(ms, mapping{paths: []string{[]string{"d/*", "e/*"}[p]}, match: p == 0, repos: l, threshold: vp.Int64In(pre+"threshold", 1, 3), term: vp.Bool(pre + "terminating")})
	}
	check(reps, ms)
	vp.Reach("T:three mappings")
}

// CheckDown: repositories that don't answer don't count.
func CheckDown() {
	reps := arbitrary(3)
	for _, r := range reps {
		if r.present {
			r.down = vp.Bool("down")
		}
	}
	check(reps, []mapping{{paths: []string{"d/*"}, match: true, repos: []int{0, 1, 2}, threshold: vp.Int64In("threshold", 1, 4), term: true}})
}

// CheckAlgorithms: repositories that use different hash algorithms, or none, don't agree.
func CheckAlgorithms() {
	reps := arbitrary(3)
	for _, r := range reps {
		if r.present {
			r.alg = []string{"sha256", "sha512", ""}[vp.Choice("algorithm", 3)]
			r.long = true
		}
	}
	check(reps, []mapping{{paths: []string{"d/*"}, match: true, repos: []int{0, 1, 2}, threshold: vp.Int64In("threshold", 1, 4), term: true}})
}

// CheckUnknown: a mapping that names a repository the map file doesn't list.
func CheckUnknown() {
	reps := []*rep{{present: true, length: 5, hash: "aa", alg: "sha256"}, {present: vp.Bool("p1"), length: 5, hash: "aa", alg: "sha256"}}
	ghosts := [][]int{{7}, {7, 0}, {0, 7}, {0, 7, 1}}
	l := ghosts[vp.Choice("ghost", len(ghosts))]
	roots := world(reps)
	thr := vp.Int64In("threshold", 1, 3)
	cfg, err := multirepo.NewConfig(mapFile(2, []mapping{{paths: []string{"d/*"}, repos: l, threshold: thr}}), roots)
	if err != nil {
		vp.Reach("unknown repository")
		return
	}
	cfg.DisableLocalCache = true
	c, err := multirepo.New(cfg)
	if err != nil {
		vp.Reach("unknown repository")
		return
	}
	_, by, err := c.GetTargetInfo(path)
	if err == nil {
		n := int64(0)
		for _, i := range l {
			if i != 7 && reps[i].present {
				n++
			}
		}
		vp.Assert(n >= thr && int64(len(by)) == n, "only-with-consensus")
	}
	vp.Reach("unknown repository")
}

// CheckDownload: what is downloaded is the agreed content, from one of the given repositories.
func CheckDownload() {
	data := []byte("abc")
	h := vp.Hex(vp.SHA256(data))
	osshim.VPReset()
	cached := vp.Bool("cache")
	roots := map[string][]byte{}
	files := map[string][]byte{}
	bad := vp.Choice("bad", 4)
	for i := 0; i < 3; i++ {
		repo := kit.NewRepo()
		repo.Targets = vp.O("x", vp.O("hashes", vp.O("sha256", vp.S(h)), "length", vp.N(3)))
		roots[name(i)] = repo.RootDoc()
		net := kit.NewNet()
		repo.Publish(net)
		b := "https://" + name(i) + "/"
		for u, d := range net.Files {
			files[b+strings.TrimPrefix(u, kit.Base)] = d
		}
		served := data
		if i < bad {
			switch vp.Choice("served", 4) {
			case 0:
				continue
			case 1:
				served = vp.Bytes("body", 3)
			case 2:
				served = []byte("abcd")
			case 3:
				served = []byte{}
			}
		}
		files[b+"targets/"+h+".x"] = served
	}
	asked := ""
	model.Handler = func(method, u string) model.Response {
		if strings.Contains(u, "/targets/") {
			asked += u[len("https://"):len("https://")+2] + " "
		}
		if d, ok := files[u]; ok {
			return model.Response{Status: 200, Body: d, ContentLength: -1}
		}
		return model.Response{Status: 404}
	}
	repos := []int{0, 1, 2}
	cfg, err := multirepo.NewConfig(mapFile(3, []mapping{{paths: []string{"x"}, repos: repos, threshold: 2}}), roots)
	vp.Assert(err == nil, "map-file-accepted")
	if err != nil {
		return
	}
	cfg.DisableLocalCache = !cached
	cfg.LocalMetadataDir, cfg.LocalTargetsDir = "/c/m", "/c/t"
	c, err := multirepo.New(cfg)
	vp.Assert(err == nil && c.Refresh() == nil, "client-starts")
	if err != nil {
		return
	}
	info, by, err := c.GetTargetInfo("x")
	vp.Assert(err == nil && len(by) == 3, "consensus-found")
	if err != nil {
		return
	}
	from := vp.Choice("from", 3)
	by = by[:from+1]
	p, got, err := c.DownloadTarget(by, info, "", "")
	vp.Log("downloaded", err == nil)
	if err == nil {
		vp.Assert(vp.SameBytes(got, data), "agreed-content")
		if cached {
			d, ok := osshim.VPGet(p)
			vp.Assert(ok && vp.SameBytes(d, data), "agreed-content")
		}
		vp.Reach("downloaded")
	} else {
		vp.Assert(from < bad, "good-copy-found")
		vp.Assert(len(got) == 0, "nothing-without-verification")
		for _, f := range osshim.VPPaths() {
			vp.Assert(!strings.HasPrefix(f, "/c/t/"), "nothing-without-verification")
		}
		vp.Reach("nothing downloaded")
	}
	for i := from + 1; i < 3; i++ {
		vp.Assert(!strings.Contains(asked, name(i)), "only-agreeing-repositories-asked")
	}
}

// CheckTopLevel: the collection of all targets contains agreed ones only.
func CheckTopLevel() {
	reps := arbitrary(2)
	m := []mapping{{paths: []string{"d/*"}, match: true, repos: []int{0, 1}, threshold: vp.Int64In("threshold", 1, 3), term: vp.Bool("terminating")}}
	c := client(reps, m)
	if c == nil {
		return
	}
	vp.Assert(c.Refresh() == nil, "refreshed")
	all, err := c.GetTopLevelTargets()
	want, by := agreement(reps, m)
	if err != nil {
		vp.Assert(want == nil, "consensus-found")
		vp.Reach("no collection")
		return
	}
	vp.Assert(len(all) <= 1, "only-with-consensus")
	for p, info := range all {
		vp.Assert(p == path && want != nil, "only-with-consensus")
		if want != nil {
			names := []string{}
			for _, i := range by {
				names = append(names, name(i))
			}
			judge(info, names, want, by)
		}
	}
	vp.Assert(len(all) == 1 || !reps[0].present && !reps[1].present, "consensus-found")
	vp.Reach("collection")
}
