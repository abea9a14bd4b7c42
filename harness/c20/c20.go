// Package c20: files of the client stay in its directories, one per role or target.
package c20

import (
	"path/filepath"
	"strings"

	"github.com/rdimitrov/go-tuf-metadata/metadata/config"
	"github.com/rdimitrov/go-tuf-metadata/metadata/multirepo"
	"github.com/rdimitrov/go-tuf-metadata/metadata/updater"
	"github.com/rdimitrov/go-tuf-metadata/zzverif/kit"
	"github.com/rdimitrov/go-tuf-metadata/zzverif/model"
	osshim "github.com/rdimitrov/go-tuf-metadata/zzverif/osshim"
	"github.com/rdimitrov/go-tuf-metadata/zzverif/vp"
)

const letters = "a./%2F \\"

// names may be long, and differ at the end only
var long = strings.Repeat("n", 220)

// confined checks where everything that happened since the last call took place.
func confined(mdir, tdir string) {
	for _, op := range osshim.VPOps() {
		for _, p := range []string{op.Path, op.To} {
			if p == "" || p == mdir || p == tdir {
				continue // the directories themselves
			}
			d := filepath.Dir(p)
			vp.Assert(d == mdir || d == tdir, "files-stay-in-the-cache")
		}
	}
	osshim.VPClearOps()
}

func rolesRepo(names ...string) (*kit.Repo, *kit.Net, [][]byte) {
	r := kit.NewRepo()
	r.CS = false
	dk := vp.EC(0)
	var ds []*vp.J
	var docs [][]byte
	r.SnapMeta = vp.O()
	for i, n := range names {
		ds = append(ds, kit.DelegJ(n, 1, false, vp.Strs("*"), dk))
		docs = append(docs, kit.Signed(kit.TargetsJ(vp.N(7), kit.Later(), vp.O(string(rune('x'+i)), kit.TargetJ([]byte("d"))), nil), dk))
		r.SnapMeta.Add(n+".json", kit.Meta(vp.N(7)))
	}
	r.Delegations = kit.DelegationsJ(kit.KeyMap(dk), ds...)
	return r, kit.NewNet(), docs
}

// server hands out the delegated documents in the order of the requests.
func serve(r *kit.Repo, net *kit.Net, docs [][]byte) {
	r.Publish(net)
	next := 0
	net.Make = func(u string) []byte {
		if u == kit.Base+"2.root.json" || next >= len(docs) {
			return nil
		}
		next++
		return docs[next-1]
	}
}

func lookup(cfg *config.UpdaterConfig, targets ...string) bool {
	u, err := updater.New(cfg)
	if err != nil {
		return false
	}
	for _, t := range targets {
		if _, err := u.GetTargetInfo(t); err != nil {
			return false
		}
	}
	return true
}

// CheckRole: any name of a delegated role.
func CheckRole() {
	name := vp.StrIn("name", vp.Choice("len", vp.Pick(3, 4))+1, letters)
	r, net, docs := rolesRepo(name)
	serve(r, net, docs)
	cfg := kit.Cfg(r.RootDoc(), net, true)
	osshim.VPMkdir(kit.MDir)
	osshim.VPMkdir(kit.TDir)
	osshim.VPClearOps()
	ok := lookup(cfg, "x")
	vp.Log("ok", ok)
	vp.Assert(ok, "role-loads")
	confined(kit.MDir, kit.TDir)
	n := 0
	for _, p := range osshim.VPPaths() {
		vp.Assert(filepath.Dir(p) == kit.MDir && strings.HasSuffix(p, ".json"), "files-stay-in-the-cache")
		n++
	}
	vp.Assert(n == 5, "one-file-per-role")
	// the next session finds it
	net.Make = nil
	vp.Assert(lookup(cfg, "x"), "stored-role-found-again")
	confined(kit.MDir, kit.TDir)
	vp.Reach("role")
}

// CheckRoles: any two names of delegated roles.
func CheckRoles() {
	l1, l2 := vp.Choice("len1", 2)+1, vp.Choice("len2", 2)+1
	chars := vp.Pick(0, 1)
	set := []string{"aA%2F", letters + "A"}[chars]
	n1, n2 := vp.StrIn("n1", l1, set), vp.StrIn("n2", l2, set)
	vp.Assume(n1 != n2)
	r, net, docs := rolesRepo(n1, n2)
	serve(r, net, docs)
	cfg := kit.Cfg(r.RootDoc(), net, true)
	vp.Assert(lookup(cfg, "x", "y"), "role-loads")
	n := 0
	for range osshim.VPPaths() {
		n++
	}
	vp.Assert(n == 6, "one-file-per-role")
	net.Make = nil
	ok := lookup(cfg, "x", "y")
	vp.Log("ok", ok)
	vp.Assert(ok, "stored-role-found-again")
	vp.Reach("two roles")
}

// CheckAlike: names that escaping could confuse.
func CheckAlike() {
	pairs := [][2]string{{"a/b", "a%2Fb"}, {"a%2Fb", "a%252Fb"}, {"a b", "a+b"}, {"a b", "a%20b"}, {"a+b", "a%2Bb"}, {".", ".."}, {".", "%2E"}, {"..", "%2E%2E"}, {"../targets", "..targets"},
		{"a/../b", "b"}, {"./a", "a"}, {"a/", "a"}, {"é", "%C3%A9"}, {"a\\b", "a/b"}, {"a.json", "a"}, {"targets/a", "targetsa"}, {"tuf_tmp", "tuf_tmp1"},
		{"A", "a"}, {"a ", "a"}, {" a", "a"}, {"a.", "a"}, {"\u00e9", "e\u0301"}, {long + "x", long + "y"}, {"1.a", "a"}, {"a\t", "a"}, {"a#b", "a"}, {"a?b", "a"}, {"%61", "a"}, {"-a", "a"}}
	p := pairs[vp.Choice("pair", len(pairs))]
	r, net, docs := rolesRepo(p[0], p[1])
	serve(r, net, docs)
	cfg := kit.Cfg(r.RootDoc(), net, true)
	osshim.VPMkdir(kit.MDir)
	osshim.VPMkdir(kit.TDir)
	osshim.VPClearOps()
	vp.Assert(lookup(cfg, "x", "y"), "role-loads")
	confined(kit.MDir, kit.TDir)
	net.Make = nil
	ok := lookup(cfg, "x", "y")
	vp.Log("ok", ok)
	vp.Assert(ok, "stored-role-found-again")
	vp.Reach("alike")
}

// dirs are spellings of a target directory.
func dirs() (given, clean string) {
	switch vp.Choice("dir", 8) {
	case 0:
		return "/c/t", "/c/t"
	case 1:
		return "/c/t/", "/c/t"
	case 2:
		return "/c/a b", "/c/a b"
	case 3:
		return "/c/a%20b", "/c/a%20b"
	case 4:
		return "/c/m/../t", "/c/t"
	case 5:
		return "t", "/c/t"
	case 6:
		return "/c/t?x#y", "/c/t?x#y"
	}
	return "/c/x:y", "/c/x:y"
}

func stored(u *updater.Updater, name, tdir string) {
	info, err := u.GetTargetInfo(name)
	vp.Assert(err == nil, "target-found")
	if err != nil {
		return
	}
	osshim.VPClearOps()
	p, data, err := u.DownloadTarget(info, "", "")
	if err != nil {
		// nothing can be stored under an empty name
		vp.Assert(name == "", "target-stored")
		confined(kit.MDir, tdir)
		return
	}
	vp.Assert(vp.SameBytes(data, []byte(name)), "content-of-target")
	if !filepath.IsAbs(p) {
		p = "/c/" + p
	}
	p = filepath.Clean(p)
	vp.Assert(filepath.Dir(p) == tdir, "files-stay-in-the-cache")
	now, ok := osshim.VPGet(p)
	vp.Assert(ok && vp.SameBytes(now, data), "target-stored")
	confined(kit.MDir, tdir)
}

func found(u *updater.Updater, name string) {
	info, err := u.GetTargetInfo(name)
	if err != nil {
		return
	}
	p, data, err := u.FindCachedTarget(info, "")
	vp.Log("found", err == nil, len(data))
	if name == "" {
		vp.Assert(err == nil && len(data) == 0, "nothing-stored-for-an-empty-name")
		return
	}
	vp.Assert(err == nil && p != "" && vp.SameBytes(data, []byte(name)), "stored-target-found-again")
}

func targetClient(tdir string, names ...string) *updater.Updater {
	r := kit.NewRepo()
	r.Targets = vp.O()
	net := kit.NewNet()
	for _, n := range names {
		r.Targets.Put(n, kit.TargetJ([]byte(n)))
	}
	r.Publish(net)
	cfg := kit.Cfg(r.RootDoc(), net, true)
	cfg.LocalTargetsDir = tdir
	cfg.PrefixTargetsWithHash = false
	for _, n := range names {
		net.Files[kit.TBase+n] = []byte(n)
	}
	u, err := updater.New(cfg)
	vp.Assert(err == nil, "client-starts")
	if err != nil {
		return nil
	}
	return u
}

// CheckTarget: any target name, several directories.
func CheckTarget() {
	given, clean := dirs()
	name := vp.StrIn("name", vp.Choice("len", 3), letters)
	u := targetClient(given, name)
	if u == nil {
		return
	}
	stored(u, name, clean)
	found(u, name)
	vp.Reach("target")
}

// CheckTargets: any two target names, and longer ones.
func CheckTargets() {
	var n1, n2 string
	if c := vp.Choice("alike", 24); c > 0 {
		pairs := [][2]string{{"a/b", "a%2Fb"}, {"a%2Fb", "a%252Fb"}, {"a b", "a+b"}, {"..", "."}, {"..", "%2E%2E"}, {"../a", "a"}, {"a/../b", "b"}, {"./a", "a"}, {"/a", "a"}, {"a/", "a"}, {"../../etc/x", "..%2F..%2Fetc%2Fx"},
			{"A", "a"}, {"a ", "a"}, {" a", "a"}, {"a.", "a"}, {"\u00e9", "e\u0301"}, {long + "x", long + "y"}, {"b/" + long, "c/" + long}, {"a\t", "a"}, {"a#b", "a"}, {"a?b", "a"}, {"%61", "a"}, {"-a", "a"}}
		n1, n2 = pairs[c-1][0], pairs[c-1][1]
	} else {
		n1, n2 = vp.StrIn("n1", vp.Choice("len1", 2)+1, "aA./%"), vp.StrIn("n2", vp.Choice("len2", 2)+1, "aA./%")
		vp.Assume(n1 != n2)
	}
	u := targetClient(kit.TDir, n1, n2)
	if u == nil {
		return
	}
	stored(u, n1, kit.TDir)
	stored(u, n2, kit.TDir)
	found(u, n1)
	found(u, n2)
	vp.Reach("two targets")
}

// CheckRepositories: any names of the repositories of a map file.
func CheckRepositories() {
	name := vp.StrIn("repo", vp.Choice("len", 3)+1, "a./b")
	r := kit.NewRepo()
	osshim.VPReset()
	osshim.VPChdir("/c")
	shared := vp.Bool("shared")
	cfg, err := multirepo.NewConfig(vp.Doc(vp.O("repositories", vp.O(name, vp.Strs("https://r/m")), "mapping", vp.A())), map[string][]byte{name: r.RootDoc()})
	if err != nil {
		return
	}
	cfg.LocalMetadataDir = "/c/mm"
	if shared {
		cfg.LocalTargetsDir = "/c/tt"
	}
	model.Handler = func(method, u string) model.Response { return model.Response{Status: 404} }
	_, err = multirepo.New(cfg)
	vp.Log("ok", err == nil)
	inside := true
	for _, op := range osshim.VPOps() {
		for _, p := range []string{op.Path, op.To} {
			if p != "" && p != "/c/mm" && p != "/c/tt" && !strings.HasPrefix(p, "/c/mm/") && !strings.HasPrefix(p, "/c/tt/") {
				inside = false
			}
		}
	}
	vp.Assert(inside, "repositories-stay-in-the-cache")
	plain := name != "." && name != ".." && !strings.Contains(name, "/")
	if plain {
		vp.Assert(err == nil, "repository-set-up")
		_, ok := osshim.VPGet("/c/mm/" + name + "/root.json")
		vp.Assert(ok, "one-directory-per-repository")
		vp.Reach("repository")
	} else {
		vp.Reach("odd repository")
	}
	if err == nil {
		n := 0
		for _, p := range osshim.VPPaths() {
			vp.Assert(filepath.Dir(filepath.Dir(p)) == "/c/mm", "one-directory-per-repository")
			n++
		}
		vp.Assert(n == 1, "one-directory-per-repository")
	}
}

// CheckTwoRepositories: each repository of a map file has a folder of its own.
func CheckTwoRepositories() {
	names := []string{"a", "A", "a ", "a.", "%61", "a%20", "é", "e\u0301", "aa", "root", "a,b", "a:b"}
	i := vp.Choice("one", len(names))
	k := vp.Choice("other", len(names))
	vp.Assume(i < k)
	one, other := kit.NewRepo(), kit.NewRepo()
	other.RootV = vp.N(2)
	roots := map[string][]byte{names[i]: one.RootDoc(), names[k]: other.RootDoc()}
	osshim.VPReset()
	osshim.VPChdir("/c")
	cfg, err := multirepo.NewConfig(vp.Doc(vp.O("repositories", vp.O(names[i], vp.Strs("https://r/m"), names[k], vp.Strs("https://s/m")), "mapping", vp.A())), roots)
	if err != nil {
		return
	}
	cfg.LocalMetadataDir = "/c/mm"
	model.Handler = func(method, u string) model.Response { return model.Response{Status: 404} }
	if _, err = multirepo.New(cfg); err != nil {
		return
	}
	found := [2]bool{}
	n := 0
	for _, p := range osshim.VPPaths() {
		d, _ := osshim.VPGet(p)
		n++
		for q, name := range []string{names[i], names[k]} {
			if vp.SameBytes(d, roots[name]) {
				found[q] = true
			}
		}
	}
	vp.Assert(n == 2 && found[0] && found[1], "one-directory-per-repository")
	vp.Reach("two repositories")
}
