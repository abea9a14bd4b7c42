// Package c30: the client tool trusts only what it verified and deletes only its own folders.
package c30

import (
	"errors"
	"strings"

	"github.com/rdimitrov/go-tuf-metadata/examples/cli/tuf-client/cmd"
	cobra "github.com/rdimitrov/go-tuf-metadata/zzverif/cobrashim"
	fmtshim "github.com/rdimitrov/go-tuf-metadata/zzverif/fmtshim"
	"github.com/rdimitrov/go-tuf-metadata/zzverif/kit"
	"github.com/rdimitrov/go-tuf-metadata/zzverif/model"
	osshim "github.com/rdimitrov/go-tuf-metadata/zzverif/osshim"
	"github.com/rdimitrov/go-tuf-metadata/zzverif/vp"
)

const (
	wd  = "/home/user/w"
	mdD = wd + "/tuf_metadata"
	dlD = wd + "/tuf_download"
)

// outside are files that no command may touch.
var outside = []string{"/home/user/tuf_metadata/x", wd + "/tuf_metadata2/x", wd + "/tuf_download.bak", wd + "/a", "/home/root.json"}

// desk is a fresh working directory.
func desk() {
	osshim.VPReset()
	osshim.VPChdir(wd)
	for _, p := range outside {
		osshim.VPPut(p, []byte("mine"))
	}
	cobra.VPReset()
	cmd.RepositoryURL = kit.Base
	cmd.Verbosity = false
	fmtshim.Input, fmtshim.Asked = nil, 0
}

// untouched checks that only files in the given folders were changed.
func untouched(label string, dirs ...string) {
	for _, p := range outside {
		b, ok := osshim.VPGet(p)
		vp.Assert(ok && string(b) == "mine", label)
	}
	for _, p := range osshim.VPPaths() {
		known := false
		for _, o := range outside {
			known = known || o == p
		}
		for _, d := range dirs {
			known = known || p == d || strings.HasPrefix(p, d+"/")
		}
		vp.Assert(known, label)
	}
}

// run runs a command line of the tool and checks that it doesn't give up the process.
func run(args ...string) error {
	osshim.VPOnExit = func(int) { vp.Assert(false, "command-exits-the-process") }
	return cobra.VPExec(args...)
}

// rootOf is a root document; ok tells whether it verifies itself.
func rootOf(kind int, version *vp.J) (doc []byte, ok bool) {
	r := kit.NewRepo()
	r.RootV = version
	j := r.RootJ()
	switch kind {
	case 0:
		return kit.Signed(j, r.RootK), true
	case 1: // a key the root doesn't name, under the identifier of the one it names
		return vp.Doc(kit.Env(j, kit.SigJ(kit.ID(r.RootK), vp.Sign(vp.Ed(5), vp.Canon(j))))), false
	case 2:
		return vp.Doc(kit.Env(j)), false
	case 3:
		return vp.Doc(kit.Env(j.Copy().Put("consistent_snapshot", vp.B(false)), kit.SigBy(r.RootK, j))), false
	case 4:
		return []byte("<html>not found</html>"), false
	case 5:
		return r.TgDoc(), false
	case 6: // two signatures needed
		j.Put("roles", kit.Roles4(kit.RoleJ(2, r.RootK, vp.Ed(4)), kit.RoleJ(1, r.TSK), kit.RoleJ(1, r.SnK), kit.RoleJ(1, r.TgK)))
		j.Put("keys", kit.KeyMap(r.RootK, r.TSK, r.SnK, r.TgK, vp.Ed(4)))
		return kit.Signed(j, r.RootK), false
	case 7: // signed by another role's key only
		return kit.Signed(j, r.TSK), false
	case 8: // expired, which only matters after an update
		return kit.Signed(j.Copy().Put("expires", kit.Earlier()), r.RootK), true
	}
	return nil, false
}

const rootKinds = 10

// CheckInit: initialisation succeeds only with a root that verifies itself, and
// leaves exactly that one for the other commands.
func CheckInit() {
	desk()
	doc, ok := rootOf(vp.Choice("root", rootKinds), vp.N(vp.Int64In("version", 1, 1<<40)))
	from := vp.Choice("from", 6)
	var args []string
	have := ok
	src := ""
	switch from {
	case 0, 1:
		status := []int{200, 404, 403, 500}[vp.Choice("status", 4)]
		broken := from == 1
		model.Handler = func(_, u string) model.Response {
			vp.Assert(u == kit.Base+"1.root.json", "another-root-fetched")
			if broken {
				return model.Response{Err: errors.New("broken")}
			}
			return model.Response{Status: status, Body: doc, ContentLength: int64(len(doc))}
		}
		have = have && !broken && status == 200
	case 2, 3, 5:
		src = map[int]string{2: "in/root.json", 3: "trusted.json", 5: "root.json"}[from]
		args = []string{"-f", src}
		osshim.VPPut(wd+"/"+src, doc)
	case 4:
		args = []string{"-f", "absent.json"}
		have = false
	}
	state := vp.Choice("folders", 5)
	switch state {
	case 1:
		osshim.VPMkdir(mdD)
	case 2:
		osshim.VPMkdir(dlD)
	case 3: // an earlier initialisation
		old, _ := rootOf(0, vp.N(7))
		osshim.VPPut(mdD+"/root.json", old)
		osshim.VPMkdir(dlD)
	case 4:
		osshim.VPPut(mdD, []byte("a file"))
	}
	err := run(append([]string{"init"}, args...)...)
	root, there := osshim.VPGet(mdD + "/root.json")
	if err == nil {
		vp.Reach("initialised")
		vp.Assert(ok, "initialised-with-unverified-root")
		vp.Assert(from != 4 && from != 1, "initialised-without-root")
		left := "root-not-left-for-other-commands"
		if from == 3 {
			left = "root-left-under-the-name-of-the-given-file"
		}
		vp.Assert(there && vp.SameBytes(root, doc), left)
		vp.Assert(osshim.VPDir(dlD), "no-download-folder")
	} else {
		vp.Reach("refused")
		refused := "good-root-refused"
		if from == 2 {
			refused = "good-root-in-a-folder-refused"
		}
		vp.Assert(!have || state != 0, refused)
	}
	if state == 3 && there {
		old, _ := rootOf(0, vp.N(7))
		vp.Assert(err == nil || vp.SameBytes(root, old), "earlier-root-replaced")
	}
	untouched("init-touches-other-files", mdD, dlD, wd+"/"+src)
	if src != "" {
		b, _ := osshim.VPGet(wd + "/" + src)
		vp.Assert(vp.SameBytes(b, doc), "given-root-changed")
	}
	if err == nil {
		vp.Assert(osshim.VPOpenFiles() == 0, "file-left-open")
	}
}

// CheckReset: a reset deletes exactly the two folders that were confirmed.
func CheckReset() {
	desk()
	full := vp.Bool("populated")
	if full {
		osshim.VPPut(mdD+"/root.json", []byte("r"))
		osshim.VPPut(mdD+"/1.root.json", []byte("r"))
		osshim.VPPut(dlD+"/a", []byte("a"))
		osshim.VPPut(dlD+"/d/a", []byte("a"))
	} else if vp.Bool("empty") {
		osshim.VPMkdir(mdD)
		osshim.VPMkdir(dlD)
	}
	args := []string{"reset"}
	force := vp.Bool("force")
	n := 0
	if force {
		args = append(args, "-f")
	} else {
		n = vp.Choice("lines", 3+1)
		for i := 0; i < n; i++ {
			fmtshim.Input = append(fmtshim.Input, vp.StrIn("answer", 1+vp.Choice("length", 3), "yesnO"))
		}
	}
	answers := fmtshim.Input
	// what the answers mean
	var said [2]int // 0 nothing, 1 yes, 2 no
	i := 0
	for q := range said {
		for i < len(answers) && said[q] == 0 {
			switch strings.ToLower(answers[i]) {
			case "y", "yes":
				said[q] = 1
			case "n", "no":
				said[q] = 2
			}
			i++
		}
		if force {
			said[q] = 1
		}
	}
	fail := 0
	if full {
		fail = vp.Choice("failing", 3)
		osshim.VPFailAt(fail)
		if fail == 0 {
			osshim.VPFailAt(-1)
		}
	}
	check := func() {
		for q, d := range []string{mdD, dlD} {
			_, a := osshim.VPGet(d + "/a")
			_, r := osshim.VPGet(d + "/root.json")
			if full && said[q] != 1 {
				vp.Assert(a || r, "deleted-without-confirmation")
			}
		}
		untouched("reset-touches-other-files", mdD, dlD)
		for _, o := range osshim.VPOps() {
			if o.Op != "stat" && o.Op != "open" {
				vp.Assert(strings.HasPrefix(o.Path, mdD) && (o.Path == mdD || o.Path[len(mdD)] == '/') || strings.HasPrefix(o.Path, dlD) && (o.Path == dlD || o.Path[len(dlD)] == '/'), "operation-outside-the-folders")
			}
		}
	}
	osshim.VPOnExit = func(int) {
		vp.Reach("no-answer")
		vp.Assert(said[0] == 0 || said[1] == 0, "gives-up-although-answered")
		check()
	}
	err := cobra.VPExec(args...)
	check()
	if err != nil {
		vp.Assert(fail != 0, "reset-fails")
		return
	}
	vp.Reach("reset-done")
	vp.Assert(said[0] != 0 && said[1] != 0, "done-without-answer")
	for q, d := range []string{mdD, dlD} {
		if said[q] == 1 {
			left := "reported-deleted-but-left"
			if fail != 0 {
				left = "failed-deletion-reported-as-done"
			}
			vp.Assert(!osshim.VPDir(d), left)
		}
	}
}

// CheckGet: fetching succeeds only with the announced content, placed in the download folder.
func CheckGet() {
	desk()
	s := kit.NewState(1, vp.Bool("cs"), []string{"a", "d/x"}[vp.Choice("target", 2)]).Build()
	n := kit.NewNet()
	s.Publish(n)
	content := []byte("c")
	served := content
	role := ""
	bad := vp.Choice("bad", 5+2*len(kit.Roles))
	switch {
	case bad == 1:
		served = []byte("b")
	case bad == 2:
		served = []byte("cc")
	case bad == 3:
		served = nil
	case bad == 4: // another target
	case bad >= 5:
		role = kit.Roles[(bad-5)/2]
	}
	if role == "root" { // the tool starts from its local root
		role = ""
		served = content
		bad = 0
	}
	if role != "" {
		if bad%2 == 1 {
			n.Files[s.URL(role)] = vp.Doc(vp.O("signed", vp.O("_type", vp.S(role)), "signatures", vp.A()))
		} else {
			delete(n.Files, s.URL(role))
		}
	}
	ask := s.Target
	if bad == 4 {
		ask = "other"
	}
	base := kit.Base
	args := []string{"get", ask}
	if vp.Bool("turl") {
		base = kit.TBase
		args = append(args, "-t", kit.TBase)
	}
	prefixed := true
	if vp.Bool("nonprefixed") {
		args = append(args, "--nonprefixed")
		prefixed = false
	}
	name := s.Target
	if prefixed && s.R.CS {
		i := strings.LastIndex(name, "/") + 1
		name = name[:i] + vp.Hex(vp.SHA256(content)) + "." + name[i:]
	}
	if bad != 3 {
		n.Files[base+name] = served
	}
	model.Handler = func(_, u string) model.Response {
		b, ok := n.Files[u]
		if !ok {
			return model.Response{Status: 404}
		}
		return model.Response{Status: 200, Body: b, ContentLength: int64(len(b))}
	}
	// the working directory
	have := true
	local := dlD + "/" + strings.ReplaceAll(s.Target, "/", "%2F")
	if vp.Bool("metadata-folder") {
		osshim.VPMkdir(mdD)
		switch vp.Choice("root", 4) {
		case 0:
			osshim.VPPut(mdD+"/root.json", s.Docs["root"])
		case 1:
			have = false
		case 2: // an unverifiable root left by a failed initialisation
			d, _ := rootOf(2, vp.N(1))
			osshim.VPPut(mdD+"/root.json", d)
			have = false
		case 3:
			osshim.VPPut(mdD+"/root.json", []byte("<html>"))
			have = false
		}
	} else {
		have = false
	}
	old := -1
	if vp.Bool("download-folder") {
		osshim.VPMkdir(dlD)
		old = vp.Choice("present", 3)
		switch old {
		case 1:
			osshim.VPPut(local, content)
		case 2:
			osshim.VPPut(local, []byte("x"))
		}
	} else {
		have = false
	}
	osshim.VPClearOps()
	err := run(args...)
	got, there := osshim.VPGet(local)
	if err == nil {
		vp.Reach("fetched")
		vp.Assert(have, "fetched-without-trusted-root")
		vp.Assert(role == "" && bad != 4, "fetched-with-unverified-metadata")
		vp.Assert(there && vp.SameBytes(got, content), "reports-success-without-verified-content")
	} else {
		vp.Reach("not-fetched")
		vp.Assert(!have || bad != 0 && (old != 1 || role != "" || bad == 4), "fetch-refused")
		if there {
			vp.Assert(vp.SameBytes(got, content) || old == 2 && string(got) == "x", "unverified-content-left")
		}
	}
	untouched("get-touches-other-files", mdD, dlD)
	for _, p := range osshim.VPPaths() {
		if strings.HasPrefix(p, dlD+"/") {
			vp.Assert(p == local, "another-file-in-the-download-folder")
		}
	}
	for _, u := range model.Requests {
		vp.Assert(have && (strings.HasPrefix(u, kit.Base) || u == base+name), "request-without-trusted-root-or-elsewhere")
	}
}

// CheckSession: initialisation, fetching, fetching again and reset go together.
func CheckSession() {
	desk()
	v := int64(1 + vp.Choice("version", 3))
	s := kit.NewState(v, vp.Bool("cs"), "d/x").Build()
	n := kit.NewNet()
	s.Publish(n)
	name := "d/x"
	if s.R.CS {
		name = "d/" + vp.Hex(vp.SHA256([]byte("c"))) + ".x"
	}
	n.Files[kit.Base+name] = []byte("c")
	model.Handler = func(_, u string) model.Response {
		b, ok := n.Files[u]
		if !ok {
			return model.Response{Status: 404}
		}
		return model.Response{Status: 200, Body: b, ContentLength: int64(len(b))}
	}
	again := vp.Bool("twice")
	for round := 0; round < 2; round++ {
		if vp.Choice("how", 3) == 0 {
			n.Files[kit.Base+"1.root.json"] = s.Docs["root"]
			vp.Assert(run("init") == nil, "cannot-initialise")
			if v != 1 {
				delete(n.Files, kit.Base+"1.root.json")
			}
		} else {
			osshim.VPPut(wd+"/root.json", s.Docs["root"])
			vp.Assert(run("i", "--file", "root.json") == nil, "cannot-initialise-from-file")
		}
		cobra.VPReset()
		cmd.RepositoryURL = kit.Base
		vp.Assert(run("get", "d/x") == nil, "cannot-fetch-after-initialisation")
		b, ok := osshim.VPGet(dlD + "/d%2Fx")
		vp.Assert(ok && string(b) == "c", "target-not-in-download-folder")
		if again {
			k := len(model.Requests)
			vp.Assert(run("get", "d/x") == nil, "cannot-fetch-twice")
			for _, u := range model.Requests[k:] {
				vp.Assert(u != kit.Base+name, "verified-file-downloaded-again")
			}
		}
		cobra.VPReset()
		fmtshim.Input = []string{"y", "yes"}
		vp.Assert(run("reset") == nil, "cannot-reset")
		vp.Assert(!osshim.VPDir(mdD) && !osshim.VPDir(dlD), "folders-left-after-reset")
		vp.Reach("session")
		cobra.VPReset()
		cmd.RepositoryURL = kit.Base
	}
	untouched("session-touches-other-files", wd+"/root.json")
}
