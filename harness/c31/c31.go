// Package c31: failures are reported and never passed over.
package c31

import (
	"errors"
	"strings"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"github.com/rdimitrov/go-tuf-metadata/metadata/multirepo"
	"github.com/rdimitrov/go-tuf-metadata/metadata/updater"
	"github.com/rdimitrov/go-tuf-metadata/zzverif/kit"
	"github.com/rdimitrov/go-tuf-metadata/zzverif/model"
	osshim "github.com/rdimitrov/go-tuf-metadata/zzverif/osshim"
	"github.com/rdimitrov/go-tuf-metadata/zzverif/vp"
)

var errLine = errors.New("connection reset")

// faulty answers requests for some locations in its own way.
type faulty struct {
	*kit.Net
	answer map[string]func(u string) ([]byte, error)
}

func (f *faulty) DownloadFile(u string, max int64, d time.Duration) ([]byte, error) {
	if a := f.answer[u]; a != nil {
		f.URLs = append(f.URLs, u)
		return a(u)
	}
	return f.Net.DownloadFile(u, max, d)
}

const kinds = 9

// fault is the answer of one kind for the document of a role, and the error expected for it.
func fault(kind int, cur, old *kit.State, role, tag string) (answer func(u string) ([]byte, error), is func(err error) bool) {
	status := func(n int) (func(u string) ([]byte, error), func(error) bool) {
		return func(u string) ([]byte, error) {
				return nil, metadata.ErrDownloadHTTP{StatusCode: n, URL: u}
			}, func(err error) bool {
				var h metadata.ErrDownloadHTTP
				return errors.As(err, &h) && h.StatusCode == n
			}
	}
	doc := func(d []byte) func(u string) ([]byte, error) {
		return func(string) ([]byte, error) { return d, nil }
	}
	switch kind {
	case 0:
		return status(404)
	case 1:
		return status(403)
	case 2:
		n := vp.Int(tag+"status", 300, 599)
		vp.Assume(n != 403 && n != 404)
		return status(n)
	case 3:
		return func(string) ([]byte, error) { return nil, errLine }, func(err error) bool { return errors.Is(err, errLine) }
	case 4:
		return func(string) ([]byte, error) { return nil, metadata.ErrDownloadLengthMismatch{Msg: "too long"} },
			func(err error) bool { return errors.Is(err, metadata.ErrDownloadLengthMismatch{}) }
	case 5:
		return doc([]byte("garbage")), func(error) bool { return true }
	case 6:
		return doc([]byte{}), func(error) bool { return true }
	case 7: // signed by somebody else
		o := *cur
		r := *cur.R
		o.R = &r
		o.V = map[string]int64{}
		for k, v := range cur.V {
			o.V[k] = v
		}
		r.RootK, r.TSK, r.SnK, r.TgK, o.DK = vp.Ed(9), vp.Ed(9), vp.Ed(9), vp.Ed(9), vp.EC(2)
		o.Build()
		return doc(o.Docs[role]), func(error) bool { return true }
	}
	// an earlier state's
	return doc(old.Docs[role]), func(error) bool { return true }
}

func world(cs bool) (old, cur *kit.State) {
	old = kit.NewState(1, cs, "x")
	old.Build()
	cur = kit.NewState(2, cs, "y")
	cur.Build()
	return
}

// cache puts a state into the cache and returns the trusted root.
func cache(kind int, old, cur *kit.State) []byte {
	osshim.VPReset()
	osshim.VPChdir("/c")
	osshim.VPMkdir(kit.MDir)
	osshim.VPMkdir(kit.TDir)
	switch kind {
	case 1:
		old.Store()
	case 2:
		cur.Store()
	case 3: // of the current state a part
		for _, role := range []string{"timestamp", "targets", "deleg"} {
			osshim.VPPut(kit.MDir+"/"+role+".json", cur.Docs[role])
		}
	}
	return old.Docs["root"]
}

func requested(n *kit.Net, u string) bool {
	for _, x := range n.URLs {
		if x == u {
			return true
		}
	}
	return false
}

// tolerated are the answers that don't have to end an update.
func tolerated(role string, kind, cached int) bool {
	switch {
	case role == "root":
		return kind <= 1 // there is no newer root
	case role == "timestamp":
		return kind == 8 && cached != 2 && cached != 3 // nothing known is newer
	}
	return false
}

// CheckOne: any one answer is bad.
func CheckOne() {
	cs := vp.Bool("cs")
	old, cur := world(cs)
	role := kit.Roles[vp.Choice("role", len(kit.Roles))]
	kind := vp.Choice("kind", kinds)
	cached := vp.Choice("cached", 4)
	root := cache(cached, old, cur)
	answer, is := fault(kind, cur, old, role, "")
	net := kit.NewNet()
	cur.Publish(net)
	f := &faulty{net, map[string]func(string) ([]byte, error){cur.URL(role): answer}}
	cfg := kit.Cfg2(root, net, vp.Bool("cache"))
	cfg.Fetcher = f
	u, err := updater.New(cfg)
	vp.Assert(err == nil, "client-starts")
	if err != nil {
		return
	}
	if vp.Bool("refresh") {
		err = u.Refresh()
		vp.Assert((u.GetTrustedMetadataSet().Targets["targets"] != nil) == (err == nil), "nothing-final-after-a-failure")
	}
	var info *metadata.TargetFiles
	if err == nil {
		info, err = u.GetTargetInfo("y")
	}
	hit := requested(net, cur.URL(role))
	vp.Log("ok", err == nil, "hit", hit)
	vp.Assert(hit || role != "root" && role != "timestamp", "root-and-timestamp-are-asked-for")
	vp.Assert((info == nil) == (err != nil), "no-information-after-a-failure")
	if hit && !tolerated(role, kind, cached) {
		vp.Assert(err != nil, "failure-is-reported")
		vp.Assert(err == nil || is(err), "the-failure-is-the-one-that-happened")
		vp.Reach("failure")
		return
	}
	if hit && role == "timestamp" {
		// the old timestamp leads to the old state, whose files the server doesn't have any more
		return
	}
	vp.Assert(err == nil, "nothing-else-fails")
	if hit {
		vp.Reach("tolerated")
	} else {
		vp.Reach("not needed")
	}
}

// CheckTwo: any two answers are bad.
func CheckTwo() {
	cs := vp.Bool("cs")
	old, cur := world(cs)
	a := vp.Choice("role", len(kit.Roles)-1)
	b := a + 1 + vp.Choice("second", len(kit.Roles)-1-a)
	cached := vp.Choice("cached", 4)
	root := cache(cached, old, cur)
	net := kit.NewNet()
	cur.Publish(net)
	f := &faulty{net, map[string]func(string) ([]byte, error){}}
	kind := map[string]int{}
	is := map[string]func(error) bool{}
	for i, n := range []int{a, b} {
		role := kit.Roles[n]
		kind[role] = vp.Choice("kind", kinds)
		f.answer[cur.URL(role)], is[role] = fault(kind[role], cur, old, role, []string{"a.", "b."}[i])
	}
	cfg := kit.Cfg2(root, net, true)
	cfg.Fetcher = f
	u, err := updater.New(cfg)
	vp.Assert(err == nil, "client-starts")
	if err != nil {
		return
	}
	info, err := u.GetTargetInfo("y")
	vp.Log("ok", err == nil)
	vp.Assert((info == nil) == (err != nil), "no-information-after-a-failure")
	for _, role := range kit.Roles {
		if is[role] == nil || !requested(net, cur.URL(role)) {
			continue
		}
		if role == "timestamp" && tolerated(role, kind[role], cached) {
			return
		}
		if !tolerated(role, kind[role], cached) {
			vp.Assert(err != nil, "failure-is-reported")
			vp.Assert(err == nil || is[role](err), "the-failure-is-the-one-that-happened")
			vp.Reach("failure")
			return
		}
	}
	vp.Assert(err == nil, "nothing-else-fails")
	vp.Reach("success")
}

// CheckMany: refreshing several repositories fails if one of them fails.
func CheckMany() {
	osshim.VPReset()
	files := map[string][]byte{}
	roots := map[string][]byte{}
	bad := vp.Choice("bad", 3) // the last means none
	kind := vp.Choice("kind", 4)
	at := []string{"timestamp.json", "1.snapshot.json", "1.targets.json"}[vp.Choice("at", 3)]
	for i := 0; i < 2; i++ {
		name := []string{"a", "b"}[i]
		r := kit.NewRepo()
		r.Targets = vp.O("x", kit.TargetJ([]byte("c")))
		roots[name] = r.RootDoc()
		if i == bad && kind == 3 {
			r.TSK, r.SnK, r.TgK = vp.Ed(9), vp.Ed(9), vp.Ed(9)
		}
		net := kit.NewNet()
		r.Publish(net)
		for u, d := range net.Files {
			files["https://"+name+"/"+strings.TrimPrefix(u, kit.Base)] = d
		}
	}
	status := vp.Int("status", 300, 599)
	model.Handler = func(method, u string) model.Response {
		if bad < 2 && u == "https://"+[]string{"a", "b"}[bad]+"/"+at {
			switch kind {
			case 0:
				return model.Response{Status: 404}
			case 1:
				return model.Response{Status: status}
			case 2:
				return model.Response{Status: 200, Body: []byte("{}"), ContentLength: -1}
			}
		}
		if d, ok := files[u]; ok {
			return model.Response{Status: 200, Body: d, ContentLength: -1}
		}
		return model.Response{Status: 404}
	}
	mapping := vp.O("paths", vp.Strs("*"), "repositories", vp.Strs("a", "b"), "terminating", vp.B(true), "threshold", vp.N(1))
	doc := vp.Doc(vp.O("mapping", vp.A(mapping), "repositories", vp.O("a", vp.Strs("https://a"), "b", vp.Strs("https://b"))))
	cfg, err := multirepo.NewConfig(doc, roots)
	vp.Assert(err == nil, "map-file-accepted")
	if err != nil {
		return
	}
	cfg.DisableLocalCache = true
	c, err := multirepo.New(cfg)
	vp.Assert(err == nil, "client-starts")
	if err != nil {
		return
	}
	err = c.Refresh()
	vp.Log("ok", err == nil)
	vp.Assert((err == nil) == (bad == 2), "failure-of-one-repository-is-reported")
	if err == nil {
		vp.Reach("all repositories")
	} else {
		vp.Reach("one repository fails")
	}
}
