// Package c17: the work a repository can cause is bounded by the configuration.
package c17

import (
	"errors"
	"strconv"
	"strings"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"github.com/rdimitrov/go-tuf-metadata/metadata/updater"
	"github.com/rdimitrov/go-tuf-metadata/zzverif/kit"
	osshim "github.com/rdimitrov/go-tuf-metadata/zzverif/osshim"
	"github.com/rdimitrov/go-tuf-metadata/zzverif/vp"
)

// server answers requests by kind and records them.
type server struct {
	answer func(kind, u string) ([]byte, error)
	kinds  []string
	urls   []string
	lens   []int64
	max    int // more requests than this are a runaway
}

func kindOf(u string) string {
	name := strings.TrimPrefix(u, kit.Base)
	for _, k := range []string{"root", "timestamp", "snapshot", "targets"} {
		if strings.HasSuffix(name, k+".json") && (name == k+".json" || strings.HasSuffix(name, "."+k+".json")) {
			return k
		}
	}
	return "delegated"
}

func (s *server) DownloadFile(u string, max int64, t time.Duration) ([]byte, error) {
	k := kindOf(u)
	vp.Assert(t > 0, "every-request-has-a-time-limit")
	s.kinds, s.urls, s.lens = append(s.kinds, k), append(s.urls, u), append(s.lens, max)
	vp.Assert(len(s.urls) <= s.max, "requests-bounded")
	if len(s.urls) > s.max {
		return nil, errors.New("stop")
	}
	return s.answer(k, u)
}

func (s *server) count(kind string) int {
	n := 0
	for _, k := range s.kinds {
		if k == kind {
			n++
		}
	}
	return n
}

func notFound(u string) error { return metadata.ErrDownloadHTTP{StatusCode: 404, URL: u} }

// chain makes roots of any version, signed by the same key.
func chain(r *kit.Repo) func(u string) []byte {
	return func(u string) []byte {
		v, err := strconv.ParseInt(strings.TrimSuffix(strings.TrimPrefix(u, kit.Base), ".root.json"), 10, 64)
		if err != nil {
			return nil
		}
		q := *r
		q.RootV = vp.N(v)
		return q.RootDoc()
	}
}

// CheckRoots: an endless chain of roots, any limit.
func CheckRoots() {
	r := kit.NewRepo()
	start := []int64{1, 7, 1 << 40, 1<<63 - 4, 1<<63 - 1}[vp.Choice("start", 5)]
	r.RootV = vp.N(start)
	first := r.RootDoc()
	limit := vp.Int64In("limit", 0, int64(vp.Pick(6, 40)))
	mk := chain(r)
	s := &server{max: 50}
	s.answer = func(k, u string) ([]byte, error) {
		switch k {
		case "root":
			return mk(u), nil
		case "timestamp":
			return r.TSDoc(), nil
		case "snapshot":
			return r.SnDoc(), nil
		case "targets":
			return r.TgDoc(), nil
		}
		return nil, notFound(u)
	}
	cfg := kit.Cfg(first, nil, vp.Bool("cache"))
	cfg.Fetcher = s
	cfg.MaxRootRotations = limit
	u, err := updater.New(cfg)
	vp.Assert(err == nil, "client-starts")
	if err != nil {
		return
	}
	err = u.Refresh()
	vp.Log("ok", err == nil, len(s.urls))
	roots := int64(s.count("root"))
	vp.Assert(roots == 0 || roots <= limit, "root-requests-bounded")
	vp.Assert(s.count("timestamp") <= 1 && s.count("snapshot") <= 1 && s.count("targets") <= 1 && s.count("delegated") == 0, "one-request-per-role")
	if start < 1<<62 && limit > 0 {
		vp.Assert(roots == limit, "limit-is-usable")
		vp.Reach("chain")
	}
	// each version is asked for once, in order
	for i := int64(0); i < roots; i++ {
		vp.Assert(s.urls[i] == kit.Base+strconv.FormatInt(start+1+i, 10)+".root.json", "roots-in-order")
	}
}

// CheckAnswers: any answer to every request.
func CheckAnswers() {
	limit := vp.Int64In("limit", 0, int64(vp.Pick(2, 3)))
	r := kit.NewRepo()
	dk := vp.EC(0)
	r.Delegations = kit.DelegationsJ(kit.KeyMap(dk), kit.DelegJ("a", 1, false, vp.Strs("*"), dk), kit.DelegJ("b", 1, false, vp.Strs("*"), dk))
	r.SnapMeta = vp.O("a.json", kit.Meta(vp.N(1)), "b.json", kit.Meta(vp.N(1)))
	deleg := kit.Signed(kit.TargetsJ(vp.N(1), kit.Later(), vp.O(), kit.DelegationsJ(kit.KeyMap(dk), kit.DelegJ("b", 1, false, vp.Strs("*"), dk), kit.DelegJ("a", 1, false, vp.Strs("*"), dk))), dk)
	s := &server{max: 40}
	mk := chain(r)
	other := kit.NewRepo()
	other.TSK, other.SnK, other.TgK, other.RootK = vp.Ed(9), vp.Ed(9), vp.Ed(9), vp.Ed(9)
	s.answer = func(k, u string) ([]byte, error) {
		good := map[string]func() []byte{"root": func() []byte { return mk(u) }, "timestamp": r.TSDoc, "snapshot": r.SnDoc, "targets": r.TgDoc, "delegated": func() []byte { return deleg }}
		bad := map[string]func() []byte{"root": other.RootDoc, "timestamp": other.TSDoc, "snapshot": other.SnDoc, "targets": other.TgDoc, "delegated": other.TgDoc}
		switch vp.Choice("answer", vp.Pick(6, 8)) {
		case 0:
			return good[k](), nil
		case 1:
			return nil, notFound(u)
		case 2:
			return nil, metadata.ErrDownloadHTTP{StatusCode: 500, URL: u}
		case 3:
			return nil, errors.New("connection reset")
		case 4:
			return []byte("garbage"), nil
		case 5:
			return bad[k](), nil
		case 6:
			return nil, metadata.ErrDownloadLengthMismatch{Msg: "too long"}
		}
		return []byte{}, nil
	}
	cfg := kit.Cfg(r.RootDoc(), nil, vp.Bool("cache"))
	cfg.Fetcher = s
	cfg.MaxRootRotations = limit
	u, err := updater.New(cfg)
	vp.Assert(err == nil, "client-starts")
	if err != nil {
		return
	}
	_, err = u.GetTargetInfo("x")
	vp.Assert(err != nil, "no-target")
	vp.Log(len(s.urls))
	vp.Assert(int64(s.count("root")) <= limit, "root-requests-bounded")
	for _, k := range []string{"timestamp", "snapshot", "targets"} {
		vp.Assert(s.count(k) <= 1, "one-request-per-role")
	}
	vp.Assert(s.count("delegated") <= 2, "one-request-per-role")
	for i, u := range s.urls {
		for _, w := range s.urls[:i] {
			vp.Assert(w != u, "no-request-repeated")
		}
	}
	vp.Reach("answered")
}

// CheckLengths: the length limit of every download, for all limits and announced lengths.
func CheckLengths() {
	r := kit.NewRepo()
	r.CS = vp.Bool("cs")
	dk := vp.EC(0)
	announced := func(tag string, d []byte) (*vp.J, int64, bool) {
		m := kit.Meta(vp.N(1))
		switch vp.Choice(tag, 4) {
		case 0:
			return m, 0, true
		case 1:
			return m.Put("length", vp.N(vp.Len64(d))), vp.Len64(d), true
		case 2:
			h := kit.MetaFull(vp.N(1), d)
			return h, vp.Len64(d), true
		}
		off := vp.Int64In(tag+".off", -1<<62, 1<<62)
		l := vp.Len64(d) + off
		vp.Assume(l != 0 && off != 0)
		return m.Put("length", vp.N(l)), l, false
	}
	deleg := kit.Signed(kit.TargetsJ(vp.N(1), kit.Later(), vp.O("x", kit.TargetJ([]byte("d"))), nil), dk)
	r.Delegations = kit.DelegationsJ(kit.KeyMap(dk), kit.DelegJ("a", 1, false, vp.Strs("*"), dk))
	tg := r.TgDoc()
	dm, dl, dok := announced("delegated", deleg)
	tm, tl, tok := announced("targets", tg)
	sn := kit.Signed(kit.SnapshotJ(vp.N(1), kit.Later(), vp.O("a.json", dm, "targets.json", tm)), r.SnK)
	sm, sl, sok := announced("snapshot", sn)
	ts := kit.Signed(kit.TimestampJ(vp.N(1), kit.Later(), sm), r.TSK)
	s := &server{max: 10}
	s.answer = func(k, u string) ([]byte, error) {
		d := map[string][]byte{"timestamp": ts, "snapshot": sn, "targets": tg, "delegated": deleg}[k]
		if d == nil {
			return nil, notFound(u)
		}
		return d, nil // whatever the limit
	}
	cfg := kit.Cfg(r.RootDoc(), nil, false)
	cfg.Fetcher = s
	cfg.RootMaxLength, cfg.TimestampMaxLength, cfg.SnapshotMaxLength, cfg.TargetsMaxLength = vp.Int64("max.root"), vp.Int64("max.timestamp"), vp.Int64("max.snapshot"), vp.Int64("max.targets")
	u, err := updater.New(cfg)
	vp.Assert(err == nil, "client-starts")
	if err != nil {
		return
	}
	_, err = u.GetTargetInfo("x")
	vp.Log("ok", err == nil, len(s.urls))
	want := map[string]int64{"root": cfg.RootMaxLength, "timestamp": cfg.TimestampMaxLength, "snapshot": cfg.SnapshotMaxLength, "targets": cfg.TargetsMaxLength, "delegated": cfg.TargetsMaxLength}
	if sl != 0 {
		want["snapshot"] = sl
	}
	if tl != 0 {
		want["targets"] = tl
	}
	if dl != 0 {
		want["delegated"] = dl
	}
	for i, k := range s.kinds {
		vp.Assert(s.lens[i] == want[k], "limit-passed")
	}
	vp.Assert((err == nil) == (sok && tok && dok), "announced-length-enforced")
	if err == nil {
		vp.Assert(len(s.urls) == 5, "one-request-per-role")
		vp.Reach("loaded")
	} else {
		vp.Reach("refused")
	}
}

// CheckTarget: the length limit of a target download.
func CheckTarget() {
	l := vp.Int64("length")
	s := &server{max: 10}
	s.answer = func(k, u string) ([]byte, error) { return nil, notFound(u) }
	r := kit.NewRepo()
	cfg := kit.Cfg(r.RootDoc(), nil, false)
	cfg.Fetcher = s
	u, err := updater.New(cfg)
	vp.Assert(err == nil, "client-starts")
	if err != nil {
		return
	}
	_, _, err = u.DownloadTarget(&metadata.TargetFiles{Path: "x", Length: l, Hashes: metadata.Hashes{"sha256": make([]byte, 32)}}, "", "")
	vp.Assert(err != nil && len(s.lens) == 1 && s.lens[0] == l, "limit-passed")
	vp.Reach("target")
}

// CheckDelegations: any graph of delegations between a few roles, any limit.
func CheckDelegations() {
	n := vp.Pick(3, 4)
	limit := vp.Int64In("limit", -1, int64(n)+1)
	dk := vp.EC(0)
	names := []string{"a", "b", "c", "d"}[:n]
	r := kit.NewRepo()
	r.SnapMeta = vp.O()
	deleg := func(tag string) *vp.J {
		var ds []*vp.J
		// one of some lists of children
		l := [][]int{{}, {0}, {1, 0}, {2, 0}, {0, 1, 2}, {n - 1, 1, 0}, {n - 1, 1}}[vp.Choice(tag, 7)]
		for i, c := range l {
			ds = append(ds, kit.DelegJ(names[c], 1, i == 0 && vp.Thorough() && vp.Bool(tag+".terminating"), vp.Strs("*"), dk))
		}
		return kit.DelegationsJ(kit.KeyMap(dk), ds...)
	}
	r.Delegations = deleg("of targets")
	docs := map[string][]byte{}
	s := &server{max: 30}
	s.answer = func(k, u string) ([]byte, error) {
		switch k {
		case "root":
			return nil, notFound(u)
		case "timestamp":
			return r.TSDoc(), nil
		case "snapshot":
			return r.SnDoc(), nil
		case "targets":
			return r.TgDoc(), nil
		}
		name := strings.TrimSuffix(strings.TrimPrefix(u, kit.Base+"1."), ".json")
		if docs[name] == nil {
			docs[name] = kit.Signed(kit.TargetsJ(vp.N(1), kit.Later(), vp.O(), deleg("of "+name)), dk)
		}
		return docs[name], nil
	}
	for _, x := range names {
		r.SnapMeta.Put(x+".json", kit.Meta(vp.N(1)))
	}
	cfg := kit.Cfg(r.RootDoc(), nil, false)
	cfg.Fetcher = s
	cfg.MaxDelegations = int(limit)
	u, err := updater.New(cfg)
	vp.Assert(err == nil, "client-starts")
	if err != nil {
		return
	}
	vp.Assert(u.Refresh() == nil, "refreshed")
	_, err = u.GetTargetInfo("x")
	vp.Assert(err != nil, "no-target")
	d := int64(s.count("delegated"))
	vp.Log(len(s.urls))
	vp.Assert(d == 0 || d <= limit, "delegated-loads-bounded")
	for i, u := range s.urls {
		for _, w := range s.urls[:i] {
			vp.Assert(w != u, "no-request-repeated")
		}
	}
	if d == limit {
		vp.Reach("limit reached")
	} else {
		vp.Reach("limit not reached")
	}
	// another lookup needs no role again
	before := len(s.urls)
	_, _ = u.GetTargetInfo("x")
	for _, u := range s.urls[before:] {
		for _, w := range s.urls[:before] {
			vp.Assert(w != u, "no-request-repeated")
		}
	}
}

// CheckWide: a role with very many children.
func CheckWide() {
	limit := vp.Int64In("limit", 0, 6)
	dk := vp.EC(0)
	r := kit.NewRepo()
	r.SnapMeta = vp.O()
	var ds []*vp.J
	for i := 0; i < 40; i++ {
		name := "r" + strconv.Itoa(i)
		ds = append(ds, kit.DelegJ(name, 1, false, vp.Strs("*"), dk))
		r.SnapMeta.Put(name+".json", kit.Meta(vp.N(1)))
	}
	r.Delegations = kit.DelegationsJ(kit.KeyMap(dk), ds...)
	// every child delegates to a further one, endlessly
	deep := vp.Bool("deep")
	s := &server{max: 60}
	s.answer = func(k, u string) ([]byte, error) {
		switch k {
		case "root":
			return nil, notFound(u)
		case "timestamp":
			return r.TSDoc(), nil
		case "snapshot":
			return r.SnDoc(), nil
		case "targets":
			return r.TgDoc(), nil
		}
		name := strings.TrimSuffix(strings.TrimPrefix(u, kit.Base+"1.r"), ".json")
		i, _ := strconv.Atoi(name)
		var dj *vp.J
		if deep {
			dj = kit.DelegationsJ(kit.KeyMap(dk), kit.DelegJ("r"+strconv.Itoa((i+1)%40), 1, false, vp.Strs("*"), dk))
		}
		return kit.Signed(kit.TargetsJ(vp.N(1), kit.Later(), vp.O(), dj), dk), nil
	}
	cfg := kit.Cfg(r.RootDoc(), nil, false)
	cfg.Fetcher = s
	cfg.MaxDelegations = int(limit)
	u, err := updater.New(cfg)
	vp.Assert(err == nil, "client-starts")
	if err != nil {
		return
	}
	_, err = u.GetTargetInfo("x")
	vp.Assert(err != nil, "no-target")
	vp.Assert(int64(s.count("delegated")) == limit, "delegated-loads-bounded")
	vp.Reach("wide")
}

// CheckAgain: refreshing again, and a second session with the stored metadata.
func CheckAgain() {
	r := kit.NewRepo()
	r.CS = vp.Bool("cs")
	limit := vp.Int64In("limit", 0, 3)
	mk := chain(r)
	s := &server{max: 40}
	endless := vp.Bool("endless")
	s.answer = func(k, u string) ([]byte, error) {
		switch k {
		case "root":
			if endless {
				return mk(u), nil
			}
		case "timestamp":
			return r.TSDoc(), nil
		case "snapshot":
			return r.SnDoc(), nil
		case "targets":
			return r.TgDoc(), nil
		}
		return nil, notFound(u)
	}
	cfg := kit.Cfg(r.RootDoc(), nil, true)
	cfg.Fetcher = s
	cfg.MaxRootRotations = limit
	for session := 0; session < 2; session++ {
		if session == 1 {
			d, ok := osshim.VPGet(kit.MDir + "/root.json")
			vp.Assert(ok, "root-stored")
			cfg.LocalTrustedRoot = d
		}
		u, err := updater.New(cfg)
		vp.Assert(err == nil, "client-starts")
		if err != nil {
			return
		}
		for i := 0; i < 2; i++ {
			before := len(s.urls)
			_ = u.Refresh()
			n := int64(len(s.urls) - before)
			vp.Assert(n <= limit+3, "requests-bounded")
		}
	}
	vp.Reach("again")
}
