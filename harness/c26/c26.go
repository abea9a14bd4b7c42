// Package c26: where metadata and targets are requested.
package c26

import (
	"strconv"
	"strings"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"github.com/rdimitrov/go-tuf-metadata/metadata/updater"
	"github.com/rdimitrov/go-tuf-metadata/zzverif/kit"
	"github.com/rdimitrov/go-tuf-metadata/zzverif/vp"
)

// server answers the requests in the order of the workflow and keeps the locations.
type server struct {
	answers [][]byte // nil: not found
	urls    []string
}

func (s *server) DownloadFile(u string, max int64, _ time.Duration) ([]byte, error) {
	n := len(s.urls)
	s.urls = append(s.urls, u)
	if n < len(s.answers) && s.answers[n] != nil {
		return s.answers[n], nil
	}
	return nil, metadata.ErrDownloadHTTP{StatusCode: 404, URL: u}
}

func hexval(c byte) (byte, bool) {
	switch {
	case '0' <= c && c <= '9':
		return c - '0', true
	case 'A' <= c && c <= 'F':
		return c - 'A' + 10, true
	case 'a' <= c && c <= 'f':
		return c - 'a' + 10, true
	}
	return 0, false
}

// segment decodes one path segment of a URL.
func segment(s string) (string, bool) {
	var out []byte
	for i := 0; i < len(s); i++ {
		switch c := s[i]; c {
		case '/', '?', '#', ' ':
			return "", false
		case '%':
			if i+2 >= len(s) {
				return "", false
			}
			h, ok1 := hexval(s[i+1])
			l, ok2 := hexval(s[i+2])
			if !ok1 || !ok2 {
				return "", false
			}
			out = append(out, h<<4|l)
			i += 2
		default:
			out = append(out, c)
		}
	}
	return string(out), true
}

func bases(tag string) (given, want string) {
	switch vp.Choice(tag, 5) {
	case 0:
		return "https://r/m", "https://r/m/"
	case 3:
		return "https://r/m//", "https://r/m//"
	case 4:
		return "https://r/M/n.o", "https://r/M/n.o/"
	case 1:
		return "https://r/m/", "https://r/m/"
	}
	return "https://r", "https://r/"
}

func named(cs bool, v int64, name string) string {
	if cs {
		return strconv.FormatInt(v, 10) + "." + name
	}
	return name
}

// CheckVersions: the location of every metadata file for all versions.
func CheckVersions() {
	r := kit.NewRepo()
	const max = 1 << 61
	v0 := vp.Int64In("root", 1, max)
	r.RootV = vp.N(v0)
	r.CS = vp.Bool("cs0")
	first := r.RootDoc()
	s := &server{}
	rotations := int64(vp.Choice("rotations", 3))
	for k := int64(1); k <= rotations; k++ {
		r.RootV = vp.N(v0 + k)
		r.CS = vp.Bool("cs")
		s.answers = append(s.answers, r.RootDoc())
	}
	s.answers = append(s.answers, nil)
	sv, tv, dv := vp.Int64In("snapshot", 1, max), vp.Int64In("targets", 1, max), vp.Int64In("delegated", 1, max)
	r.SnV, r.TgV, r.TSV = vp.N(sv), vp.N(tv), vp.N(vp.Int64In("timestamp", 1, max))
	dk := vp.EC(0)
	r.Delegations = kit.DelegationsJ(kit.KeyMap(dk), kit.DelegJ("r1", 1, true, vp.Strs("*"), dk))
	r.SnapMeta = vp.O("r1.json", kit.Meta(vp.N(dv)))
	deleg := kit.Signed(kit.TargetsJ(vp.N(dv), kit.Later(), vp.O("x", kit.TargetJ([]byte("d"))), nil), dk)
	s.answers = append(s.answers, r.TSDoc(), r.SnDoc(), r.TgDoc(), deleg)
	cfg := kit.Cfg(first, nil, false)
	cfg.Fetcher = s
	var base string
	cfg.RemoteMetadataURL, base = bases("base")
	u, err := updater.New(cfg)
	vp.Assert(err == nil, "client-starts")
	if err != nil {
		return
	}
	_, err = u.GetTargetInfo("x")
	vp.Assert(err == nil, "lookup-succeeds")
	vp.Log("ok", err == nil, len(s.urls))
	var want []string
	for k := int64(1); k <= rotations+1; k++ {
		want = append(want, named(true, v0+k, "root.json"))
	}
	want = append(want, "timestamp.json", named(r.CS, sv, "snapshot.json"), named(r.CS, tv, "targets.json"), named(r.CS, dv, "r1.json"))
	vp.Assert(len(s.urls) == len(want), "one-request-per-file")
	for i := range want {
		if i < len(s.urls) {
			vp.Assert(s.urls[i] == base+want[i], "location-of-metadata")
		}
	}
	if r.CS {
		vp.Reach("consistent")
	} else {
		vp.Reach("plain")
	}
}

// CheckNames: the location of a delegated role's metadata for all names.
func CheckNames() {
	r := kit.NewRepo()
	r.CS = vp.Bool("cs")
	name := vp.StrIn("name", vp.Choice("len", vp.Pick(3, 4))+1, "a.%/ +?#2F~&:")
	dk := vp.EC(0)
	r.Delegations = kit.DelegationsJ(kit.KeyMap(dk), kit.DelegJ(name, 1, true, vp.Strs("*"), dk))
	r.SnapMeta = vp.O(name+".json", kit.Meta(vp.N(7)))
	deleg := kit.Signed(kit.TargetsJ(vp.N(7), kit.Later(), vp.O("x", kit.TargetJ([]byte("d"))), nil), dk)
	s := &server{answers: [][]byte{nil, r.TSDoc(), r.SnDoc(), r.TgDoc(), deleg}}
	cfg := kit.Cfg(r.RootDoc(), nil, false)
	cfg.Fetcher = s
	u, err := updater.New(cfg)
	vp.Assert(err == nil, "client-starts")
	if err != nil {
		return
	}
	_, err = u.GetTargetInfo("x")
	vp.Assert(err == nil, "lookup-succeeds")
	vp.Assert(len(s.urls) == 5, "one-request-per-file")
	if len(s.urls) != 5 {
		return
	}
	got, ok := segment(strings.TrimPrefix(s.urls[4], kit.Base))
	vp.Assert(strings.HasPrefix(s.urls[4], kit.Base) && ok && got == named(r.CS, 7, name+".json"), "location-of-named-role")
	vp.Reach("named role")
}

// CheckTargets: the location of a target for all paths.
func CheckTargets() {
	r := kit.NewRepo()
	r.CS = vp.Bool("cs")
	path := vp.StrIn("path", vp.Choice("len", vp.Pick(5, 6))+1, "ab/.")
	content := []byte("c")
	h := vp.O()
	var sums []string
	alg := vp.Choice("hashes", 3)
	if alg != 1 {
		d := vp.SHA256(content)
		h.Put("sha256", vp.S(vp.Hex(d)))
		sums = append(sums, vp.Hex(d))
	}
	if alg != 0 {
		d := vp.SHA512(content)
		h.Put("sha512", vp.S(vp.Hex(d)))
		sums = append(sums, vp.Hex(d))
	}
	r.Targets = vp.O(path, vp.O("hashes", h, "length", vp.N(1)))
	s := &server{answers: [][]byte{nil, r.TSDoc(), r.SnDoc(), r.TgDoc(), content}}
	cfg := kit.Cfg(r.RootDoc(), nil, false)
	cfg.Fetcher = s
	cfg.PrefixTargetsWithHash = vp.Bool("prefix")
	given, base := bases("base")
	arg := ""
	switch vp.Choice("where", 3) {
	case 0:
		cfg.RemoteTargetsURL = given
	case 1:
		cfg.RemoteTargetsURL = ""
		arg = given
	case 2:
		cfg.RemoteTargetsURL = "https://elsewhere/"
		arg = given
	}
	u, err := updater.New(cfg)
	vp.Assert(err == nil, "client-starts")
	if err != nil {
		return
	}
	info, err := u.GetTargetInfo(path)
	vp.Assert(err == nil, "lookup-succeeds")
	if err != nil {
		return
	}
	_, data, err := u.DownloadTarget(info, "/c/t/x", arg)
	vp.Assert(err == nil && string(data) == "c", "download-succeeds")
	vp.Log("ok", err == nil)
	vp.Assert(len(s.urls) == 5, "one-request-per-file")
	if len(s.urls) != 5 {
		return
	}
	if !r.CS || !cfg.PrefixTargetsWithHash {
		vp.Assert(s.urls[4] == base+path, "location-of-target")
		vp.Reach("plain target")
		return
	}
	cut := 0
	for i := 0; i < len(path); i++ {
		if path[i] == '/' {
			cut = i + 1
		}
	}
	ok := false
	for _, x := range sums {
		if s.urls[4] == base+path[:cut]+x+"."+path[cut:] {
			ok = true
		}
	}
	vp.Assert(ok, "hash-prefix-directly-before-the-file-name")
	vp.Reach("prefixed target")
}

// CheckNoBase: without any target location nothing is requested.
func CheckNoBase() {
	r := kit.NewRepo()
	r.Targets = vp.O("x", kit.TargetJ([]byte("c")))
	s := &server{answers: [][]byte{nil, r.TSDoc(), r.SnDoc(), r.TgDoc(), []byte("c")}}
	cfg := kit.Cfg(r.RootDoc(), nil, false)
	cfg.Fetcher = s
	cfg.RemoteTargetsURL = ""
	u, err := updater.New(cfg)
	if err != nil {
		return
	}
	info, err := u.GetTargetInfo("x")
	if err != nil {
		return
	}
	_, data, err := u.DownloadTarget(info, "", "")
	vp.Assert(err != nil && data == nil && len(s.urls) == 4, "no-request-without-a-base")
	vp.Reach("no base")
}
