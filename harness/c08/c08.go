// Package c08: only bytes that match the trusted description are returned or stored.
package c08

import (
	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"github.com/rdimitrov/go-tuf-metadata/metadata/updater"
	"github.com/rdimitrov/go-tuf-metadata/zzverif/kit"
	osshim "github.com/rdimitrov/go-tuf-metadata/zzverif/osshim"
	"github.com/rdimitrov/go-tuf-metadata/zzverif/vp"
)

// describe lists target x and says which content matches the description.
func describe(right []byte) (*vp.J, func([]byte) bool) {
	h := vp.O()
	var checks []func([]byte) bool
	c256 := vp.Choice("sha256", 7)
	c512 := vp.Choice("sha512", 3)
	if c256 > 2 {
		vp.Assume(c512 < 2)
	}
	other := []byte("zz")
	pick := func(c int) []byte {
		if c == 1 {
			return right
		}
		return other
	}
	if c256 > 2 {
		// not of the length of a digest
		d := vp.SHA256(right)
		switch c256 {
		case 3:
			d = d[:4]
		case 4:
			d = d[:0]
		case 5:
			d = append(append([]byte{}, d...), 0)
		case 6:
			d = d[1:]
		}
		h.Put("sha256", vp.S(vp.Hex(d)))
		checks = append(checks, func([]byte) bool { return false })
	} else if c256 > 0 {
		w := pick(c256)
		h.Put("sha256", vp.S(vp.Hex(vp.SHA256(w))))
		checks = append(checks, func(d []byte) bool { return vp.SameBytes(d, w) })
	}
	if c512 > 0 {
		w := pick(c512)
		h.Put("sha512", vp.S(vp.Hex(vp.SHA512(w))))
		checks = append(checks, func(d []byte) bool { return vp.SameBytes(d, w) })
	}
	if vp.Bool("odd") {
		h.Put("md5", vp.S("00"))
		checks = append(checks, func([]byte) bool { return false })
	}
	length := vp.Int64("length")
	return vp.O("hashes", h, "length", vp.N(length)), func(d []byte) bool {
		if int64(len(d)) != length {
			return false
		}
		for _, c := range checks {
			if !c(d) {
				return false
			}
		}
		return true
	}
}

func client(j *vp.J, name string, cache bool) (*updater.Updater, *kit.Net, *metadata.TargetFiles) {
	r := kit.NewRepo()
	r.Targets = vp.O(name, j)
	net := kit.NewNet()
	cfg := kit.Cfg(r.RootDoc(), net, cache)
	cfg.PrefixTargetsWithHash = false
	r.Publish(net)
	u, err := updater.New(cfg)
	if err != nil {
		vp.Assert(false, "client-starts")
		return nil, nil, nil
	}
	info, err := u.GetTargetInfo(name)
	if err != nil {
		vp.Assert(false, "target-found")
		return nil, nil, nil
	}
	return u, net, info
}

// content is what is served or found.
func content(tag string, right []byte) []byte {
	switch vp.Choice(tag, 5) {
	case 0:
		return right
	case 1:
		return vp.Bytes(tag+"1", 1)
	case 2:
		return vp.Bytes(tag+"2", 2)
	case 3:
		return vp.Bytes(tag+"3", 3)
	}
	return []byte{}
}

// CheckDownload: any description, any answer.
func CheckDownload() {
	right := vp.Bytes("right", 2)
	j, matches := describe(right)
	cache := vp.Bool("cache")
	u, net, info := client(j, "x", cache)
	if u == nil {
		return
	}
	net.NoLimit = true
	url := kit.TBase + "x"
	var served []byte
	switch vp.Choice("answer", 3) {
	case 0:
		served = content("served", right)
		net.Files[url] = served
	case 1:
		net.Fail[url] = true
	case 2:
		net.Status[url] = 404
	}
	path := ""
	if vp.Bool("path") {
		path = "/c/out"
	}
	old := []byte("older")
	if vp.Bool("of the same length") {
		old = []byte("zy")
	}
	if vp.Bool("existing") {
		osshim.VPPut("/c/out", old)
		osshim.VPPut(kit.TDir+"/x", old)
	}
	dest := kit.TDir + "/x"
	if path != "" {
		dest = path
	}
	before, had := osshim.VPGet(dest)
	n := len(osshim.VPPaths())
	got, data, err := u.DownloadTarget(info, path, "")
	vp.Log("ok", err == nil)
	ok := served != nil && matches(served)
	vp.Assert((err == nil) == ok, "download-succeeds-iff-content-matches")
	now, has := osshim.VPGet(dest)
	if ok {
		vp.Assert(vp.SameBytes(data, served), "downloaded-bytes-returned")
		if cache {
			vp.Assert(has && vp.SameBytes(now, served), "downloaded-bytes-stored")
			vp.Assert(got == dest, "path-of-the-stored-file-returned")
			p, d, err := u.FindCachedTarget(info, path)
			vp.Assert(err == nil && p == dest && vp.SameBytes(d, served), "stored-target-found")
			vp.Reach("stored")
		} else {
			vp.Reach("not stored")
		}
	} else {
		vp.Assert(data == nil && got == "", "nothing-returned-on-failure")
		vp.Reach("refused")
	}
	if !ok || !cache {
		vp.Assert(has == had && (!has || vp.SameBytes(now, before)) && n == len(osshim.VPPaths()), "nothing-written")
	}
}

// CheckCached: any description, any content of the file.
func CheckCached() {
	right := vp.Bytes("right", 2)
	j, matches := describe(right)
	cache := vp.Bool("cache")
	u, net, info := client(j, "x", cache)
	if u == nil {
		return
	}
	path := ""
	dest := kit.TDir + "/x"
	if vp.Bool("path") {
		path = "/c/out"
		dest = path
	}
	var found []byte
	switch vp.Choice("state", 3) {
	case 0:
		found = content("found", right)
		osshim.VPPut(dest, found)
	case 1: // a directory
		osshim.VPMkdir(dest)
	}
	reqs := len(net.URLs)
	p, d, err := u.FindCachedTarget(info, path)
	ok := cache && found != nil && matches(found)
	vp.Log("found", d != nil && err == nil)
	vp.Assert(err == nil, "no-error-for-a-missing-target")
	vp.Assert((p != "") == ok, "path-iff-content-matches")
	if ok {
		vp.Assert(p == dest && vp.SameBytes(d, found), "content-returned")
		vp.Reach("present")
	} else {
		vp.Assert(d == nil, "no-content-otherwise")
		vp.Reach("absent")
	}
	vp.Assert(len(net.URLs) == reqs, "no-request-for-cached-target")
}

// CheckFaults: a failing or interrupted store never leads to wrong content being reported.
func CheckFaults() {
	right := []byte("right")
	j := kit.TargetJ(right)
	u, net, info := client(j, "x", true)
	if u == nil {
		return
	}
	net.Files[kit.TBase+"x"] = right
	if vp.Bool("existing") {
		osshim.VPPut(kit.TDir+"/x", []byte("older"))
	}
	n := vp.Int("at", 1, 6)
	n = [...]int{0, 1, 2, 3, 4, 5, 6}[n]
	how := vp.Choice("how", 4)
	var data []byte
	var err error
	crash := false
	if how == 3 {
		osshim.VPFailAt(n)
		_, data, err = u.DownloadTarget(info, "", "")
		osshim.VPFailAt(0)
	} else {
		osshim.VPCrashAt(n, how)
		crash = osshim.VPRun(func() { _, data, err = u.DownloadTarget(info, "", "") })
	}
	if !crash && err == nil {
		now, ok := osshim.VPGet(kit.TDir + "/x")
		vp.Assert(ok && vp.SameBytes(now, right) && vp.SameBytes(data, right), "success-means-stored")
		vp.Reach("stored")
	} else {
		vp.Reach("failed")
	}
	p, d, err := u.FindCachedTarget(info, "")
	vp.Assert(err == nil, "lookup-after-fault")
	vp.Assert((p != "") == (d != nil) && (d == nil || vp.SameBytes(d, right)), "only-complete-content-reported")
	// and a retry succeeds
	_, data, err = u.DownloadTarget(info, "", "")
	vp.Assert(err == nil && vp.SameBytes(data, right), "retry-succeeds")
}
