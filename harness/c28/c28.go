// Package c28: descriptions of target files.
package c28

import (
	"github.com/rdimitrov/go-tuf-metadata/metadata"
	osshim "github.com/rdimitrov/go-tuf-metadata/zzverif/osshim"
	"github.com/rdimitrov/go-tuf-metadata/zzverif/vp"
)

func digest(algo string, d []byte) []byte {
	if algo == "sha256" {
		return vp.SHA256(d)
	}
	return vp.SHA512(d)
}

// describe checks the description of d.
func describe(file bool) {
	d := vp.Bytes("data", vp.Choice("len", vp.Pick(4, 7)))
	var algos []string
	n := vp.Choice("algorithms", 4)
	bad := false
	want := map[string]bool{}
	for i := 0; i < n; i++ {
		a := []string{"sha256", "sha512", "md5", "", "SHA256"}[vp.Choice("algo", 5)]
		algos = append(algos, a)
		if a != "sha256" && a != "sha512" {
			bad = true
		}
		want[a] = true
	}
	if n == 0 {
		want["sha256"] = true
	}
	var t *metadata.TargetFiles
	var err error
	if file {
		osshim.VPReset()
		osshim.VPMkdir("/d")
		osshim.VPPut("/d/x", d)
		t, err = metadata.TargetFile().FromFile("/d/x", algos...)
		_, err2 := metadata.TargetFile().FromFile("/d/y", algos...)
		vp.Assert(err2 != nil, "missing-file-is-an-error")
	} else {
		t, err = metadata.TargetFile().FromBytes("/d/x", d, algos...)
	}
	vp.Log(err == nil)
	vp.Assert((err != nil) == bad, "unknown-algorithm-is-an-error")
	if err != nil {
		vp.Reach("unknown algorithm")
		return
	}
	vp.Assert(t.Length == int64(len(d)), "exact-length")
	vp.Assert(t.Path == "/d/x", "path-kept")
	vp.Assert(len(t.Hashes) == len(want), "exactly-the-requested-algorithms")
	for a := range want {
		vp.Assert(vp.SameBytes(t.Hashes[a], digest(a, d)), "exact-digest")
	}
	vp.Assert(t.VerifyLengthHashes(d) == nil, "verifies-its-content")
	other := vp.Bytes("other", vp.Choice("otherlen", vp.Pick(4, 7)))
	vp.Assert((t.VerifyLengthHashes(other) == nil) == vp.SameBytes(other, d), "verifies-no-other-content")
	vp.Reach("described")
}

// CheckFromBytes: descriptions of content.
func CheckFromBytes() { describe(false) }

// CheckFromFile: descriptions of files.
func CheckFromFile() { describe(true) }

// CheckVerify: content against any description, for target and metadata files.
func CheckVerify() {
	d := vp.Bytes("data", vp.Choice("len", 3))
	w := vp.Bytes("described", vp.Choice("dlen", 3))
	n := vp.Int64("length")
	hs := metadata.Hashes{}
	good := true
	for _, a := range []string{"sha256", "sha512", "sha1"} {
		switch vp.Choice("hash", 4) {
		case 0:
			continue
		case 1: // the digest of some content
			if a == "sha1" {
				hs[a] = []byte{1}
				good = false
				break
			}
			hs[a] = digest(a, w)
			if !vp.SameBytes(d, w) {
				good = false
			}
		case 2: // a part of a digest
			hs[a] = digest("sha256", d)[:31]
			good = false
		case 3:
			hs[a] = nil
			good = false
		}
	}
	t := &metadata.TargetFiles{Length: n, Hashes: hs}
	m := &metadata.MetaFiles{Length: n, Hashes: hs, Version: 1}
	e1, e2 := t.VerifyLengthHashes(d), m.VerifyLengthHashes(d)
	vp.Log(e1 == nil, e2 == nil)
	vp.Assert((e1 == nil) == (good && n == int64(len(d))), "target-verification-exact")
	// the length of metadata is optional
	vp.Assert((e2 == nil) == (good && (n == 0 || n == int64(len(d)))), "metadata-verification-exact")
	if e1 == nil {
		vp.Reach("content verified")
	} else {
		vp.Reach("content refused")
	}
}

// CheckEqual: comparison of descriptions.
func CheckEqual() {
	algos := []string{"sha256", "sha512", "x"}
	mk := func() (metadata.TargetFiles, [3]bool) {
		t := metadata.TargetFiles{Length: vp.Int64("length"), Hashes: metadata.Hashes{}, Path: vp.Str("path", 1)}
		var has [3]bool
		for i, a := range algos {
			if vp.Bool("has") {
				has[i] = true
				t.Hashes[a] = vp.Bytes("digest", 1+vp.Choice("digestlen", 2))
			}
		}
		return t, has
	}
	a, ha := mk()
	b, hb := mk()
	common, agree := false, true
	for i, al := range algos {
		if ha[i] && hb[i] {
			common = true
			if !vp.SameBytes(a.Hashes[al], b.Hashes[al]) {
				agree = false
			}
		}
	}
	got := a.Equal(b)
	vp.Log(got)
	vp.Assert(got == (a.Length == b.Length && common && agree), "equal-iff-same-length-and-common-digests-agree")
	vp.Assert(b.Equal(a) == got, "symmetric")
	if got {
		vp.Reach("equal")
	} else {
		vp.Reach("different")
	}
}

// CheckEqualLong: digests of every length that differ in one byte anywhere.
func CheckEqualLong() {
	alg := []string{"sha256", "sha512", "x"}[vp.Choice("algorithm", 3)]
	n := []int{16, 32, 48, 64}[vp.Choice("digestlen", 4)]
	at := []int{0, n/2 - 1, n / 2, n - 1}[vp.Choice("position", 4)]
	mk := func(b []byte) metadata.TargetFiles {
		d := make([]byte, n)
		copy(d[at:], b)
		return metadata.TargetFiles{Length: 3, Hashes: metadata.Hashes{alg: d}}
	}
	x, y := vp.Bytes("byte", 1), vp.Bytes("byte", 1)
	a, b := mk(x), mk(y)
	same := vp.SameBytes(x, y)
	vp.Assert(a.Equal(b) == same, "equal-iff-same-length-and-common-digests-agree")
	a.Hashes[alg] = a.Hashes[alg][:n-1]
	vp.Assert(!a.Equal(b) && !b.Equal(a), "equal-iff-same-length-and-common-digests-agree")
	if same {
		vp.Reach("long digests equal")
	} else {
		vp.Reach("long digests different")
	}
}
