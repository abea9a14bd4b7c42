// Package c12: hash bins.
package c12

import (
	"fmt"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"github.com/rdimitrov/go-tuf-metadata/zzverif/kit"
	"github.com/rdimitrov/go-tuf-metadata/zzverif/vp"
)

const digits = "0123456789abcdef"

// name is the specified name of a bin.
func name(prefix string, bits int, bin uint32) string {
	n := (bits + 3) / 4
	b := make([]byte, n)
	for i := range b {
		b[n-1-i] = digits[bin>>(4*uint(i))&15]
	}
	return prefix + "-" + string(b)
}

func roles(prefix string, bits int) *metadata.SuccinctRoles {
	return &metadata.SuccinctRoles{BitLength: bits, NamePrefix: prefix, Threshold: 1}
}

// CheckBin: the bin of a path has the number made of its first bits.
func CheckBin() {
	kind := vp.Choice("kind", 5)
	bits := 8
	if kind == 0 {
		bits = 1 + vp.Choice("bits", 32)
	}
	path := vp.HashedPath([]string{"p/", "/", "./", "P//", " %2F"}[kind], 16)
	d := vp.SHA256([]byte(path))
	top := uint32(d[0])<<24 | uint32(d[1])<<16 | uint32(d[2])<<8 | uint32(d[3])
	want := name("bin", bits, top>>(32-uint(bits)))
	r := roles("bin", bits)
	got := r.GetRolesForTarget(path)
	vp.Assert(len(got) == 1, "exactly-one-bin")
	if len(got) != 1 {
		return
	}
	vp.Assert(got[0].Name == want, "bin-of-the-leading-bits")
	vp.Assert(got[0].Terminating, "bins-terminate")
	vp.Assert(r.IsDelegatedRole(got[0].Name), "bin-of-a-target-is-delegated")
	ds := &metadata.Delegations{SuccinctRoles: r}
	all := ds.GetRolesForTarget(path)
	vp.Assert(len(all) == 1 && all[0].Name == want && all[0].Terminating, "delegations-give-the-same-bin")
	vp.Reach("bin computed")
}

// recognise compares the answer about a name with the list of bins.
func recognise(bits int, prefix, n string) {
	k := (bits + 3) / 4
	want := len(n) == len(prefix)+1+k && n[:len(prefix)] == prefix && n[len(prefix)] == '-'
	if want {
		first := 15
		if bits%4 != 0 {
			first = 1<<uint(bits%4) - 1
		}
		for i, c := range []byte(n[len(prefix)+1:]) {
			v := -1
			if '0' <= c && c <= '9' {
				v = int(c - '0')
			} else if 'a' <= c && c <= 'f' {
				v = int(c-'a') + 10
			}
			if v < 0 || i == 0 && v > first {
				want = false
				break
			}
		}
	}
	got := roles(prefix, bits).IsDelegatedRole(n)
	vp.Log(got)
	vp.Assert(got == want, "recognises-exactly-the-bins")
	if want {
		vp.Reach("name of a bin")
	} else {
		vp.Reach("other name")
	}
}

// CheckName: names with an arbitrary suffix.
func CheckName() {
	bits := 1 + vp.Choice("bits", vp.Pick(9, 13))
	k := vp.Choice("len", vp.Pick(4, 5))
	recognise(bits, "b", "b-"+vp.Str("suffix", k))
}

// CheckPrefix: names with another beginning.
func CheckPrefix() {
	bits := 1 + vp.Choice("bits", 8)
	prefix := []string{"b", "", "b-0", "-"}[vp.Choice("prefix", 4)]
	recognise(bits, prefix, vp.StrIn("name", vp.Choice("len", 6), "b-01+"))
}

// CheckEvery: for long names, each place filled with any character.
func CheckEvery() {
	bits := 10 + vp.Choice("bits", 23)
	k := (bits + 3) / 4
	s := []byte("00000000")[:k]
	s[vp.Choice("place", k)] = vp.Byte("c")
	recognise(bits, "bin", "bin-"+string(s))
}

// CheckList: the listed bins are all bins, in order, once.
func CheckList() {
	bits := 1 + vp.Choice("bits", vp.Pick(6, 11))
	r := roles("bin", bits)
	got := r.GetRoles()
	vp.Assert(len(got) == 1<<uint(bits), "every-bin-listed")
	for i, n := range got {
		vp.Assert(n == name("bin", bits, uint32(i)), "bins-listed-by-number")
	}
	k, n := r.GetSuffixLen()
	vp.Assert(k == (bits+3)/4 && n == len(got), "suffix-length")
	vp.Reach("listed")
}

// CheckLoad: bit lengths outside of 1..32 are refused, others kept.
func CheckLoad() {
	bits := vp.Int64("bits")
	k := vp.Ed(3)
	ds := vp.O("keys", kit.KeyMap(k), "succinct_roles", vp.O("bit_length", vp.N(bits), "keyids", kit.IDs(k), "name_prefix", vp.S("bin"), "threshold", vp.N(1)))
	m, err := metadata.Targets().FromBytes(kit.Signed(kit.TargetsJ(vp.N(1), kit.Later(), vp.O(), ds), k))
	vp.Log(err == nil)
	vp.Assert((err == nil) == (bits >= 1 && bits <= 32), "bit-length-1-to-32")
	if err == nil && m != nil {
		vp.Assert(int64(m.Signed.Delegations.SuccinctRoles.BitLength) == bits, "bit-length-kept")
		vp.Reach("loaded")
	} else {
		vp.Reach("refused")
	}
}

// CheckDelegate: only bins of the delegating metadata verify as its delegates.
func CheckDelegate() {
	bits := 1 + vp.Choice("bits", 8)
	k := vp.Ed(3)
	ds := vp.O("keys", kit.KeyMap(k), "succinct_roles", vp.O("bit_length", vp.N(int64(bits)), "keyids", kit.IDs(k), "name_prefix", vp.S("b"), "threshold", vp.N(1)))
	m, err := metadata.Targets().FromBytes(kit.Signed(kit.TargetsJ(vp.N(1), kit.Later(), vp.O(), ds), k))
	c, err2 := metadata.Targets().FromBytes(kit.Signed(kit.TargetsJ(vp.N(1), kit.Later(), vp.O(), nil), k))
	if err != nil || err2 != nil {
		vp.Assert(false, "documents-load")
		return
	}
	n := vp.StrIn("name", vp.Choice("len", 5), "b-0aAf+")
	got := m.VerifyDelegate(n, c) == nil
	listed := false
	for i := 0; i < 1<<uint(bits); i++ {
		if n == name("b", bits, uint32(i)) {
			listed = true
		}
	}
	vp.Log(got)
	vp.Assert(got == listed, "only-bins-are-delegates")
	vp.Assert(!got || m.VerifyDelegate(fmt.Sprintf("%s0", n), c) != nil, "longer-names-are-not")
	if got {
		vp.Reach("verified")
	}
}
