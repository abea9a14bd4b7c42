package kit

import "github.com/rdimitrov/go-tuf-metadata/zzverif/vp"

// Deep copies a document completely.
func Deep(j *vp.J) *vp.J {
	if j == nil {
		return nil
	}
	c := j.Copy()
	for i := range c.Vals {
		c.Vals[i] = Deep(c.Vals[i])
	}
	return c
}

// Nodes lists the values of a document, outer ones first.
func Nodes(j *vp.J) []*vp.J {
	out := []*vp.J{j}
	for _, v := range j.Vals {
		out = append(out, Nodes(v)...)
	}
	return out
}

// Edit returns a copy of a document that differs from it in one place, any place.
func Edit(j *vp.J, member string) *vp.J {
	c := Deep(j)
	all := Nodes(c)
	n := all[vp.Choice("place", len(all))]
	if n == c.Get("expires") {
		n.S = Earlier().S
		return c
	}
	switch n.K {
	case 1:
		n.B = !n.B
	case 2:
		x := vp.Int64In("number", -1<<52, 1<<52)
		vp.Assume(x != n.N)
		n.N = x
	case 4:
		if len(n.S) > 0 && vp.Bool("shorter") {
			n.S = n.S[:len(n.S)-1]
		} else {
			n.S += "0"
		}
	case 5:
		k := vp.Choice("element", len(n.Vals)+1)
		if k < len(n.Vals) {
			n.Vals = append(append([]*vp.J{}, n.Vals[:k]...), n.Vals[k+1:]...)
		} else if k > 0 {
			n.Vals = append(n.Vals, Deep(n.Vals[0]))
		} else {
			n.Vals = append(n.Vals, vp.S("zz"))
		}
	case 6:
		k := vp.Choice("member", len(n.Keys)+1)
		if k < len(n.Keys) {
			n.Del(n.Keys[k])
		} else {
			n.Put(member, vp.N(7))
		}
	default:
		*n = *vp.N(7)
	}
	return c
}

// Rich returns the signed part of a document of a kind that uses every field of the
// format and members that the format doesn't know. Kinds: root, timestamp, snapshot,
// targets with named roles, targets with hash bins.
func Rich(kind int) (role string, signed *vp.J) {
	k := vp.Ed(0)
	more := func(o *vp.J) *vp.J { return o.Put("x-more", vp.O("a", vp.N(3), "b", vp.A(vp.S("p"), vp.N(5)))) }
	file := func(n int64) *vp.J {
		return more(vp.O("hashes", vp.O("sha256", vp.S("00112233445566778899aabbccddeeff00112233445566778899aabbccddeeff")), "length", vp.N(n)))
	}
	key := func() *vp.J {
		kj := KeyJ(k)
		kj.Put("keyval", vp.O("public", kj.Get("keyval").Get("public"), "x-more", vp.N(1)))
		return more(kj)
	}
	switch kind {
	case 0:
		r := func() *vp.J { return more(vp.O("keyids", vp.Strs("k"), "threshold", vp.N(1))) }
		signed = RootJ(vp.N(3), Later(), true, vp.O("k", key()), Roles4(r(), r(), r(), r()))
		return "root", more(signed)
	case 1:
		return "timestamp", more(TimestampJ(vp.N(3), Later(), file(9).Put("version", vp.N(2))))
	case 2:
		return "snapshot", more(SnapshotJ(vp.N(3), Later(), vp.O("d.json", Meta(vp.N(4)), "targets.json", file(9).Put("version", vp.N(2)))))
	case 3:
		d := vp.O("keyids", vp.Strs("k"), "name", vp.S("r"), "paths", vp.Strs("a/*"), "terminating", vp.B(true), "threshold", vp.N(1))
		e := vp.O("keyids", vp.Strs("k"), "name", vp.S("s"), "path_hash_prefixes", vp.Strs("abcd"), "terminating", vp.B(true), "threshold", vp.N(2))
		t := file(5).Put("custom", vp.O("z", vp.N(1)))
		return "targets", more(TargetsJ(vp.N(3), Later(), vp.O("a/b", t), more(vp.O("keys", vp.O("k", key()), "roles", vp.A(more(d), e)))))
	}
	s := more(vp.O("bit_length", vp.N(3), "keyids", vp.Strs("k"), "name_prefix", vp.S("bin"), "threshold", vp.N(1)))
	return "targets", more(TargetsJ(vp.N(3), Later(), vp.O("a/b", file(5)), more(vp.O("keys", vp.O("k", key()), "succinct_roles", s))))
}

// number is a number to put in place of n; numbers that the code under test uses as
// sizes or parts of names are chosen from a list, others in place of numbers are arbitrary.
func number(c, n *vp.J) *vp.J {
	if n.K != 2 {
		return vp.N(7)
	}
	root := c.Get("_type") != nil && c.Get("_type").S == "root"
	for _, o := range Nodes(c) {
		if o.Get("bit_length") == n || o.Get("version") == n && (o != c || root) {
			return vp.N([]int64{-1 << 40, -1, 0, 2, 3, 31, 32, 33, 63, 64, 1 << 40}[vp.Choice("size", 11)])
		}
	}
	return vp.N(vp.Int64In("number", -1<<52, 1<<52))
}

// Break returns a copy of a document in which one value, any one, is replaced by a value
// of another type or an extreme one, is missing, or is there twice.
func Break(j *vp.J, more bool) *vp.J {
	c := Deep(j)
	all := Nodes(c)
	n := all[vp.Choice("place", len(all))]
	kinds := 10
	if more {
		kinds = 16
	}
	if n.K == 6 && len(n.Keys) > 0 && vp.Bool("member") {
		k := vp.Choice("which", len(n.Keys))
		switch vp.Choice("how", 4) {
		case 0:
			n.Del(n.Keys[k])
		case 1:
			n.Keys[k] = ""
		case 2:
			n.Keys = append(n.Keys, n.Keys[k])
			n.Vals = append(n.Vals, vp.Null())
		case 3:
			n.Keys = append([]string{n.Keys[k]}, n.Keys...)
			n.Vals = append([]*vp.J{vp.A()}, n.Vals...)
		}
		return c
	}
	if n.K == 5 && len(n.Vals) > 0 && vp.Bool("twice") {
		n.Vals = append(n.Vals, Deep(n.Vals[0]))
		return c
	}
	switch vp.Choice("value", kinds) {
	case 0:
		*n = *vp.Null()
	case 1:
		*n = *vp.B(vp.Bool("flag"))
	case 2:
		*n = *number(c, n)
	case 3:
		*n = *vp.S("")
	case 4:
		*n = *vp.S("zz")
	case 5:
		*n = *vp.A()
	case 6:
		*n = *vp.O()
	case 7:
		*n = *vp.A(vp.Null())
	case 8:
		*n = *vp.O("", vp.Null())
	case 9:
		*n = *vp.Lit([]string{"9223372036854775807", "-9223372036854775808", "1e400", "1.5", "99999999999999999999"}[vp.Choice("literal", 5)])
	case 10:
		*n = *vp.S([]string{"[", "\\", "a", "0", "root", "../x", "%", "*"}[vp.Choice("text", 8)])
	case 11:
		*n = *vp.A(vp.A())
	case 12:
		*n = *vp.A(vp.O())
	case 13:
		*n = *vp.O("x", vp.O())
	case 14:
		*n = *vp.O("x", vp.N(1), "y", vp.S("y"))
	case 15:
		*n = *vp.A(vp.S(""), vp.S(""))
	}
	return c
}
