// Package c11: which target paths a delegation covers.
package c11

import (
	"encoding/base64"

	"github.com/rdimitrov/go-tuf-metadata/metadata"
	"github.com/rdimitrov/go-tuf-metadata/zzverif/vp"
)

// token is one element of a pattern: a set of characters or "any sequence".
type token struct {
	star   bool
	any    bool
	neg    bool
	lo, hi []byte
}

func (t *token) has(c byte) bool {
	if t.any {
		return true
	}
	in := false
	for i := range t.lo {
		if t.lo[i] <= c && c <= t.hi[i] {
			in = true
		}
	}
	return in != t.neg
}

// parse reads a pattern without slashes.
func parse(p string) (ts []token, ok bool) {
	i := 0
	char := func() (byte, bool) { // one character of a class
		if i >= len(p) || p[i] == '-' || p[i] == ']' {
			return 0, false
		}
		if p[i] == '\\' {
			i++
			if i >= len(p) {
				return 0, false
			}
		}
		c := p[i]
		i++
		return c, true
	}
	for i < len(p) {
		switch p[i] {
		case '*':
			ts = append(ts, token{star: true})
			i++
		case '?':
			ts = append(ts, token{any: true})
			i++
		case '\\':
			if i+1 >= len(p) {
				return nil, false
			}
			ts = append(ts, token{lo: []byte{p[i+1]}, hi: []byte{p[i+1]}})
			i += 2
		case '[':
			i++
			t := token{}
			if i < len(p) && p[i] == '^' {
				t.neg = true
				i++
			}
			for {
				if i < len(p) && p[i] == ']' && len(t.lo) > 0 {
					i++
					break
				}
				lo, ok := char()
				if !ok {
					return nil, false
				}
				hi := lo
				if i < len(p) && p[i] == '-' {
					i++
					if hi, ok = char(); !ok {
						return nil, false
					}
				}
				t.lo, t.hi = append(t.lo, lo), append(t.hi, hi)
			}
			ts = append(ts, t)
		default:
			ts = append(ts, token{lo: []byte{p[i]}, hi: []byte{p[i]}})
			i++
		}
	}
	return ts, true
}

func match(ts []token, s string) bool {
	if len(ts) == 0 {
		return s == ""
	}
	if ts[0].star {
		for k := 0; k <= len(s); k++ {
			if match(ts[1:], s[k:]) {
				return true
			}
		}
		return false
	}
	return s != "" && ts[0].has(s[0]) && match(ts[1:], s[1:])
}

func split(s string) (parts []string) {
	from := 0
	for i := 0; i < len(s); i++ {
		if s[i] == '/' {
			parts = append(parts, s[from:i])
			from = i + 1
		}
	}
	return append(parts, s[from:])
}

// covers is the specified meaning of a pattern.
func covers(pattern, path string) bool {
	pp, sp := split(pattern), split(path)
	if len(pp) != len(sp) {
		return false
	}
	for i := range pp {
		ts, ok := parse(pp[i])
		if !ok || !match(ts, sp[i]) {
			return false
		}
	}
	return true
}

func check(patterns []string, path string) {
	r := &metadata.DelegatedRole{Name: "r", Paths: patterns}
	got, err := r.IsDelegatedPath(path)
	want := false
	for _, p := range patterns {
		if covers(p, path) {
			want = true
			break
		}
	}
	vp.Log(got, err == nil)
	vp.Assert(err == nil, "no-error")
	vp.Assert(got == want, "covered-iff-a-pattern-matches")
	if want {
		vp.Reach("covered")
	} else {
		vp.Reach("not covered")
	}
	// the same through the delegating metadata
	ds := &metadata.Delegations{Roles: []metadata.DelegatedRole{*r}}
	n := len(ds.GetRolesForTarget(path))
	vp.Assert((n == 1) == want && n <= 1, "responsible-iff-covered")
}

// CheckLiteral: literals, separators, '*' and '?'.
func CheckLiteral() {
	path := vp.StrIn("path", vp.Choice("pathlen", 4), "ab/")
	pat := vp.StrIn("pat", vp.Choice("patlen", 4), "ab/*?")
	check([]string{pat}, path)
}

// CheckClass: character classes and escapes in one component.
func CheckClass() {
	path := vp.StrIn("path", vp.Choice("pathlen", 2)+1, "ab][")
	pat := vp.StrIn("pat", vp.Choice("patlen", 5), "ab[]^-\\")
	check([]string{pat}, path)
}

// CheckSeparator: no wildcard or class matches a separator.
func CheckSeparator() {
	path := vp.StrIn("path", 3, "a/")
	pat := vp.StrIn("pat", vp.Pick(3, 4), "a/*?[]^")
	check([]string{pat}, path)
}

// CheckClassSeparator: neither a class nor its complement matches a separator.
func CheckClassSeparator() {
	class := "["
	if vp.Bool("neg") {
		class += "^"
	}
	if vp.Bool("range") {
		class += vp.StrIn("lo", 1, "a!") + "-" + vp.StrIn("hi", 1, "b~")
	} else {
		class += vp.StrIn("class", 1+vp.Choice("classlen", 2), "ab\\")
	}
	class += "]"
	pat := vp.StrIn("pre", vp.Choice("prelen", 2), "a*/") + class + vp.StrIn("post", vp.Choice("postlen", 2), "a?/")
	path := vp.StrIn("path", 1+vp.Choice("pathlen", vp.Pick(3, 4)), "ac/")
	check([]string{pat}, path)
}

// CheckSeveral: any of several patterns suffices.
func CheckSeveral() {
	path := vp.StrIn("path", vp.Choice("pathlen", 2)+1, "ab[")
	n := vp.Choice("patterns", 4)
	var ps []string
	for i := 0; i < n; i++ {
		ps = append(ps, vp.StrIn("pat", 1+vp.Choice("patlen", 2), "a*["))
	}
	check(ps, path)
}

// CheckLong: longer patterns.
func CheckLong() {
	path := vp.StrIn("path", 4+vp.Choice("pathlen", vp.Pick(2, 3)), "ab/")
	pat := vp.StrIn("pat", vp.Choice("patlen", vp.Pick(6, 7)), "ab/*?")
	check([]string{pat}, path)
}

// CheckClassLong: longer classes.
func CheckClassLong() {
	path := vp.StrIn("path", vp.Choice("pathlen", 2)+1, "ab]-")
	pat := vp.StrIn("pat", 5+vp.Choice("patlen", vp.Pick(1, 3)), "ab[]^-\\*")
	check([]string{pat}, path)
}

// CheckBytes: every byte value of a path against wildcards and classes.
func CheckBytes() {
	c := vp.Byte("c")
	vp.Assume(c < 0x80 && c != '/')
	pat := []string{"?", "[b-y]", "[^b-y]", "*", "b", "[b-dx]", "x?", "?*"}[vp.Choice("pat", 8)]
	if vp.Bool("pair") {
		check([]string{pat}, string([]byte{'x', c}))
		return
	}
	check([]string{pat}, string([]byte{c}))
}

// CheckPrefix: delegations by the prefix of the path's digest.
func CheckPrefix() {
	path := vp.HashedPath([]string{"p/", "/", "./", "P//", " %2F"}[vp.Choice("kind", 5)], 16)
	n := 1 + vp.Choice("prefixes", 2)
	var ps []string
	for i := 0; i < n; i++ {
		ps = append(ps, vp.StrIn("prefix", 1+vp.Choice("len", 2), "0123456789abcdefABCDEFGHyz-"))
	}
	r := &metadata.DelegatedRole{Name: "r", PathHashPrefixes: ps}
	got, err := r.IsDelegatedPath(path)
	vp.Assert(err == nil, "no-error")
	d := vp.SHA256([]byte(path))
	hex, other := vp.Hex(d), base64.URLEncoding.EncodeToString(d)
	isHex, isOther := false, false
	for _, p := range ps {
		if hex[:len(p)] == p {
			isHex = true
		}
		if other[:len(p)] == p {
			isOther = true
		}
	}
	vp.Log(got)
	vp.Assert(got == isHex || got == isOther, "some-text-prefix-of-digest")
	vp.Assert(got == isHex, "hex-prefix-of-digest")
	if got {
		vp.Reach("prefix matches")
	} else {
		vp.Reach("prefix doesn't match")
	}
}

// CheckRoles: the responsible roles of a list, in its order, with their flags.
func CheckRoles() {
	path := vp.StrIn("path", 1+vp.Choice("pathlen", 2), "ab/")
	names := []string{"z", "y", "x"}
	var rs []metadata.DelegatedRole
	var want []metadata.RoleResult
	n := 1 + vp.Choice("roles", 3)
	for i := 0; i < n; i++ {
		r := metadata.DelegatedRole{Name: names[i], Terminating: vp.Bool("terminating")}
		for k := vp.Choice("patterns", 3); k > 0; k-- {
			r.Paths = append(r.Paths, vp.StrIn("pat", 1, "ab*?"))
		}
		rs = append(rs, r)
	}
	got := (&metadata.Delegations{Roles: rs}).GetRolesForTarget(path)
	for _, r := range rs {
		for _, p := range r.Paths {
			if covers(p, path) {
				want = append(want, metadata.RoleResult{Name: r.Name, Terminating: r.Terminating})
				break
			}
		}
	}
	vp.Log(len(got))
	vp.Assert(len(got) == len(want), "exactly-the-responsible-roles")
	for i := range want {
		if i < len(got) {
			vp.Assert(got[i] == want[i], "responsible-roles-in-order")
			vp.Reach("role listed")
		}
	}
}
