package main

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Value is one of: *Term (bool, ints), float64, *Str, *Value (pointer),
// Struct, Array, Slice, *Map, Iface, *Closure, Tuple, *Native, *mapIter, *strIter
type Value = any

type Struct []Value
type Array []Value
type Tuple []Value

type Slice struct {
	a    []Value
	nil_ bool
	blob *Blob
}

type Iface struct {
	t types.Type // nil for nil interface
	v Value
}

type Closure struct {
	fn  *ssa.Function
	env []Value
	bi  *ssa.Builtin
}

type Native struct{ v any }

type Map struct {
	keys []Value
	vals []Value
	id   int
}

// Str is an immutable string: concrete (b==nil, rope==nil), symbolic bytes, or a
// rope with lazily rendered pieces.
type Str struct {
	s    string
	b    []*Term
	rope []seg
}

type seg struct {
	str  *Str  // non-rope piece
	dec  *Term // decimal rendering of a signed (or unsigned) integer
	uns  bool
	opq  string // opaque text
	blob *Blob
	t    bool // RFC3339 rendering of a time (opaque, identified by dec)
}

// Blob is the content of a JSON document held as a tree.
type Blob struct {
	tree  *JNode
	fmt   int     // 0 compact, 1 canonical, 2 indented
	lenT  *Term   // explicit length (truncated or placeholder buffers)
	trunc bool    // a proper prefix of a document: not valid JSON
	raw   []Value // the bytes, once they have been written to: every slice of it sees them
}

type Chan struct {
	buf    []Value
	closed bool
}

type mapIter struct {
	m    *Map
	keys []Value
	i    int
}
type strIter struct {
	s *Str
	i int
}

func derefType(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func intInfo(t types.Type) (w uint8, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (in *Interp) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, _, ok := intInfo(u); ok {
			if w == 0 {
				return in.c.False
			}
			return in.c.BV(0, w)
		}
		if u.Info()&types.IsString != 0 {
			return emptyStr
		}
		if u.Info()&types.IsFloat != 0 {
			return float64(0)
		}
		if u.Kind() == types.UnsafePointer {
			return (*Value)(nil)
		}
		if u.Kind() == types.UntypedNil {
			return Iface{}
		}
		if u.Info()&types.IsComplex != 0 {
			return complex128(0)
		}
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = in.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		n := int(u.Len())
		s := make(Array, n)
		if n > 0 {
			z := in.zero(u.Elem())
			for i := range s {
				if i == 0 {
					s[i] = z
				} else {
					s[i] = copyVal(z)
				}
			}
		}
		return s
	case *types.Slice:
		return Slice{nil_: true}
	case *types.Map:
		return (*Map)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Tuple:
		s := make(Tuple, u.Len())
		for i := range s {
			s[i] = in.zero(u.At(i).Type())
		}
		return s
	case *types.TypeParam:
		panic(unsupported("zero of type parameter"))
	}
	panic(unsupported(fmt.Sprintf("zero value of %s", t)))
}

func copyVal(v Value) Value {
	switch v := v.(type) {
	case Struct:
		n := make(Struct, len(v))
		for i, x := range v {
			n[i] = copyVal(x)
		}
		return n
	case Array:
		n := make(Array, len(v))
		for i, x := range v {
			n[i] = copyVal(x)
		}
		return n
	}
	return v
}

var emptyStr = &Str{}

func cstr(s string) *Str {
	if s == "" {
		return emptyStr
	}
	return &Str{s: s}
}

func (in *Interp) strFromBytes(b []*Term) *Str {
	if len(b) == 0 {
		return emptyStr
	}
	for _, t := range b {
		if t.op != OConst {
			return &Str{b: b}
		}
	}
	bs := make([]byte, len(b))
	for i, t := range b {
		bs[i] = byte(t.val)
	}
	return &Str{s: string(bs)}
}

func (s *Str) concrete() bool { return s.b == nil && s.rope == nil }

func (in *Interp) force(s *Str) *Str {
	if s.rope == nil {
		return s
	}
	var out []*Term
	for _, g := range s.rope {
		switch {
		case g.str != nil:
			out = append(out, in.bytesOf(g.str)...)
		case g.opq != "":
			panic(unsupported("content of opaque string " + g.opq + in.where()))
		case g.blob != nil:
			out = append(out, in.sliceBytes(Slice{blob: g.blob})...)
		case g.t:
			out = append(out, in.bytesOf(in.pinStr(&Str{rope: []seg{g}}))...)
		default:
			v := in.concretize(g.dec, 64)
			var txt string
			if g.uns {
				txt = fmt.Sprint(v)
			} else {
				txt = fmt.Sprint(sx(v, g.dec.w))
			}
			for i := 0; i < len(txt); i++ {
				out = append(out, in.c.bytesC[txt[i]])
			}
		}
	}
	r := in.strFromBytes(out)
	*s = *r
	return s
}

func (in *Interp) bytesOf(s *Str) []*Term {
	if s.rope != nil {
		s = in.force(s)
	}
	if s.b != nil {
		return s.b
	}
	b := make([]*Term, len(s.s))
	for i := 0; i < len(s.s); i++ {
		b[i] = in.c.bytesC[s.s[i]]
	}
	return b
}

func (in *Interp) strLen(s *Str) int {
	if s.rope != nil {
		s = in.force(s)
	}
	if s.b != nil {
		return len(s.b)
	}
	return len(s.s)
}

func (in *Interp) concat(a, b *Str) *Str {
	if a.rope == nil && a.b == nil && a.s == "" {
		return b
	}
	if b.rope == nil && b.b == nil && b.s == "" {
		return a
	}
	if a.rope != nil || b.rope != nil {
		var r []seg
		for _, x := range []*Str{a, b} {
			if x.rope != nil {
				r = append(r, x.rope...)
			} else {
				r = append(r, seg{str: x})
			}
		}
		return &Str{rope: r}
	}
	if a.b == nil && b.b == nil {
		return &Str{s: a.s + b.s}
	}
	ab, bb := in.bytesOf(a), in.bytesOf(b)
	n := make([]*Term, 0, len(ab)+len(bb))
	n = append(append(n, ab...), bb...)
	return &Str{b: n}
}

func (in *Interp) strEq(a, b *Str) *Term {
	if a == b {
		return in.c.True
	}
	if a.rope != nil || b.rope != nil {
		// opaque text never equals the empty string
		if (a.concrete() && a.s == "" && hasOpaque(b)) || (b.concrete() && b.s == "" && hasOpaque(a)) {
			return in.c.False
		}
		if a.rope != nil && b.rope != nil && len(a.rope) == len(b.rope) {
			// same shape: compare piecewise (sufficient when the pieces between
			// numbers are equal constants)
			ok := true
			acc := in.c.True
			for i := range a.rope {
				x, y := a.rope[i], b.rope[i]
				switch {
				case x.str != nil && y.str != nil && x.str.concrete() && y.str.concrete() && x.str.s == y.str.s:
				case x.dec != nil && y.dec != nil && x.dec.w == y.dec.w && x.uns == y.uns && x.t == y.t:
					acc = in.c.And(acc, in.c.Eq(x.dec, y.dec))
				case x.opq != "" && x.opq == y.opq:
				case x.blob != nil && y.blob != nil:
					acc = in.c.And(acc, in.blobEq(x.blob, y.blob))
				default:
					ok = false
				}
			}
			if ok {
				return acc
			}
		}
		if t, ok := in.timeTextEq(a, b); ok {
			return t
		}
		if t, ok := in.ropeEq(a, b); ok {
			return t
		}
		a, b = in.force(a), in.force(b)
	}
	if a.concrete() && b.concrete() {
		return in.c.B(a.s == b.s)
	}
	ab, bb := in.bytesOf(a), in.bytesOf(b)
	return in.bytesEq(ab, bb)
}

// timeTextEq compares the text of a symbolic time with a constant text.
func (in *Interp) timeTextEq(a, b *Str) (*Term, bool) {
	if b.rope != nil {
		a, b = b, a
	}
	if len(a.rope) != 1 || !a.rope[0].t || !b.concrete() {
		return nil, false
	}
	t, err := time.Parse(time.RFC3339Nano, b.s)
	if err != nil || t.UTC().Format(time.RFC3339Nano) != b.s || t.Nanosecond() != 0 {
		return in.c.False, true
	}
	return in.c.Eq(a.rope[0].dec, in.c.BV(uint64(t.Unix()), 64)), true
}

// ropeTok is one byte or one decimal number of a rope.
type ropeTok struct {
	b   *Term
	dec *Term
	uns bool
}

func (in *Interp) tokens(s *Str) ([]ropeTok, bool) {
	var out []ropeTok
	if s.rope == nil {
		for _, x := range in.bytesOf(s) {
			out = append(out, ropeTok{b: x})
		}
		return out, true
	}
	for _, g := range s.rope {
		switch {
		case g.str != nil && g.str.rope == nil:
			for _, x := range in.bytesOf(g.str) {
				out = append(out, ropeTok{b: x})
			}
		case g.dec != nil && !g.t && g.dec.w == 64:
			out = append(out, ropeTok{dec: g.dec, uns: g.uns})
		default:
			return nil, false
		}
	}
	return out, true
}

// ropeEq compares texts with numbers in them without rendering the numbers: a number
// ends at the first byte that is no digit.
func (in *Interp) ropeEq(a, b *Str) (*Term, bool) {
	x, ok := in.tokens(a)
	if !ok {
		return nil, false
	}
	y, ok := in.tokens(b)
	if !ok {
		return nil, false
	}
	isDigit := func(t ropeTok) (d, known bool) {
		if t.dec != nil {
			return true, false
		}
		if t.b.op != OConst {
			return false, false
		}
		return t.b.val >= '0' && t.b.val <= '9', true
	}
	ends := func(v []ropeTok) bool { // nothing here continues a number
		if len(v) == 0 {
			return true
		}
		d, known := isDigit(v[0])
		return known && !d
	}
	acc := in.c.True
	for len(x) > 0 && len(y) > 0 {
		if x[0].dec == nil && y[0].dec == nil {
			acc = in.c.And(acc, in.c.Eq(x[0].b, y[0].b))
			if acc == in.c.False {
				return acc, true
			}
			x, y = x[1:], y[1:]
			continue
		}
		if x[0].dec == nil {
			x, y = y, x
		}
		if !ends(x[1:]) {
			return nil, false
		}
		if y[0].dec != nil {
			if x[0].uns != y[0].uns || !ends(y[1:]) {
				return nil, false
			}
			acc = in.c.And(acc, in.c.Eq(x[0].dec, y[0].dec))
			x, y = x[1:], y[1:]
			continue
		}
		// a number against text
		txt := ""
		for len(y) > 0 && y[0].b != nil && y[0].b.op == OConst && (y[0].b.val >= '0' && y[0].b.val <= '9' || txt == "" && y[0].b.val == '-') {
			txt += string(rune(y[0].b.val))
			y = y[1:]
		}
		if !ends(y) {
			return nil, false
		}
		if x[0].uns {
			v, err := strconv.ParseUint(txt, 10, 64)
			if err != nil || strconv.FormatUint(v, 10) != txt {
				return in.c.False, true
			}
			acc = in.c.And(acc, in.c.Eq(x[0].dec, in.c.BV(v, 64)))
		} else {
			v, err := strconv.ParseInt(txt, 10, 64)
			if err != nil || strconv.FormatInt(v, 10) != txt {
				return in.c.False, true
			}
			acc = in.c.And(acc, in.c.Eq(x[0].dec, in.c.BV(uint64(v), 64)))
		}
		x = x[1:]
	}
	if len(x) > 0 || len(y) > 0 {
		return in.c.False, true
	}
	return acc, true
}

func hasOpaque(s *Str) bool {
	for _, g := range s.rope {
		if g.opq != "" || g.dec != nil || g.blob != nil {
			return true
		}
		if g.str != nil && (g.str.s != "" || g.str.b != nil) {
			return true
		}
	}
	return false
}

func (in *Interp) bytesEq(ab, bb []*Term) *Term {
	if len(ab) != len(bb) {
		return in.c.False
	}
	// cheap scan for a definite difference first
	for i := range ab {
		if ab[i].op == OConst && bb[i].op == OConst && ab[i] != bb[i] {
			return in.c.False
		}
	}
	acc := in.c.True
	for i := 0; i < len(ab); i++ {
		eq := in.c.False
		if x, y := in.hexPair(ab[i:]), in.hexPair(bb[i:]); x != nil && y != nil {
			eq = in.c.Eq(x, y) // two hexadecimal digits of one byte
			i++
		} else {
			eq = in.c.Eq(ab[i], bb[i])
		}
		acc = in.c.And(acc, eq)
		if acc == in.c.False {
			return acc
		}
	}
	return acc
}

// hexPair returns the byte whose hexadecimal digits b starts with, if they are known to
// be the two digits of one byte.
func (in *Interp) hexPair(b []*Term) *Term {
	if len(b) < 2 {
		return nil
	}
	if h, l := b[0], b[1]; h.op == OConst && l.op == OConst {
		v, err := strconv.ParseUint(string([]byte{byte(h.val), byte(l.val)}), 16, 8)
		if err != nil || fmt.Sprintf("%02x", v) != string([]byte{byte(h.val), byte(l.val)}) {
			return nil
		}
		return in.c.BV(v, 8)
	}
	h, l := in.c.nib[b[0]], in.c.nib[b[1]]
	if h == nil || l == nil || h.op != OLShr || h.b.op != OConst || h.b.val != 4 || l.op != OBAnd || l.b.op != OConst || l.b.val != 15 || h.a != l.a {
		return nil
	}
	return h.a
}

// strLess builds a < b lexicographically.
func (in *Interp) strLess(a, b *Str) *Term {
	if a.rope != nil {
		a = in.force(a)
	}
	if b.rope != nil {
		b = in.force(b)
	}
	if a.concrete() && b.concrete() {
		return in.c.B(a.s < b.s)
	}
	ab, bb := in.bytesOf(a), in.bytesOf(b)
	n := min(len(ab), len(bb))
	r := in.c.B(len(ab) < len(bb))
	for i := n - 1; i >= 0; i-- {
		r = in.c.Ite(in.c.Eq(ab[i], bb[i]), r, in.c.Bin(OULt, ab[i], bb[i]))
	}
	return r
}

func (in *Interp) substr(s *Str, lo, hi int) *Str {
	if s.rope != nil {
		s = in.force(s)
	}
	if s.b != nil {
		return in.strFromBytes(s.b[lo:hi])
	}
	return cstr(s.s[lo:hi])
}

func (in *Interp) sliceBytes(s Slice) []*Term {
	if s.blob != nil {
		if b, ok := in.pinned(s.blob); ok {
			return b
		}
		panic(unsupported("byte content of a symbolic JSON document"))
	}
	b := make([]*Term, len(s.a))
	for i, v := range s.a {
		b[i] = v.(*Term)
	}
	return b
}

func (in *Interp) mkBytes(b []*Term) Slice {
	a := make([]Value, len(b))
	for i, t := range b {
		a[i] = t
	}
	return Slice{a: a}
}
func (in *Interp) mkBytesC(b []byte) Slice {
	a := make([]Value, len(b))
	for i, t := range b {
		a[i] = in.c.bytesC[t]
	}
	return Slice{a: a}
}

// concBytes returns the concrete content of a byte slice.
func (in *Interp) concBytes(s Slice) ([]byte, bool) {
	if s.blob != nil {
		bt, ok := in.blobBytes(s.blob)
		if !ok {
			return nil, false
		}
		b := make([]byte, len(bt))
		for i, t := range bt {
			if t.op != OConst {
				return nil, false
			}
			b[i] = byte(t.val)
		}
		return b, true
	}
	b := make([]byte, len(s.a))
	for i, v := range s.a {
		t := v.(*Term)
		if t.op != OConst {
			return nil, false
		}
		b[i] = byte(t.val)
	}
	return b, true
}

// ropeLen is the length of a text with numbers in it, nil if it isn't one.
func (in *Interp) ropeLen(s *Str) *Term {
	if s.rope == nil {
		return nil
	}
	n := uint64(0)
	var sum *Term
	for _, g := range s.rope {
		switch {
		case g.str != nil && g.str.rope == nil:
			n += uint64(in.strLen(g.str))
		case g.dec != nil && !g.t && g.opq == "" && g.blob == nil:
			d := in.decLen(g.dec, g.uns)
			if sum == nil {
				sum = d
			} else {
				sum = in.c.Bin(OAdd, sum, d)
			}
		default:
			return nil
		}
	}
	if sum == nil {
		return nil
	}
	return in.c.Bin(OAdd, sum, in.c.BV(n, 64))
}

// decLen is the number of characters of a number's decimal text.
func (in *Interp) decLen(t *Term, uns bool) *Term {
	c := in.c
	one := c.BV(1, 64)
	if uns {
		t = c.ZExt(t, 64)
	} else {
		t = c.SExt(t, 64)
	}
	mag, neg := t, c.False
	if !uns {
		neg = c.Bin(OSLt, t, c.BV(0, 64))
		mag = c.Ite(neg, c.Neg(t), t)
	}
	n := c.BV(20, 64)
	p := uint64(10000000000000000000)
	for d := uint64(19); d >= 1; d-- {
		n = c.Ite(c.Bin(OULt, mag, c.BV(p, 64)), c.BV(d, 64), n)
		p /= 10
	}
	return c.Bin(OAdd, n, c.Ite(neg, one, c.BV(0, 64)))
}

func (in *Interp) lenTerm(v Value) *Term {
	switch v := v.(type) {
	case *Str:
		if bl := strBlob(v); bl != nil {
			return in.blobLen(bl)
		}
		if t := in.ropeLen(v); t != nil {
			return t
		}
		return in.c.BV(uint64(in.strLen(v)), 64)
	case Slice:
		if v.blob != nil {
			return in.blobLen(v.blob)
		}
		return in.c.BV(uint64(len(v.a)), 64)
	case *Map:
		if v == nil {
			return in.c.BV(0, 64)
		}
		return in.c.BV(uint64(len(v.keys)), 64)
	case Array:
		return in.c.BV(uint64(len(v)), 64)
	case *Value:
		return in.lenTerm(*v)
	case *Chan:
		if v == nil {
			return in.c.BV(0, 64)
		}
		return in.c.BV(uint64(len(v.buf)), 64)
	}
	panic(unsupported(fmt.Sprintf("len of %T", v)))
}

// equal builds the condition x == y for values of static type t.
func (in *Interp) equal(t types.Type, x, y Value) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch xv := x.(type) {
		case *Term:
			return in.c.Eq(xv, y.(*Term))
		case *Str:
			return in.strEq(xv, y.(*Str))
		case float64:
			if ys, ok := y.(*SymFloat); ok {
				return in.equal(t, ys, xv)
			}
			return in.c.B(xv == y.(float64))
		case *SymFloat:
			switch yv := y.(type) {
			case *SymFloat:
				return in.c.Eq(xv.n, yv.n)
			case float64:
				if yv != math.Trunc(yv) {
					return in.c.False
				}
				return in.c.Eq(xv.n, in.c.BV(uint64(int64(yv)), 64))
			}
		case *Value:
			return in.c.B(xv == y.(*Value))
		case Iface:
			return in.c.B(xv.t == nil && y.(Iface).t == nil)
		}
	case *types.Pointer:
		return in.c.B(ptrEq(x, y))
	case *types.Chan:
		return in.c.B(x.(*Chan) == y.(*Chan))
	case *types.Interface:
		xi, yi := x.(Iface), y.(Iface)
		if xi.t == nil || yi.t == nil {
			return in.c.B(xi.t == nil && yi.t == nil)
		}
		if !types.Identical(xi.t, yi.t) {
			return in.c.False
		}
		if !types.Comparable(xi.t) {
			in.rtPanic("comparing uncomparable type " + xi.t.String())
		}
		return in.equal(xi.t, xi.v, yi.v)
	case *types.Struct:
		acc := in.c.True
		xs, ys := x.(Struct), y.(Struct)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == "_" {
				continue
			}
			acc = in.c.And(acc, in.equal(u.Field(i).Type(), xs[i], ys[i]))
			if acc == in.c.False {
				break
			}
		}
		return acc
	case *types.Array:
		acc := in.c.True
		xs, ys := x.(Array), y.(Array)
		for i := range xs {
			acc = in.c.And(acc, in.equal(u.Elem(), xs[i], ys[i]))
			if acc == in.c.False {
				break
			}
		}
		return acc
	case *types.Slice:
		xs, ys := x.(Slice), y.(Slice)
		return in.c.B(xs.nil_ && ys.nil_)
	case *types.Map:
		return in.c.B(x.(*Map) == y.(*Map))
	case *types.Signature:
		return in.c.B(x.(*Closure) == y.(*Closure))
	}
	panic(unsupported(fmt.Sprintf("equality on %s (%T)", t, x)))
}

func ptrEq(x, y Value) bool {
	px, ok1 := x.(*Value)
	py, ok2 := y.(*Value)
	if ok1 && ok2 {
		return px == py
	}
	nx, ok3 := x.(*Native)
	ny, ok4 := y.(*Native)
	if ok3 && ok4 {
		return nx.v == ny.v
	}
	return false
}

func (in *Interp) show(v Value) string { return in.showD(v, 4) }
func (in *Interp) showD(v Value, d int) string {
	if d == 0 {
		return "…"
	}
	switch v := v.(type) {
	case nil:
		return "<nil>"
	case *Term:
		return v.String()
	case *Str:
		if v.rope != nil {
			var sb strings.Builder
			for _, g := range v.rope {
				switch {
				case g.str != nil:
					sb.WriteString(in.showD(g.str, d))
				case g.opq != "":
					sb.WriteString("<" + g.opq + ">")
				case g.blob != nil:
					sb.WriteString("<json>")
				default:
					sb.WriteString("{" + g.dec.String() + "}")
				}
			}
			return sb.String()
		}
		if v.b != nil {
			var sb strings.Builder
			for _, t := range v.b {
				if t.op == OConst {
					sb.WriteByte(byte(t.val))
				} else {
					sb.WriteString("‹" + t.String() + "›")
				}
			}
			return sb.String()
		}
		return v.s
	case Struct:
		var p []string
		for _, x := range v {
			p = append(p, in.showD(x, d-1))
		}
		return "{" + strings.Join(p, " ") + "}"
	case Slice:
		if v.blob != nil {
			return "<json>"
		}
		return fmt.Sprintf("slice[%d]", len(v.a))
	case Iface:
		if v.t == nil {
			return "nil"
		}
		return fmt.Sprintf("%s(%s)", v.t, in.showD(v.v, d-1))
	case *Value:
		if v == nil {
			return "nil"
		}
		return "&" + in.showD(*v, d-1)
	}
	return fmt.Sprintf("%T", v)
}
