package main

// Hash-consed SMT terms: booleans (w==0) and bit-vectors (1<=w<=64).

import (
	"fmt"
	"math/bits"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OShl
	OLShr
	OAShr
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OULt
	OULe
	OSLt
	OSLe
	OZExt
	OSExt
	OExtract // low w bits starting at bit val
)

var opName = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul",
	OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr", OBAnd: "bvand",
	OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot", ONeg: "bvneg", OULt: "bvult", OULe: "bvule", OSLt: "bvslt", OSLe: "bvsle"}

type Term struct {
	op      Op
	w       uint8 // 0 = Bool
	a, b, c *Term
	val     uint64
	name    string
	id      int32
	// bounds (unsigned) known for the value
	umax uint64
	umin uint64
}

type tkey struct {
	op      Op
	w       uint8
	a, b, c int32
	val     uint64
	name    string
}

type Ctx struct {
	tab    map[tkey]*Term
	next   int32
	True   *Term
	False  *Term
	bytesC [256]*Term
	vars   []*Term
	nib    map[*Term]*Term    // lower-case hexadecimal digits and their values
	rng    map[*Term][2]int64 // bounds assumed of variables on the current path
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[tkey]*Term{}, nib: map[*Term]*Term{}, rng: map[*Term][2]int64{}}
	c.False = c.mk(OConst, 0, nil, nil, nil, 0, "")
	c.True = c.mk(OConst, 0, nil, nil, nil, 1, "")
	for i := range c.bytesC {
		c.bytesC[i] = c.mk(OConst, 8, nil, nil, nil, uint64(i), "")
	}
	return c
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	if w == 0 {
		return 1
	}
	return (uint64(1) << w) - 1
}

func sx(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

func tid(t *Term) int32 {
	if t == nil {
		return -1
	}
	return t.id
}

func (c *Ctx) mk(op Op, w uint8, a, b, d *Term, val uint64, name string) *Term {
	k := tkey{op, w, tid(a), tid(b), tid(d), val, name}
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := &Term{op: op, w: w, a: a, b: b, c: d, val: val, name: name, id: c.next}
	c.next++
	m := mask(w)
	t.umax = m
	switch op {
	case OConst:
		t.umax = val
		t.umin = val
	case OZExt:
		t.umax = a.umax
		t.umin = a.umin
	case OIte:
		if w > 0 {
			t.umax = max(b.umax, d.umax)
			t.umin = min(b.umin, d.umin)
		}
	case OBAnd:
		t.umax = min(a.umax, b.umax)
	case OURem:
		if b.op == OConst && b.val > 0 {
			t.umax = min(a.umax, b.val-1)
		}
	case OUDiv:
		if b.op == OConst && b.val > 0 {
			t.umax = a.umax / b.val
		}
	case OLShr:
		if b.op == OConst && b.val < 64 {
			t.umax = a.umax >> b.val
		} else {
			t.umax = a.umax
		}
	case OAdd:
		if s, carry := bits.Add64(a.umax, b.umax, 0); carry == 0 && s <= m {
			t.umax = s
			t.umin = a.umin + b.umin
		}
	case OExtract:
		if val == 0 && a.umax < m {
			t.umax = a.umax
		}
	}
	if t.umax > m {
		t.umax = m
	}
	c.tab[k] = t
	if op == OVar {
		c.vars = append(c.vars, t)
	}
	return t
}

func (t *Term) IsConst() bool { return t.op == OConst }
func (t *Term) Bool() bool    { return t.val != 0 }
func (t *Term) Signed() int64 { return sx(t.val, t.w) }

func (c *Ctx) BV(v uint64, w uint8) *Term {
	v &= mask(w)
	if w == 8 {
		return c.bytesC[v]
	}
	return c.mk(OConst, w, nil, nil, nil, v, "")
}
func (c *Ctx) B(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}
func (c *Ctx) Var(name string, w uint8) *Term { return c.mk(OVar, w, nil, nil, nil, 0, name) }

func (c *Ctx) Not(a *Term) *Term {
	if a.op == OConst {
		return c.B(a.val == 0)
	}
	if a.op == ONot {
		return a.a
	}
	return c.mk(ONot, 0, a, nil, nil, 0, "")
}

func (c *Ctx) And(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.op == OConst {
		if a.val == 0 {
			return a
		}
		return b
	}
	if b.op == OConst {
		if b.val == 0 {
			return b
		}
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return c.False
	}
	// absorption on left spine
	if a.op == OAnd && (a.a == b || a.b == b) {
		return a
	}
	if b.op == OAnd && (b.a == a || b.b == a) {
		return b
	}
	return c.mk(OAnd, 0, a, b, nil, 0, "")
}

func (c *Ctx) Or(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.op == OConst {
		if a.val != 0 {
			return a
		}
		return b
	}
	if b.op == OConst {
		if b.val != 0 {
			return b
		}
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return c.True
	}
	if a.op == OOr && (a.a == b || a.b == b) {
		return a
	}
	if b.op == OOr && (b.a == a || b.b == a) {
		return b
	}
	return c.mk(OOr, 0, a, b, nil, 0, "")
}

func (c *Ctx) Implies(a, b *Term) *Term { return c.Or(c.Not(a), b) }

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d", a.w, b.w))
	}
	if a.op == OConst && b.op == OConst {
		return c.B(a.val == b.val)
	}
	if a.op == OConst {
		a, b = b, a
	}
	if a.w == 0 {
		if b.op == OConst {
			if b.val != 0 {
				return a
			}
			return c.Not(a)
		}
		if a.id > b.id {
			a, b = b, a
		}
		return c.mk(OEq, 0, a, b, nil, 0, "")
	}
	if a.w == 8 {
		if n := c.nib[a]; n != nil {
			if b.op == OConst {
				switch {
				case b.val >= '0' && b.val <= '9':
					return c.Eq(n, c.BV(b.val-'0', 8))
				case b.val >= 'a' && b.val <= 'f':
					return c.Eq(n, c.BV(b.val-'a'+10, 8))
				}
				return c.False
			}
			if m := c.nib[b]; m != nil {
				return c.Eq(n, m)
			}
		}
	}
	if b.op == OConst {
		if b.val > a.umax || b.val < a.umin {
			return c.False
		}
		switch a.op {
		case OIte:
			// push equality with constants into ite when a branch is constant
			if a.b.op == OConst || a.c.op == OConst {
				return c.Ite(a.a, c.Eq(a.b, b), c.Eq(a.c, b))
			}
		case OZExt:
			return c.Eq(a.a, c.BV(b.val, a.a.w))
		case OSExt:
			if sx(b.val&mask(a.a.w), a.a.w) != sx(b.val, a.w) {
				return c.False
			}
			return c.Eq(a.a, c.BV(b.val, a.a.w))
		case OAdd:
			if a.b.op == OConst {
				return c.Eq(a.a, c.BV(b.val-a.b.val, a.w))
			}
		}
	} else if a.op == OIte && b.op == OIte && a.a == b.a {
		return c.Ite(a.a, c.Eq(a.b, b.b), c.Eq(a.c, b.c))
	} else if a.op == OZExt && b.op == OZExt && a.a.w == b.a.w {
		return c.Eq(a.a, b.a)
	}
	if a.id > b.id && b.op != OConst {
		a, b = b, a
	}
	return c.mk(OEq, 0, a, b, nil, 0, "")
}

func (c *Ctx) Ite(cond, a, b *Term) *Term {
	if cond.op == OConst {
		if cond.val != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a.op == OConst && b.op == OConst {
			if a.val != 0 {
				return cond
			}
			return c.Not(cond)
		}
		if a.op == OConst {
			if a.val != 0 {
				return c.Or(cond, b)
			}
			return c.And(c.Not(cond), b)
		}
		if b.op == OConst {
			if b.val != 0 {
				return c.Or(c.Not(cond), a)
			}
			return c.And(cond, a)
		}
	}
	if cond.op == ONot {
		return c.Ite(cond.a, b, a)
	}
	if a.op == OIte && a.a == cond {
		a = a.b
	}
	if b.op == OIte && b.a == cond {
		b = b.c
	}
	if a == b {
		return a
	}
	return c.mk(OIte, a.w, cond, a, b, 0, "")
}

func foldBin(op Op, x, y uint64, w uint8) (uint64, bool) {
	m := mask(w)
	switch op {
	case OAdd:
		return (x + y) & m, true
	case OSub:
		return (x - y) & m, true
	case OMul:
		return (x * y) & m, true
	case OUDiv:
		if y == 0 {
			return m, true
		}
		return x / y, true
	case OURem:
		if y == 0 {
			return x, true
		}
		return x % y, true
	case OSDiv:
		sxx, sy := sx(x, w), sx(y, w)
		if sy == 0 {
			if sxx >= 0 {
				return m, true
			}
			return 1, true
		}
		if sy == -1 {
			return uint64(-sxx) & m, true
		}
		return uint64(sxx/sy) & m, true
	case OSRem:
		sxx, sy := sx(x, w), sx(y, w)
		if sy == 0 {
			return x, true
		}
		if sy == -1 {
			return 0, true
		}
		return uint64(sxx%sy) & m, true
	case OShl:
		if y >= uint64(w) {
			return 0, true
		}
		return (x << y) & m, true
	case OLShr:
		if y >= uint64(w) {
			return 0, true
		}
		return x >> y, true
	case OAShr:
		s := sx(x, w)
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(s>>y) & m, true
	case OBAnd:
		return x & y, true
	case OBOr:
		return x | y, true
	case OBXor:
		return x ^ y, true
	case OULt:
		return b2u(x < y), true
	case OULe:
		return b2u(x <= y), true
	case OSLt:
		return b2u(sx(x, w) < sx(y, w)), true
	case OSLe:
		return b2u(sx(x, w) <= sx(y, w)), true
	}
	return 0, false
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (c *Ctx) Bin(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("Bin %s width mismatch %d %d", opName[op], a.w, b.w))
	}
	w := a.w
	rw := w
	switch op {
	case OULt, OULe, OSLt, OSLe:
		rw = 0
	}
	if a.op == OConst && b.op == OConst {
		v, _ := foldBin(op, a.val, b.val, w)
		if rw == 0 {
			return c.B(v != 0)
		}
		return c.BV(v, rw)
	}
	switch op {
	case OAdd:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.val == 0 {
				return a
			}
			if a.op == OAdd && a.b.op == OConst {
				return c.Bin(OAdd, a.a, c.BV(a.b.val+b.val, w))
			}
			if a.op == OIte && a.b.op == OConst && a.c.op == OConst {
				return c.Ite(a.a, c.BV(a.b.val+b.val, w), c.BV(a.c.val+b.val, w))
			}
		}
	case OSub:
		if a == b {
			return c.BV(0, w)
		}
		if b.op == OConst {
			return c.Bin(OAdd, a, c.BV(-b.val, w))
		}
		// (x + c) - x
		if a.op == OAdd && a.a == b {
			return a.b
		}
	case OMul:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.val == 0 {
				return b
			}
			if b.val == 1 {
				return a
			}
		}
	case OBAnd:
		if a.op == OConst {
			a, b = b, a
		}
		if a == b {
			return a
		}
		if b.op == OConst {
			if b.val == 0 {
				return b
			}
			if b.val == mask(w) {
				return a
			}
			// mask that covers the known range
			if b.val&(b.val+1) == 0 && a.umax <= b.val {
				return a
			}
		}
	case OBOr, OBXor:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst && b.val == 0 {
			return a
		}
		if a == b {
			if op == OBOr {
				return a
			}
			return c.BV(0, w)
		}
		// (x>>4)<<4 | x&15
		if w == 8 && a.op == OShl && a.b.op == OConst && a.b.val == 4 && a.a.op == OLShr && a.a.b.op == OConst && a.a.b.val == 4 &&
			b.op == OBAnd && b.b.op == OConst && b.b.val == 15 && b.a == a.a.a {
			return b.a
		}
	case OShl, OLShr, OAShr:
		if b.op == OConst && b.val == 0 {
			return a
		}
		if b.op == OConst && b.val >= uint64(w) && op != OAShr {
			return c.BV(0, w)
		}
		if op == OLShr && b.op == OConst && b.val < 64 && a.umax>>b.val == 0 {
			return c.BV(0, w)
		}
	case OULt:
		if a == b {
			return c.False
		}
		if a.umax < b.umin {
			return c.True
		}
		if a.umin >= b.umax {
			return c.False
		}
		if b.op == OConst && b.val == 0 {
			return c.False
		}
		if a.op == OConst && b.umax <= a.val {
			return c.False
		}
		if a.op == OZExt && b.op == OZExt && a.a.w == b.a.w {
			return c.Bin(OULt, a.a, b.a)
		}
	case OULe:
		if a == b {
			return c.True
		}
		if a.umax <= b.umin {
			return c.True
		}
		if a.umin > b.umax {
			return c.False
		}
		if a.op == OConst && a.val == 0 {
			return c.True
		}
		if a.op == OConst && b.umax < a.val {
			return c.False
		}
	case OSLt:
		if a == b {
			return c.False
		}
		if t := c.linear(op, a, b); t != nil {
			return t
		}
		half := uint64(1) << (w - 1)
		if a.umax < half && b.umax < half { // both non-negative
			return c.Bin(OULt, a, b)
		}
		if a.umax < half && b.op == OConst && b.val >= half {
			return c.False
		}
		if b.umax < half && a.op == OConst && a.val >= half {
			return c.True
		}
	case OSLe:
		if a == b {
			return c.True
		}
		if t := c.linear(op, a, b); t != nil {
			return t
		}
		half := uint64(1) << (w - 1)
		if a.umax < half && b.umax < half {
			return c.Bin(OULe, a, b)
		}
		if a.umax < half && b.op == OConst && b.val >= half {
			return c.False
		}
		if b.umax < half && a.op == OConst && a.val >= half {
			return c.True
		}
	case OUDiv, OSDiv:
		if b.op == OConst && b.val == 1 {
			return a
		}
		half := uint64(1) << (w - 1)
		if op == OSDiv && a.umax < half && b.umax < half {
			return c.Bin(OUDiv, a, b)
		}
	case OURem, OSRem:
		half := uint64(1) << (w - 1)
		if op == OSRem && a.umax < half && b.umax < half {
			return c.Bin(OURem, a, b)
		}
		if op == OURem && b.op == OConst && a.umax < b.val {
			return a
		}
	}
	// constants pushed into an ite of constants (comparisons)
	if rw == 0 {
		if b.op == OConst && a.op == OIte && a.b.op == OConst && a.c.op == OConst {
			return c.Ite(a.a, c.Bin(op, a.b, b), c.Bin(op, a.c, b))
		}
		if a.op == OConst && b.op == OIte && b.b.op == OConst && b.c.op == OConst {
			return c.Ite(b.a, c.Bin(op, a, b.b), c.Bin(op, a, b.c))
		}
	}
	return c.mk(op, rw, a, b, nil, 0, "")
}

func (c *Ctx) BNot(a *Term) *Term {
	if a.op == OConst {
		return c.BV(^a.val, a.w)
	}
	return c.mk(OBNot, a.w, a, nil, nil, 0, "")
}
func (c *Ctx) Neg(a *Term) *Term {
	if a.op == OConst {
		return c.BV(-a.val, a.w)
	}
	return c.mk(ONeg, a.w, a, nil, nil, 0, "")
}

func (c *Ctx) ZExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.op == OConst {
		return c.BV(a.val, w)
	}
	if a.op == OZExt {
		return c.ZExt(a.a, w)
	}
	if a.op == OIte && a.b.op == OConst && a.c.op == OConst {
		return c.Ite(a.a, c.ZExt(a.b, w), c.ZExt(a.c, w))
	}
	return c.mk(OZExt, w, a, nil, nil, 0, "")
}
func (c *Ctx) SExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.op == OConst {
		return c.BV(uint64(sx(a.val, a.w)), w)
	}
	if a.umax < uint64(1)<<(a.w-1) {
		return c.ZExt(a, w)
	}
	return c.mk(OSExt, w, a, nil, nil, 0, "")
}

// Trunc keeps the low w bits.
func (c *Ctx) Trunc(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.op == OConst {
		return c.BV(a.val, w)
	}
	if (a.op == OZExt || a.op == OSExt) && a.a.w >= w {
		return c.Trunc(a.a, w)
	}
	if a.op == OZExt && a.a.w < w {
		return c.ZExt(a.a, w)
	}
	if a.op == OIte && a.b.op == OConst && a.c.op == OConst {
		return c.Ite(a.a, c.Trunc(a.b, w), c.Trunc(a.c, w))
	}
	return c.mk(OExtract, w, a, nil, nil, 0, "")
}

type Model map[*Term]uint64

// Eval evaluates t under m (missing variables are 0).
func Eval(t *Term, m Model, memo map[*Term]uint64) uint64 {
	if t.op == OConst {
		return t.val
	}
	if t.op == OVar {
		return m[t]
	}
	if v, ok := memo[t]; ok {
		return v
	}
	var r uint64
	switch t.op {
	case ONot:
		r = 1 - Eval(t.a, m, memo)
	case OAnd:
		r = Eval(t.a, m, memo)
		if r != 0 {
			r = Eval(t.b, m, memo)
		}
	case OOr:
		r = Eval(t.a, m, memo)
		if r == 0 {
			r = Eval(t.b, m, memo)
		}
	case OEq:
		r = b2u(Eval(t.a, m, memo) == Eval(t.b, m, memo))
	case OIte:
		if Eval(t.a, m, memo) != 0 {
			r = Eval(t.b, m, memo)
		} else {
			r = Eval(t.c, m, memo)
		}
	case OBNot:
		r = ^Eval(t.a, m, memo) & mask(t.w)
	case ONeg:
		r = -Eval(t.a, m, memo) & mask(t.w)
	case OZExt:
		r = Eval(t.a, m, memo)
	case OSExt:
		r = uint64(sx(Eval(t.a, m, memo), t.a.w)) & mask(t.w)
	case OExtract:
		r = (Eval(t.a, m, memo) >> t.val) & mask(t.w)
	default:
		r, _ = foldBin(t.op, Eval(t.a, m, memo), Eval(t.b, m, memo), t.a.w)
	}
	memo[t] = r
	return r
}

func sortOf(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func constStr(t *Term) string {
	if t.w == 0 {
		if t.val != 0 {
			return "true"
		}
		return "false"
	}
	return fmt.Sprintf("(_ bv%d %d)", t.val, t.w)
}

func (t *Term) String() string { return t.str(6) }
func (t *Term) str(d int) string {
	if t == nil {
		return "<nil>"
	}
	switch t.op {
	case OConst:
		if t.w == 0 {
			return constStr(t)
		}
		return fmt.Sprint(sx(t.val, t.w))
	case OVar:
		return t.name
	}
	if d == 0 {
		return "…"
	}
	n := opName[t.op]
	switch t.op {
	case OZExt:
		n = "zext"
	case OSExt:
		n = "sext"
	case OExtract:
		n = "trunc"
	}
	var sb strings.Builder
	sb.WriteString("(" + n)
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			sb.WriteString(" " + x.str(d-1))
		}
	}
	sb.WriteString(")")
	return sb.String()
}
func (c *Ctx) nterms() int { return int(c.next) }

// sum is a linear form of variables with known bounds.
type sum struct {
	atoms  []*Term
	k      int64
	lo, hi int64
}

const sumLimit = int64(1) << 61

func (c *Ctx) sumOf(t *Term, s *sum) bool {
	add := func(lo, hi int64) bool {
		if lo < -sumLimit || hi > sumLimit || len(s.atoms) > 8 {
			return false
		}
		s.lo, s.hi = s.lo+lo, s.hi+hi
		return s.lo >= -sumLimit && s.hi <= sumLimit
	}
	if r, ok := c.rng[t]; ok {
		s.atoms = append(s.atoms, t)
		return add(r[0], r[1])
	}
	switch {
	case t.op == OConst:
		s.k += int64(t.val)
		return add(int64(t.val), int64(t.val))
	case t.op == OAdd:
		return c.sumOf(t.a, s) && c.sumOf(t.b, s)
	case t.umax < uint64(sumLimit):
		s.atoms = append(s.atoms, t)
		return add(int64(t.umin), int64(t.umax))
	}
	return false
}

func (c *Ctx) sumTerm(atoms []*Term, k int64) *Term {
	var t *Term
	for _, a := range atoms {
		if t == nil {
			t = a
		} else {
			t = c.Bin(OAdd, t, a)
		}
	}
	if t == nil {
		return c.BV(uint64(k), 64)
	}
	return c.Bin(OAdd, t, c.BV(uint64(k), 64))
}

// linear simplifies a signed comparison of sums that can't overflow: common summands are
// dropped, and the bounds may decide it.
func (c *Ctx) linear(op Op, a, b *Term) *Term {
	if a.w != 64 || len(c.rng) == 0 {
		return nil
	}
	var x, y sum
	if !c.sumOf(a, &x) || !c.sumOf(b, &y) {
		return nil
	}
	if x.hi < y.lo || op == OSLe && x.hi <= y.lo {
		return c.True
	}
	if x.lo > y.hi || op == OSLt && x.lo >= y.hi {
		return c.False
	}
	var l []*Term
	r := append([]*Term(nil), y.atoms...)
	dropped := false
next:
	for _, t := range x.atoms {
		for i, u := range r {
			if t == u {
				r = append(r[:i:i], r[i+1:]...)
				dropped = true
				continue next
			}
		}
		l = append(l, t)
	}
	if !dropped && (x.k == 0 || y.k == 0) {
		return nil
	}
	if len(l) == 0 {
		return c.Bin(op, c.BV(uint64(x.k-y.k), 64), c.sumTerm(r, 0))
	}
	return c.Bin(op, c.sumTerm(l, 0), c.sumTerm(r, y.k-x.k))
}
