package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"math"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(in *Interp, fn *ssa.Function, a []Value) Value

var intrinsics = map[string]intrinsic{}

func reg(name string, f func(in *Interp, fn *ssa.Function, a []Value) Value) { intrinsics[name] = f }

type readerState struct {
	r        Iface
	useNum   bool
	disallow bool
	done     bool
}

type obs struct {
	kind string // "log", "reach"
	text string
	args []Value
}

// pathExtra is the per-path model state outside the Go heap.
type pathExtra struct {
	panicFrames []*frame
	nmaps       int
	mapOrder    int
	mapForks    int
	ptrs        map[types.Type]types.Type
	sfields     map[*types.Struct][]jfield
	sliceAny    types.Type
	mapAny      types.Type
	sigs        []sigEvent
	digests     []digestEntry
	hashed      map[string][]*Term
	natKeys     map[*Value]any
	decoders    map[*Value]*readerState
	obs         []obs
	onceDone    map[*Value]bool
	builders    map[*Value]*Str
	locks       map[*Value]int
	goroutines  int
	now         *Term
	pools       map[*Value][]Value
}

func isHarnessPath(p string) bool { return strings.Contains(p, "/zzverif") }

func (in *Interp) boolv(b bool) *Term { return in.c.B(b) }

// ---------------------------------------------------------------- readers

func tname(i Iface) string {
	if i.t == nil {
		return ""
	}
	return i.t.String()
}

func (in *Interp) readAll(r Iface) (Slice, Iface) {
	if r.t == nil {
		in.nilDeref()
	}
	p, _ := r.v.(*Value)
	switch tname(r) {
	case "*bytes.Reader":
		if p == nil {
			in.nilDeref()
		}
		st := (*p).(Struct)
		s := st[0].(Slice)
		i := st[1].(*Term)
		ln := in.lenTerm(s)
		if in.branch(in.c.Bin(OSLe, ln, i)) {
			return Slice{a: []Value{}}, Iface{}
		}
		st[1] = ln
		if i.op == OConst && i.val == 0 {
			return in.cloneBytes(s), Iface{}
		}
		if s.blob != nil {
			return in.blobSlice(s.blob, i, nil).(Slice), Iface{}
		}
		return in.cloneBytes(Slice{a: s.a[in.concretize(i, 64):]}), Iface{}
	case "*bytes.Buffer":
		if p == nil {
			in.nilDeref()
		}
		st := (*p).(Struct)
		s := st[0].(Slice)
		off := st[1].(*Term)
		st[1] = in.lenTerm(s)
		if off.op == OConst && off.val == 0 {
			return in.cloneBytes(s), Iface{}
		}
		if s.blob != nil {
			return in.blobSlice(s.blob, off, nil).(Slice), Iface{}
		}
		return in.cloneBytes(Slice{a: s.a[in.concretize(off, 64):]}), Iface{}
	case "*strings.Reader":
		st := (*p).(Struct)
		s := st[0].(*Str)
		i := st[1].(*Term)
		st[1] = in.lenTerm(s)
		if i.op == OConst && i.val == 0 {
			if bl := strBlob(s); bl != nil {
				return Slice{blob: bl}, Iface{}
			}
			return in.mkBytes(in.bytesOf(s)), Iface{}
		}
		k := int(in.concretize(i, 64))
		return in.mkBytes(in.bytesOf(s)[k:]), Iface{}
	case "*io.LimitedReader":
		st := (*p).(Struct)
		n := st[1].(*Term)
		if src := st[0].(Iface); src.t != nil {
			if m := in.lookupMethod(src.t, nil, "VPReadN"); m != nil {
				t := in.callFn(m, []Value{src.v, n}, nil).(Tuple)
				data := t[0].(Slice)
				st[1] = in.c.Bin(OSub, n, in.lenTerm(data))
				return data, t[1].(Iface)
			}
		}
		data, e := in.readAll(st[0].(Iface))
		if !in.branch(in.c.Bin(OSLt, in.c.BV(0, 64), n)) {
			return Slice{a: []Value{}}, Iface{}
		}
		ln := in.lenTerm(data)
		if in.branch(in.c.Bin(OSLe, ln, n)) {
			st[1] = in.c.Bin(OSub, n, ln)
			return data, e
		}
		st[1] = in.c.BV(0, 64)
		if data.blob != nil {
			return in.blobSlice(data.blob, in.c.BV(0, 64), n).(Slice), Iface{}
		}
		return Slice{a: data.a[:in.concretize(n, 4096)]}, Iface{}
	case "*bufio.Reader": // buf, rd, r, w, err
		st := (*p).(Struct)
		if in.branch(in.c.Eq(st[2].(*Term), st[3].(*Term))) {
			return in.readAll(st[1].(Iface))
		}
	case "io.nopCloser", "io.nopCloserWriterTo":
		return in.readAll(r.v.(Struct)[0].(Iface))
	case "*io.teeReader":
		st := (*p).(Struct)
		data, e := in.readAll(st[0].(Iface))
		in.callMethod(st[1].(Iface), "Write", nil, data)
		return data, e
	}
	if m := in.lookupMethod(r.t, nil, "VPReadAll"); m != nil {
		t := in.callFn(m, []Value{r.v}, nil).(Tuple)
		return t[0].(Slice), t[1].(Iface)
	}
	return Slice{}, Iface{t: nil, v: "interp"}
}

// built is the content of a strings.Builder.
func (in *Interp) built(p *Value) *Str {
	if p == nil {
		in.nilDeref()
	}
	if s := in.x.builders[p]; s != nil {
		return s
	}
	return emptyStr
}

func (in *Interp) build(p *Value, s *Str) { in.x.builders[p] = in.concat(in.built(p), s) }

func (in *Interp) cloneBytes(s Slice) Slice {
	if s.blob != nil {
		return Slice{blob: s.blob}
	}
	return Slice{a: append(make([]Value, 0, len(s.a)), s.a...)}
}

// ---------------------------------------------------------------- formatting

func (in *Interp) valText(i Iface, verb byte) (*Str, bool) {
	if i.t == nil {
		return cstr("<nil>"), true
	}
	if verb != 'T' && verb != 'p' {
		if verb == 'v' || verb == 's' || verb == 'q' || verb == 'w' {
			for _, m := range []string{"Error", "String"} {
				f := in.lookupMethod(i.t, nil, m)
				if f == nil || f.Signature.Params().Len() != 0 || f.Signature.Results().Len() != 1 || !isString(f.Signature.Results().At(0).Type()) {
					continue
				}
				if p, ok := i.v.(*Value); ok && p == nil {
					return cstr("<nil>"), true
				}
				if s, ok := in.callFn(f, []Value{i.v}, nil).(*Str); ok {
					return s, true
				}
			}
		}
		switch v := i.v.(type) {
		case *Str:
			return v, true
		case *Term:
			if v.w == 0 {
				if v.op == OConst {
					return cstr(fmt.Sprint(v.val != 0)), true
				}
				return nil, false
			}
			_, signed, _ := intInfo(i.t)
			if v.op == OConst {
				if signed {
					return cstr(strconv.FormatInt(v.Signed(), 10)), true
				}
				return cstr(strconv.FormatUint(v.val, 10)), true
			}
			return &Str{rope: []seg{{dec: v, uns: !signed}}}, true
		}
	}
	return nil, false
}

func (in *Interp) hexDigit(n *Term, upper bool) *Term {
	// n: 8-bit term in 0..15
	c := in.c
	base := uint64('a' - 10)
	if upper {
		base = 'A' - 10
	}
	r := c.Ite(c.Bin(OULt, n, c.BV(10, 8)), c.Bin(OAdd, n, c.BV('0', 8)), c.Bin(OAdd, n, c.BV(base, 8)))
	if !upper && r.op != OConst {
		c.nib[r] = n
	}
	return r
}

func (in *Interp) sprintf(f string, args []Value) *Str {
	out := emptyStr
	ai := 0
	next := func() (Iface, bool) {
		if ai < len(args) {
			ai++
			return args[ai-1].(Iface), true
		}
		return Iface{}, false
	}
	for len(f) > 0 {
		k := strings.IndexByte(f, '%')
		if k < 0 {
			out = in.concat(out, cstr(f))
			break
		}
		out = in.concat(out, cstr(f[:k]))
		f = f[k:]
		j := 1
		spec := "%"
		starW := int64(-1)
		zero := false
		for j < len(f) && strings.IndexByte("+-# 0123456789.*[]", f[j]) >= 0 {
			if f[j] == '*' {
				a, _ := next()
				n, _ := a.v.(*Term)
				if n == nil {
					panic(unsupported("fmt * argument"))
				}
				w := int64(sx(in.concretize(n, 64), n.w))
				starW = w
				spec += strconv.FormatInt(w, 10)
			} else {
				if f[j] == '0' && spec == "%" {
					zero = true
				}
				spec += string(f[j])
			}
			j++
		}
		if j >= len(f) {
			out = in.concat(out, cstr("%!(NOVERB)"))
			break
		}
		v := f[j]
		f = f[j+1:]
		if v == '%' {
			out = in.concat(out, cstr("%"))
			continue
		}
		a, ok := next()
		if !ok {
			out = in.concat(out, cstr("%!"+string(v)+"(MISSING)"))
			continue
		}
		out = in.concat(out, in.fmtOne(spec, v, zero, starW, a))
	}
	return out
}

func (in *Interp) fmtOne(spec string, v byte, zero bool, starW int64, a Iface) *Str {
	if v == 'T' {
		if a.t == nil {
			return cstr("<nil>")
		}
		return cstr(types.TypeString(a.t, func(p *types.Package) string { return p.Name() }))
	}
	if v == 'w' {
		v = 'v'
	}
	sp := spec + string(v)
	// concrete basic values: native formatting
	if a.t != nil {
		if s, ok := in.valText(a, v); ok && (v == 's' || v == 'v' || v == 'q' || v == 'd') {
			if _, isNum := a.v.(*Term); isNum && !in.hasMethod(a.t, "String") && !in.hasMethod(a.t, "Error") {
				if t := a.v.(*Term); t.op == OConst && t.w != 0 {
					_, signed, _ := intInfo(a.t)
					if signed {
						return cstr(fmt.Sprintf(sp, t.Signed()))
					}
					return cstr(fmt.Sprintf(sp, t.val))
				} else if t.op == OConst {
					return cstr(fmt.Sprintf(sp, t.val != 0))
				}
				if spec == "%" {
					return s
				}
			} else if s.concrete() {
				return cstr(fmt.Sprintf(sp, s.s))
			} else if spec == "%" && v != 'd' {
				if v == 'q' {
					return in.concat(in.concat(cstr("\""), s), cstr("\""))
				}
				return s
			}
		}
		switch x := a.v.(type) {
		case *Term:
			if x.op == OConst && x.w != 0 {
				_, signed, _ := intInfo(a.t)
				if signed {
					return cstr(fmt.Sprintf(sp, x.Signed()))
				}
				return cstr(fmt.Sprintf(sp, x.val))
			}
			if (v == 'x' || v == 'X') && zero && x.w != 0 {
				w := 0
				fmt.Sscanf(strings.TrimLeft(strings.TrimPrefix(spec, "%"), "0"), "%d", &w)
				if w > 0 && w < 16 && (4*w >= int(x.w) || in.branch(in.c.Bin(OULt, x, in.c.BV(1<<uint(4*w), x.w)))) {
					b := make([]*Term, w)
					for i := range b {
						n := in.c.Bin(OBAnd, in.c.Bin(OLShr, x, in.c.BV(uint64(4*(w-1-i)), x.w)), in.c.BV(15, x.w))
						n8 := n
						if x.w > 8 {
							n8 = in.c.Trunc(n, 8)
						}
						b[i] = in.hexDigit(n8, v == 'X')
					}
					return in.strFromBytes(b)
				}
			}
			if v == 'x' || v == 'X' || v == 'c' || v == 'b' || v == 'o' {
				val := in.concretize(x, 300)
				_, signed, _ := intInfo(a.t)
				if signed {
					return cstr(fmt.Sprintf(sp, sx(val, x.w)))
				}
				return cstr(fmt.Sprintf(sp, val))
			}
		case *Str:
			if x.rope == nil && x.concrete() {
				return cstr(fmt.Sprintf(sp, x.s))
			}
			if v == 'x' && spec == "%" && x.rope == nil {
				return in.hexText(in.bytesOf(x))
			}
		case float64:
			return cstr(fmt.Sprintf(sp, x))
		case Slice:
			if isByteSlice(a.t) {
				if b, ok := in.concBytes(x); ok {
					return cstr(fmt.Sprintf(sp, b))
				}
				if v == 's' {
					if x.blob != nil {
						return in.blobStr(x.blob)
					}
					return in.strFromBytes(in.sliceBytes(x))
				}
				if v == 'x' && spec == "%" {
					return in.hexText(in.sliceBytes(x))
				}
			}
			if st, ok := a.t.Underlying().(*types.Slice); ok && isString(st.Elem()) {
				ss := make([]string, len(x.a))
				all := true
				for i, e := range x.a {
					es := e.(*Str)
					if !es.concrete() {
						all = false
						break
					}
					ss[i] = es.s
				}
				if all {
					return cstr(fmt.Sprintf(sp, ss))
				}
			}
		}
	} else if v == 'v' || v == 's' || v == 'd' {
		var x any
		return cstr(fmt.Sprintf(sp, x))
	}
	return &Str{rope: []seg{{opq: "fmt " + sp}}}
}

func (in *Interp) hexText(b []*Term) *Str {
	out := make([]*Term, 0, 2*len(b))
	for _, t := range b {
		out = append(out, in.hexDigit(in.c.Bin(OLShr, t, in.c.BV(4, 8)), false), in.hexDigit(in.c.Bin(OBAnd, t, in.c.BV(15, 8)), false))
	}
	return in.strFromBytes(out)
}

func (in *Interp) sprint(args []Value, ln bool) *Str {
	out := emptyStr
	for i, a := range args {
		ai := a.(Iface)
		if i > 0 {
			_, s1 := args[i-1].(Iface).v.(*Str)
			_, s2 := ai.v.(*Str)
			if ln || !s1 && !s2 {
				out = in.concat(out, cstr(" "))
			}
		}
		out = in.concat(out, in.fmtOne("%", 'v', false, -1, ai))
	}
	if ln {
		out = in.concat(out, cstr("\n"))
	}
	return out
}

// ---------------------------------------------------------------- errors

func (in *Interp) unwrap(e Iface) []Iface {
	m := in.lookupMethod(e.t, nil, "Unwrap")
	if m == nil || m.Signature.Params().Len() != 0 || m.Signature.Results().Len() != 1 {
		return nil
	}
	if p, ok := e.v.(*Value); ok && p == nil {
		// a nil pointer receiver: let the method decide
		_ = p
	}
	r := in.callFn(m, []Value{e.v}, nil)
	switch x := r.(type) {
	case Iface:
		if x.t == nil {
			return nil
		}
		return []Iface{x}
	case Slice:
		var out []Iface
		for _, v := range x.a {
			if i := v.(Iface); i.t != nil {
				out = append(out, i)
			}
		}
		return out
	}
	return nil
}

func (in *Interp) errorsIs(e, target Iface) bool {
	if e.t == nil || target.t == nil {
		return e.t == nil && target.t == nil
	}
	cmp := types.Comparable(target.t)
	var rec func(e Iface) bool
	rec = func(e Iface) bool {
		if cmp && types.Identical(e.t, target.t) && in.branch(in.equal(in.errorType(), e, target)) {
			return true
		}
		if m := in.lookupMethod(e.t, nil, "Is"); m != nil && m.Signature.Params().Len() == 1 && m.Signature.Results().Len() == 1 {
			if in.branch(in.callFn(m, []Value{e.v, target}, nil).(*Term)) {
				return true
			}
		}
		for _, u := range in.unwrap(e) {
			if rec(u) {
				return true
			}
		}
		return false
	}
	return rec(e)
}

func (in *Interp) errorsAs(e, target Iface) bool {
	if e.t == nil {
		return false
	}
	p, _ := target.v.(*Value)
	if target.t == nil || p == nil {
		panic(&targetPanic{v: in.mkErrVal("errors: target must be a non-nil pointer"), msg: "errors: target must be a non-nil pointer", stack: in.where()})
	}
	et := derefType(target.t)
	var rec func(e Iface) bool
	rec = func(e Iface) bool {
		if types.IsInterface(et) {
			if in.implements(e.t, et) {
				*p = e
				return true
			}
		} else if types.Identical(e.t, et) {
			*p = copyVal(e.v)
			return true
		}
		if m := in.lookupMethod(e.t, nil, "As"); m != nil && m.Signature.Params().Len() == 1 {
			if in.branch(in.callFn(m, []Value{e.v, target}, nil).(*Term)) {
				return true
			}
		}
		for _, u := range in.unwrap(e) {
			if rec(u) {
				return true
			}
		}
		return false
	}
	return rec(e)
}

func (in *Interp) mkNamedPtr(pkg, name string, vals map[string]Value) Iface {
	t := in.pkgType(pkg, name)
	st := in.zero(t).(Struct)
	u := t.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if v, ok := vals[u.Field(i).Name()]; ok {
			st[i] = v
		}
	}
	p := new(Value)
	*p = st
	return Iface{t: in.ptrTo(t), v: p}
}

// ---------------------------------------------------------------- deep equality

func (in *Interp) deepEqual(t types.Type, x, y Value, depth int) *Term {
	c := in.c
	if depth > 60 {
		panic(unsupported("deep recursion in reflect.DeepEqual"))
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		px, ok1 := x.(*Value)
		py, ok2 := y.(*Value)
		if !ok1 || !ok2 {
			return in.equal(t, x, y)
		}
		if px == py {
			return c.True
		}
		if px == nil || py == nil {
			return c.False
		}
		return in.deepEqual(u.Elem(), *px, *py, depth+1)
	case *types.Interface:
		xi, yi := x.(Iface), y.(Iface)
		if xi.t == nil || yi.t == nil {
			return c.B(xi.t == nil && yi.t == nil)
		}
		if !types.Identical(xi.t, yi.t) {
			return c.False
		}
		return in.deepEqual(xi.t, xi.v, yi.v, depth+1)
	case *types.Struct:
		acc := c.True
		for i := 0; i < u.NumFields(); i++ {
			acc = c.And(acc, in.deepEqual(u.Field(i).Type(), x.(Struct)[i], y.(Struct)[i], depth+1))
			if acc == c.False {
				return acc
			}
		}
		return acc
	case *types.Array:
		acc := c.True
		for i := range x.(Array) {
			acc = c.And(acc, in.deepEqual(u.Elem(), x.(Array)[i], y.(Array)[i], depth+1))
		}
		return acc
	case *types.Slice:
		xs, ys := x.(Slice), y.(Slice)
		if xs.nil_ != ys.nil_ {
			return c.False
		}
		if xs.blob != nil || ys.blob != nil {
			return in.dataEq(xs, ys)
		}
		if len(xs.a) != len(ys.a) {
			return c.False
		}
		acc := c.True
		for i := range xs.a {
			acc = c.And(acc, in.deepEqual(u.Elem(), xs.a[i], ys.a[i], depth+1))
			if acc == c.False {
				return acc
			}
		}
		return acc
	case *types.Map:
		xm, ym := x.(*Map), y.(*Map)
		if xm == ym {
			return c.True
		}
		if xm == nil || ym == nil || len(xm.keys) != len(ym.keys) {
			return c.False
		}
		acc := c.True
		for i, k := range xm.keys {
			v, ok := in.mapGet(ym, u, k)
			if !ok {
				return c.False
			}
			acc = c.And(acc, in.deepEqual(u.Elem(), xm.vals[i], v, depth+1))
			if acc == c.False {
				return acc
			}
		}
		return acc
	case *types.Signature:
		return c.B(x.(*Closure) == nil && y.(*Closure) == nil)
	}
	return in.equal(t, x, y)
}

// ---------------------------------------------------------------- json entry points

func (in *Interp) marshal(v Iface, f int) (Slice, Iface) {
	n, e := in.encode(v.t, v.v, nil)
	if e.t != nil {
		return Slice{nil_: true}, e
	}
	b := &Blob{tree: n, fmt: f}
	if bs, ok := in.blobBytes(b); ok && in.allConst(bs) {
		return in.mkBytes(bs), Iface{}
	}
	return Slice{blob: b}, Iface{}
}

func (in *Interp) allConst(b []*Term) bool {
	for _, t := range b {
		if t.op != OConst {
			return false
		}
	}
	return true
}

// docSlice builds document bytes: real bytes when fully concrete, otherwise a tree.
func (in *Interp) docSlice(n *JNode, f int) Slice {
	b := &Blob{tree: n, fmt: f}
	if n.k == JBad {
		return in.mkBytesC([]byte(n.text))
	}
	if bs, ok := in.blobBytes(b); ok && in.allConst(bs) {
		return in.mkBytes(bs)
	}
	return Slice{blob: b}
}

// readJ converts a harness document description into a tree. It describes
// struct J { K int; S string; N int64; B bool; Keys []string; Vals []*J }.
func (in *Interp) readJ(v Value) *JNode {
	p := v.(*Value)
	if p == nil {
		return &JNode{k: JNull}
	}
	s := (*p).(Struct)
	k := in.concretize(s[0].(*Term), 16)
	switch k {
	case 0:
		return &JNode{k: JNull}
	case 1:
		return &JNode{k: JBool, b: s[3].(*Term)}
	case 2:
		return &JNode{k: JNum, n: s[2].(*Term)}
	case 3:
		t := in.force(s[1].(*Str)).s
		n := parseJSON(in, []byte(t))
		return n
	case 4:
		st := s[1].(*Str)
		if st.rope == nil {
			st = in.safeText(st)
		}
		return &JNode{k: JStr, s: st}
	case 5, 6:
		n := &JNode{k: JArr}
		for _, x := range s[5].(Slice).a {
			n.arr = append(n.arr, in.readJ(x))
		}
		if k == 6 {
			n.k = JObj
			n.vals, n.arr = n.arr, nil
			for _, x := range s[4].(Slice).a {
				ks := x.(*Str)
				if ks.rope == nil {
					ks = in.safeText(ks)
				}
				n.keys = append(n.keys, ks)
			}
		}
		// a malformed part makes the whole document malformed
		for _, x := range append(append([]*JNode{}, n.arr...), n.vals...) {
			if x.k == JBad {
				return &JNode{k: JBad, text: "{" + x.text}
			}
		}
		return n
	}
	return &JNode{k: JBad, text: in.force(s[1].(*Str)).s}
}

func (in *Interp) nowTerm() *Term {
	if in.x.now == nil {
		in.x.now = in.c.Var("now", 64)
		in.assume(in.c.And(in.c.Bin(OSLe, in.c.BV(946684800, 64), in.x.now), in.c.Bin(OSLe, in.x.now, in.c.BV(4102444800, 64))))
		in.c.rng[in.x.now] = [2]int64{946684800, 4102444800}
	}
	return in.x.now
}

func (in *Interp) declVar(name Value, w uint8) *Term {
	return in.freshVar(name.(*Str).s, w)
}

func nop(in *Interp, fn *ssa.Function, a []Value) Value {
	res := fn.Signature.Results()
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return in.zero(res.At(0).Type())
	}
	return in.zero(res)
}

func init() {
	// ---- vp
	v := func(n string, f intrinsic) { reg(vpPath+"."+n, f) }
	v("Bool", func(in *Interp, fn *ssa.Function, a []Value) Value { return in.declVar(a[0], 0) })
	v("Byte", func(in *Interp, fn *ssa.Function, a []Value) Value { return in.declVar(a[0], 8) })
	v("Int64", func(in *Interp, fn *ssa.Function, a []Value) Value { return in.declVar(a[0], 64) })
	rng := func(in *Interp, fn *ssa.Function, a []Value) Value {
		t := in.declVar(a[0], 64)
		lo, hi := a[1].(*Term), a[2].(*Term)
		in.assume(in.c.And(in.c.Bin(OSLe, lo, t), in.c.Bin(OSLe, t, hi)))
		if lo.op == OConst && hi.op == OConst && t.op != OConst {
			in.c.rng[t] = [2]int64{lo.Signed(), hi.Signed()}
		}
		return t
	}
	v("Int", rng)
	v("Int64In", rng)
	v("Bytes", func(in *Interp, fn *ssa.Function, a []Value) Value {
		n := int(in.concretize(a[1].(*Term), 64))
		nm := in.freshName(a[0].(*Str).s)
		b := make([]*Term, n)
		for i := range b {
			b[i] = in.c.Var(fmt.Sprintf("%s.%d", nm, i), 8)
		}
		return in.mkBytes(b)
	})
	v("Str", func(in *Interp, fn *ssa.Function, a []Value) Value {
		n := int(in.concretize(a[1].(*Term), 64))
		nm := in.freshName(a[0].(*Str).s)
		b := make([]*Term, n)
		for i := range b {
			b[i] = in.c.Var(fmt.Sprintf("%s.%d", nm, i), 8)
			in.assume(in.c.Bin(OULt, b[i], in.c.BV(0x80, 8)))
		}
		return in.strFromBytes(b)
	})
	v("StrIn", func(in *Interp, fn *ssa.Function, a []Value) Value {
		n := int(in.concretize(a[1].(*Term), 64))
		alpha := a[2].(*Str).s
		nm := in.freshName(a[0].(*Str).s)
		b := make([]*Term, n)
		for i := range b {
			b[i] = in.c.Var(fmt.Sprintf("%s.%d", nm, i), 8)
			ok := in.c.False
			for k := 0; k < len(alpha); k++ {
				ok = in.c.Or(ok, in.c.Eq(b[i], in.c.bytesC[alpha[k]]))
			}
			in.assume(ok)
		}
		return in.strFromBytes(b)
	})
	v("Choice", func(in *Interp, fn *ssa.Function, a []Value) Value {
		n := int(in.concretize(a[1].(*Term), 64))
		t := in.declVar(a[0], 8)
		return in.c.BV(uint64(in.chooseVar(t, n)), 64)
	})
	v("Opaque", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return Slice{blob: &Blob{lenT: a[1].(*Term)}}
	})
	v("Assume", func(in *Interp, fn *ssa.Function, a []Value) Value {
		in.assume(a[0].(*Term))
		return nil
	})
	v("Assert", func(in *Interp, fn *ssa.Function, a []Value) Value {
		in.assertCond(a[0].(*Term), a[1].(*Str).s)
		return nil
	})
	v("Reach", func(in *Interp, fn *ssa.Function, a []Value) Value {
		in.x.obs = append(in.x.obs, obs{kind: "reach", text: a[0].(*Str).s})
		in.E.reach(a[0].(*Str).s)
		return nil
	})
	v("Log", func(in *Interp, fn *ssa.Function, a []Value) Value {
		in.x.obs = append(in.x.obs, obs{kind: "log", args: append([]Value(nil), a[0].(Slice).a...)})
		return nil
	})
	v("Dump", func(in *Interp, fn *ssa.Function, a []Value) Value {
		txt := "?"
		func() {
			defer func() { recover() }()
			st := a[0].(*Str)
			if st.rope != nil {
				txt = ""
				for _, g := range st.rope {
					switch {
					case g.str != nil && g.str.concrete():
						txt += g.str.s
					default:
						txt += "<?>"
					}
				}
				return
			}
			if st.b == nil {
				txt = st.s
			}
		}()
		fmt.Fprintln(os.Stderr, "DUMP", txt)
		return nil
	})
	v("Now", func(in *Interp, fn *ssa.Function, a []Value) Value { return in.mkTime(in.nowTerm(), in.c.BV(0, 64)) })
	v("SetMapOrder", func(in *Interp, fn *ssa.Function, a []Value) Value {
		in.x.mapOrder = int(in.concretize(a[0].(*Term), 64))
		return nil
	})
	v("Exit", func(in *Interp, fn *ssa.Function, a []Value) Value { panic(pathEnd{"exit"}) })
	v("Thorough", func(in *Interp, fn *ssa.Function, a []Value) Value { return in.c.B(in.E.thorough) })
	v("InEngine", func(in *Interp, fn *ssa.Function, a []Value) Value { return in.c.True })
	v("Doc", func(in *Interp, fn *ssa.Function, a []Value) Value { return in.docSlice(in.readJ(a[0]), 0) })
	v("Canon", func(in *Interp, fn *ssa.Function, a []Value) Value {
		n, ok := in.canonTree(in.readJ(a[0]))
		if !ok {
			n = &JNode{k: JBad, text: "!"}
		}
		return in.docSlice(n, 1)
	})
	v("SameBytes", func(in *Interp, fn *ssa.Function, a []Value) Value { return in.dataEq(a[0].(Slice), a[1].(Slice)) })
	v("SameJSON", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return in.treeEq(in.treeOf(a[0].(Slice)), in.treeOf(a[1].(Slice)), false)
	})
	v("Plain", func(in *Interp, fn *ssa.Function, a []Value) Value { return in.c.B(a[0].(Slice).blob == nil) })
	v("Len64", func(in *Interp, fn *ssa.Function, a []Value) Value { return in.lenTerm(a[0]) })

	// ---- json
	reg("encoding/json.Unmarshal", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return in.jsonUnmarshal(in.treeOf(a[0].(Slice)), a[1].(Iface), &decState{})
	})
	reg("encoding/json.Marshal", func(in *Interp, fn *ssa.Function, a []Value) Value {
		s, e := in.marshal(a[0].(Iface), 0)
		return Tuple{s, e}
	})
	reg("encoding/json.MarshalIndent", func(in *Interp, fn *ssa.Function, a []Value) Value {
		f := 2
		pre, ind := a[1].(*Str).s, a[2].(*Str).s
		if pre != "" || ind != "\t" {
			f = 1000 + len(ind) // a layout of its own: equal content, different text
		}
		if f != 2 {
			n, e := in.encode(a[0].(Iface).t, a[0].(Iface).v, nil)
			if e.t != nil {
				return Tuple{Slice{nil_: true}, e}
			}
			var out []*Term
			if in.render(n, 0, 0, &out) && in.allConst(out) {
				bs := make([]byte, len(out))
				for i, t := range out {
					bs[i] = byte(t.val)
				}
				ib, _ := json.MarshalIndent(json.RawMessage(bs), pre, ind)
				return Tuple{in.mkBytesC(ib), Iface{}}
			}
			return Tuple{Slice{blob: &Blob{tree: n, fmt: f}}, Iface{}}
		}
		s, e := in.marshal(a[0].(Iface), f)
		return Tuple{s, e}
	})
	reg("encoding/json.Valid", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return in.c.B(in.treeOf(a[0].(Slice)).k != JBad)
	})
	reg("encoding/json.NewDecoder", func(in *Interp, fn *ssa.Function, a []Value) Value {
		p := new(Value)
		*p = in.zero(in.pkgType("encoding/json", "Decoder"))
		in.x.decoders[p] = &readerState{r: a[0].(Iface)}
		return p
	})
	reg("(*encoding/json.Decoder).UseNumber", func(in *Interp, fn *ssa.Function, a []Value) Value {
		in.x.decoders[a[0].(*Value)].useNum = true
		return nil
	})
	reg("(*encoding/json.Decoder).DisallowUnknownFields", func(in *Interp, fn *ssa.Function, a []Value) Value {
		in.x.decoders[a[0].(*Value)].disallow = true
		return nil
	})
	reg("(*encoding/json.Decoder).Decode", func(in *Interp, fn *ssa.Function, a []Value) Value {
		d := in.x.decoders[a[0].(*Value)]
		if d.done {
			return *in.globalAddr(in.P.pkgs["io"].Var("EOF"))
		}
		d.done = true
		data, e := in.readAll(d.r)
		if e.t != nil {
			return e
		}
		return in.jsonUnmarshal(in.treeOf(data), a[1].(Iface), &decState{useNum: d.useNum, disallow: d.disallow})
	})
	reg("(*encoding/json.Decoder).More", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return in.c.B(!in.x.decoders[a[0].(*Value)].done)
	})
	for _, n := range []string{"SyntaxError", "UnmarshalTypeError", "InvalidUnmarshalError", "UnsupportedTypeError", "UnsupportedValueError", "MarshalerError"} {
		n := n
		reg("(*encoding/json."+n+").Error", func(in *Interp, fn *ssa.Function, a []Value) Value {
			return &Str{rope: []seg{{opq: "json." + n}}}
		})
	}
	reg("(*time.ParseError).Error", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return &Str{rope: []seg{{opq: "time.ParseError"}}}
	})
	reg("github.com/secure-systems-lab/go-securesystemslib/cjson.EncodeCanonical", func(in *Interp, fn *ssa.Function, a []Value) Value {
		i := a[0].(Iface)
		n, e := in.encode(i.t, i.v, nil)
		if e.t != nil {
			return Tuple{Slice{nil_: true}, e}
		}
		m, ok := in.canonTree(n)
		if !ok {
			return Tuple{Slice{nil_: true}, in.mkErrVal("Can't canonicalize floating point number")}
		}
		return Tuple{in.docSlice(m, 1), Iface{}}
	})

	// ---- fmt, errors
	variadic := func(a Value) []Value {
		s := a.(Slice)
		return s.a
	}
	reg("fmt.Sprintf", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return in.sprintf(in.force(a[0].(*Str)).s, variadic(a[1]))
	})
	reg("fmt.Sprint", func(in *Interp, fn *ssa.Function, a []Value) Value { return in.sprint(variadic(a[0]), false) })
	reg("fmt.Sprintln", func(in *Interp, fn *ssa.Function, a []Value) Value { return in.sprint(variadic(a[0]), true) })
	// writeText hands a text to a writer
	writeText := func(in *Interp, w Iface, s *Str) Value {
		if w.t == nil {
			in.nilDeref()
		}
		if tname(w) == "*strings.Builder" {
			in.build(w.v.(*Value), s)
			return Tuple{in.lenTerm(s), Iface{}}
		}
		var b Slice
		if bl := strBlob(s); bl != nil {
			b = Slice{blob: bl}
		} else {
			b = in.mkBytes(in.bytesOf(s))
		}
		return in.callMethod(w, "Write", nil, b)
	}
	reg("fmt.Fprintf", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return writeText(in, a[0].(Iface), in.sprintf(in.force(a[1].(*Str)).s, variadic(a[2])))
	})
	reg("fmt.Fprint", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return writeText(in, a[0].(Iface), in.sprint(variadic(a[1]), false))
	})
	reg("fmt.Fprintln", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return writeText(in, a[0].(Iface), in.concat(in.sprint(variadic(a[1]), true), cstr("\n")))
	})
	reg("io.WriteString", func(in *Interp, fn *ssa.Function, a []Value) Value {
		w := a[0].(Iface)
		if w.t != nil && tname(w) != "*strings.Builder" && in.hasMethod(w.t, "WriteString") {
			return in.callMethod(w, "WriteString", nil, a[1])
		}
		return writeText(in, w, a[1].(*Str))
	})
	reg("fmt.Appendf", func(in *Interp, fn *ssa.Function, a []Value) Value {
		t := in.bytesOf(in.sprintf(in.force(a[1].(*Str)).s, variadic(a[2])))
		return Slice{a: append(in.plain(a[0].(Slice)).a, in.mkBytes(t).a...)}
	})
	for _, n := range []string{"fmt.Printf", "fmt.Println", "fmt.Print"} {
		reg(n, func(in *Interp, fn *ssa.Function, a []Value) Value { return Tuple{in.c.BV(0, 64), Iface{}} })
	}
	reg("fmt.Errorf", func(in *Interp, fn *ssa.Function, a []Value) Value {
		f := in.force(a[0].(*Str)).s
		args := variadic(a[1])
		msg := in.sprintf(f, args)
		// operands of %w
		var ws []Iface
		ai := 0
		for k := 0; k < len(f); k++ {
			if f[k] != '%' {
				continue
			}
			k++
			for k < len(f) && strings.IndexByte("+-# 0123456789.*", f[k]) >= 0 {
				if f[k] == '*' {
					ai++
				}
				k++
			}
			if k >= len(f) || f[k] == '%' {
				continue
			}
			if f[k] == 'w' && ai < len(args) {
				if i := args[ai].(Iface); i.t != nil && in.implements(i.t, in.errorType()) {
					ws = append(ws, i)
				}
			}
			ai++
		}
		switch len(ws) {
		case 0:
			return in.errString(msg)
		case 1:
			return in.mkNamedPtr("fmt", "wrapError", map[string]Value{"msg": msg, "err": ws[0]})
		}
		es := make([]Value, len(ws))
		for i := range ws {
			es[i] = ws[i]
		}
		return in.mkNamedPtr("fmt", "wrapErrors", map[string]Value{"msg": msg, "errs": Slice{a: es}})
	})
	reg("errors.Is", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return in.c.B(in.errorsIs(a[0].(Iface), a[1].(Iface)))
	})
	reg("errors.As", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return in.c.B(in.errorsAs(a[0].(Iface), a[1].(Iface)))
	})
	reg("errors.Unwrap", func(in *Interp, fn *ssa.Function, a []Value) Value {
		e := a[0].(Iface)
		if e.t == nil {
			return Iface{}
		}
		if u := in.unwrap(e); len(u) == 1 {
			return u[0]
		}
		return Iface{}
	})

	// ---- io, bytes, strings
	reg("io.ReadAll", func(in *Interp, fn *ssa.Function, a []Value) Value {
		s, e := in.readAll(a[0].(Iface))
		if e.v == "interp" {
			panic(unsupported("io.ReadAll on " + tname(a[0].(Iface))))
		}
		return Tuple{s, e}
	})
	// what is copied arrives in one piece
	copyAll := func(in *Interp, dst, src Iface) Value {
		s, e := in.readAll(src)
		if e.v == "interp" {
			panic(unsupported("io.Copy from " + tname(src)))
		}
		if zero := in.lenTerm(s); zero.op == OConst && zero.val == 0 {
			return Tuple{in.c.BV(0, 64), e}
		}
		r := in.callMethod(dst, "Write", nil, s).(Tuple)
		if r[1].(Iface).t == nil {
			r[1] = e
		}
		return Tuple{r[0], r[1]}
	}
	reg("io.Copy", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return copyAll(in, a[0].(Iface), a[1].(Iface))
	})
	reg("io.CopyBuffer", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return copyAll(in, a[0].(Iface), a[1].(Iface))
	})
	reg("io.CopyN", func(in *Interp, fn *ssa.Function, a []Value) Value {
		lr := new(Value)
		*lr = Struct{a[1], a[2]}
		t := in.P.pkgs["io"].Type("LimitedReader").Type()
		r := copyAll(in, a[0].(Iface), Iface{t: types.NewPointer(t), v: lr}).(Tuple)
		n, e := r[0].(*Term), r[1].(Iface)
		if e.t == nil && in.branch(in.c.Bin(OSLt, n, a[2].(*Term))) {
			r[1] = *in.globalAddr(in.P.pkgs["io"].Var("EOF"))
		}
		return r
	})
	reg("(*bytes.Buffer).ReadFrom", func(in *Interp, fn *ssa.Function, a []Value) Value {
		t := fn.Signature.Recv().Type()
		return copyAll(in, Iface{t: t, v: a[0]}, a[1].(Iface))
	})
	bufWrite := func(in *Interp, p *Value, s Slice) Value {
		if p == nil {
			in.nilDeref()
		}
		st := (*p).(Struct)
		old := st[0].(Slice)
		off := st[1].(*Term)
		if in.branch(in.c.Eq(in.lenTerm(old), off)) { // empty
			old, st[1] = Slice{nil_: true}, in.c.BV(0, 64)
		}
		switch {
		case len(old.a) == 0 && old.blob == nil:
			st[0] = in.cloneBytes(s)
		case s.blob != nil:
			st[0] = Slice{a: append(append([]Value{}, in.plain(old).a...), in.plain(s).a...)}
		case old.blob != nil:
			st[0] = in.blobAppend(old.blob, s)
		default:
			st[0] = Slice{a: append(old.a, s.a...)}
		}
		st[2] = in.c.BV(0, 8)
		return Tuple{in.lenTerm(s), Iface{}}
	}
	reg("(*bytes.Buffer).Write", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return bufWrite(in, a[0].(*Value), a[1].(Slice))
	})
	reg("(*bytes.Buffer).WriteString", func(in *Interp, fn *ssa.Function, a []Value) Value {
		if bl := strBlob(a[1].(*Str)); bl != nil {
			return bufWrite(in, a[0].(*Value), Slice{blob: bl})
		}
		return bufWrite(in, a[0].(*Value), in.mkBytes(in.bytesOf(a[1].(*Str))))
	})
	reg("(*bufio.Writer).Write", func(in *Interp, fn *ssa.Function, a []Value) Value {
		p := a[0].(*Value)
		if p == nil {
			in.nilDeref()
		}
		st := (*p).(Struct)
		s := a[1].(Slice)
		flush := func() bool {
			in.callMethod(Iface{t: fn.Signature.Recv().Type(), v: p}, "Flush", nil)
			return st[0].(Iface).t == nil
		}
		if e := st[0].(Iface); e.t != nil {
			return Tuple{in.c.BV(0, 64), e}
		}
		n := st[2].(*Term)
		buf := st[1].(Slice)
		if s.blob != nil || buf.blob != nil {
			if !(n.op == OConst && n.val == 0) && !flush() {
				return Tuple{in.c.BV(0, 64), st[0]}
			}
			if s.blob != nil {
				st[1], st[2] = Slice{blob: s.blob}, in.lenTerm(s)
				return Tuple{in.lenTerm(s), Iface{}}
			}
			z := make([]Value, 4096)
			for i := range z {
				z[i] = in.c.bytesC[0]
			}
			buf = Slice{a: z}
			st[1], st[2] = buf, in.c.BV(0, 64)
		}
		k := int(in.concretize(st[2].(*Term), 64))
		if k+len(s.a) > len(buf.a) {
			if k > 0 && !flush() {
				return Tuple{in.c.BV(0, 64), st[0]}
			}
			k = 0
			if len(s.a) > len(buf.a) {
				r := in.callMethod(st[3].(Iface), "Write", nil, s).(Tuple)
				st[0] = r[1]
				return r
			}
		}
		copy(buf.a[k:], s.a)
		st[2] = in.c.BV(uint64(k+len(s.a)), 64)
		return Tuple{in.lenTerm(s), Iface{}}
	})
	reg("bytes.Equal", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return in.dataEq(a[0].(Slice), a[1].(Slice))
	})
	reg("internal/bytealg.Equal", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return in.dataEq(a[0].(Slice), a[1].(Slice))
	})
	idx := func(in *Interp, b []*Term, ch *Term) Value {
		for i, t := range b {
			if in.branch(in.c.Eq(t, ch)) {
				return in.c.BV(uint64(i), 64)
			}
		}
		return in.c.BV(math.MaxUint64, 64)
	}
	lidx := func(in *Interp, b []*Term, ch *Term) Value {
		for i := len(b) - 1; i >= 0; i-- {
			if in.branch(in.c.Eq(b[i], ch)) {
				return in.c.BV(uint64(i), 64)
			}
		}
		return in.c.BV(math.MaxUint64, 64)
	}
	reg("internal/bytealg.IndexByteString", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return idx(in, in.bytesOf(a[0].(*Str)), a[1].(*Term))
	})
	reg("strings.IndexByte", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return idx(in, in.bytesOf(a[0].(*Str)), a[1].(*Term))
	})
	reg("internal/stringslite.IndexByte", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return idx(in, in.bytesOf(a[0].(*Str)), a[1].(*Term))
	})
	reg("internal/bytealg.IndexByte", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return idx(in, in.sliceBytes(a[0].(Slice)), a[1].(*Term))
	})
	reg("internal/bytealg.LastIndexByteString", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return lidx(in, in.bytesOf(a[0].(*Str)), a[1].(*Term))
	})
	reg("internal/bytealg.LastIndexByte", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return lidx(in, in.sliceBytes(a[0].(Slice)), a[1].(*Term))
	})
	reg("strings.LastIndexByte", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return lidx(in, in.bytesOf(a[0].(*Str)), a[1].(*Term))
	})
	cnt := func(in *Interp, b []*Term, ch *Term) Value {
		n := 0
		for _, t := range b {
			if in.branch(in.c.Eq(t, ch)) {
				n++
			}
		}
		return in.c.BV(uint64(n), 64)
	}
	reg("internal/bytealg.CountString", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return cnt(in, in.bytesOf(a[0].(*Str)), a[1].(*Term))
	})
	reg("internal/bytealg.Count", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return cnt(in, in.sliceBytes(a[0].(Slice)), a[1].(*Term))
	})
	index := func(in *Interp, h, n []*Term) Value {
		for i := 0; i+len(n) <= len(h); i++ {
			if in.branch(in.bytesEq(h[i:i+len(n)], n)) {
				return in.c.BV(uint64(i), 64)
			}
		}
		return in.c.BV(math.MaxUint64, 64)
	}
	sidx := func(in *Interp, fn *ssa.Function, a []Value) Value {
		return index(in, in.bytesOf(a[0].(*Str)), in.bytesOf(a[1].(*Str)))
	}
	reg("strings.Index", sidx)
	reg("internal/stringslite.Index", sidx)
	reg("internal/bytealg.IndexString", sidx)
	reg("strings.LastIndex", func(in *Interp, fn *ssa.Function, a []Value) Value {
		h, n := in.bytesOf(a[0].(*Str)), in.bytesOf(a[1].(*Str))
		for i := len(h) - len(n); i >= 0; i-- {
			if in.branch(in.bytesEq(h[i:i+len(n)], n)) {
				return in.c.BV(uint64(i), 64)
			}
		}
		return in.c.BV(math.MaxUint64, 64)
	})
	reg("bytes.Index", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return index(in, in.sliceBytes(a[0].(Slice)), in.sliceBytes(a[1].(Slice)))
	})
	reg("strings.EqualFold", func(in *Interp, fn *ssa.Function, a []Value) Value {
		x, y := in.bytesOf(a[0].(*Str)), in.bytesOf(a[1].(*Str))
		if len(x) != len(y) {
			return in.c.False
		}
		low := func(t *Term) *Term {
			if t.op != OConst {
				if !in.branch(in.c.Bin(OULt, t, in.c.BV(0x80, 8))) {
					panic(unsupported("EqualFold on non-ASCII symbolic text"))
				}
			}
			up := in.c.And(in.c.Bin(OULe, in.c.BV('A', 8), t), in.c.Bin(OULe, t, in.c.BV('Z', 8)))
			return in.c.Ite(up, in.c.Bin(OAdd, t, in.c.BV(32, 8)), t)
		}
		r := in.c.True
		for i := range x {
			r = in.c.And(r, in.c.Eq(low(x[i]), low(y[i])))
		}
		return r
	})
	reg("internal/bytealg.Compare", func(in *Interp, fn *ssa.Function, a []Value) Value {
		x, y := in.strFromBytes(in.sliceBytes(a[0].(Slice))), in.strFromBytes(in.sliceBytes(a[1].(Slice)))
		return in.c.Ite(in.strEq(x, y), in.c.BV(0, 64), in.c.Ite(in.strLess(x, y), in.c.BV(math.MaxUint64, 64), in.c.BV(1, 64)))
	})
	cmpS := func(in *Interp, fn *ssa.Function, a []Value) Value {
		x, y := a[0].(*Str), a[1].(*Str)
		return in.c.Ite(in.strEq(x, y), in.c.BV(0, 64), in.c.Ite(in.strLess(x, y), in.c.BV(math.MaxUint64, 64), in.c.BV(1, 64)))
	}
	reg("strings.Compare", cmpS)
	reg("internal/bytealg.CompareString", cmpS)
	reg("internal/bytealg.MakeNoZero", func(in *Interp, fn *ssa.Function, a []Value) Value {
		n := int(in.concretize(a[0].(*Term), 64))
		z := make([]Value, n)
		for i := range z {
			z[i] = in.c.bytesC[0]
		}
		return Slice{a: z}
	})
	reg("internal/abi.NoEscape", func(in *Interp, fn *ssa.Function, a []Value) Value { return a[0] })
	reg("internal/abi.Escape", func(in *Interp, fn *ssa.Function, a []Value) Value { return a[0] })
	reg("strings.noescape", func(in *Interp, fn *ssa.Function, a []Value) Value { return a[0] })
	reg("(*strings.Builder).copyCheck", nop)
	// a builder is kept as a text, so that numbers and documents in it stay symbolic
	reg("(*strings.Builder).String", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return in.built(a[0].(*Value))
	})
	reg("(*strings.Builder).Len", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return in.lenTerm(in.built(a[0].(*Value)))
	})
	reg("(*strings.Builder).Cap", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return in.lenTerm(in.built(a[0].(*Value)))
	})
	reg("(*strings.Builder).Reset", func(in *Interp, fn *ssa.Function, a []Value) Value {
		in.built(a[0].(*Value))
		delete(in.x.builders, a[0].(*Value))
		return nil
	})
	reg("(*strings.Builder).Grow", func(in *Interp, fn *ssa.Function, a []Value) Value {
		if in.branch(in.c.Bin(OSLt, a[1].(*Term), in.c.BV(0, 64))) {
			panic(&targetPanic{v: in.mkErrVal("strings.Builder.Grow: negative count"), msg: "strings.Builder.Grow: negative count", stack: in.where()})
		}
		return nil
	})
	reg("(*strings.Builder).WriteString", func(in *Interp, fn *ssa.Function, a []Value) Value {
		in.build(a[0].(*Value), a[1].(*Str))
		return Tuple{in.lenTerm(a[1]), Iface{}}
	})
	reg("(*strings.Builder).Write", func(in *Interp, fn *ssa.Function, a []Value) Value {
		b := a[1].(Slice)
		if b.blob != nil {
			in.build(a[0].(*Value), in.blobStr(b.blob))
		} else {
			in.build(a[0].(*Value), in.strFromBytes(in.sliceBytes(b)))
		}
		return Tuple{in.lenTerm(b), Iface{}}
	})
	reg("(*strings.Builder).WriteByte", func(in *Interp, fn *ssa.Function, a []Value) Value {
		in.build(a[0].(*Value), in.strFromBytes([]*Term{a[1].(*Term)}))
		return Iface{}
	})
	reg("(*strings.Builder).WriteRune", func(in *Interp, fn *ssa.Function, a []Value) Value {
		t := in.convert(types.Typ[types.Int32], types.Typ[types.String], a[1]).(*Str)
		in.build(a[0].(*Value), t)
		return Tuple{in.lenTerm(t), Iface{}}
	})
	reg("strings.Clone", func(in *Interp, fn *ssa.Function, a []Value) Value { return a[0] })
	reg("internal/stringslite.Clone", func(in *Interp, fn *ssa.Function, a []Value) Value { return a[0] })
	reg("encoding/hex.EncodeToString", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return in.hexText(in.sliceBytes(a[0].(Slice)))
	})
	reg("(*encoding/base64.Encoding).EncodeToString", func(in *Interp, fn *ssa.Function, a []Value) Value {
		b := in.sliceBytes(a[1].(Slice))
		name := in.b64name(a[0])
		return in.base64Text(b, name)
	})

	// ---- sync, runtime
	for _, n := range []string{"runtime.KeepAlive", "runtime.SetFinalizer", "internal/race.Acquire", "internal/race.Release", "internal/race.Enable", "internal/race.Disable", "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait",
		"internal/godebug.setUpdate", "internal/godebug.registerMetric", "internal/godebug.setNewIncNonDefault", "runtime.GC"} {
		reg(n, nop)
	}
	// locks: with one goroutine, waiting for a lock is waiting for ever
	lock := func(held func(int) bool, d int) func(in *Interp, fn *ssa.Function, a []Value) Value {
		return func(in *Interp, fn *ssa.Function, a []Value) Value {
			p := a[0].(*Value)
			if p == nil {
				in.nilDeref()
			}
			if held(in.x.locks[p]) {
				if in.x.goroutines > 0 {
					panic(unsupported("lock held by another goroutine"))
				}
				panic(nonTerm{"deadlock: the lock is held already" + in.where()})
			}
			in.x.locks[p] += d
			return nil
		}
	}
	unlock := func(held func(int) bool, d int) func(in *Interp, fn *ssa.Function, a []Value) Value {
		return func(in *Interp, fn *ssa.Function, a []Value) Value {
			p := a[0].(*Value)
			if p == nil {
				in.nilDeref()
			}
			if !held(in.x.locks[p]) {
				m := "sync: unlock of unlocked mutex"
				panic(&targetPanic{v: in.mkErrVal(m), msg: m, stack: in.where()})
			}
			in.x.locks[p] -= d
			return nil
		}
	}
	tryLock := func(in *Interp, fn *ssa.Function, a []Value) Value {
		p := a[0].(*Value)
		if in.x.locks[p] != 0 {
			return in.c.False
		}
		in.x.locks[p] = 1 << 20
		return in.c.True
	}
	const writer = 1 << 20
	any0 := func(n int) bool { return n != 0 }
	wr := func(n int) bool { return n >= writer }
	rd := func(n int) bool { return n > 0 && n < writer }
	reg("(*sync.Mutex).Lock", lock(any0, writer))
	reg("(*sync.Mutex).Unlock", unlock(wr, writer))
	reg("(*sync.Mutex).TryLock", tryLock)
	reg("(*sync.RWMutex).Lock", lock(any0, writer))
	reg("(*sync.RWMutex).Unlock", unlock(wr, writer))
	reg("(*sync.RWMutex).TryLock", tryLock)
	reg("(*sync.RWMutex).RLock", lock(wr, 1))
	reg("(*sync.RWMutex).RUnlock", unlock(rd, 1))

	// atomics
	ptr := func(in *Interp, v Value) *Value {
		p, ok := v.(*Value)
		if !ok {
			panic(unsupported(fmt.Sprintf("atomic operation on %T", v)))
		}
		if p == nil {
			in.nilDeref()
		}
		return p
	}
	for _, n := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		reg("sync/atomic.Load"+n, func(in *Interp, fn *ssa.Function, a []Value) Value { return copyVal(*ptr(in, a[0])) })
		reg("sync/atomic.Store"+n, func(in *Interp, fn *ssa.Function, a []Value) Value {
			*ptr(in, a[0]) = a[1]
			return nil
		})
		reg("sync/atomic.Swap"+n, func(in *Interp, fn *ssa.Function, a []Value) Value {
			p := ptr(in, a[0])
			old := *p
			*p = a[1]
			return old
		})
		reg("sync/atomic.Add"+n, func(in *Interp, fn *ssa.Function, a []Value) Value {
			p := ptr(in, a[0])
			*p = in.c.Bin(OAdd, (*p).(*Term), a[1].(*Term))
			return *p
		})
		reg("sync/atomic.CompareAndSwap"+n, func(in *Interp, fn *ssa.Function, a []Value) Value {
			p := ptr(in, a[0])
			var same bool
			if t, ok := (*p).(*Term); ok {
				same = in.branch(in.c.Eq(t, a[1].(*Term)))
			} else {
				same = *p == a[1]
			}
			if same {
				*p = a[2]
			}
			return in.c.B(same)
		})
	}
	reg("(*sync/atomic.Value).Load", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return (*ptr(in, a[0])).(Struct)[0]
	})
	reg("(*sync/atomic.Value).Store", func(in *Interp, fn *ssa.Function, a []Value) Value {
		(*ptr(in, a[0])).(Struct)[0] = a[1]
		return nil
	})
	reg("(*sync.Once).Do", func(in *Interp, fn *ssa.Function, a []Value) Value {
		p := a[0].(*Value)
		if in.x.onceDone[p] {
			return nil
		}
		in.x.onceDone[p] = true
		in.callValue(a[1].(*Closure), nil)
		return nil
	})
	reg("(*sync.Pool).Get", func(in *Interp, fn *ssa.Function, a []Value) Value {
		st := (*a[0].(*Value)).(Struct)
		for _, f := range st {
			if cl, ok := f.(*Closure); ok && cl != nil {
				return in.callValue(cl, nil)
			}
		}
		return Iface{}
	})
	reg("(*sync.Pool).Put", nop)
	reg("(*internal/godebug.Setting).Value", func(in *Interp, fn *ssa.Function, a []Value) Value { return emptyStr })
	reg("(*internal/godebug.Setting).IncNonDefault", nop)

	// ---- time
	reg("time.Now", func(in *Interp, fn *ssa.Function, a []Value) Value { return in.mkTime(in.nowTerm(), in.c.BV(0, 64)) })
	reg("(time.Time).UTC", func(in *Interp, fn *ssa.Function, a []Value) Value { return a[0] })
	// the calendar isn't needed for days; the code for them is hard on solvers
	reg("(time.Time).AddDate", func(in *Interp, fn *ssa.Function, a []Value) Value {
		y, m, d := a[1].(*Term), a[2].(*Term), a[3].(*Term)
		tm := a[0].(Struct)
		if y.op != OConst || m.op != OConst || d.op != OConst || y.val != 0 || m.val != 0 || tm[0].(*Term).umax >= 1<<62 {
			return useCode{}
		}
		return Struct{tm[0], in.c.Bin(OAdd, tm[1].(*Term), in.c.BV(uint64(d.Signed()*86400), 64)), tm[2]}
	})
	reg("(time.Time).Truncate", func(in *Interp, fn *ssa.Function, a []Value) Value {
		d, tm := a[1].(*Term), a[0].(Struct)
		ns, sec := tm[0].(*Term), tm[1].(*Term)
		if d.op != OConst || ns.op != OConst || ns.val != 0 || sec.op == OConst || d.Signed() <= 0 {
			return useCode{}
		}
		if d.val <= 1e9 && 1e9%d.val == 0 {
			return Struct{ns, sec, tm[2]}
		}
		if d.val%1e9 != 0 {
			return useCode{}
		}
		return Struct{ns, in.c.Bin(OSub, sec, in.c.Bin(OURem, sec, in.c.BV(d.val/1e9, 64))), tm[2]}
	})
	reg("(time.Time).Local", func(in *Interp, fn *ssa.Function, a []Value) Value { return a[0] })
	for _, n := range []string{"time.runtimeNano", "time.runtimeNow", "time.runtimeIsBubbled"} {
		n := n
		reg(n, func(in *Interp, fn *ssa.Function, a []Value) Value {
			switch n {
			case "time.runtimeNano":
				return in.c.BV(1, 64)
			case "time.runtimeIsBubbled":
				return in.c.False
			}
			return Tuple{in.nowTerm(), in.c.BV(0, 32), in.c.BV(1, 64)}
		})
	}
	reg("(time.Time).Format", func(in *Interp, fn *ssa.Function, a []Value) Value {
		l := a[1].(*Str)
		if l.concrete() && (l.s == "2006-01-02T15:04:05Z07:00" || l.s == "2006-01-02T15:04:05.999999999Z07:00") {
			if s, ok := in.timeText(a[0].(Struct)); ok {
				return s
			}
		}
		return &Str{rope: []seg{{opq: "time"}}}
	})
	reg("(time.Time).String", func(in *Interp, fn *ssa.Function, a []Value) Value { return &Str{rope: []seg{{opq: "time"}}} })
	reg("(time.Duration).String", func(in *Interp, fn *ssa.Function, a []Value) Value { return &Str{rope: []seg{{opq: "duration"}}} })

	// ---- sort, reflect
	less := func(stable bool) intrinsic {
		return func(in *Interp, fn *ssa.Function, a []Value) Value {
			s := a[0].(Iface).v.(Slice)
			cl := a[1].(*Closure)
			for i := 1; i < len(s.a); i++ {
				for j := i; j > 0; j-- {
					if !in.branch(in.callValue(cl, []Value{in.c.BV(uint64(j), 64), in.c.BV(uint64(j-1), 64)}).(*Term)) {
						break
					}
					s.a[j], s.a[j-1] = s.a[j-1], s.a[j]
				}
			}
			return nil
		}
	}
	reg("sort.Slice", less(false))
	reg("sort.SliceStable", less(true))
	reg("sort.Strings", func(in *Interp, fn *ssa.Function, a []Value) Value {
		s := a[0].(Slice)
		all := true
		for _, x := range s.a {
			if !x.(*Str).concrete() {
				all = false
			}
		}
		if all {
			sort.SliceStable(s.a, func(i, j int) bool { return s.a[i].(*Str).s < s.a[j].(*Str).s })
			return nil
		}
		for i := 1; i < len(s.a); i++ {
			for j := i; j > 0 && in.branch(in.strLess(s.a[j].(*Str), s.a[j-1].(*Str))); j-- {
				s.a[j], s.a[j-1] = s.a[j-1], s.a[j]
			}
		}
		return nil
	})
	reg("reflect.DeepEqual", func(in *Interp, fn *ssa.Function, a []Value) Value {
		return in.deepEqual(types.Universe.Lookup("any").Type(), a[0], a[1], 0)
	})
	reg("reflect.TypeOf", func(in *Interp, fn *ssa.Function, a []Value) Value { panic(unsupported("reflect.TypeOf" + in.where())) })

	// ---- process
	reg("os.Exit", func(in *Interp, fn *ssa.Function, a []Value) Value { panic(pathEnd{"exit"}) })
	reg("os.runtime_args", func(in *Interp, fn *ssa.Function, a []Value) Value { return Slice{nil_: true} })
	_ = os.Args
}

func (in *Interp) errString(s *Str) Iface {
	e := in.mkErrVal("")
	(*e.v.(*Value)).(Struct)[0] = s
	return e
}

func (in *Interp) b64name(recv Value) string {
	p := recv.(*Value)
	for n := range b64 {
		g := in.P.pkgs["encoding/base64"].Var(n)
		if gp, ok := (*in.globalAddr(g)).(*Value); ok && gp == p {
			return n
		}
	}
	panic(unsupported("custom base64 encoding"))
}

func (in *Interp) base64Text(b []*Term, name string) *Str {
	const std = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"
	alpha := std + "+/"
	if strings.Contains(name, "URL") {
		alpha = std + "-_"
	}
	c := in.c
	ch := func(n *Term) *Term { // 6-bit value in an 8-bit term
		if n.op == OConst {
			return c.bytesC[alpha[n.val]]
		}
		ge := func(x uint64) *Term { return c.Bin(OULe, c.BV(x, 8), n) }
		add := func(x int) *Term { return c.Bin(OAdd, n, c.BV(uint64(x)&0xff, 8)) }
		r := add('A')
		r = c.Ite(ge(26), add('a'-26), r)
		r = c.Ite(ge(52), add('0'-52), r)
		r = c.Ite(ge(62), c.BV(uint64(alpha[62]), 8), r)
		return c.Ite(ge(63), c.BV(uint64(alpha[63]), 8), r)
	}
	shl := func(t *Term, k uint64) *Term { return c.Bin(OShl, t, c.BV(k, 8)) }
	shr := func(t *Term, k uint64) *Term { return c.Bin(OLShr, t, c.BV(k, 8)) }
	and := func(t *Term, k uint64) *Term { return c.Bin(OBAnd, t, c.BV(k, 8)) }
	or := func(a, b *Term) *Term { return c.Bin(OBOr, a, b) }
	var out []*Term
	z := c.BV(0, 8)
	for i := 0; i < len(b); i += 3 {
		b0, b1, b2 := b[i], z, z
		n := len(b) - i
		if n > 1 {
			b1 = b[i+1]
		}
		if n > 2 {
			b2 = b[i+2]
		}
		out = append(out, ch(shr(b0, 2)), ch(or(and(shl(b0, 4), 0x30), shr(b1, 4))))
		pad := !strings.HasPrefix(name, "Raw")
		if n > 1 {
			out = append(out, ch(or(and(shl(b1, 2), 0x3c), shr(b2, 6))))
		} else if pad {
			out = append(out, c.bytesC['='])
		}
		if n > 2 {
			out = append(out, ch(and(b2, 0x3f)))
		} else if pad {
			out = append(out, c.bytesC['='])
		}
	}
	return in.strFromBytes(out)
}
