package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// SymFloat is float64(int term), produced by decoding a symbolic JSON integer into any.
type SymFloat struct{ n *Term }

// SymPtr is the address of a symbolically indexed element of scalars.
type SymPtr struct {
	a   []Value
	idx *Term
}

func (in *Interp) nilDeref() { in.rtPanic("invalid memory address or nil pointer dereference") }

func (in *Interp) load(p Value) Value {
	switch p := p.(type) {
	case *Value:
		if p == nil {
			in.nilDeref()
		}
		return copyVal(*p)
	case *SymPtr:
		var r *Term
		for i := len(p.a) - 1; i >= 0; i-- {
			x := p.a[i].(*Term)
			if r == nil {
				r = x
			} else {
				r = in.c.Ite(in.c.Eq(p.idx, in.c.BV(uint64(i), p.idx.w)), x, r)
			}
		}
		return r
	}
	panic(unsupported(fmt.Sprintf("load through %T%s", p, in.where())))
}

func (in *Interp) store(p Value, v Value) {
	switch p := p.(type) {
	case *Value:
		if p == nil {
			in.nilDeref()
		}
		*p = copyVal(v)
		return
	case *SymPtr:
		nv := v.(*Term)
		for i := range p.a {
			p.a[i] = in.c.Ite(in.c.Eq(p.idx, in.c.BV(uint64(i), p.idx.w)), nv, p.a[i].(*Term))
		}
		return
	}
	panic(unsupported(fmt.Sprintf("store through %T%s", p, in.where())))
}

// index64 sign/zero-extends an index term to 64 bits.
func (in *Interp) index64(v Value, t types.Type) *Term {
	x := v.(*Term)
	_, signed, _ := intInfo(t)
	if signed {
		return in.c.SExt(x, 64)
	}
	return in.c.ZExt(x, 64)
}

// checkIndex panics in the target when idx is out of [0,n).
func (in *Interp) checkIndex(idx *Term, n int) {
	ok := in.c.Bin(OULt, idx, in.c.BV(uint64(n), 64))
	if !in.branch(ok) {
		in.rtPanic(fmt.Sprintf("index out of range [%s] with length %d", idx, n))
	}
}

func scalar(v Value) bool { _, ok := v.(*Term); return ok }

func (in *Interp) elemAddr(a []Value, idx *Term) Value {
	in.checkIndex(idx, len(a))
	if idx.op == OConst {
		return &a[idx.val]
	}
	if scalar(a[0]) {
		return &SymPtr{a, idx}
	}
	return &a[in.concretize(idx, 128)]
}

func (in *Interp) exec(fr *frame, ins ssa.Instruction) {
	switch ins := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		p := new(Value)
		*p = in.zero(derefType(ins.Type()))
		fr.set(ins, p)
	case *ssa.UnOp:
		fr.set(ins, in.unop(fr, ins))
	case *ssa.BinOp:
		fr.set(ins, in.binop(ins.Op, ins.X.Type(), ins.Y.Type(), in.get(fr, ins.X), in.get(fr, ins.Y)))
	case *ssa.Call:
		fn, args := in.prepareCall(fr, &ins.Call)
		cl := fn.(*Closure)
		var v Value
		if cl != nil && cl.bi != nil {
			v = in.builtin(fr, cl.bi, &ins.Call, args)
		} else {
			v = in.callValue(cl, args)
		}
		fr.set(ins, v)
	case *ssa.Defer:
		fn, args := in.prepareCall(fr, &ins.Call)
		fr.defers = append(fr.defers, deferred{fn, &ins.Call, args})
	case *ssa.Go:
		// one of the schedules: the new goroutine runs at once, to its end
		fn, args := in.prepareCall(fr, &ins.Call)
		cl := fn.(*Closure)
		in.x.goroutines++
		if cl != nil && cl.bi != nil {
			in.builtin(fr, cl.bi, &ins.Call, args)
		} else {
			in.callValue(cl, args)
		}
	case *ssa.RunDefers:
		in.runDefers(fr)
	case *ssa.Panic:
		v := in.get(fr, ins.X).(Iface)
		panic(&targetPanic{v: v, msg: in.panicText(v), stack: in.where()})
	case *ssa.Store:
		in.store(in.get(fr, ins.Addr), in.get(fr, ins.Val))
	case *ssa.MapUpdate:
		m := in.get(fr, ins.Map).(*Map)
		if m == nil {
			panic(&targetPanic{v: in.mkErrVal("assignment to entry in nil map"), msg: "assignment to entry in nil map", stack: in.where()})
		}
		in.mapSet(m, ins.Map.Type(), in.get(fr, ins.Key), in.get(fr, ins.Value))
	case *ssa.FieldAddr:
		p, ok := in.get(fr, ins.X).(*Value)
		if !ok {
			panic(unsupported(fmt.Sprintf("field of %T in %s", in.get(fr, ins.X), fr.fn)))
		}
		if p == nil {
			in.nilDeref()
		}
		s, ok := (*p).(Struct)
		if !ok {
			panic(unsupported(fmt.Sprintf("field %d of non-struct %T in %s", ins.Field, *p, fr.fn)))
		}
		fr.set(ins, &s[ins.Field])
	case *ssa.Field:
		fr.set(ins, copyVal(in.get(fr, ins.X).(Struct)[ins.Field]))
	case *ssa.IndexAddr:
		x := in.get(fr, ins.X)
		idx := in.index64(in.get(fr, ins.Index), ins.Index.Type())
		switch x := x.(type) {
		case *Value:
			if x == nil {
				in.nilDeref()
			}
			fr.set(ins, in.elemAddr((*x).(Array), idx))
		case Slice:
			if x.blob != nil {
				if written(ins) {
					fr.set(ins, in.elemAddr(in.writable(x.blob), idx))
					return
				}
				fr.set(ins, in.blobElem(x.blob, idx))
				return
			}
			fr.set(ins, in.elemAddr(x.a, idx))
		default:
			panic(unsupported(fmt.Sprintf("IndexAddr on %T", x)))
		}
	case *ssa.Index:
		x := in.get(fr, ins.X)
		idx := in.index64(in.get(fr, ins.Index), ins.Index.Type())
		switch x := x.(type) {
		case Array:
			fr.set(ins, in.load(in.elemAddr(x, idx)))
		case *Str:
			fr.set(ins, in.strIndex(x, idx))
		default:
			panic(unsupported(fmt.Sprintf("Index on %T", x)))
		}
	case *ssa.Lookup:
		x := in.get(fr, ins.X)
		if s, ok := x.(*Str); ok {
			fr.set(ins, in.strIndex(s, in.index64(in.get(fr, ins.Index), ins.Index.Type())))
			return
		}
		mt := ins.X.Type().Underlying().(*types.Map)
		v, ok := in.mapGet(x.(*Map), mt, in.get(fr, ins.Index))
		if !ok {
			v = in.zero(mt.Elem())
		}
		if ins.CommaOk {
			fr.set(ins, Tuple{copyVal(v), in.c.B(ok)})
		} else {
			fr.set(ins, copyVal(v))
		}
	case *ssa.Extract:
		fr.set(ins, in.get(fr, ins.Tuple).(Tuple)[ins.Index])
	case *ssa.Slice:
		fr.set(ins, in.sliceOp(fr, ins))
	case *ssa.MakeSlice:
		n := in.index64(in.get(fr, ins.Len), ins.Len.Type())
		cp := in.index64(in.get(fr, ins.Cap), ins.Cap.Type())
		et := ins.Type().Underlying().(*types.Slice).Elem()
		if n.op != OConst && isByteSlice(ins.Type()) && n.umax > 64 && n == cp {
			// a buffer of symbolic length: only usable as the destination of a copy of a document
			if !in.branch(in.c.Bin(OSLe, in.c.BV(0, 64), n)) {
				in.rtPanic("makeslice: len out of range")
			}
			fr.set(ins, Slice{blob: &Blob{lenT: n}})
			return
		}
		if n.op != OConst || cp.op != OConst {
			lim := in.c.BV(1<<20, 64)
			if !in.branch(in.c.And(in.c.Bin(OSLe, in.c.BV(0, 64), n), in.c.Bin(OSLe, n, cp))) {
				in.rtPanic("makeslice: len out of range")
			}
			if !in.branch(in.c.Bin(OSLe, cp, lim)) {
				panic(unsupported("make with symbolic size over 1M"))
			}
		}
		nv, cv := int64(in.concretize(n, 64)), int64(in.concretize(cp, 64))
		if nv < 0 || cv < nv {
			in.rtPanic("makeslice: len out of range")
		}
		if cv > 1<<24 {
			panic(unsupported(fmt.Sprintf("make of %d elements", cv)))
		}
		a := make([]Value, cv)
		z := in.zero(et)
		for i := range a {
			a[i] = copyVal(z)
		}
		fr.set(ins, Slice{a: a[:nv]})
	case *ssa.MakeMap:
		in.x.nmaps++
		fr.set(ins, &Map{id: in.x.nmaps})
	case *ssa.MakeChan:
		fr.set(ins, &Chan{})
	case *ssa.MakeClosure:
		env := make([]Value, len(ins.Bindings))
		for i, b := range ins.Bindings {
			env[i] = in.get(fr, b)
		}
		fr.set(ins, &Closure{fn: ins.Fn.(*ssa.Function), env: env})
	case *ssa.MakeInterface:
		fr.set(ins, Iface{t: ins.X.Type(), v: copyVal(in.get(fr, ins.X))})
	case *ssa.ChangeInterface:
		fr.set(ins, in.get(fr, ins.X))
	case *ssa.ChangeType:
		fr.set(ins, in.get(fr, ins.X))
	case *ssa.Convert:
		fr.set(ins, in.convert(ins.X.Type(), ins.Type(), in.get(fr, ins.X)))
	case *ssa.MultiConvert:
		fr.set(ins, in.convert(ins.X.Type(), ins.Type(), in.get(fr, ins.X)))
	case *ssa.SliceToArrayPointer:
		s := in.get(fr, ins.X).(Slice)
		n := int(derefType(ins.Type()).Underlying().(*types.Array).Len())
		if len(s.a) < n {
			in.rtPanic("cannot convert slice to array: length too short")
		}
		if s.nil_ {
			fr.set(ins, (*Value)(nil))
			return
		}
		p := new(Value)
		*p = Array(s.a[:n:n])
		fr.set(ins, p)
	case *ssa.TypeAssert:
		fr.set(ins, in.typeAssert(ins, in.get(fr, ins.X).(Iface)))
	case *ssa.Range:
		x := in.get(fr, ins.X)
		switch x := x.(type) {
		case *Str:
			fr.set(ins, &strIter{s: x})
		case *Map:
			fr.set(ins, in.newMapIter(fr, x))
		default:
			panic(unsupported(fmt.Sprintf("range over %T", x)))
		}
	case *ssa.Next:
		fr.set(ins, in.next(fr, ins))
	case *ssa.Send:
		ch := in.get(fr, ins.Chan).(*Chan)
		if ch == nil {
			panic(unsupported("send on a nil channel"))
		}
		if ch.closed {
			panic(&targetPanic{v: in.mkErrVal("send on closed channel"), msg: "send on closed channel", stack: in.where()})
		}
		ch.buf = append(ch.buf, copyVal(in.get(fr, ins.X)))
	case *ssa.Select:
		fr.set(ins, in.selectOp(fr, ins))
	default:
		panic(unsupported(fmt.Sprintf("instruction %T", ins)))
	}
}

func (in *Interp) panicText(v Iface) string {
	if v.t == nil {
		return "nil"
	}
	defer func() { recover() }()
	return in.textOf(v)
}

// textOf renders an interface value for messages (best effort, never forks).
func (in *Interp) textOf(v Iface) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = in.show(v)
		}
	}()
	if in.implements(v.t, in.errorType()) && len(in.stack) < maxDepth-50 {
		if p, ok := v.v.(*Value); !ok || p != nil {
			return in.show(in.callMethod(v, "Error", nil))
		}
	}
	return in.show(v.v)
}

func (in *Interp) errorType() types.Type { return types.Universe.Lookup("error").Type() }

// unhexTable is the table encoding/hex decodes with.
var unhexTable = func() string {
	b := make([]byte, 256)
	for i := range b {
		b[i] = 0xff
		switch {
		case i >= '0' && i <= '9':
			b[i] = byte(i - '0')
		case i >= 'a' && i <= 'f':
			b[i] = byte(i - 'a' + 10)
		case i >= 'A' && i <= 'F':
			b[i] = byte(i - 'A' + 10)
		}
	}
	return string(b)
}()

func (in *Interp) strIndex(s *Str, idx *Term) Value {
	n := in.strLen(s)
	in.checkIndex(idx, n)
	b := in.bytesOf(s)
	if idx.op == OConst {
		return b[idx.val]
	}
	if s.concrete() {
		i := idx
		for i.op == OZExt || i.op == OSExt && i.a.umax < 128 {
			i = i.a
		}
		if i.w == 8 && n == 16 && s.s == "0123456789abcdef" && i.umax < 16 {
			return in.hexDigit(i, false)
		}
		if v := in.c.nib[i]; v != nil && n == 256 && s.s == unhexTable {
			return v
		}
	}
	r := b[n-1]
	for i := n - 2; i >= 0; i-- {
		r = in.c.Ite(in.c.Eq(idx, in.c.BV(uint64(i), 64)), b[i], r)
	}
	return r
}

func (in *Interp) unop(fr *frame, ins *ssa.UnOp) Value {
	x := in.get(fr, ins.X)
	switch ins.Op {
	case token.MUL:
		return in.load(x)
	case token.NOT:
		return in.c.Not(x.(*Term))
	case token.SUB:
		if f, ok := x.(float64); ok {
			return -f
		}
		return in.c.Neg(x.(*Term))
	case token.XOR:
		return in.c.BNot(x.(*Term))
	case token.ARROW:
		ch := x.(*Chan)
		et := ins.X.Type().Underlying().(*types.Chan).Elem()
		if ch == nil || len(ch.buf) == 0 && !ch.closed {
			panic(unsupported("waiting for a channel"))
		}
		v, ok := in.recv(ch, et)
		if ins.CommaOk {
			return Tuple{v, ok}
		}
		return v
	}
	panic(unsupported("unop " + ins.Op.String()))
}

func (in *Interp) binop(op token.Token, t, ty types.Type, x, y Value) Value {
	switch op {
	case token.EQL:
		return in.equalMixed(t, ty, x, y)
	case token.NEQ:
		return in.c.Not(in.equalMixed(t, ty, x, y))
	}
	switch xv := x.(type) {
	case *Term:
		yv := y.(*Term)
		_, signed, _ := intInfo(t)
		c := in.c
		switch op {
		case token.ADD:
			return c.Bin(OAdd, xv, yv)
		case token.SUB:
			return c.Bin(OSub, xv, yv)
		case token.MUL:
			return c.Bin(OMul, xv, yv)
		case token.QUO, token.REM:
			if !in.branch(c.Not(c.Eq(yv, c.BV(0, yv.w)))) {
				in.rtPanic("integer divide by zero")
			}
			o := OUDiv
			switch {
			case op == token.QUO && signed:
				o = OSDiv
			case op == token.REM && signed:
				o = OSRem
			case op == token.REM:
				o = OURem
			}
			return c.Bin(o, xv, yv)
		case token.AND:
			if xv.w == 0 {
				return c.And(xv, yv)
			}
			return c.Bin(OBAnd, xv, yv)
		case token.OR:
			if xv.w == 0 {
				return c.Or(xv, yv)
			}
			return c.Bin(OBOr, xv, yv)
		case token.XOR:
			return c.Bin(OBXor, xv, yv)
		case token.AND_NOT:
			return c.Bin(OBAnd, xv, c.BNot(yv))
		case token.SHL, token.SHR:
			_, ys, _ := intInfo(ty)
			if ys {
				if !in.branch(c.Bin(OSLe, c.BV(0, yv.w), yv)) {
					in.rtPanic("negative shift amount")
				}
			}
			big := c.Not(c.Bin(OULt, yv, c.BV(uint64(xv.w), yv.w)))
			var cnt *Term
			if yv.w > xv.w {
				cnt = c.Trunc(yv, xv.w)
			} else {
				cnt = c.ZExt(yv, xv.w)
			}
			o := OShl
			if op == token.SHR {
				o = OLShr
				if signed {
					o = OAShr
				}
			}
			var over *Term = c.BV(0, xv.w)
			if o == OAShr {
				over = c.Bin(OAShr, xv, c.BV(uint64(xv.w-1), xv.w))
			}
			if xv.w == 8 && yv.w < 8 {
				big = c.False
			}
			return c.Ite(big, over, c.Bin(o, xv, cnt))
		case token.LSS:
			if signed {
				return c.Bin(OSLt, xv, yv)
			}
			return c.Bin(OULt, xv, yv)
		case token.LEQ:
			if signed {
				return c.Bin(OSLe, xv, yv)
			}
			return c.Bin(OULe, xv, yv)
		case token.GTR:
			if signed {
				return c.Bin(OSLt, yv, xv)
			}
			return c.Bin(OULt, yv, xv)
		case token.GEQ:
			if signed {
				return c.Bin(OSLe, yv, xv)
			}
			return c.Bin(OULe, yv, xv)
		}
	case *Str:
		yv := y.(*Str)
		switch op {
		case token.ADD:
			return in.concat(xv, yv)
		case token.LSS:
			return in.strLess(xv, yv)
		case token.GTR:
			return in.strLess(yv, xv)
		case token.LEQ:
			return in.c.Not(in.strLess(yv, xv))
		case token.GEQ:
			return in.c.Not(in.strLess(xv, yv))
		}
	case float64:
		yv, ok := y.(float64)
		if !ok {
			panic(unsupported("arithmetic on a symbolic float"))
		}
		f32 := false
		if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Float32 {
			f32 = true
		}
		r := func(f float64) Value {
			if f32 {
				return float64(float32(f))
			}
			return f
		}
		switch op {
		case token.ADD:
			return r(xv + yv)
		case token.SUB:
			return r(xv - yv)
		case token.MUL:
			return r(xv * yv)
		case token.QUO:
			return r(xv / yv)
		case token.LSS:
			return in.c.B(xv < yv)
		case token.LEQ:
			return in.c.B(xv <= yv)
		case token.GTR:
			return in.c.B(xv > yv)
		case token.GEQ:
			return in.c.B(xv >= yv)
		}
	}
	panic(unsupported(fmt.Sprintf("binop %s on %T", op, x)))
}

// equalMixed handles interface/concrete comparisons.
func (in *Interp) equalMixed(t, ty types.Type, x, y Value) *Term {
	xi, xok := x.(Iface)
	yi, yok := y.(Iface)
	if xok != yok {
		if xok && types.IsInterface(t) && !types.IsInterface(ty) {
			yi, yok = Iface{t: ty, v: y}, true
			return in.equal(t, xi, yi)
		}
		if yok && types.IsInterface(ty) && !types.IsInterface(t) {
			return in.equal(ty, Iface{t: t, v: x}, yi)
		}
	}
	return in.equal(t, x, y)
}

func (in *Interp) convert(from, to types.Type, x Value) Value {
	uf, ut := from.Underlying(), to.Underlying()
	if isInteger(ut) {
		w, _, _ := intInfo(ut)
		switch xv := x.(type) {
		case *Term:
			if isInteger(uf) {
				fw, fs, _ := intInfo(uf)
				switch {
				case w < fw:
					return in.c.Trunc(xv, w)
				case fs:
					return in.c.SExt(xv, w)
				default:
					return in.c.ZExt(xv, w)
				}
			}
		case float64:
			if _, signed, _ := intInfo(ut); signed {
				return in.c.BV(uint64(f2i(xv)), w)
			}
			return in.c.BV(uint64(xv), w)
		case *SymFloat:
			return in.c.Trunc(xv.n, w)
		case *Value: // unsafe.Pointer -> uintptr
			panic(unsupported("pointer to uintptr conversion" + in.where()))
		}
	}
	if isFloat(ut) {
		switch xv := x.(type) {
		case *Term:
			_, s, _ := intInfo(uf)
			v := in.concretize(xv, 80)
			var f float64
			if s {
				f = float64(sx(v, xv.w))
			} else {
				f = float64(v)
			}
			if b := ut.(*types.Basic); b.Kind() == types.Float32 {
				f = float64(float32(f))
			}
			return f
		case float64:
			if b := ut.(*types.Basic); b.Kind() == types.Float32 {
				return float64(float32(xv))
			}
			return xv
		case *SymFloat:
			return xv
		}
	}
	if isString(ut) {
		switch xv := x.(type) {
		case *Str:
			return xv
		case *Term: // rune to string
			_, signed, _ := intInfo(uf)
			v := in.concretize(xv, 300)
			if signed {
				return cstr(string(rune(sx(v, xv.w))))
			}
			if v > utf8.MaxRune {
				return cstr(string(utf8.RuneError))
			}
			return cstr(string(rune(v)))
		case Slice:
			if isByteSlice(uf) {
				if xv.blob != nil {
					return in.blobStr(xv.blob)
				}
				return in.strFromBytes(in.sliceBytes(xv))
			}
			// []rune
			var rs []byte
			sym := []*Term{}
			for _, e := range xv.a {
				t := e.(*Term)
				if t.op != OConst {
					if !in.branch(in.c.Bin(OULt, t, in.c.BV(0x80, t.w))) {
						panic(unsupported("symbolic non-ASCII rune to string"))
					}
					sym = append(sym, in.c.Trunc(t, 8))
					continue
				}
				rs = []byte(string(rune(sx(t.val, t.w))))
				for _, b := range rs {
					sym = append(sym, in.c.bytesC[b])
				}
			}
			return in.strFromBytes(sym)
		}
	}
	if st, ok := ut.(*types.Slice); ok {
		if s, ok := x.(*Str); ok {
			b, _ := st.Elem().Underlying().(*types.Basic)
			if b != nil && b.Kind() == types.Uint8 {
				if bl := strBlob(s); bl != nil {
					return bl.own()
				}
				return in.mkBytes(in.bytesOf(s))
			}
			if b != nil && b.Kind() == types.Int32 {
				var out []Value
				it := &strIter{s: s}
				for {
					r, _, ok := in.strNext(it)
					if !ok {
						break
					}
					out = append(out, r)
				}
				return Slice{a: out}
			}
		}
		if s, ok := x.(Slice); ok {
			return s
		}
	}
	if ut, ok := ut.(*types.Basic); ok && ut.Kind() == types.UnsafePointer {
		return x
	}
	if uf, ok := uf.(*types.Basic); ok && uf.Kind() == types.UnsafePointer {
		return x
	}
	if _, ok := ut.(*types.Array); ok { // slice to array
		s := x.(Slice)
		n := int(ut.(*types.Array).Len())
		if len(s.a) < n {
			in.rtPanic("cannot convert slice to array: length too short")
		}
		return copyVal(Array(s.a[:n]))
	}
	if _, ok := ut.(*types.Pointer); ok {
		return x
	}
	panic(unsupported(fmt.Sprintf("conversion %s -> %s (%T)", from, to, x)))
}

func (in *Interp) recv(ch *Chan, et types.Type) (Value, *Term) {
	if len(ch.buf) == 0 {
		return in.zero(et), in.c.False
	}
	v := ch.buf[0]
	ch.buf = ch.buf[1:]
	return v, in.c.True
}

// selectOp takes the first case that is ready.
func (in *Interp) selectOp(fr *frame, ins *ssa.Select) Value {
	t := Tuple{in.c.BV(math.MaxUint64, 64), in.c.False}
	chosen := -1
	ok := in.c.False
	var got Value
	for i, st := range ins.States {
		ch, _ := in.get(fr, st.Chan).(*Chan)
		if ch == nil {
			continue
		}
		if st.Dir == types.SendOnly {
			if ch.closed {
				panic(&targetPanic{v: in.mkErrVal("send on closed channel"), msg: "send on closed channel", stack: in.where()})
			}
			ch.buf = append(ch.buf, copyVal(in.get(fr, st.Send)))
			chosen = i
			break
		}
		if len(ch.buf) > 0 || ch.closed {
			got, ok = in.recv(ch, st.Chan.Type().Underlying().(*types.Chan).Elem())
			chosen = i
			break
		}
	}
	if chosen < 0 && ins.Blocking {
		panic(unsupported("waiting for a channel"))
	}
	if chosen >= 0 {
		t[0] = in.c.BV(uint64(chosen), 64)
	}
	t[1] = ok
	for i, st := range ins.States {
		if st.Dir == types.RecvOnly {
			if i == chosen {
				t = append(t, got)
			} else {
				t = append(t, in.zero(st.Chan.Type().Underlying().(*types.Chan).Elem()))
			}
		}
	}
	return t
}

// f2i follows amd64 semantics for out-of-range conversions.
func f2i(f float64) int64 {
	if f >= 9223372036854775808.0 || f < -9223372036854775808.0 || math.IsNaN(f) {
		return math.MinInt64
	}
	return int64(f)
}

func (in *Interp) sliceOp(fr *frame, ins *ssa.Slice) Value {
	x := in.get(fr, ins.X)
	c := in.c
	opt := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return in.index64(in.get(fr, v), v.Type())
	}
	lo, hi, mx := opt(ins.Low), opt(ins.High), opt(ins.Max)
	if p, ok := x.(*Value); ok {
		if p == nil {
			in.nilDeref()
		}
		arr, ok := (*p).(Array)
		if !ok {
			panic(unsupported("slice of non-array pointer"))
		}
		x = Slice{a: arr}
	}
	switch xv := x.(type) {
	case *Str:
		n := in.strLen(xv)
		if lo == nil {
			lo = c.BV(0, 64)
		}
		if hi == nil {
			hi = c.BV(uint64(n), 64)
		}
		ok := c.And(c.Bin(OULe, lo, hi), c.Bin(OULe, hi, c.BV(uint64(n), 64)))
		if !in.branch(ok) {
			in.rtPanic(fmt.Sprintf("slice bounds out of range [%s:%s] with length %d", lo, hi, n))
		}
		l, h := in.concretize(lo, 64), in.concretize(hi, 64)
		return in.substr(xv, int(l), int(h))
	case Slice:
		if xv.blob != nil {
			return in.blobSlice(xv.blob, lo, hi)
		}
		n, cp := len(xv.a), cap(xv.a)
		if lo == nil {
			lo = c.BV(0, 64)
		}
		if hi == nil {
			hi = c.BV(uint64(n), 64)
		}
		lim := c.BV(uint64(cp), 64)
		ok := c.And(c.Bin(OULe, lo, hi), c.Bin(OULe, hi, lim))
		if mx != nil {
			ok = c.And(c.And(c.Bin(OULe, lo, hi), c.Bin(OULe, hi, mx)), c.Bin(OULe, mx, lim))
		}
		if !in.branch(ok) {
			in.rtPanic(fmt.Sprintf("slice bounds out of range [%s:%s] with capacity %d", lo, hi, cp))
		}
		l, h := int(in.concretize(lo, 80)), int(in.concretize(hi, 80))
		m := cp
		if mx != nil {
			m = int(in.concretize(mx, 80))
		}
		if xv.nil_ && l == 0 && h == 0 {
			return xv
		}
		return Slice{a: xv.a[l:h:m]}
	}
	panic(unsupported(fmt.Sprintf("slice of %T", x)))
}

func (in *Interp) typeAssert(ins *ssa.TypeAssert, x Iface) Value {
	ok := false
	var v Value
	if x.t != nil {
		if types.IsInterface(ins.AssertedType) {
			ok = in.implements(x.t, ins.AssertedType)
			v = x
		} else {
			ok = types.Identical(x.t, ins.AssertedType)
			v = copyVal(x.v)
		}
	}
	if !ok {
		if !ins.CommaOk {
			if x.t == nil {
				in.rtPanic(fmt.Sprintf("interface conversion: interface is nil, not %s", ins.AssertedType))
			}
			in.rtPanic(fmt.Sprintf("interface conversion: interface is %s, not %s", x.t, ins.AssertedType))
		}
		return Tuple{in.zero(ins.AssertedType), in.c.False}
	}
	if ins.CommaOk {
		return Tuple{v, in.c.True}
	}
	return v
}

// ---------------------------------------------------------------- maps

func (in *Interp) mapFind(m *Map, kt types.Type, key Value) int {
	if m == nil {
		return -1
	}
	if types.IsInterface(kt) {
		if i := key.(Iface); i.t != nil && !types.Comparable(i.t) {
			in.rtPanic("hash of unhashable type " + i.t.String())
		}
	}
	if ks, ok := key.(*Str); ok && ks.concrete() {
		for i, k := range m.keys {
			s := k.(*Str)
			if s.concrete() {
				if s.s == ks.s {
					return i
				}
			} else if in.branch(in.strEq(s, ks)) {
				return i
			}
		}
		return -1
	}
	for i, k := range m.keys {
		if in.branch(in.equal(kt, k, key)) {
			return i
		}
	}
	return -1
}

func (in *Interp) mapGet(m *Map, mt *types.Map, key Value) (Value, bool) {
	if i := in.mapFind(m, mt.Key(), key); i >= 0 {
		return m.vals[i], true
	}
	return nil, false
}

func (in *Interp) mapSet(m *Map, t types.Type, key, val Value) {
	kt := t.Underlying().(*types.Map).Key()
	if i := in.mapFind(m, kt, key); i >= 0 {
		m.vals[i] = copyVal(val)
		return
	}
	m.keys = append(m.keys, copyVal(key))
	m.vals = append(m.vals, copyVal(val))
}

func (in *Interp) mapDelete(m *Map, kt types.Type, key Value) {
	if i := in.mapFind(m, kt, key); i >= 0 {
		// build new slices: iterators hold their own key copies
		m.keys = append(append([]Value{}, m.keys[:i]...), m.keys[i+1:]...)
		m.vals = append(append([]Value{}, m.vals[:i]...), m.vals[i+1:]...)
	}
}

var perms = map[int][][]int{
	2: {{0, 1}, {1, 0}},
	3: {{0, 1, 2}, {2, 1, 0}, {1, 0, 2}, {1, 2, 0}, {0, 2, 1}, {2, 0, 1}},
}

func (in *Interp) newMapIter(fr *frame, m *Map) *mapIter {
	it := &mapIter{m: m}
	if m == nil {
		return it
	}
	n := len(m.keys)
	it.keys = append([]Value(nil), m.keys...)
	if n < 2 || !in.isRepo(in.pkgOf(fr.fn)) || in.x.mapOrder == 0 || in.isHarness(fr.fn) {
		return it
	}
	if n <= 3 && in.x.mapOrder >= 2 {
		p := perms[n][in.choose("map.order", len(perms[n]))]
		for i, j := range p {
			it.keys[i] = m.keys[j]
		}
		in.x.mapForks++
		return it
	}
	modes := 2
	if in.x.mapOrder >= 2 {
		modes = n + 1
	}
	k := in.choose("map.order", modes)
	in.x.mapForks++
	switch {
	case k == 1:
		for i := range it.keys {
			it.keys[i] = m.keys[n-1-i]
		}
	case k > 1: // rotation
		for i := range it.keys {
			it.keys[i] = m.keys[(i+k-1)%n]
		}
	}
	return it
}

func (in *Interp) pkgOf(fn *ssa.Function) *ssa.Package {
	for fn != nil {
		if fn.Pkg != nil {
			return fn.Pkg
		}
		if o := fn.Origin(); o != nil && o != fn {
			fn = o
			continue
		}
		fn = fn.Parent()
	}
	return nil
}

func (in *Interp) isHarness(fn *ssa.Function) bool {
	p := in.pkgOf(fn)
	return p != nil && isHarnessPath(p.Pkg.Path())
}

func (in *Interp) next(fr *frame, ins *ssa.Next) Value {
	switch it := in.get(fr, ins.Iter).(type) {
	case *strIter:
		pos := it.i
		r, _, ok := in.strNext(it)
		if !ok {
			return Tuple{in.c.False, in.c.BV(0, 64), in.c.BV(0, 32)}
		}
		return Tuple{in.c.True, in.c.BV(uint64(pos), 64), r}
	case *mapIter:
		for it.i < len(it.keys) {
			k := it.keys[it.i]
			it.i++
			// deleted meanwhile?
			for j, mk := range it.m.keys {
				if mk == k || sameKey(mk, k) {
					return Tuple{in.c.True, copyVal(k), copyVal(it.m.vals[j])}
				}
			}
		}
		tt := ins.Type().(*types.Tuple)
		z := func(t types.Type) Value {
			if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
				return nil
			}
			return in.zero(t)
		}
		return Tuple{in.c.False, z(tt.At(1).Type()), z(tt.At(2).Type())}
	}
	panic(unsupported("next"))
}

func sameKey(a, b Value) bool {
	switch a := a.(type) {
	case *Term:
		return a == b.(*Term)
	case *Str:
		bs, ok := b.(*Str)
		return ok && (a == bs || a.concrete() && bs.concrete() && a.s == bs.s)
	case Struct:
		bs, ok := b.(Struct)
		if !ok || len(a) != len(bs) {
			return false
		}
		for i := range a {
			if !sameKey(a[i], bs[i]) {
				return false
			}
		}
		return true
	case Array:
		bs, ok := b.(Array)
		if !ok || len(a) != len(bs) {
			return false
		}
		for i := range a {
			if !sameKey(a[i], bs[i]) {
				return false
			}
		}
		return true
	case Iface:
		bs, ok := b.(Iface)
		return ok && a.t == bs.t && (a.t == nil || sameKey(a.v, bs.v))
	case *Value:
		bs, ok := b.(*Value)
		return ok && a == bs
	case float64:
		bs, ok := b.(float64)
		return ok && a == bs
	}
	return false
}

// strNext decodes the next rune of it.
func (in *Interp) strNext(it *strIter) (Value, int, bool) {
	b := in.bytesOf(it.s)
	if it.i >= len(b) {
		return nil, 0, false
	}
	b0 := b[it.i]
	if b0.op != OConst {
		if in.branch(in.c.Bin(OULt, b0, in.c.BV(0x80, 8))) {
			it.i++
			return in.c.ZExt(b0, 32), 1, true
		}
	} else if b0.val < 0x80 {
		it.i++
		return in.c.BV(b0.val, 32), 1, true
	}
	// multi-byte: concretize up to 4 bytes
	var buf []byte
	for k := 0; k < 4 && it.i+k < len(b); k++ {
		buf = append(buf, byte(in.concretize(b[it.i+k], 256)))
		if utf8.FullRune(buf) {
			break
		}
	}
	r, n := utf8.DecodeRune(buf)
	it.i += n
	return in.c.BV(uint64(uint32(r)), 32), n, true
}

// ---------------------------------------------------------------- builtins

func (in *Interp) builtin(fr *frame, b *ssa.Builtin, call *ssa.CallCommon, args []Value) Value {
	c := in.c
	switch b.Name() {
	case "len":
		return in.lenTerm(args[0])
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			if x.blob != nil {
				return in.blobLen(x.blob)
			}
			return c.BV(uint64(cap(x.a)), 64)
		case Array:
			return c.BV(uint64(len(x)), 64)
		case *Value:
			return c.BV(uint64(len((*x).(Array))), 64)
		}
	case "append":
		x := args[0].(Slice)
		if len(args) == 1 {
			return x
		}
		if s, ok := args[1].(*Str); ok {
			if bl := strBlob(s); bl != nil && len(x.a) == 0 && x.blob == nil {
				return bl.own()
			}
			args[1] = in.mkBytes(in.bytesOf(s))
		}
		y := args[1].(Slice)
		if y.blob != nil {
			if len(x.a) == 0 && x.blob == nil {
				return y.blob.own()
			}
			return Slice{a: append(in.plain(x).a, in.plain(y).a...)}
		}
		if x.blob != nil {
			if len(y.a) == 0 {
				return x
			}
			return in.blobAppend(x.blob, y)
		}
		if len(y.a) == 0 {
			return x
		}
		ys := make([]Value, len(y.a))
		for i, v := range y.a {
			ys[i] = copyVal(v)
		}
		return Slice{a: append(x.a, ys...)}
	case "copy":
		dst := args[0].(Slice)
		if s, ok := args[1].(*Str); ok {
			if bl := strBlob(s); bl != nil {
				args[1] = Slice{blob: bl}
			} else {
				args[1] = in.mkBytes(in.bytesOf(s))
			}
		}
		src := args[1].(Slice)
		if dst.blob != nil {
			if src.blob == nil {
				if len(src.a) == 0 {
					return c.BV(0, 64)
				}
				if dst.blob.tree == nil && in.branch(c.Eq(in.blobLen(dst.blob), c.BV(uint64(len(src.a)), 64))) {
					dst.blob.raw = make([]Value, len(src.a))
					for i, v := range src.a {
						dst.blob.raw[i] = copyVal(v)
					}
					return c.BV(uint64(len(src.a)), 64)
				}
				panic(unsupported("copy of plain bytes into a buffer of symbolic length"))
			}
			if in.branch(c.Eq(in.blobLen(dst.blob), in.blobLen(src.blob))) {
				dst.blob.tree, dst.blob.fmt, dst.blob.trunc = src.blob.tree, src.blob.fmt, src.blob.trunc
				return in.blobLen(src.blob)
			}
			panic(unsupported("partial copy of a symbolic document"))
		}
		if src.blob != nil {
			src = in.plain(src)
		}
		n := min(len(dst.a), len(src.a))
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src.a[i])
		}
		copy(dst.a, tmp)
		return c.BV(uint64(n), 64)
	case "delete":
		m := args[0].(*Map)
		if m != nil {
			in.mapDelete(m, call.Args[0].Type().Underlying().(*types.Map).Key(), args[1])
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x != nil {
				x.keys, x.vals = nil, nil
			}
		case Slice:
			et := call.Args[0].Type().Underlying().(*types.Slice).Elem()
			for i := range x.a {
				x.a[i] = in.zero(et)
			}
		}
		return nil
	case "print", "println":
		return nil
	case "recover":
		if n := len(in.x.panicFrames); n > 0 {
			f := in.x.panicFrames[n-1]
			if f.panicking != nil {
				v := f.panicking.v
				f.panicking = nil
				return v
			}
		}
		return Iface{}
	case "min", "max":
		r := args[0]
		for i := 1; i < len(args); i++ {
			t := call.Args[0].Type()
			op := token.LSS
			if b.Name() == "max" {
				op = token.GTR
			}
			cond := in.binop(op, t, t, args[i], r).(*Term)
			if rt, ok := r.(*Term); ok {
				r = c.Ite(cond, args[i].(*Term), rt)
			} else if in.branch(cond) {
				r = args[i]
			}
		}
		return r
	case "ssa:wrapnilchk":
		p := args[0]
		if v, ok := p.(*Value); ok && v == nil {
			in.nilDeref()
		}
		return p
	case "ssa:deferstack":
		return (*Value)(nil)
	case "close":
		if ch, _ := args[0].(*Chan); ch != nil {
			ch.closed = true
		}
		return nil
	case "String": // unsafe.String(ptr, len)
		n := int(in.concretize(in.index64(args[1], call.Args[1].Type()), 64))
		if n == 0 {
			return emptyStr
		}
		switch p := args[0].(type) {
		case *bytePtr:
			if p.str != nil {
				return in.substr(p.str, 0, n)
			}
			return in.strFromBytes(in.sliceBytes(Slice{a: p.s.a[:n]}))
		}
	case "StringData":
		return &bytePtr{str: args[0].(*Str)}
	case "SliceData":
		s := args[0].(Slice)
		return &bytePtr{s: s}
	case "Slice": // unsafe.Slice
		n := int(in.concretize(in.index64(args[1], call.Args[1].Type()), 64))
		if p, ok := args[0].(*bytePtr); ok {
			if p.str != nil {
				return in.mkBytes(in.bytesOf(in.substr(p.str, 0, n)))
			}
			return Slice{a: p.s.a[:n]}
		}
		if p, ok := args[0].(*Value); ok && p == nil && n == 0 {
			return Slice{nil_: true}
		}
	}
	panic(unsupported(fmt.Sprintf("builtin %s(%T)%s", b.Name(), firstOf(args), in.where())))
}

func firstOf(a []Value) Value {
	if len(a) == 0 {
		return nil
	}
	return a[0]
}

type bytePtr struct {
	s   Slice
	str *Str
}
