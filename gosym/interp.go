package main

// Symbolic interpreter over go/ssa. One Interp runs one path; forks are recorded
// as work items (decision prefixes) and re-executed.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type unsupportedErr struct{ msg string }

func unsupported(msg string) unsupportedErr { return unsupportedErr{msg} }

type targetPanic struct {
	v     Iface
	msg   string
	stack string
}

type pathEnd struct{ why string } // "assume", "infeasible", "exit"

type Dec struct {
	K uint8 // 0 false,1 true (explicit); 2 false,3 true (implied); 4 value
	V uint64
}

type varVal struct {
	name string
	w    uint8
	val  uint64
}

type Item struct {
	prefix []Dec
	model  []varVal
}

type fnInfo struct {
	slot     map[ssa.Value]int
	n        int
	hasDefer bool
}

type Prog struct {
	prog    *ssa.Program
	pkgs    map[string]*ssa.Package // by path
	repoPfx string
	infoMu  sync.RWMutex
	infos   map[*ssa.Function]*fnInfo
	mvMu    sync.Mutex
	redirs  map[string]*ssa.Function
	fnNames sync.Map // *ssa.Function -> string
}

func (p *Prog) name(fn *ssa.Function) string {
	if s, ok := p.fnNames.Load(fn); ok {
		return s.(string)
	}
	f := fn
	if o := fn.Origin(); o != nil {
		f = o
	}
	s := f.String()
	p.fnNames.Store(fn, s)
	return s
}

func (p *Prog) info(fn *ssa.Function) *fnInfo {
	p.infoMu.RLock()
	fi := p.infos[fn]
	p.infoMu.RUnlock()
	if fi != nil {
		return fi
	}
	fi = &fnInfo{slot: map[ssa.Value]int{}}
	add := func(v ssa.Value) { fi.slot[v] = fi.n; fi.n++ }
	for _, x := range fn.Params {
		add(x)
	}
	for _, x := range fn.FreeVars {
		add(x)
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok {
				add(v)
			}
			if _, ok := ins.(*ssa.Defer); ok {
				fi.hasDefer = true
			}
		}
	}
	p.infoMu.Lock()
	p.infos[fn] = fi
	p.infoMu.Unlock()
	return fi
}

// Worker-level (persisting across paths) state.
type Worker struct {
	P          *Prog
	E          *Engine
	c          *Ctx
	sol        *Solver
	stdGlobals map[*ssa.Global]*Value
	stdInit    map[*ssa.Package]int // 1 running, 2 done
	poison     map[*ssa.Package]string
	oneInit    map[*ssa.Global]string
	force1     bool // run the next package initialiser
	consts     map[*ssa.Const]Value
	methods    map[mkey]*ssa.Function
	impls      map[ikey]bool
	fnHits     map[*ssa.Function]int
	steps      int64
	ptrs       map[types.Type]types.Type
	sfields    map[*types.Struct][]jfield
	sliceAny   types.Type
	mapAny     types.Type
}

type mkey struct {
	t    types.Type
	name string
}
type ikey struct{ t, i types.Type }

type Interp struct {
	*Worker
	pc       []*Term
	known    map[*Term]bool
	pins     map[*Term]uint64
	model    Model
	memo     map[*Term]uint64
	prefix   []Dec
	pos      int
	trace    []Dec
	globals  map[*ssa.Global]*Value
	repoInit map[*ssa.Package]bool
	pathStep int64
	maxStep  int64
	depth    int
	fresh    map[string]int
	stack    []*ssa.Function
	pcVars   map[*Term]bool
	pcSeen   map[*Term]bool

	// harness-visible state
	x *pathExtra
}

func (in *Interp) addPC(t *Term) {
	if t == in.c.True || in.known[t] {
		return
	}
	in.pc = append(in.pc, t)
	in.learn(t)
	var vs []*Term
	collectVars(t, in.pcSeen, &vs)
	for _, v := range vs {
		in.pcVars[v] = true
	}
}

func (in *Interp) learn(t *Term) {
	if in.known[t] {
		return
	}
	in.known[t] = true
	switch t.op {
	case OAnd:
		in.learn(t.a)
		in.learn(t.b)
	case ONot:
		if t.a.op == OOr {
			in.learn(in.c.Not(t.a.a))
			in.learn(in.c.Not(t.a.b))
		}
	}
}

func (in *Interp) eval(t *Term) uint64 { return Eval(t, in.model, in.memo) }

func (in *Interp) setModel(m Model) {
	in.model = m
	in.memo = map[*Term]uint64{}
}

func modelItem(m Model) []varVal {
	out := make([]varVal, 0, len(m))
	for k, v := range m {
		out = append(out, varVal{k.name, k.w, v})
	}
	return out
}

// freeVar reports whether t is (a negation of) a boolean variable not mentioned in pc.
func (in *Interp) freeVar(t *Term) (*Term, bool) {
	if t.op == ONot {
		t = t.a
	}
	if t.op == OVar && !in.pcVars[t] {
		return t, true
	}
	return nil, false
}

// branch decides a boolean term, forking when both outcomes are possible.
func (in *Interp) branch(t *Term) bool {
	if t.op == OConst {
		return t.val != 0
	}
	if in.known[t] {
		return true
	}
	if in.known[in.c.Not(t)] {
		return false
	}
	if in.pos < len(in.prefix) {
		d := in.prefix[in.pos]
		in.pos++
		in.trace = append(in.trace, d)
		if d.K == 4 {
			panic(fmt.Sprintf("engine: replay divergence at decision %d (value where branch expected)", in.pos-1))
		}
		v := d.K&1 == 1
		cond := t
		if !v {
			cond = in.c.Not(t)
		}
		if d.K < 2 {
			in.addPC(cond)
		} else {
			in.learn(cond)
		}
		return v
	}
	cur := in.eval(t) != 0
	cond, other := t, in.c.Not(t)
	if !cur {
		cond, other = other, cond
	}
	var om Model
	var res Res
	if v, ok := in.freeVar(t); ok {
		om = Model{}
		for k, x := range in.model {
			om[k] = x
		}
		om[v] = 1 - in.model[v]
		res = RSat
		in.E.freeForks.Add(1)
	} else {
		res, om = in.sol.Check(in.pc, other)
	}
	switch res {
	case RUnsat:
		in.trace = append(in.trace, Dec{K: 2 + uint8(b2u(cur))})
		in.learn(cond)
		return cur
	case RUnknown:
		panic(unsupported("solver returned unknown on a branch condition"))
	}
	in.fork(Dec{K: uint8(b2u(!cur))}, om)
	in.trace = append(in.trace, Dec{K: uint8(b2u(cur))})
	in.addPC(cond)
	return cur
}

func (in *Interp) fork(d Dec, m Model) {
	p := make([]Dec, len(in.trace)+1)
	copy(p, in.trace)
	p[len(in.trace)] = d
	in.E.push(&Item{prefix: p, model: modelItem(m)})
}

// concretize returns a concrete value for t, forking over all feasible values.
func (in *Interp) concretize(t *Term, limit int) uint64 {
	if t.op == OConst {
		return t.val
	}
	if in.pos < len(in.prefix) {
		d := in.prefix[in.pos]
		in.pos++
		in.trace = append(in.trace, d)
		if d.K != 4 && d.K != 5 {
			panic(fmt.Sprintf("engine: replay divergence at decision %d (branch where value expected)", in.pos-1))
		}
		if d.K == 4 {
			in.addPC(in.eqVal(t, d.V))
		} else {
			in.learn(in.eqVal(t, d.V))
		}
		return d.V
	}
	var vals []uint64
	var models []Model
	vals = append(vals, in.eval(t))
	models = append(models, in.model)
	pc := append([]*Term(nil), in.pc...)
	for {
		last := vals[len(vals)-1]
		ne := in.c.Not(in.eqVal(t, last))
		pc = append(pc, ne)
		res, m := in.sol.Check(pc, nil)
		if res == RUnsat {
			break
		}
		if res == RUnknown {
			panic(unsupported("solver returned unknown while enumerating values"))
		}
		vals = append(vals, Eval(t, m, map[*Term]uint64{}))
		models = append(models, m)
		if len(vals) > limit {
			panic(unsupported(fmt.Sprintf("more than %d values for a term that must be concrete: %s", limit, t)))
		}
	}
	if len(vals) == 1 {
		in.trace = append(in.trace, Dec{K: 5, V: vals[0]})
		in.learn(in.eqVal(t, vals[0]))
		return vals[0]
	}
	for i := len(vals) - 1; i >= 1; i-- {
		in.fork(Dec{K: 4, V: vals[i]}, models[i])
	}
	in.trace = append(in.trace, Dec{K: 4, V: vals[0]})
	in.addPC(in.eqVal(t, vals[0]))
	return vals[0]
}

func (in *Interp) eqVal(t *Term, v uint64) *Term {
	if t.w == 0 {
		if v != 0 {
			return t
		}
		return in.c.Not(t)
	}
	return in.c.Eq(t, in.c.BV(v, t.w))
}

// choose forks n ways without a solver (used for choices that are not data).
func (in *Interp) choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	v := in.freshVar(name, 8)
	k := in.chooseVar(v, n)
	return k
}

// chooseVar forks on a fresh variable over 0..n-1.
func (in *Interp) chooseVar(v *Term, n int) int {
	if in.pos < len(in.prefix) {
		d := in.prefix[in.pos]
		in.pos++
		in.trace = append(in.trace, d)
		in.addPC(in.eqVal(v, d.V))
		return int(d.V)
	}
	cur := in.model[v]
	if cur >= uint64(n) {
		cur = 0
	}
	for k := n - 1; k >= 0; k-- {
		if uint64(k) == cur {
			continue
		}
		m := Model{}
		for a, b := range in.model {
			m[a] = b
		}
		m[v] = uint64(k)
		in.fork(Dec{K: 4, V: uint64(k)}, m)
	}
	in.trace = append(in.trace, Dec{K: 4, V: cur})
	m := Model{}
	for a, b := range in.model {
		m[a] = b
	}
	m[v] = cur
	in.setModel(m)
	in.addPC(in.eqVal(v, cur))
	return int(cur)
}

func (in *Interp) freshName(p string) string {
	k := in.fresh[p]
	in.fresh[p] = k + 1
	if k == 0 {
		return p
	}
	return fmt.Sprintf("%s#%d", p, k+1)
}

func (in *Interp) freshVar(p string, w uint8) *Term { return in.c.Var(in.freshName(p), w) }

// assume adds a constraint, ending the path when it is unsatisfiable.
func (in *Interp) assume(t *Term) {
	if t.op == OConst {
		if t.val == 0 {
			panic(pathEnd{"assume"})
		}
		return
	}
	if in.known[t] {
		return
	}
	if in.pos < len(in.prefix) { // replay: recorded as a decision only when it changed nothing
		in.addPC(t)
		return
	}
	if in.eval(t) == 0 {
		res, m := in.sol.Check(in.pc, t)
		switch res {
		case RUnsat:
			panic(pathEnd{"assume"})
		case RUnknown:
			panic(unsupported("solver returned unknown on an assumption"))
		}
		in.addPC(t)
		in.setModel(m)
		return
	}
	in.addPC(t)
}

func (in *Interp) rtPanic(msg string) {
	m := "runtime error: " + msg
	rt := in.P.pkgs["runtime"].Type("errorString").Type()
	panic(&targetPanic{v: Iface{t: rt, v: cstr(msg)}, msg: m, stack: in.where()})
}

func (in *Interp) where() string {
	var sb strings.Builder
	n := 0
	for i := len(in.stack) - 1; i >= 0 && n < 12; i-- {
		fmt.Fprintf(&sb, " < %s", in.stack[i].RelString(nil))
		n++
	}
	return sb.String()
}

// ---------------------------------------------------------------- globals

func (in *Interp) isRepo(p *ssa.Package) bool {
	return p != nil && strings.HasPrefix(p.Pkg.Path(), in.P.repoPfx)
}

func (in *Interp) globalAddr(g *ssa.Global) *Value {
	if in.isRepo(g.Pkg) {
		if a, ok := in.globals[g]; ok {
			return a
		}
		in.initRepo(g.Pkg)
		if a, ok := in.globals[g]; ok {
			return a
		}
		a := new(Value)
		*a = in.zero(derefType(g.Type()))
		in.globals[g] = a
		return a
	}
	a, ok := in.stdGlobals[g]
	if g.Pkg.Pkg.Path() == "net/http" && g.Name() == "DefaultClient" {
		// its methods are replaced
		if !ok {
			c := new(Value)
			*c = in.zero(derefType(derefType(g.Type())))
			a = new(Value)
			*a = c
			in.stdGlobals[g] = a
		}
		return a
	}
	if !ok {
		a = new(Value)
		*a = in.zero(derefType(g.Type()))
		in.stdGlobals[g] = a
	}
	if in.stdInit[g.Pkg] == 0 {
		in.initStd(g.Pkg)
	}
	if why, bad := in.poison[g.Pkg]; bad && g.Name() != "init$guard" && in.stdInit[g.Pkg] == 2 {
		if _, done := in.oneInit[g]; !done {
			in.oneInit[g] = ""
			in.oneInit[g] = in.initGlobal(g, a)
		}
		if w := in.oneInit[g]; w != "" {
			panic(unsupported(fmt.Sprintf("global %s: package initialiser not interpretable (%s; alone: %s)", g, why, w)))
		}
	}
	return a
}

// initGlobal runs only those instructions of a package initialiser that determine one
// global; it returns why that is not possible.
func (in *Interp) initGlobal(g *ssa.Global, a *Value) (why string) {
	initFn := g.Pkg.Func("init")
	if initFn == nil || initFn.Blocks == nil {
		return ""
	}
	need := map[ssa.Instruction]bool{}
	bad := ""
	var add func(x ssa.Instruction)
	add = func(x ssa.Instruction) {
		if need[x] {
			return
		}
		need[x] = true
		if _, ok := x.(*ssa.Phi); ok {
			bad = "conditional initialisation"
		}
		for _, o := range x.Operands(nil) {
			if i, ok := (*o).(ssa.Instruction); ok && i.Parent() == initFn {
				add(i)
			}
		}
		v, ok := x.(ssa.Value)
		if !ok || v.Referrers() == nil {
			return
		}
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr == v {
					add(r)
				}
			case *ssa.MapUpdate:
				if r.Map == v {
					add(r)
				}
			case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Slice:
				add(r)
			}
		}
	}
	for name, m := range g.Pkg.Members {
		f, ok := m.(*ssa.Function)
		if !ok || f != initFn && !strings.HasPrefix(name, "init#") {
			continue
		}
		for _, b := range f.Blocks {
			for _, x := range b.Instrs {
				if s, ok := x.(*ssa.Store); ok && s.Addr == g {
					if f != initFn {
						return "set by an init function"
					}
					add(s)
				}
			}
		}
	}
	if bad != "" {
		return bad
	}
	*a = in.zero(derefType(g.Type()))
	depth, st, ms := in.depth, len(in.stack), in.maxStep
	in.maxStep = 0
	in.depth++
	in.stack = append(in.stack, initFn)
	defer func() {
		in.maxStep = ms
		in.depth = depth
		in.stack = in.stack[:st]
		if r := recover(); r != nil {
			switch r := r.(type) {
			case unsupportedErr:
				why = r.msg
			case *targetPanic:
				why = "panic: " + r.msg
			default:
				panic(r)
			}
		}
	}()
	info := in.P.info(initFn)
	fr := &frame{fn: initFn, info: info, regs: make([]Value, info.n), block: initFn.Blocks[0]}
	for _, b := range initFn.Blocks {
		for _, x := range b.Instrs {
			if need[x] {
				in.exec(fr, x)
			}
		}
	}
	return ""
}

func (in *Interp) initStd(p *ssa.Package) {
	in.stdInit[p] = 1
	defer func() { in.stdInit[p] = 2 }()
	initFn := p.Func("init")
	if initFn == nil || initFn.Blocks == nil {
		return
	}
	// make sure all globals exist so that a failing initialiser leaves zero values
	func() {
		st := len(in.stack)
		d := in.depth
		ms := in.maxStep
		in.maxStep = 0
		defer func() {
			in.maxStep = ms
			if r := recover(); r != nil {
				in.stack = in.stack[:st]
				in.depth = d
				switch r := r.(type) {
				case unsupportedErr:
					in.poison[p] = r.msg
				case *targetPanic:
					in.poison[p] = "panic: " + r.msg
				default:
					panic(r)
				}
			}
		}()
		in.force1 = true
		in.callFn(initFn, nil, nil)
	}()
}

func (in *Interp) initRepo(p *ssa.Package) {
	if in.repoInit[p] {
		return
	}
	in.repoInit[p] = true
	if f := p.Func("init"); f != nil && f.Blocks != nil {
		in.callFn(f, nil, nil)
	}
}

// ---------------------------------------------------------------- frames

type frame struct {
	fn        *ssa.Function
	info      *fnInfo
	regs      []Value
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	defers    []deferred
	result    Value
	panicking *targetPanic
	done      bool
	skipPhis  bool
}

type deferred struct {
	fn   Value
	call *ssa.CallCommon
	args []Value
}

func (fr *frame) set(v ssa.Value, x Value) { fr.regs[fr.info.slot[v]] = x }

func (in *Interp) get(fr *frame, v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return in.constVal(v)
	case *ssa.Global:
		return in.globalAddr(v)
	case *ssa.Function:
		return &Closure{fn: v}
	case *ssa.Builtin:
		return &Closure{bi: v}
	}
	i, ok := fr.info.slot[v]
	if !ok {
		panic(unsupported(fmt.Sprintf("no slot for %s in %s", v.Name(), fr.fn)))
	}
	r := fr.regs[i]
	if s, ok := r.(Slice); ok && s.blob != nil && s.blob.raw != nil {
		return Slice{a: s.blob.raw}
	}
	return r
}

func (in *Interp) constVal(k *ssa.Const) Value {
	if v, ok := in.consts[k]; ok {
		return copyVal(v)
	}
	v := in.constVal1(k)
	in.consts[k] = v
	return copyVal(v)
}

func (in *Interp) constVal1(k *ssa.Const) Value {
	if k.Value == nil {
		return in.zero(k.Type())
	}
	t := k.Type()
	if w, _, ok := intInfo(t); ok {
		if w == 0 {
			return in.c.B(constant.BoolVal(k.Value))
		}
		v := constant.ToInt(k.Value)
		if i, ok := constant.Int64Val(v); ok {
			return in.c.BV(uint64(i), w)
		}
		u, _ := constant.Uint64Val(v)
		return in.c.BV(u, w)
	}
	if isString(t) {
		if k.Value.Kind() == constant.String {
			return cstr(constant.StringVal(k.Value))
		}
		i, _ := constant.Int64Val(k.Value)
		return cstr(string(rune(i)))
	}
	if isFloat(t) {
		f, _ := constant.Float64Val(k.Value)
		if b := t.Underlying().(*types.Basic); b.Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return f
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsComplex != 0 {
		re, _ := constant.Float64Val(constant.Real(k.Value))
		im, _ := constant.Float64Val(constant.Imag(k.Value))
		return complex(re, im)
	}
	panic(unsupported("constant of type " + t.String()))
}

const maxDepth = 2500

// useCode is returned by an intrinsic which leaves the call to the function's code.
type useCode struct{}

// callFn calls fn with evaluated arguments.
func (in *Interp) callFn(fn *ssa.Function, args []Value, env []Value) Value {
	name := in.P.name(fn)
	if r, ok := in.P.redirs[name]; ok {
		fn = r
		name = in.P.name(fn)
		env = nil
	}
	if f, ok := intrinsics[name]; ok {
		if v := f(in, fn, args); v != (useCode{}) {
			return v
		}
	}
	if fn.Name() == "init" && fn.Synthetic == "package initializer" {
		// package initialisers are run lazily; a nested call initialises an imported package
		forced := in.force1
		in.force1 = false
		if !forced && len(in.stack) > 0 && in.stack[len(in.stack)-1].Synthetic == "package initializer" {
			if in.isRepo(fn.Pkg) {
				in.initRepo2(fn)
			}
			return nil
		}
	}
	if strings.HasPrefix(name, "strconv.") {
		if v, ok := in.parseDecimal(name, args); ok {
			return v
		}
	}
	if fn.Blocks == nil || nativePrefer[name] != nil {
		if v, ok := in.tryNative(name, fn, args); ok {
			return v
		}
		if fn.Blocks == nil {
			panic(unsupported("call to external function " + name + in.where()))
		}
	}
	if in.depth >= maxDepth {
		panic(nonTerm{"call depth exceeds " + fmt.Sprint(maxDepth)})
	}
	in.depth++
	in.stack = append(in.stack, fn)
	in.fnHits[fn]++
	info := in.P.info(fn)
	fr := &frame{fn: fn, info: info, regs: make([]Value, info.n)}
	for i, p := range fn.Params {
		fr.regs[info.slot[p]] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.regs[info.slot[p]] = env[i]
	}
	fr.block = fn.Blocks[0]
	if !info.hasDefer {
		in.run(fr)
	} else {
		in.runWithDefers(fr)
	}
	in.depth--
	in.stack = in.stack[:len(in.stack)-1]
	return fr.result
}

func (in *Interp) initRepo2(fn *ssa.Function) {
	if in.repoInit[fn.Pkg] {
		return
	}
	in.repoInit[fn.Pkg] = true
	in.depth++
	in.stack = append(in.stack, fn)
	info := in.P.info(fn)
	fr := &frame{fn: fn, info: info, regs: make([]Value, info.n), block: fn.Blocks[0]}
	in.run(fr)
	in.depth--
	in.stack = in.stack[:len(in.stack)-1]
}

type nonTerm struct{ why string }

func (in *Interp) runWithDefers(fr *frame) {
	depth, st := in.depth, len(in.stack)
	for !fr.done {
		func() {
			defer func() {
				if fr.done {
					return
				}
				r := recover()
				tp, ok := r.(*targetPanic)
				if !ok {
					panic(r)
				}
				in.depth = depth
				in.stack = in.stack[:st]
				fr.panicking = tp
				in.runDefers(fr)
				// recovered
				if fr.fn.Recover == nil {
					res := fr.fn.Signature.Results()
					switch res.Len() {
					case 0:
					case 1:
						fr.result = in.zero(res.At(0).Type())
					default:
						fr.result = in.zero(res)
					}
					fr.done = true
					return
				}
				fr.prev = nil
				fr.block = fr.fn.Recover
			}()
			in.run(fr)
		}()
	}
}

// runDefers executes deferred calls; if still panicking afterwards it re-panics.
func (in *Interp) runDefers(fr *frame) {
	depth, st := in.depth, len(in.stack)
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				if r := recover(); r != nil {
					tp, ok := r.(*targetPanic)
					if !ok {
						panic(r)
					}
					in.depth = depth
					in.stack = in.stack[:st]
					fr.panicking = tp
				}
			}()
			in.callDeferred(fr, d)
		}()
	}
	if fr.panicking != nil {
		panic(fr.panicking)
	}
}

func (in *Interp) callDeferred(fr *frame, d deferred) {
	cl := d.fn.(*Closure)
	if cl != nil && cl.bi != nil {
		if cl.bi.Name() == "recover" {
			fr.panicking = nil
			return
		}
		in.builtin(fr, cl.bi, d.call, d.args)
		return
	}
	in.x.panicFrames = append(in.x.panicFrames, fr)
	n := len(in.x.panicFrames)
	defer func() { in.x.panicFrames = in.x.panicFrames[:n-1] }()
	in.callValue(cl, d.args)
}

func (in *Interp) callValue(cl *Closure, args []Value) Value {
	if cl == nil {
		in.rtPanic("invalid memory address or nil pointer dereference")
	}
	if cl.bi != nil {
		panic(unsupported("indirect builtin call"))
	}
	return in.callFn(cl.fn, args, cl.env)
}

func (in *Interp) run(fr *frame) {
	for {
		b := fr.block
		// phis
		i := 0
		if len(b.Instrs) > 0 {
			if _, ok := b.Instrs[0].(*ssa.Phi); ok && fr.skipPhis {
				for i < len(b.Instrs) {
					if _, ok := b.Instrs[i].(*ssa.Phi); !ok {
						break
					}
					i++
				}
			} else if ok {
				var edge int
				for k, p := range b.Preds {
					if p == fr.prev {
						edge = k
						break
					}
				}
				var tmp []Value
				for i < len(b.Instrs) {
					phi, ok := b.Instrs[i].(*ssa.Phi)
					if !ok {
						break
					}
					tmp = append(tmp, in.get(fr, phi.Edges[edge]))
					i++
				}
				for k := 0; k < i; k++ {
					fr.set(b.Instrs[k].(*ssa.Phi), tmp[k])
				}
			}
		}
		fr.skipPhis = false
		n := int64(len(b.Instrs))
		in.steps += n
		in.pathStep += n
		if in.maxStep > 0 && in.pathStep > in.maxStep {
			panic(nonTerm{fmt.Sprintf("more than %d steps%s", in.maxStep, in.where())})
		}
		jumped := false
		for ; i < len(b.Instrs); i++ {
			switch ins := b.Instrs[i].(type) {
			case *ssa.Jump:
				fr.prev, fr.block = b, b.Succs[0]
				jumped = true
			case *ssa.If:
				c := in.get(fr, ins.Cond).(*Term)
				if c.op != OConst {
					if in.ifConvert(fr, b, c) {
						jumped = true
						break
					}
				}
				k := 1
				if in.branch(c) {
					k = 0
				}
				fr.prev, fr.block = b, b.Succs[k]
				jumped = true
			case *ssa.Return:
				switch len(ins.Results) {
				case 0:
				case 1:
					fr.result = in.get(fr, ins.Results[0])
				default:
					t := make(Tuple, len(ins.Results))
					for k, r := range ins.Results {
						t[k] = in.get(fr, r)
					}
					fr.result = t
				}
				fr.done = true
				return
			default:
				in.exec(fr, ins)
			}
			if jumped {
				break
			}
		}
		if !jumped {
			panic(unsupported("block without terminator in " + fr.fn.String()))
		}
	}
}

func pureInstrs(x *ssa.BasicBlock) bool {
	if len(x.Preds) != 1 || len(x.Instrs) > 8 {
		return false
	}
	for _, ins := range x.Instrs {
		switch ins := ins.(type) {
		case *ssa.Jump, *ssa.If, *ssa.DebugRef:
		case *ssa.BinOp:
			switch ins.Op {
			case token.QUO, token.REM, token.SHL, token.SHR:
				return false
			}
			if _, _, ok := intInfo(ins.X.Type()); !ok {
				return false
			}
		case *ssa.UnOp:
			if ins.Op != token.NOT && ins.Op != token.SUB && ins.Op != token.XOR {
				return false
			}
			if _, _, ok := intInfo(ins.X.Type()); !ok {
				return false
			}
		case *ssa.Convert:
			if !isInteger(ins.X.Type()) || !isInteger(ins.Type()) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// ifConvert turns side-effect-free diamonds, triangles and short-circuit pairs
// (from && and ||) into ite terms so that they do not fork. It reports whether it
// applied, in which case fr has moved to the next block.
func (in *Interp) ifConvert(fr *frame, b *ssa.BasicBlock, c *Term) bool {
	t, f := b.Succs[0], b.Succs[1]
	if t == f {
		return false
	}
	run := func(x *ssa.BasicBlock) {
		for _, ins := range x.Instrs {
			switch ins.(type) {
			case *ssa.Jump, *ssa.If:
				return
			}
			in.exec(fr, ins)
		}
	}
	// short circuit: t: pure; if c2 goto T else f   |   f: pure; if c2 goto t else F
	if len(t.Succs) == 2 && t.Succs[1] == f && t.Succs[0] != f && pureInstrs(t) {
		return in.shortCircuit(fr, b, t, f, t.Succs[0], c, true, run)
	}
	if len(f.Succs) == 2 && f.Succs[0] == t && f.Succs[1] != t && pureInstrs(f) {
		return in.shortCircuit(fr, b, f, t, f.Succs[1], c, false, run)
	}
	var join, tb, fb *ssa.BasicBlock
	pt := len(t.Succs) == 1 && pureInstrs(t)
	pf := len(f.Succs) == 1 && pureInstrs(f)
	switch {
	case pt && t.Succs[0] == f:
		join, tb = f, t
	case pf && f.Succs[0] == t:
		join, fb = t, f
	case pt && pf && t.Succs[0] == f.Succs[0]:
		join, tb, fb = t.Succs[0], t, f
	default:
		return false
	}
	phis, ok := scalarPhis(join)
	if !ok || len(phis) == 0 {
		return false
	}
	te, fe := b, b
	if tb != nil {
		te = tb
		run(tb)
	}
	if fb != nil {
		fe = fb
		run(fb)
	}
	ti, fi := predIdx(join, te), predIdx(join, fe)
	vals := make([]Value, len(phis))
	for i, p := range phis {
		vals[i] = in.c.Ite(c, in.get(fr, p.Edges[ti]).(*Term), in.get(fr, p.Edges[fi]).(*Term))
	}
	for i, p := range phis {
		fr.set(p, vals[i])
	}
	fr.prev, fr.block, fr.skipPhis = te, join, true
	return true
}

// shortCircuit: b branches on c to mid (when c == sense) or to exit; mid branches
// to exit as well (on the same sense) or to next.
func (in *Interp) shortCircuit(fr *frame, b, mid, exit, next *ssa.BasicBlock, c *Term, and bool, run func(*ssa.BasicBlock)) bool {
	phis, ok := scalarPhis(exit)
	if !ok {
		return false
	}
	run(mid)
	c2 := in.get(fr, mid.Instrs[len(mid.Instrs)-1].(*ssa.If).Cond).(*Term)
	var toNext, atMid *Term
	if and {
		toNext, atMid = in.c.And(c, c2), c
	} else {
		toNext, atMid = in.c.And(in.c.Not(c), in.c.Not(c2)), in.c.Not(c)
	}
	if in.branch(toNext) {
		fr.prev, fr.block = mid, next
		return true
	}
	mi, bi := predIdx(exit, mid), predIdx(exit, b)
	vals := make([]Value, len(phis))
	for i, p := range phis {
		x, y := p.Edges[mi], p.Edges[bi]
		if x == y {
			vals[i] = in.get(fr, x)
			continue
		}
		vals[i] = in.c.Ite(atMid, in.get(fr, x).(*Term), in.get(fr, y).(*Term))
	}
	for i, p := range phis {
		fr.set(p, vals[i])
	}
	fr.prev, fr.block, fr.skipPhis = b, exit, len(phis) > 0
	return true
}

func scalarPhis(b *ssa.BasicBlock) ([]*ssa.Phi, bool) {
	var phis []*ssa.Phi
	for _, ins := range b.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if _, _, ok := intInfo(p.Type()); !ok {
			return nil, false
		}
		phis = append(phis, p)
	}
	return phis, true
}

func predIdx(b, p *ssa.BasicBlock) int {
	for k, q := range b.Preds {
		if q == p {
			return k
		}
	}
	panic("engine: no predecessor edge")
}

// ---------------------------------------------------------------- method lookup

func (in *Interp) lookupMethod(t types.Type, pkg *types.Package, name string) *ssa.Function {
	k := mkey{t, name}
	if f, ok := in.methods[k]; ok {
		return f
	}
	in.P.mvMu.Lock()
	var f *ssa.Function
	sel := in.P.prog.MethodSets.MethodSet(t).Lookup(pkg, name)
	if sel != nil {
		f = in.P.prog.MethodValue(sel)
	}
	in.P.mvMu.Unlock()
	in.methods[k] = f
	return f
}

func (in *Interp) implements(t types.Type, it types.Type) bool {
	k := ikey{t, it}
	if b, ok := in.impls[k]; ok {
		return b
	}
	in.P.mvMu.Lock()
	b := types.Implements(t, it.Underlying().(*types.Interface))
	in.P.mvMu.Unlock()
	in.impls[k] = b
	return b
}

// callMethod invokes method name on the dynamic value of i.
func (in *Interp) callMethod(i Iface, name string, pkg *types.Package, args ...Value) Value {
	f := in.lookupMethod(i.t, pkg, name)
	if f == nil {
		panic(unsupported(fmt.Sprintf("no method %s on %s", name, i.t)))
	}
	return in.callFn(f, append([]Value{i.v}, args...), nil)
}

func (in *Interp) hasMethod(t types.Type, name string) bool {
	return in.lookupMethod(t, nil, name) != nil
}

// prepareCall evaluates the callee and arguments.
func (in *Interp) prepareCall(fr *frame, c *ssa.CallCommon) (Value, []Value) {
	if c.IsInvoke() {
		iv := in.get(fr, c.Value).(Iface)
		if iv.t == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		f := in.lookupMethod(iv.t, c.Method.Pkg(), c.Method.Name())
		if f == nil {
			panic(unsupported(fmt.Sprintf("method %s on %s", c.Method.Name(), iv.t)))
		}
		args := make([]Value, 0, len(c.Args)+1)
		args = append(args, iv.v)
		for _, a := range c.Args {
			args = append(args, in.get(fr, a))
		}
		return &Closure{fn: f}, args
	}
	args := make([]Value, len(c.Args))
	for i, a := range c.Args {
		args[i] = in.get(fr, a)
	}
	return in.get(fr, c.Value), args
}

func sortedKeys[M ~map[string]V, V any](m M) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// parseDecimal formats symbolic integers and parses such texts.
func (in *Interp) parseDecimal(name string, args []Value) (Value, bool) {
	if name == "strconv.Itoa" || name == "strconv.FormatInt" || name == "strconv.FormatUint" {
		if t := args[0].(*Term); t.op != OConst && t.w == 64 {
			if len(args) == 2 {
				if b := args[1].(*Term); b.op != OConst || b.val != 10 {
					return nil, false
				}
			}
			return &Str{rope: []seg{{dec: t, uns: name == "strconv.FormatUint"}}}, true
		}
		return nil, false
	}
	if name != "strconv.ParseInt" && name != "strconv.ParseUint" && name != "strconv.Atoi" {
		return nil, false
	}
	s, ok := args[0].(*Str)
	if !ok || len(s.rope) != 1 || s.rope[0].dec == nil || s.rope[0].dec.w != 64 {
		return nil, false
	}
	if name != "strconv.Atoi" {
		base, b1 := args[1].(*Term)
		size, b2 := args[2].(*Term)
		if !b1 || !b2 || base.op != OConst || size.op != OConst || (base.val != 10) || (size.val != 0 && size.val != 64) {
			return nil, false
		}
	}
	d := s.rope[0]
	if (name == "strconv.ParseUint") != d.uns && !in.branch(in.c.Bin(OSLe, in.c.BV(0, 64), d.dec)) {
		return nil, false
	}
	return Tuple{d.dec, Iface{}}, true
}
