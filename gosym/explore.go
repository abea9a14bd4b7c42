package main

import (
	"fmt"
	"go/types"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type violation struct {
	Label  string            `json:"label"`
	Msg    string            `json:"msg"`
	Entry  string            `json:"entry"`
	Vals   map[string]uint64 `json:"vals"`
	path   int64
	native string
}

type sample struct {
	Entry string
	Vals  map[string]uint64
	Log   []string
	Reach []string
	End   string
}

type Engine struct {
	P        *Prog
	entry    *ssa.Function
	thorough bool
	solver   []string

	freeForks atomic.Int64
	mu        sync.Mutex
	cond      *sync.Cond
	queue     []*Item
	active    int
	stop      bool
	paths     int64
	assumeEnd int64
	decisions int64
	deadline  time.Time
	incompl   bool
	maxStep   int64
	maxPaths  int64

	viol      map[string][]*violation
	violCount map[string]int
	reached   map[string]int64
	unsup     map[string]int64
	unsupVals map[string][]map[string]uint64
	pinnedN   int64
	asserts   map[string]int64 // assertion label -> times decided
	samples   []*sample
	nSample   int
	rng       *rand.Rand

	queries, sat, unsat int64
	solverTime          time.Duration
	steps               int64
	fnHits              map[string]int
	wall                time.Duration
}

func (e *Engine) push(it *Item) {
	e.mu.Lock()
	e.queue = append(e.queue, it)
	e.mu.Unlock()
	e.cond.Signal()
}

func (e *Engine) reach(l string) {
	e.mu.Lock()
	e.reached[l]++
	e.mu.Unlock()
}

func newWorker(e *Engine) *Worker {
	c := NewCtx()
	s, err := NewSolver(c, e.solver, 60000)
	if err != nil {
		fmt.Fprintln(os.Stderr, "cannot start solver:", err)
		os.Exit(2)
	}
	anyT := types.Universe.Lookup("any").Type()
	return &Worker{ptrs: map[types.Type]types.Type{}, sfields: map[*types.Struct][]jfield{}, sliceAny: types.NewSlice(anyT), mapAny: types.NewMap(types.Typ[types.String], anyT), P: e.P, E: e, c: c, sol: s,
		stdGlobals: map[*ssa.Global]*Value{}, oneInit: map[*ssa.Global]string{}, stdInit: map[*ssa.Package]int{}, poison: map[*ssa.Package]string{},
		consts: map[*ssa.Const]Value{}, methods: map[mkey]*ssa.Function{}, impls: map[ikey]bool{}, fnHits: map[*ssa.Function]int{}}
}

func (e *Engine) run(workers int) {
	start := time.Now()
	e.cond = sync.NewCond(&e.mu)
	e.queue = []*Item{{}}
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func(id int) {
			defer wg.Done()
			var w *Worker
			retire := func() {
				if w == nil {
					return
				}
				e.mu.Lock()
				e.queries += int64(w.sol.Queries)
				e.sat += int64(w.sol.Sat)
				e.unsat += int64(w.sol.Unsat)
				e.solverTime += w.sol.Time
				e.steps += w.steps
				for f, n := range w.fnHits {
					e.fnHits[e.P.name(f)] += n
				}
				e.mu.Unlock()
				w.sol.Close()
				w = nil
			}
			defer retire()
			for {
				e.mu.Lock()
				for len(e.queue) == 0 && e.active > 0 && !e.stop {
					e.cond.Wait()
				}
				if e.stop || len(e.queue) == 0 {
					e.mu.Unlock()
					e.cond.Broadcast()
					return
				}
				if time.Now().After(e.deadline) || (e.maxPaths > 0 && e.paths >= e.maxPaths) {
					e.stop, e.incompl = true, true
					e.mu.Unlock()
					e.cond.Broadcast()
					return
				}
				it := e.queue[len(e.queue)-1]
				e.queue = e.queue[:len(e.queue)-1]
				e.active++
				e.paths++
				n := e.paths
				e.mu.Unlock()
				if w == nil {
					w = newWorker(e)
				}
				e.runPath(w, it, n)
				if w.c.nterms() > 1500000 {
					retire()
				}
				e.mu.Lock()
				e.active--
				done := e.active == 0 && len(e.queue) == 0
				e.mu.Unlock()
				if done {
					e.cond.Broadcast()
				}
			}
		}(i)
	}
	wg.Wait()
	e.wall = time.Since(start)
}

func (w *Worker) newInterp(e *Engine, it *Item) *Interp {
	w.c.rng = map[*Term][2]int64{}
	in := &Interp{Worker: w, known: map[*Term]bool{}, model: Model{}, memo: map[*Term]uint64{}, prefix: it.prefix,
		globals: map[*ssa.Global]*Value{}, repoInit: map[*ssa.Package]bool{}, fresh: map[string]int{},
		pcVars: map[*Term]bool{}, pcSeen: map[*Term]bool{}, maxStep: e.maxStep}
	for _, v := range it.model {
		in.model[w.c.Var(v.name, v.w)] = v.val
	}
	in.x = &pathExtra{ptrs: w.ptrs, sfields: w.sfields, sliceAny: w.sliceAny, mapAny: w.mapAny, hashed: map[string][]*Term{},
		natKeys: map[*Value]any{}, decoders: map[*Value]*readerState{}, onceDone: map[*Value]bool{}, builders: map[*Value]*Str{}, locks: map[*Value]int{}, pools: map[*Value][]Value{}}
	return in
}

func (in *Interp) modelVals() map[string]uint64 {
	out := map[string]uint64{}
	for k, v := range in.model {
		out[k.name] = v
	}
	return out
}

func modelVals(m Model) map[string]uint64 {
	out := map[string]uint64{}
	for k, v := range m {
		out[k.name] = v
	}
	return out
}

func (e *Engine) runPath(w *Worker, it *Item, n int64) {
	in := w.newInterp(e, it)
	end := "done"
	var msg string
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			switch r := r.(type) {
			case pathEnd:
				end = r.why
			case *targetPanic:
				end, msg = "panic", r.msg+r.stack
			case nonTerm:
				end, msg = "nonterm", r.why
			case unsupportedErr:
				end, msg = "unsupported", r.msg
			default:
				end, msg = "unsupported", fmt.Sprintf("engine failure: %v\n%s%s", r, trimStack(debug.Stack()), in.where())
			}
		}()
		in.callFn(e.entry, nil, nil)
	}()
	e.mu.Lock()
	defer e.mu.Unlock()
	e.decisions += int64(len(in.trace) - len(it.prefix))
	if len(in.pins) > 0 || in.x.goroutines > 0 {
		e.pinnedN++
	}
	switch end {
	case "assume", "infeasible":
		e.assumeEnd++
		return
	case "panic":
		l := "panic"
		e.addViolLocked(&violation{Label: l, Msg: msg, Entry: e.entry.Name(), Vals: in.modelVals()})
	case "nonterm":
		e.addViolLocked(&violation{Label: "nonterm", Msg: msg, Entry: e.entry.Name(), Vals: in.modelVals()})
	case "unsupported":
		k := msg
		if len(k) > 1500 {
			k = k[:1500]
		}
		e.unsup[k]++
		if n := len(e.unsupVals[k]); n < 12 {
			e.unsupVals[k] = append(e.unsupVals[k], in.modelVals())
		} else if i := e.rng.Int63n(e.unsup[k]); i < int64(n) {
			e.unsupVals[k][i] = in.modelVals()
		}
		return
	}
	// reservoir sampling of paths for validation against the native program
	if end == "done" || end == "panic" {
		s := &sample{Entry: e.entry.Name(), Vals: in.modelVals(), End: end}
		keep := -1
		if len(e.samples) < e.nSample {
			e.samples = append(e.samples, nil)
			keep = len(e.samples) - 1
		} else if k := e.rng.Int63n(e.paths); k < int64(e.nSample) {
			keep = int(k)
		}
		if keep >= 0 {
			for _, o := range in.x.obs {
				if o.kind == "reach" {
					s.Reach = append(s.Reach, o.text)
				} else {
					s.Log = append(s.Log, in.logText(o.args))
				}
			}
			e.samples[keep] = s
		}
	}
}

func trimStack(b []byte) string {
	l := strings.Split(string(b), "\n")
	var out []string
	for _, x := range l {
		if strings.Contains(x, "gosym/") || strings.HasPrefix(x, "main.") {
			out = append(out, strings.TrimSpace(x))
		}
	}
	if len(out) > 14 {
		out = out[:14]
	}
	return strings.Join(out, "\n")
}

func (e *Engine) addViolLocked(v *violation) {
	k := v.Label
	if v.Label == "panic" || v.Label == "nonterm" {
		// one bucket per site
		k = v.Label + "@" + siteOf(v.Msg)
		v.Label = k
	}
	e.violCount[k]++
	if len(e.viol[k]) < 6 {
		e.viol[k] = append(e.viol[k], v)
	}
}

// siteOf names the innermost repository function of a panic.
func siteOf(msg string) string {
	for _, p := range strings.Split(msg, " < ") {
		p = strings.TrimSpace(p)
		if strings.Contains(p, "go-tuf-metadata/") && !strings.Contains(p, "/zzverif/") {
			p = strings.ReplaceAll(p, "github.com/rdimitrov/go-tuf-metadata/", "")
			if i := strings.IndexByte(p, '['); i > 0 {
				p = p[:i]
			}
			return p
		}
	}
	return "?"
}

func (in *Interp) assertCond(t *Term, label string) {
	e := in.E
	if t == in.c.True || in.known[t] {
		e.mu.Lock()
		e.asserts[label]++
		e.mu.Unlock()
		return
	}
	if in.pos < len(in.prefix) {
		if t.op == OConst {
			panic(pathEnd{"assume"})
		}
		in.addPC(t)
		return
	}
	nt := in.c.Not(t)
	var vm Model
	bad := false
	if in.eval(t) == 0 {
		bad, vm = true, in.model
	} else {
		res, m := in.sol.Check(in.pc, nt)
		switch res {
		case RSat:
			bad, vm = true, m
		case RUnknown:
			panic(unsupported("solver returned unknown on assertion " + label))
		}
	}
	e.mu.Lock()
	e.asserts[label]++
	if bad {
		e.addViolLocked(&violation{Label: label, Msg: "assertion " + label + in.where(), Entry: e.entry.Name(), Vals: modelVals(vm)})
	}
	e.mu.Unlock()
	if !bad {
		in.learn(t)
		return
	}
	in.assume(t)
}

// logText renders observation values under the path's model.
func (in *Interp) logText(args []Value) (out string) {
	defer func() {
		if recover() != nil {
			out = "?"
		}
	}()
	var p []string
	for _, a := range args {
		p = append(p, in.logOne(a.(Iface)))
	}
	return strings.Join(p, " ")
}

func (in *Interp) logOne(i Iface) string {
	if i.t == nil {
		return "nil"
	}
	switch v := i.v.(type) {
	case *Term:
		x := in.eval(v)
		if v.w == 0 {
			return strconv.FormatBool(x != 0)
		}
		if _, signed, _ := intInfo(i.t); signed {
			return strconv.FormatInt(sx(x, v.w), 10)
		}
		return strconv.FormatUint(x, 10)
	case *Str:
		return in.strModel(v)
	case Slice:
		if isByteSlice(i.t) {
			if v.blob != nil {
				return "?"
			}
			b := make([]byte, len(v.a))
			for k, x := range v.a {
				b[k] = byte(in.eval(x.(*Term)))
			}
			return hexOf(b)
		}
	}
	if in.implements(i.t, in.errorType()) {
		return "err"
	}
	return "?"
}

func (in *Interp) strModel(s *Str) string {
	if s.rope != nil {
		var sb strings.Builder
		for _, g := range s.rope {
			switch {
			case g.str != nil:
				sb.WriteString(in.strModel(g.str))
			case g.opq != "" || g.blob != nil || g.t:
				panic("opaque")
			default:
				x := in.eval(g.dec)
				if g.uns {
					sb.WriteString(strconv.FormatUint(x, 10))
				} else {
					sb.WriteString(strconv.FormatInt(sx(x, g.dec.w), 10))
				}
			}
		}
		return sb.String()
	}
	if s.b == nil {
		return s.s
	}
	b := make([]byte, len(s.b))
	for i, t := range s.b {
		b[i] = byte(in.eval(t))
	}
	return string(b)
}

func sortedInt[V any](m map[string]V) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}
