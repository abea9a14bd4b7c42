package main

// One incremental SMT solver process driven over a pipe.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Solver struct {
	ctx     *Ctx
	bin     []string
	cmd     *exec.Cmd
	in      *bufio.Writer
	inPipe  io.WriteCloser
	out     *bufio.Reader
	defined map[int32]bool
	// assertions currently on the solver's stack, one frame per entry
	stack   []*Term
	Queries int
	Sat     int
	Unsat   int
	Unknown int
	Time    time.Duration
	ndef    int
	timeout int
}

func NewSolver(ctx *Ctx, bin []string, timeoutMs int) (*Solver, error) {
	s := &Solver{ctx: ctx, bin: bin, timeout: timeoutMs}
	return s, s.start()
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.bin[0], s.bin[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.inPipe = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.defined = map[int32]bool{}
	s.stack = nil
	s.ndef = 0
	if strings.Contains(s.bin[0], "z3") {
		fmt.Fprintf(s.in, "(set-option :global-declarations true)\n(set-option :timeout %d)\n", s.timeout)
		fmt.Fprintf(s.in, "(set-option :produce-models true)\n")
	} else {
		fmt.Fprintf(s.in, "(set-option :global-declarations true)\n(set-option :produce-models true)\n(set-logic QF_BV)\n")
	}
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inPipe.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) restart() {
	s.Close()
	if err := s.start(); err != nil {
		panic(fmt.Sprintf("solver restart: %v", err))
	}
}

func (s *Solver) ref(t *Term) string {
	if t.op == OConst {
		return constStr(t)
	}
	if t.op == OVar {
		return "|" + t.name + "|"
	}
	return "t" + strconv.Itoa(int(t.id))
}

func (s *Solver) define(t *Term) {
	if t.op == OConst || s.defined[t.id] {
		return
	}
	// iterative post-order
	type fr struct {
		t *Term
		k int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if s.defined[f.t.id] || f.t.op == OConst {
			st = st[:len(st)-1]
			continue
		}
		var ch *Term
		switch f.k {
		case 0:
			ch = f.t.a
		case 1:
			ch = f.t.b
		case 2:
			ch = f.t.c
		}
		if f.k < 3 {
			f.k++
			if ch != nil && ch.op != OConst && !s.defined[ch.id] {
				st = append(st, fr{ch, 0})
			}
			continue
		}
		x := f.t
		s.ndef++
		if x.op == OVar {
			fmt.Fprintf(s.in, "(declare-const |%s| %s)\n", x.name, sortOf(x.w))
		} else {
			fmt.Fprintf(s.in, "(define-fun t%d () %s ", x.id, sortOf(x.w))
			switch x.op {
			case OZExt:
				fmt.Fprintf(s.in, "((_ zero_extend %d) %s)", x.w-x.a.w, s.ref(x.a))
			case OSExt:
				fmt.Fprintf(s.in, "((_ sign_extend %d) %s)", x.w-x.a.w, s.ref(x.a))
			case OExtract:
				fmt.Fprintf(s.in, "((_ extract %d %d) %s)", int(x.val)+int(x.w)-1, x.val, s.ref(x.a))
			default:
				s.in.WriteString("(" + opName[x.op])
				for _, y := range []*Term{x.a, x.b, x.c} {
					if y != nil {
						s.in.WriteString(" " + s.ref(y))
					}
				}
				s.in.WriteString(")")
			}
			s.in.WriteString(")\n")
		}
		s.defined[x.id] = true
		st = st[:len(st)-1]
	}
}

// sync makes the solver's assertion stack equal to pc.
func (s *Solver) sync(pc []*Term) {
	n := 0
	for n < len(pc) && n < len(s.stack) && pc[n] == s.stack[n] {
		n++
	}
	if k := len(s.stack) - n; k > 0 {
		fmt.Fprintf(s.in, "(pop %d)\n", k)
		s.stack = s.stack[:n]
	}
	for _, t := range pc[n:] {
		s.define(t)
		fmt.Fprintf(s.in, "(push 1)\n(assert %s)\n", s.ref(t))
		s.stack = append(s.stack, t)
	}
}

func (s *Solver) readLine() string {
	s.in.Flush()
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			panic(fmt.Sprintf("solver died: %v (%q)", err, l))
		}
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		if strings.HasPrefix(l, "(error") {
			panic("solver error: " + l)
		}
		return l
	}
}

type Res int

const (
	RUnsat Res = iota
	RSat
	RUnknown
)

// Check decides pc ∧ extra; on sat returns a model over all variables of pc and extra.
func (s *Solver) Check(pc []*Term, extra *Term) (Res, Model) {
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	if s.ndef > 400000 {
		s.restart()
	}
	s.Queries++
	s.sync(pc)
	if extra != nil {
		s.define(extra)
		fmt.Fprintf(s.in, "(push 1)\n(assert %s)\n", s.ref(extra))
	}
	fmt.Fprintf(s.in, "(check-sat)\n")
	l := s.readLine()
	if d := os.Getenv("GOSYM_SLOW"); d != "" && time.Since(t0) > 2*time.Second {
		s.dump(fmt.Sprintf("%s/q%d.smt2", d, s.Queries), pc, extra)
	}
	var res Res
	var m Model
	switch l {
	case "sat":
		res = RSat
		s.Sat++
		m = s.model(pc, extra)
	case "unsat":
		res = RUnsat
		s.Unsat++
	default:
		res = RUnknown
		s.Unknown++
	}
	if extra != nil {
		fmt.Fprintf(s.in, "(pop 1)\n")
	}
	return res, m
}

// dump writes a query as a stand-alone script.
func (s *Solver) dump(file string, pc []*Term, extra *Term) {
	f, err := os.Create(file)
	if err != nil {
		return
	}
	defer f.Close()
	n := &Solver{ctx: s.ctx, defined: map[int32]bool{}, in: bufio.NewWriter(f)}
	for _, t := range pc {
		n.define(t)
		fmt.Fprintf(n.in, "(assert %s)\n", n.ref(t))
	}
	if extra != nil {
		n.define(extra)
		fmt.Fprintf(n.in, "(assert %s)\n", n.ref(extra))
	}
	fmt.Fprintln(n.in, "(check-sat)")
	n.in.Flush()
}

func collectVars(t *Term, seen map[*Term]bool, out *[]*Term) {
	if t == nil || t.op == OConst || seen[t] {
		return
	}
	seen[t] = true
	if t.op == OVar {
		*out = append(*out, t)
		return
	}
	collectVars(t.a, seen, out)
	collectVars(t.b, seen, out)
	collectVars(t.c, seen, out)
}

func (s *Solver) model(pc []*Term, extra *Term) Model {
	seen := map[*Term]bool{}
	var vars []*Term
	for _, t := range pc {
		collectVars(t, seen, &vars)
	}
	collectVars(extra, seen, &vars)
	m := Model{}
	const chunk = 200
	for i := 0; i < len(vars); i += chunk {
		j := min(i+chunk, len(vars))
		s.in.WriteString("(get-value (")
		for _, v := range vars[i:j] {
			s.in.WriteString(" |" + v.name + "|")
		}
		s.in.WriteString("))\n")
		txt := s.readSexp()
		vals := parseValues(txt)
		for _, v := range vars[i:j] {
			val, ok := vals[v.name]
			if !ok {
				panic("no value for " + v.name + " in " + txt)
			}
			m[v] = val
		}
	}
	return m
}

func (s *Solver) readSexp() string {
	s.in.Flush()
	var sb strings.Builder
	depth := 0
	inBar := false
	started := false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			panic(fmt.Sprintf("solver died: %v", err))
		}
		sb.WriteByte(b)
		if b == '|' {
			inBar = !inBar
		}
		if inBar {
			continue
		}
		if b == '(' {
			depth++
			started = true
		}
		if b == ')' {
			depth--
		}
		if started && depth == 0 {
			t := sb.String()
			if strings.HasPrefix(strings.TrimSpace(t), "(error") {
				panic("solver error: " + t)
			}
			return t
		}
	}
}

// parseValues parses ((|x| #x00) (y true) ...)
func parseValues(txt string) map[string]uint64 {
	res := map[string]uint64{}
	i := 0
	n := len(txt)
	var toks []string
	for i < n {
		c := txt[i]
		switch {
		case c == '(' || c == ')':
			toks = append(toks, string(c))
			i++
		case c == '|':
			j := strings.IndexByte(txt[i+1:], '|')
			toks = append(toks, "|"+txt[i+1:i+1+j])
			i += j + 2
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		default:
			j := i
			for j < n && !strings.ContainsRune("() \n\t\r", rune(txt[j])) {
				j++
			}
			toks = append(toks, txt[i:j])
			i = j
		}
	}
	// tokens: ( ( name val ) ... )
	for k := 1; k < len(toks)-1; {
		if toks[k] != "(" {
			k++
			continue
		}
		name := strings.TrimPrefix(toks[k+1], "|")
		k += 2
		var v uint64
		if toks[k] == "(" { // (_ bvN w)
			v, _ = strconv.ParseUint(strings.TrimPrefix(toks[k+2], "bv"), 10, 64)
			k += 5
		} else {
			t := toks[k]
			switch {
			case t == "true":
				v = 1
			case t == "false":
				v = 0
			case strings.HasPrefix(t, "#x"):
				v, _ = strconv.ParseUint(t[2:], 16, 64)
			case strings.HasPrefix(t, "#b"):
				v, _ = strconv.ParseUint(t[2:], 2, 64)
			}
			k++
		}
		res[name] = v
		k++ // ')'
	}
	return res
}
