package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

type knownFinding struct {
	property, key, text string
}

// known-findings file: lines "KNOWN-FINDING: property=<id> key=<label>[|<substring>] <what fails>"
func readKnown(path, prop string) []knownFinding {
	f, err := os.Open(path)
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []knownFinding
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "KNOWN-FINDING: ") {
			continue
		}
		l = strings.TrimPrefix(l, "KNOWN-FINDING: ")
		parts := strings.SplitN(l, " ", 3)
		if len(parts) < 3 || parts[0] != "property="+prop {
			continue
		}
		out = append(out, knownFinding{prop, strings.TrimPrefix(parts[1], "key="), parts[2]})
	}
	return out
}

type entryReport struct {
	Name        string           `json:"name"`
	Paths       int64            `json:"paths"`
	Pruned      int64            `json:"pruned_by_assumption"`
	Decisions   int64            `json:"decisions"`
	Queries     int64            `json:"solver_queries"`
	FreeForks   int64            `json:"forks_without_query"`
	SolverS     float64          `json:"solver_s"`
	WallS       float64          `json:"wall_s"`
	Steps       int64            `json:"instructions"`
	Complete    bool             `json:"exhaustive_within_bounds"`
	Pinned      int64            `json:"paths_with_one_value_of_a_document"`
	Unsupported map[string]int64 `json:"inconclusive_paths,omitempty"`
	Asserts     map[string]int64 `json:"assertions_decided"`
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	harness := flag.String("harness", "/verif/harness", "harness directory")
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	only := flag.String("entry", "", "run only entries with this name prefix")
	evidence := flag.String("evidence", "", "evidence file")
	known := flag.String("known", "", "known findings file")
	workers := flag.Int("workers", 8, "workers")
	budget := flag.Int("budget", 240, "seconds for exploration")
	seed := flag.Int64("seed", 1, "sampling seed")
	nSample := flag.Int("samples", 40, "paths per entry validated natively")
	maxStep := flag.Int64("maxstep", 3000000, "instructions per path before non-termination is suspected")
	replay := flag.String("replay", "", "replay a violation file natively")
	verbose := flag.Bool("v", false, "verbose")
	solver := flag.String("solver", "z3-new", "solver")
	metaFile := flag.String("meta", "", "bounds/assumptions description (JSON)")
	outdir := flag.String("outdir", "/verif/evidence", "directory of replay files")
	flag.Parse()
	debug.SetGCPercent(200)
	debug.SetMaxStack(1 << 30)
	runtime.GOMAXPROCS(8)

	start := time.Now()
	pkg := strings.ToLower(*prop)
	ov, err := buildOverlay(*repo, *harness)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	l, err := load(*repo, ov, []string{pkg})
	if err != nil {
		fmt.Fprintln(os.Stderr, "load failed:", err)
		os.Exit(2)
	}
	var names []string
	for _, e := range l.entries {
		names = append(names, e.Name())
	}
	np, err := buildNative(*repo, ov, pkg, names)
	defer np.close()
	exit := func(c int) { np.close(); os.Exit(c) }
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		exit(2)
	}
	if *replay != "" {
		exit(doReplay(np, *replay))
	}
	loadS := time.Since(start).Seconds()
	thorough := *tier == "thorough"

	var sel []int
	for i, e := range l.entries {
		if *only != "" && !strings.HasPrefix(e.Name(), *only) {
			continue
		}
		if l.thorO[e.Name()] && !thorough && *only == "" {
			continue
		}
		sel = append(sel, i)
	}
	var engines []*Engine
	var reports []entryReport
	endAt := time.Now().Add(time.Duration(*budget) * time.Second)
	for k, i := range sel {
		left := time.Until(endAt)
		share := left
		if rest := len(sel) - k; rest > 1 {
			share = left / time.Duration(rest) * 3
			if share > left*3/4 {
				share = left * 3 / 4
			}
		}
		e := &Engine{P: l.P, entry: l.entries[i], thorough: thorough, solver: solverCmd(*solver), deadline: time.Now().Add(share),
			maxStep: *maxStep, viol: map[string][]*violation{}, violCount: map[string]int{}, reached: map[string]int64{}, unsup: map[string]int64{},
			unsupVals: map[string][]map[string]uint64{}, asserts: map[string]int64{}, nSample: *nSample, rng: rand.New(rand.NewSource(*seed)), fnHits: map[string]int{}}
		e.run(*workers)
		engines = append(engines, e)
		r := entryReport{Name: e.entry.Name(), Paths: e.paths, Pruned: e.assumeEnd, Decisions: e.decisions, Queries: e.queries, FreeForks: e.freeForks.Load(),
			SolverS: e.solverTime.Seconds(), WallS: e.wall.Seconds(), Steps: e.steps, Complete: !e.incompl && len(e.unsup) == 0 && e.pinnedN == 0, Pinned: e.pinnedN, Unsupported: e.unsup, Asserts: e.asserts}
		reports = append(reports, r)
		if *verbose {
			fmt.Printf("%-34s paths=%d pruned=%d queries=%d free=%d solver=%.1fs wall=%.1fs steps=%d complete=%v viol=%v reach=%v\n", r.Name, r.Paths, r.Pruned, r.Queries, r.FreeForks, r.SolverS, r.WallS, r.Steps, !e.incompl, e.violCount, e.reached)
			for _, u := range sortedInt(e.unsup) {
				fmt.Printf("   inconclusive x%d: %s\n", e.unsup[u], u)
			}
		}
	}

	// ---- replay candidate violations
	kn := readKnown(*known, *prop)
	type outv struct {
		v    *violation
		path string
	}
	var confirmed []outv
	knownHit := map[string]int{}
	var unconfirmed []string
	os.MkdirAll(*outdir, 0755)
	for _, e := range engines {
		for _, lab := range sortedInt(e.viol) {
			ok := false
			for _, v := range e.viol[lab] {
				if confirmNative(np, v, thorough) {
					ok = true
					if k := matchKnown(kn, v); k != nil {
						knownHit[k.key]++
						break
					}
					p := filepath.Join(*outdir, fmt.Sprintf("replay-%s-%s.json", *prop, sanitize(v.Entry+"-"+lab)))
					b, _ := json.MarshalIndent(map[string]any{"property": *prop, "entry": v.Entry, "label": lab, "message": v.Msg, "native": v.native, "vals": v.Vals, "thorough": thorough,
						"how": fmt.Sprintf("/verif/run.sh replay %s %s", *prop, p)}, "", " ")
					os.WriteFile(p, b, 0644)
					confirmed = append(confirmed, outv{v, p})
					break
				}
			}
			if !ok {
				unconfirmed = append(unconfirmed, fmt.Sprintf("%s/%s: %s (native: %s)", e.entry.Name(), lab, e.viol[lab][0].Msg, e.viol[lab][0].native))
			}
		}
	}
	// ---- inconclusive paths are at least executed natively
	incNative := 0
	for _, e := range engines {
		for _, u := range sortedInt(e.unsup) {
			var reqs []runReq
			for _, vals := range e.unsupVals[u] {
				reqs = append(reqs, runReq{Entry: e.entry.Name(), Vals: vals, Thorough: thorough})
			}
			for i, r := range np.run(reqs, 60*time.Second) {
				v := &violation{Label: "*", Entry: e.entry.Name(), Vals: reqs[i].Vals, Msg: "inconclusive path"}
				incNative++
				var news []string
				for _, l := range r.Failed {
					if matchKnown(kn, &violation{Label: l, Entry: v.Entry}) == nil {
						news = append(news, l)
					}
				}
				if len(r.Failed) > 0 && len(news) == 0 {
					continue
				}
				r.Failed = news
				if bad := failText(r); bad != "" && !r.Assume {
					v.Label, v.native = bad, bad
					p := filepath.Join(*outdir, fmt.Sprintf("replay-%s-%s.json", *prop, sanitize(v.Entry+"-native")))
					b, _ := json.MarshalIndent(map[string]any{"property": *prop, "entry": v.Entry, "label": bad, "message": u, "native": bad, "vals": v.Vals, "thorough": thorough}, "", " ")
					os.WriteFile(p, b, 0644)
					confirmed = append(confirmed, outv{v, p})
				}
			}
		}
	}
	// ---- validate sampled paths
	validated, mismatched, skipped := 0, 0, 0
	var mism []string
	for _, e := range engines {
		var reqs []runReq
		for _, s := range e.samples {
			reqs = append(reqs, runReq{Entry: s.Entry, Vals: s.Vals, Thorough: thorough})
		}
		if len(reqs) == 0 {
			continue
		}
		for i, r := range np.run(reqs, 60*time.Second) {
			s := e.samples[i]
			if hasMapOrder(s.Vals) {
				skipped++
				continue
			}
			if d := diffSample(s, r); d != "" {
				mismatched++
				if len(mism) < 5 {
					mism = append(mism, fmt.Sprintf("%s: %s vals=%v", s.Entry, d, s.Vals))
				}
			} else {
				validated++
			}
		}
	}
	// ---- vacuity
	var unreached []string
	if *only == "" {
		for _, lab := range sortedInt(l.labels) {
			hit := false
			for _, e := range engines {
				if e.reached[lab] > 0 {
					hit = true
				}
			}
			if !hit && !(strings.HasPrefix(lab, "T:") && !thorough) {
				unreached = append(unreached, lab)
			}
		}
	}

	// ---- report
	var paths, queries, decs, unsupN int64
	var solverS float64
	complete := true
	fns := map[string]int{}
	for i, e := range engines {
		paths += e.paths
		queries += e.queries
		decs += e.decisions
		solverS += e.solverTime.Seconds()
		complete = complete && reports[i].Complete
		for _, n := range e.unsup {
			unsupN += n
		}
		for f, n := range e.fnHits {
			if strings.Contains(f, "go-tuf-metadata/") && !strings.Contains(f, "/zzverif/") && !strings.HasSuffix(f, ".init") {
				fns[strings.ReplaceAll(f, modPath+"/", "")] += n
			}
		}
	}
	var fnl []string
	for f := range fns {
		fnl = append(fnl, f)
	}
	sort.Strings(fnl)
	for _, k := range kn {
		if knownHit[k.key] > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k.text)
		}
	}
	for _, u := range unconfirmed {
		fmt.Printf("UNCONFIRMED (solver counterexample not reproduced natively, not reported as a violation): %s\n", u)
	}
	for _, m := range mism {
		fmt.Printf("VALIDATION-MISMATCH %s\n", m)
	}
	if len(unreached) > 0 {
		fmt.Printf("UNREACHED labels: %v\n", unreached)
	}
	seen := map[string]bool{}
	for _, c := range confirmed {
		line := fmt.Sprintf("VIOLATION property=%s replay=%s", *prop, c.path)
		if !seen[line] {
			fmt.Printf("%s  # %s: %s\n", line, c.v.Label, firstLine(c.v.Msg))
			seen[line] = true
		}
	}
	wall := time.Since(start).Seconds()
	fmt.Printf("%s %s: entries=%d paths=%d decisions=%d queries=%d solver=%.1fs wall=%.1fs (load %.1fs) exhaustive=%v inconclusive=%d validated=%d mismatched=%d violations=%d\n",
		*prop, *tier, len(engines), paths, decs, queries, solverS, wall, loadS, complete, unsupN, validated, mismatched, len(confirmed))
	if *evidence != "" {
		var meta map[string]any
		if b, err := os.ReadFile(*metaFile); err == nil {
			var all map[string]map[string]any
			if json.Unmarshal(b, &all) == nil {
				meta = all[*prop]
			}
		}
		var samples []any
		for _, e := range engines {
			for i, s := range e.samples {
				if i < 3 {
					samples = append(samples, map[string]any{"entry": s.Entry, "inputs": s.Vals, "observed": s.Log, "reached": s.Reach, "end": s.End})
				}
			}
		}
		cov := map[string]any{
			"states": paths, "transitions": decs, "traces_validated_against_impl": validated, "samples": samples,
			"functions_encoded": fnl, "entries": reports, "solver_queries": queries, "solver_s": solverS, "exhaustive_within_bounds": complete,
			"inconclusive_paths": unsupN, "validation_mismatches": mism, "validation_skipped_map_order": skipped, "unconfirmed_counterexamples": unconfirmed, "unreached_labels": unreached,
			"known_findings_seen": knownHit, "solver": *solver,
		}
		for k, v := range meta {
			if k != "assumptions" {
				cov[k] = v
			}
		}
		var as any = []string{}
		if meta != nil && meta["assumptions"] != nil {
			as = meta["assumptions"]
		}
		ev := map[string]any{"property": *prop, "tier": *tier, "seed": *seed, "level": "model_checking", "coverage": cov, "wall_s": wall, "assumptions": as, "violations": len(confirmed)}
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Dir(*evidence), 0755)
		if err := os.WriteFile(*evidence, b, 0644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			exit(2)
		}
	}
	if len(confirmed) > 0 {
		exit(1)
	}
	exit(0)
}

func solverCmd(s string) []string {
	switch s {
	case "cvc5":
		return []string{"cvc5", "--incremental", "--lang=smt2", "--produce-models"}
	case "z3":
		return []string{"z3", "-in", "-smt2"}
	}
	return []string{"z3-new", "-in", "-smt2"}
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 300 {
		s = s[:300]
	}
	return s
}

func sanitize(s string) string {
	var sb strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '-' || r == '_' {
			sb.WriteRune(r)
		} else {
			sb.WriteByte('_')
		}
	}
	x := sb.String()
	if len(x) > 90 {
		x = x[:90]
	}
	return x
}

func hasMapOrder(v map[string]uint64) bool {
	for k, x := range v {
		if strings.HasPrefix(k, "map.order") && x != 0 {
			return true
		}
	}
	return false
}

func matchKnown(kn []knownFinding, v *violation) *knownFinding {
	for i := range kn {
		lab, sub, _ := strings.Cut(kn[i].key, "|")
		if lab == v.Label && (sub == "" || strings.Contains(v.Entry, sub)) {
			return &kn[i]
		}
	}
	return nil
}

func failText(r runRes) string {
	switch {
	case len(r.Failed) > 0:
		return strings.Join(r.Failed, ",")
	case r.Panic != "":
		return "panic: " + r.Panic
	case r.Crash == "timeout":
		return "nonterm"
	case r.Crash != "":
		return r.Crash
	}
	return ""
}

// confirmNative replays a counterexample against the real code.
func confirmNative(np *nativeProg, v *violation, thorough bool) bool {
	n := 1
	for k := range v.Vals {
		if strings.HasPrefix(k, "map.order") {
			n = 60
		}
	}
	for i := 0; i < n; i++ {
		r := np.run([]runReq{{Entry: v.Entry, Vals: v.Vals, Thorough: thorough}}, 30*time.Second)[0]
		v.native = failText(r)
		if r.Assume {
			v.native += " (assumption failed natively)"
			continue
		}
		switch {
		case strings.HasPrefix(v.Label, "panic"):
			if r.Panic != "" || strings.HasPrefix(r.Crash, "crash") {
				return true
			}
		case strings.HasPrefix(v.Label, "nonterm"):
			if r.Crash != "" {
				return true
			}
		default:
			for _, f := range r.Failed {
				if f == v.Label {
					return true
				}
			}
			if r.Panic != "" {
				v.Msg += " (natively: panic " + r.Panic + ")"
				return true
			}
		}
	}
	return false
}

func diffSample(s *sample, r runRes) string {
	if r.Crash != "" {
		return "native " + r.Crash
	}
	if r.Assume {
		return "assumption fails natively"
	}
	if (s.End == "panic") != (r.Panic != "") {
		return fmt.Sprintf("panic differs: engine end=%s native=%q", s.End, r.Panic)
	}
	if strings.Join(s.Reach, "|") != strings.Join(r.Reach, "|") {
		return fmt.Sprintf("reach differs: engine %v native %v", s.Reach, r.Reach)
	}
	if len(s.Log) != len(r.Log) {
		return fmt.Sprintf("log length differs: engine %v native %v", s.Log, r.Log)
	}
	for i := range s.Log {
		if s.Log[i] == "?" {
			continue
		}
		x, y := strings.Split(s.Log[i], " "), strings.Split(r.Log[i], " ")
		if len(x) == len(y) {
			same := true
			for k := range x {
				if x[k] != "?" && x[k] != y[k] {
					same = false
				}
			}
			if same {
				continue
			}
		}
		return fmt.Sprintf("log %d differs: engine %q native %q", i, s.Log[i], r.Log[i])
	}
	return ""
}

func doReplay(np *nativeProg, path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var d struct {
		Entry    string
		Label    string
		Vals     map[string]uint64
		Thorough bool
	}
	if err := json.Unmarshal(b, &d); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	v := &violation{Entry: d.Entry, Label: d.Label, Vals: d.Vals}
	ok := confirmNative(np, v, d.Thorough)
	fmt.Printf("replay %s %s: reproduced=%v native=%s\n", d.Entry, d.Label, ok, v.native)
	if ok {
		return 1
	}
	return 0
}
