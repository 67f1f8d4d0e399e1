package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Harness is one symbolic run: an entry function and its bounds.
type Harness struct {
	Pkg    string         `json:"pkg"`
	Fn     string         `json:"fn"`
	Params map[string]int `json:"params,omitempty"`
	Budget int            `json:"budget,omitempty"` // seconds
	Conc   bool           `json:"conc,omitempty"`   // schedule-dependent: native replay by stress
	NoWit  bool           `json:"nowit,omitempty"`  // witnesses are not natively replayable
	Bound  string         `json:"bound,omitempty"`
	Shards int            `json:"shards,omitempty"` // parallel jobs, split by the first choices
}

type CheckSpec struct {
	Title       string    `json:"title"`
	Quick       []Harness `json:"quick"`
	Thorough    []Harness `json:"thorough"`
	Assumptions []string  `json:"assumptions"`
	Outside     string    `json:"outside"`
}

type Known struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Msg      string `json:"msg"`
	What     string `json:"what"`
}

type Result struct {
	H       Harness
	Viol    []Violation
	Hang    []Violation
	Incon   map[string]int
	Asserts map[string]int
	Reached map[string]bool
	Funcs   []string
	Stats   Stats
	Sol     SolverStats
	Wits    []map[string]string
	Cert    string // verdict on the exhaustiveness record
	CertN   int
	Done    int
	Wall    time.Duration
	Err     string
	Trace   []string
}

func (h Harness) id() string {
	var ks []string
	for k := range h.Params {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	s := filepath.Base(h.Pkg) + "." + h.Fn
	for _, k := range ks {
		s += fmt.Sprintf(",%s=%d", k, h.Params[k])
	}
	return s
}

// finished records the end of a harness path.
func (e *Eng) finished(st *State) {
	if e.inInit {
		e.initState = st
		return
	}
	e.stats.Paths++
	e.certEnd(st)
	e.done++
	if len(e.wits) < 6 || (e.done%97 == 0 && len(e.wits) < 12) {
		e.wits = append(e.wits, e.inputsOf(st.wit))
	}
}

func (e *Eng) inputsOf(m *Model) map[string]string {
	w := map[string]string{}
	for _, x := range e.c.vars {
		if v, ok := m.vals[x.id]; ok && !strings.HasPrefix(x.name, "aux:") && !strings.HasPrefix(x.name, "uf:") {
			w[x.name] = v.String()
		}
	}
	return w
}

func runHarness(ld *Loader, h Harness, budget time.Duration) (res *Result) {
	t0 := time.Now()
	res = &Result{H: h}
	e := NewEng(ld)
	defer e.sol.Close()
	defer func() {
		if r := recover(); r != nil {
			res.Err = fmt.Sprint(r)
			if os.Getenv("GOSYM_CRASH") != "" {
				debug.PrintStack()
			}
		}
		res.Wall = time.Since(t0)
		res.Viol, res.Incon, res.Asserts, res.Reached = e.viol, e.incon, e.asserts, e.reached
		res.Hang = e.hang
		res.Stats, res.Sol, res.Wits, res.Done = e.stats, e.sol.Stats, e.wits, e.done
		for fi := range e.funcs {
			if fi.isRepo {
				res.Funcs = append(res.Funcs, fi.fn.String())
			}
		}
		sort.Strings(res.Funcs)
		if res.Err != "" {
			if res.Incon == nil {
				res.Incon = map[string]int{}
			}
			res.Incon["engine failure: "+res.Err]++
		}
	}()
	pkg := ld.pkgs[h.Pkg]
	if pkg == nil {
		res.Err = "package not loaded: " + h.Pkg
		return
	}
	fn := pkg.Func(h.Fn)
	if fn == nil {
		res.Err = "no harness " + h.Fn
		return
	}
	for k, v := range h.Params {
		e.params[k] = v
		if k == "exact" {
			e.exact = v != 0
		}
		if k == "nolindiv" {
			e.c.noLinDiv = v != 0
		}
	}
	e.harness = h.id()
	e.deadline = time.Now().Add(budget)
	e.sol.deadline = e.deadline
	st := e.initial(pkg)
	if st == nil {
		return
	}
	e.stats = Stats{}
	e.funcs = map[*FnInfo]int{}
	fr := e.newFrame(st, fn, nil, nil)
	e.pushFrame(st, fr)
	st.gs[0].done = false
	e.cert = Cert{}
	st.cov = e.cert.node()
	e.explore(st)
	if len(e.viol) == 0 && len(e.incon) == 0 && (e.exact || e.sol.Stats.UnsatN == 0) {
		var d time.Duration
		res.Cert, d = e.certify(120 * time.Second)
		res.CertN = int(e.cert.n)
		e.sol.Stats.Time += d
		if d > e.sol.Stats.MaxQuery {
			e.sol.Stats.MaxQuery = d
		}
		if res.Cert != "" {
			e.sol.Stats.Queries++
		}
		switch res.Cert {
		case "unsat":
			e.sol.Stats.UnsatN++
		case "sat":
			e.sol.Stats.SatN++
			e.inconclusive("exhaustiveness certificate open: some execution was not followed")
		case "unknown":
			e.sol.Stats.UnknownN++
			e.inconclusive("exhaustiveness certificate undecided")
		}
	}
	return
}

// initial interprets the package initialisers and returns the state in which harnesses start.
func (e *Eng) initial(pkg *ssa.Package) *State {
	st := &State{e: e, base: map[ObjID]Value{}, over: map[ObjID]Value{}, wit: NewModel(), eqs: map[int]*Term{}, labels: map[string]int{}, tok: new(int)}
	st.gs = []*Goroutine{{id: 0, tok: st.tok}}
	e.inInit = true
	e.initDone[pkg.Pkg.Path()] = true
	fr := e.newFrame(st, pkg.Func("init"), nil, nil)
	e.pushFrame(st, fr)
	e.explore(st)
	e.inInit = false
	if e.initState == nil {
		if len(e.viol) > 0 {
			return nil
		}
		why := ""
		for k := range e.incon {
			why = k
		}
		panic("package initialisation not completed: " + why)
	}
	st = e.initState
	st.base = st.over
	st.over = map[ObjID]Value{}
	st.shared = false
	for id := range st.base {
		e.globalIDs[id] = true
	}
	e.wits, e.done = nil, 0
	e.work = nil
	e.incon = map[string]int{}
	st.pc = nil
	st.gs = []*Goroutine{{id: 0, tok: st.tok}}
	st.cur = 0
	return st
}

func parseParams(s string) map[string]int {
	m := map[string]int{}
	for _, kv := range strings.Split(s, ",") {
		if kv == "" {
			continue
		}
		p := strings.SplitN(kv, "=", 2)
		v, _ := strconv.Atoi(p[1])
		m[p[0]] = v
	}
	return m
}

// memFull is set while more than memLimit bytes are in use: explorations end with a reduced bound.
var memFull atomic.Bool

const memLimit = 16 << 30

func watchMemory() {
	sm := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		time.Sleep(100 * time.Millisecond)
		metrics.Read(sm)
		memFull.Store(sm[0].Value.Uint64() > memLimit)
	}
}

func main() {
	if p := os.Getenv("GOSYM_PROF"); p != "" {
		f, _ := os.Create(p)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gosym run|check|list ...")
		os.Exit(2)
	}
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(14 << 30)
	go watchMemory()
	if v := os.Getenv("GOSYM_REPO"); v != "" {
		repoDir = v
	}
	if v := os.Getenv("GOSYM_VERIF"); v != "" {
		verifDir = v
	}
	switch os.Args[1] {
	case "run":
		defer removeTemp()
		cmdRun(os.Args[2:])
	case "check":
		rc := cmdCheck(os.Args[2:])
		removeTemp()
		os.Exit(rc)
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

func cmdRun(args []string) {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	pkg := fs.String("pkg", "", "")
	fn := fs.String("fn", "", "")
	ps := fs.String("p", "", "")
	budget := fs.Int("t", 60, "")
	replay := fs.Bool("replay", false, "")
	fs.Parse(args)
	t0 := time.Now()
	ld, err := Load([]string{*pkg}, nil)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	fmt.Printf("load %.1fs\n", time.Since(t0).Seconds())
	fns := strings.Split(*fn, ",")
	if *fn == "all" {
		fns = nil
		for n, m := range ld.pkgs[*pkg].Members {
			if f, ok := m.(*ssa.Function); ok && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 0 && strings.ToUpper(n[:1]) == n[:1] {
				fns = append(fns, n)
			}
		}
		sort.Strings(fns)
	}
	for _, f := range fns {
		h := Harness{Pkg: *pkg, Fn: f, Params: parseParams(*ps)}
		r := runHarness(ld, h, time.Duration(*budget)*time.Second)
		printResult(r)
		if *replay {
			rp := newReplayer("dbg")
			for i := range r.Viol {
				rep, out := rp.confirm(r, &r.Viol[i], i)
				fmt.Println("  replay:", rep, out)
			}
			for _, w := range r.Wits {
				fmt.Println("  witness:", rp.native(h, w, 1, 0, false, false))
			}
		}
	}
}

func printResult(r *Result) {
	fmt.Printf("== %s: wall %.1fs paths=%d done=%d instrs=%d forks=%d merges=%d states=%d asserts=%d queries=%d (sat %d unsat %d unk %d hard %d) solver=%.1fs max=%.1fs\n", r.H.id(), r.Wall.Seconds(), r.Stats.Paths, r.Done, r.Stats.Instrs, r.Stats.Forks, r.Stats.Merges, r.Stats.States, r.Stats.Asserts, r.Sol.Queries, r.Sol.SatN, r.Sol.UnsatN, r.Sol.UnknownN, r.Sol.HardN, r.Sol.Time.Seconds(), r.Sol.MaxQuery.Seconds())
	if r.Err != "" {
		fmt.Println("   ERR", r.Err)
	}
	for k, n := range r.Incon {
		fmt.Printf("   INCON %dx %s\n", n, k)
	}
	var ks []string
	for k, n := range r.Asserts {
		ks = append(ks, fmt.Sprintf("%s:%d", k, n))
	}
	sort.Strings(ks)
	fmt.Println("   asserts", ks)
	var rs []string
	for k := range r.Reached {
		rs = append(rs, k)
	}
	sort.Strings(rs)
	fmt.Println("   reached", rs)
	for _, v := range r.Viol {
		fmt.Println("   VIOL", v.Msg, "@", v.Pos)
		for _, in := range v.Inputs {
			if !strings.HasPrefix(in.Name, "aux:") {
				fmt.Printf("      %s=%s", in.Name, in.Val)
			}
		}
		fmt.Println()
		for _, t := range v.Trace {
			fmt.Println("      ", t)
		}
	}
}

// ---------- checks ----------

func cmdCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tierF := fs.String("tier", "quick", "")
	fs.Parse(args)
	t0 := time.Now()
	tier := *tierF
	seed := 1
	if s, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
		seed = s
	}
	specs := map[string]CheckSpec{}
	b, err := os.ReadFile(filepath.Join(verifDir, "checks.json"))
	if err == nil {
		err = json.Unmarshal(b, &specs)
	}
	if err != nil {
		fmt.Println("error:", err)
		return 2
	}
	spec, ok := specs[*prop]
	if !ok {
		fmt.Println("error: unknown property", *prop)
		return 2
	}
	var known []Known
	if b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.json")); err == nil {
		var kf struct {
			Findings []Known `json:"findings"`
		}
		if err := json.Unmarshal(b, &kf); err != nil {
			fmt.Println("error: known_findings.json:", err)
			return 2
		}
		known = kf.Findings
	}
	hs := spec.Quick
	def, total := 120, 240*time.Second
	if tier == "thorough" {
		if len(spec.Thorough) > 0 {
			hs = spec.Thorough
		}
		def, total = 1200, 3300*time.Second
	}
	var xs []Harness
	for _, h := range hs {
		if h.Shards < 2 {
			xs = append(xs, h)
			continue
		}
		for k := 0; k < h.Shards; k++ {
			x := h
			x.Params = map[string]int{"shards": h.Shards, "shard": k}
			for n, v := range h.Params {
				x.Params[n] = v
			}
			xs = append(xs, x)
		}
	}
	hs = xs
	pkgSet := map[string]bool{}
	var pkgs []string
	for _, h := range hs {
		if !pkgSet[h.Pkg] {
			pkgSet[h.Pkg] = true
			pkgs = append(pkgs, h.Pkg)
		}
	}
	ld, err := Load(pkgs, nil)
	if err != nil {
		fmt.Println("error: cannot load the code under verification:", err)
		return 2
	}
	loadT := time.Since(t0)
	stopAt := t0.Add(total)
	results := make([]*Result, len(hs))
	var wg sync.WaitGroup
	par := runtime.NumCPU()
	if par > 8 {
		par = 8
	}
	ch := make(chan int)
	var first *replayer // GOSYM_FIRST (tools only): the first confirmed violation ends the run
	var firstMu sync.Mutex
	if os.Getenv("GOSYM_FIRST") != "" {
		first = newReplayer(*prop)
	}
	for k := 0; k < par; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				bud := time.Duration(def) * time.Second
				if hs[i].Budget > 0 {
					bud = time.Duration(hs[i].Budget) * time.Second
				}
				if left := time.Until(stopAt); left < bud {
					bud = left
				}
				if bud < time.Second {
					results[i] = &Result{H: hs[i], Incon: map[string]int{"not started: time budget": 1}}
					continue
				}
				results[i] = runHarness(ld, hs[i], bud)
				if first != nil && len(results[i].Viol) > 0 {
					firstMu.Lock()
					if ok, out := first.confirm(results[i], &results[i].Viol[0], 0); ok {
						fmt.Printf("VIOLATION property=%s replay=%s\n  %s\n", *prop, out, results[i].Viol[0].Msg)
						os.Exit(1)
					}
					firstMu.Unlock()
				}
			}
		}()
	}
	for i := range hs {
		ch <- i
	}
	close(ch)
	wg.Wait()

	rp := newReplayer(*prop)
	rp.seed = seed
	type found struct {
		r    *Result
		v    *Violation
		path string
		note string
	}
	var confirmed []found
	var unconfirmed []string
	knownHit := map[int]bool{}
	for _, r := range results {
		for i := range r.Viol {
			v := &r.Viol[i]
			kn := -1
			for j, k := range known {
				if k.Property == *prop && k.Harness == r.H.Fn && strings.Contains(v.Msg, k.Msg) {
					kn = j
				}
			}
			if kn >= 0 {
				if !knownHit[kn] {
					knownHit[kn] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, known[kn].What)
				}
				continue
			}
			if len(confirmed) >= 3 || time.Since(t0) > total+240*time.Second {
				continue
			}
			okR, out := rp.confirm(r, v, i)
			if okR {
				confirmed = append(confirmed, found{r, v, out, ""})
			} else {
				unconfirmed = append(unconfirmed, fmt.Sprintf("%s: %s at %s (%s)", r.H.id(), v.Msg, v.Pos, out))
			}
		}
	}
	// paths that seem not to end count if the real code does not end either
	for _, r := range results {
		for i := range r.Hang {
			if len(confirmed) > 0 || time.Since(t0) > total+240*time.Second {
				break
			}
			v := &r.Hang[i]
			if o := rp.native(r.H, inputMap(v.Inputs), 1, 0, false, false); o.fail != "" {
				confirmed = append(confirmed, found{r, v, rp.write(r.H, v, 50+i, o.fail), ""})
			}
		}
	}
	// concrete witnesses of completed paths are run against the real code
	validated, disagreed := 0, 0
	var witSamples []interface{}
	for _, r := range results {
		for i, w := range r.Wits {
			if len(witSamples) < 6 && len(w) > 0 {
				witSamples = append(witSamples, map[string]interface{}{"harness": r.H.id(), "inputs": trimMap(w, 24)})
			}
			if r.H.Conc || r.H.NoWit || len(r.Viol) > 0 || i >= 3 {
				continue
			}
			o := rp.native(r.H, w, 1, 0, false, false)
			switch {
			case o.ok:
				validated++
			case o.fail != "":
				disagreed++
				v := &Violation{Msg: "real execution of an explored path: " + o.fail, Inputs: toInputs(w)}
				p := rp.write(r.H, v, len(confirmed)+100, o.fail)
				confirmed = append(confirmed, found{r, v, p, ""})
			default:
				unconfirmed = append(unconfirmed, fmt.Sprintf("%s: witness not replayable: %s", r.H.id(), o.raw))
			}
		}
	}
	writeEvidence(*prop, tier, seed, spec, results, loadT, time.Since(t0), validated, len(confirmed), unconfirmed, witSamples)
	exit := 0
	for _, f := range confirmed {
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, f.path)
		fmt.Printf("  %s: %s at %s\n", f.r.H.id(), f.v.Msg, f.v.Pos)
		exit = 1
	}
	for _, u := range unconfirmed {
		fmt.Println("unconfirmed:", u)
	}
	for _, r := range results {
		fmt.Printf("%s %s: paths=%d asserts=%d queries=%d solver=%.1fs wall=%.1fs", *prop, r.H.id(), r.Done, r.Stats.Asserts, r.Sol.Queries, r.Sol.Time.Seconds(), r.Wall.Seconds())
		for k, n := range r.Incon {
			fmt.Printf(" [reduced bound: %dx %s]", n, k)
		}
		fmt.Println()
	}
	if exit == 0 {
		fmt.Printf("property %s holds on everything explored (%s, %.1fs)\n", *prop, tier, time.Since(t0).Seconds())
	}
	return exit
}

func toInputs(w map[string]string) []Input {
	var out []Input
	var ks []string
	for k := range w {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		out = append(out, Input{Name: k, Val: w[k]})
	}
	return out
}

func trimMap(m map[string]string, n int) map[string]string {
	r := map[string]string{}
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for i, k := range ks {
		if i >= n {
			break
		}
		r[k] = m[k]
	}
	return r
}

func writeEvidence(prop, tier string, seed int, spec CheckSpec, rs []*Result, load, wall time.Duration, validated, viol int, unconf []string, samples []interface{}) {
	states, trans, queries, sat, unsat, unk, hard, asserts, paths := 0, 0, 0, 0, 0, 0, 0, 0, 0
	var st, maxq time.Duration
	fset := map[string]bool{}
	var hl []interface{}
	complete := true
	by := map[string]int{}
	for _, r := range rs {
		states += r.Stats.Paths + r.Stats.Merges + r.Stats.Forks
		trans += r.Stats.Instrs
		queries += r.Sol.Queries
		sat += r.Sol.SatN
		unsat += r.Sol.UnsatN
		unk += r.Sol.UnknownN
		hard += r.Sol.HardN
		asserts += r.Stats.Asserts
		paths += r.Done
		st += r.Sol.Time
		if r.Sol.MaxQuery > maxq {
			maxq = r.Sol.MaxQuery
		}
		for k, n := range r.Sol.BySolver {
			by[k] += n
		}
		for _, f := range r.Funcs {
			fset[f] = true
		}
		if len(r.Incon) > 0 {
			complete = false
		}
		var reached []string
		for k := range r.Reached {
			reached = append(reached, k)
		}
		sort.Strings(reached)
		vac := "reached"
		if (r.Done == 0 || r.Stats.Asserts == 0) && r.H.Shards > 1 {
			vac = "empty shard"
		} else if r.Done == 0 || r.Stats.Asserts == 0 {
			vac = "VACUOUS: no completed path with an assertion"
			complete = false
		}
		he := map[string]interface{}{
			"harness": r.H.id(), "bound": r.H.Bound, "completed_paths": r.Done, "assertions_decided": r.Asserts,
			"reach_witnesses": reached, "vacuity_guard": vac, "reduced_bound": r.Incon, "queries": r.Sol.Queries,
			"solver_s": round(r.Sol.Time), "wall_s": round(r.Wall), "instructions": r.Stats.Instrs,
		}
		if r.Cert != "" {
			he["exhaustiveness_query"] = map[string]interface{}{"verdict": r.Cert, "state_nodes": r.CertN}
		}
		hl = append(hl, he)
	}
	var funcs []string
	for f := range fset {
		funcs = append(funcs, f)
	}
	sort.Strings(funcs)
	if len(samples) == 0 {
		samples = append(samples, "no symbolic inputs: every path is determined by the harness parameters")
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
		"wall_s": round(wall), "violations": viol,
		"assumptions": spec.Assumptions,
		"coverage": map[string]interface{}{
			"states": states, "transitions": trans, "traces_validated_against_impl": validated, "samples": samples,
			"exhaustive":        complete,
			"functions_encoded": funcs, "harnesses": hl, "completed_paths": paths,
			"assertions_discharged": asserts, "queries": queries, "queries_sat": sat, "queries_unsat": unsat, "queries_unknown": unk,
			"queries_needing_portfolio": hard, "solver_time_s": round(st), "max_query_s": round(maxq), "solvers": by,
			"load_s": round(load), "outside_the_claim": spec.Outside, "unconfirmed_counterexamples": unconf,
			"explanation": "states = symbolic states created by forks, merges and finished paths; transitions = SSA instructions interpreted; every assertion was decided by an SMT solver for all values within the stated bounds; where the values are only schedules, faults and operations, one exhaustiveness query over the recorded state graph asks the solver for an execution that leaves the harness other than by a followed path on which every assertion held (unsat = none)",
		},
	}
	if ev["assumptions"] == nil || len(spec.Assumptions) == 0 {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verifDir, "evidence", prop+".json"), append(b, '\n'), 0o644)
}

func round(d time.Duration) float64 { return float64(int(d.Seconds()*1000)) / 1000 }

// ---------- native replay ----------

type replayer struct {
	prop string
	dir  string
	bins map[string]string
	errs map[string]string
	seed int
	tmp  string
}

type outcome struct {
	ok   bool
	fail string
	raw  string
}

func (o outcome) String() string { return fmt.Sprintf("ok=%v fail=%q raw=%q", o.ok, o.fail, o.raw) }

func newReplayer(prop string) *replayer {
	return &replayer{prop: prop, dir: filepath.Join(verifDir, "replays", prop), bins: map[string]string{}, errs: map[string]string{}, seed: 1}
}

// build compiles the harness package natively with a driver test.
func (r *replayer) build(pkg string, noise, race bool) (string, error) {
	key := fmt.Sprint(pkg, noise, race)
	if b, ok := r.bins[key]; ok {
		if b == "" {
			return "", fmt.Errorf("%s", r.errs[key])
		}
		return b, nil
	}
	fail := func(s string) (string, error) {
		r.bins[key], r.errs[key] = "", s
		return "", fmt.Errorf("%s", s)
	}
	tmp, err := tempDir()
	if err != nil {
		return fail(err.Error())
	}
	ov, err := overlayFiles(true)
	if err != nil {
		return fail(err.Error())
	}
	rel := strings.TrimPrefix(strings.TrimPrefix(pkg, "flychain"), "/")
	dir := filepath.Join(repoDir, rel)
	// blank the package's own tests
	if es, err := os.ReadDir(dir); err == nil {
		for _, x := range es {
			if strings.HasSuffix(x.Name(), "_test.go") {
				ov[filepath.Join(dir, x.Name())] = ""
			}
		}
	}
	fns, pname := harnessFuncs(filepath.Join(verifDir, "harness", rel))
	drv := "package " + pname + "\n\nimport (\n\t\"testing\"\n\tzz \"flychain/zzverif\"\n)\n\nfunc TestZZReplay(t *testing.T) {\n\tzz.Main(map[string]func(){\n"
	for _, f := range fns {
		drv += fmt.Sprintf("\t\t%q: %s,\n", f, f)
	}
	drv += "\t})\n}\n"
	df := filepath.Join(tmp, "zz_replay_test.go")
	if err := os.WriteFile(df, []byte(drv), 0o644); err != nil {
		return fail(err.Error())
	}
	ov[filepath.Join(dir, "zz_replay_test.go")] = df
	if noise {
		if err := instrument(pkg, ov, tmp); err != nil {
			return fail(err.Error())
		}
	}
	of := filepath.Join(tmp, "overlay.json")
	if err := writeOverlay(of, ov); err != nil {
		return fail(err.Error())
	}
	bin := filepath.Join(tmp, "replay.test")
	args := []string{"test", "-overlay", of, "-vet=off", "-tags=zzverif", "-c", "-o", bin}
	if race {
		args = append(args, "-race")
	}
	cmd := exec.Command("go", append(args, pkg)...)
	cmd.Dir = repoDir
	cmd.Env = goEnv()
	if race {
		cmd.Env = append(cmd.Env, "CGO_ENABLED=1")
	}
	out, err := cmd.CombinedOutput()
	if err != nil {
		return fail("native build failed: " + strings.TrimSpace(string(out)))
	}
	r.bins[key] = bin
	return bin, nil
}

func writeOverlay(f string, ov map[string]string) error {
	oj, _ := json.Marshal(map[string]interface{}{"Replace": ov})
	return os.WriteFile(f, oj, 0o644)
}

func (r *replayer) native(h Harness, w map[string]string, tries, mutate int, conc, race bool) outcome {
	bin, err := r.build(h.Pkg, conc, race)
	if err != nil && conc {
		bin, err = r.build(h.Pkg, false, race)
	}
	if err != nil {
		return outcome{raw: err.Error()}
	}
	f := filepath.Join(filepath.Dir(bin), "values.txt")
	var b strings.Builder
	for k, v := range h.Params {
		fmt.Fprintf(&b, "param:%s %d\n", k, v)
	}
	for k, v := range w {
		fmt.Fprintf(&b, "%s %s\n", k, v)
	}
	os.WriteFile(f, []byte(b.String()), 0o644)
	return r.exec(bin, f, h, tries, mutate)
}

func (r *replayer) exec(bin, f string, h Harness, tries, mutate int) outcome {
	cmd := exec.Command("timeout", "-k", "2", "100", bin, "-test.run", "TestZZReplay", "-test.v", "-test.timeout", "95s")
	cmd.Dir = filepath.Dir(bin)
	cmd.Env = append(goEnv(), "ZZ_REPLAY="+f, "ZZ_FN="+h.Fn, fmt.Sprintf("ZZ_TRIES=%d", tries), fmt.Sprintf("ZZ_MUT=%d", mutate), fmt.Sprintf("ZZ_SEED=%d", r.seed), "GORACE=halt_on_error=1")
	out, _ := cmd.CombinedOutput()
	o := outcome{raw: string(out)}
	expect := -1
	for _, l := range strings.Split(string(out), "\n") {
		if i := strings.Index(l, "ZZ: OK"); i >= 0 {
			o.ok = true
			o.raw = ""
		}
		if i := strings.Index(l, "ZZ: FAIL "); i >= 0 {
			o.fail = l[i+9:]
		}
		if i := strings.Index(l, "ZZ: EXPECT-EXIT "); i >= 0 {
			fmt.Sscan(l[i+16:], &expect)
		}
	}
	if i := strings.Index(string(out), "WARNING: DATA RACE"); i >= 0 && o.fail == "" {
		l := strings.Split(string(out)[i:], "\n")
		o.fail = strings.Join(strings.Fields(strings.Join(l[:min(len(l), 12)], " ")), " ")
	}
	if o.fail == "" && !o.ok {
		for _, l := range strings.Split(string(out), "\n") {
			if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") {
				o.fail = l
				break
			}
		}
	}
	txt := string(out)
	if c := cmd.ProcessState.ExitCode(); o.fail == "" && !o.ok && c >= 0 && c < 124 && !strings.Contains(txt, "ZZ: ASSUME") && !strings.Contains(txt, "ZZ: ERROR") && !strings.Contains(txt, "PASS\n") && !strings.Contains(txt, "FAIL") && strings.Contains(txt, "=== RUN") {
		if c == expect {
			o.ok, o.raw = true, ""
		} else {
			o.fail = fmt.Sprintf("the process ends with status %d", c)
		}
	}
	if o.fail != "" {
		o.ok = false
	}
	if len(o.raw) > 400 {
		o.raw = o.raw[:400]
	}
	return o
}

func (r *replayer) confirm(res *Result, v *Violation, i int) (bool, string) {
	w := inputMap(v.Inputs)
	tries := 1
	if res.H.Conc {
		tries = 400
	}
	race := strings.HasPrefix(v.Msg, "data race")
	o := r.native(res.H, w, tries, 0, res.H.Conc, race)
	if o.fail == "" {
		// search the neighbourhood of the assignment (needed where a stub is abstract)
		o = r.native(res.H, w, 3000, 30, res.H.Conc, race)
	}
	if o.fail != "" {
		return true, r.write(res.H, v, i, o.fail)
	}
	return false, "not reproduced natively: " + o.raw
}

func inputMap(ins []Input) map[string]string {
	w := map[string]string{}
	for _, in := range ins {
		if strings.HasPrefix(in.Name, "aux:") || strings.HasPrefix(in.Name, "uf:") {
			continue
		}
		w[in.Name] = in.Val
	}
	return w
}

func (r *replayer) write(h Harness, v *Violation, i int, fail string) string {
	os.MkdirAll(r.dir, 0o755)
	p := filepath.Join(r.dir, fmt.Sprintf("%s-%d.txt", h.Fn, i))
	var b strings.Builder
	fmt.Fprintf(&b, "# property %s, harness %s\n# engine: %s at %s\n# real execution: %s\n# replay: %s\n", r.prop, h.id(), v.Msg, v.Pos, fail, "/verif/replay.sh "+h.Pkg+" "+h.Fn+" "+p)
	for k, x := range h.Params {
		fmt.Fprintf(&b, "param:%s %d\n", k, x)
	}
	for _, in := range v.Inputs {
		if strings.HasPrefix(in.Name, "aux:") {
			continue
		}
		fmt.Fprintf(&b, "%s %s\n", in.Name, in.Val)
	}
	for _, t := range v.Trace {
		fmt.Fprintf(&b, "# %s\n", t)
	}
	os.WriteFile(p, []byte(b.String()), 0o644)
	return p
}

// harnessFuncs lists the exported niladic functions of a harness directory.
func harnessFuncs(dir string) (fns []string, pkg string) {
	es, _ := os.ReadDir(dir)
	for _, x := range es {
		if !strings.HasSuffix(x.Name(), ".go") {
			continue
		}
		b, _ := os.ReadFile(filepath.Join(dir, x.Name()))
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "package ") {
				pkg = strings.Fields(l)[1]
			}
			if strings.HasPrefix(l, "func ") {
				n := strings.TrimPrefix(l, "func ")
				j := strings.Index(n, "() {")
				if j > 0 && !strings.ContainsAny(n[:j], "( ") && n[0] >= 'A' && n[0] <= 'Z' {
					fns = append(fns, n[:j])
				}
			}
		}
	}
	return
}
