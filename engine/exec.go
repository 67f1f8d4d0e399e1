package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type Stats struct {
	Sweeps int
	Instrs, Forks, Merges, States, Paths int
	Asserts, Reached                       int
	Transitions                            int
}

type Violation struct {
	Msg    string
	Pos    string
	Model  *Model
	Inputs []Input
	Trace  []string
	Sched  []int
}

type Input struct {
	Name string
	Val  string // decimal
	W    int
}

type Incon struct {
	Why string
	N   int
}

type Eng struct {
	cert      Cert
	exact     bool // merge only states that are equal
	c         *Ctx
	sol       *Solver
	prog      *ssa.Program
	ld        *Loader
	fis       map[*ssa.Function]*FnInfo
	globalIDs map[ObjID]bool
	gname     map[ObjID]*ssa.Global
	gids      map[*ssa.Global]ObjID
	printSet  [][2]rune
	decText   map[*Term][]*Term // known decimal expansions
	initDone  map[string]bool
	initNotes []string
	nver     int
	apart    map[[2]int]bool // pairs of states that do not merge
	work      []*State
	stats     Stats
	stateID   int
	eqCache map[eqKey][]*Term
	params    map[string]int
	harness   string
	viol      []Violation
	hang      []Violation
	violAt    map[string]bool
	incon     map[string]int
	funcs     map[*FnInfo]int
	maxUnwind int
	maxInstrs int
	deadline  time.Time
	reached   map[string]bool
	asserts   map[string]int
	ufs       map[string][]ufApp
	varCache  map[int][]int
	inInit    bool
	ifaceRT   types.Type
	schedVars int
	maxViol   int
	trace     bool
	checkOnly map[string]bool
	rtypeT    types.Type
	methC     map[methKey]*ssa.Function
	curSt     *State
	preempt   int
	stopped   bool
	lastProg  time.Time
	quiesceN  int
	maxSteps  int
	curAssert string
	ufAx      []*Term
	auxN      int
	done      int // paths on which the harness returned
	wits      []map[string]string
	initState *State
}

type methKey struct {
	t    types.Type
	name string
}

type ufApp struct {
	args []*Term
	res  *Term
}

// control-flow signals (Go panics inside an instruction)
type forkAlt struct {
	cond *Term
	wit  *Model
	eqs  [][2]*Term
}
type forkSig struct {
	alts []forkAlt
	free bool // the scheduler picks
}
type goPanic struct{ v IfaceV }
type deadSig struct{ why string } // path is infeasible / finished
type parkSig struct{}

func NewEng(ld *Loader) *Eng {
	e := &Eng{ld: ld, prog: ld.prog}
	e.c = NewCtx()
	e.sol = NewSolver(e.c)
	e.fis = map[*ssa.Function]*FnInfo{}
	e.globalIDs = map[ObjID]bool{}
	e.gids = map[*ssa.Global]ObjID{}
	e.gname = map[ObjID]*ssa.Global{}
	e.initDone = map[string]bool{}
	e.params = map[string]int{}
	e.violAt = map[string]bool{}
	e.incon = map[string]int{}
	e.funcs = map[*FnInfo]int{}
	e.reached = map[string]bool{}
	e.asserts = map[string]int{}
	e.ufs = map[string][]ufApp{}
	e.varCache = map[int][]int{}
	e.methC = map[methKey]*ssa.Function{}
	e.maxUnwind = 2000
	e.maxInstrs = 400_000_000
	e.maxViol = 3
	e.maxSteps = 400
	e.trace = os.Getenv("GOSYM_TRACE") != ""
	return e
}

func (e *Eng) isRepoFn(fn *ssa.Function) bool {
	p := fn.Pkg
	if p == nil && fn.Origin() != nil {
		p = fn.Origin().Pkg
	}
	if p == nil && fn.Parent() != nil {
		p = fn.Parent().Pkg
	}
	if p == nil {
		if o := fn.Object(); o != nil && o.Pkg() != nil {
			return strings.HasPrefix(o.Pkg().Path(), "flychain") && !strings.Contains(o.Pkg().Path(), "zzverif")
		}
		return false
	}
	path := p.Pkg.Path()
	return strings.HasPrefix(path, "flychain") && !strings.Contains(path, "zzverif")
}

// ---------- feasibility ----------

func (e *Eng) vars(t *Term) []int {
	if v, ok := e.varCache[t.id]; ok {
		return v
	}
	var ids []int
	for _, v := range coneVars([]*Term{t}) {
		ids = append(ids, v.id)
	}
	e.varCache[t.id] = ids
	return ids
}

// query checks pc ∧ extra using independence slicing; the model is completed from the witness.
func (e *Eng) query(st *State, extra ...*Term) (Res, *Model) {
	if e.trace {
		t0 := time.Now()
		defer func() {
			if d := time.Since(t0); d > time.Second {
				fmt.Fprintf(os.Stderr, "SLOW %.1fs at %s\n   %s\n", d.Seconds(), e.where(st), e.c.And(extra...).str(12))
			}
		}()
	}
	return e.query1(st, extra...)
}

func (e *Eng) query1(st *State, extra ...*Term) (Res, *Model) {
	goal := e.c.And(extra...)
	if goal == e.c.False {
		return Unsat, nil
	}
	pcs := st.pcList()
	rel := map[int]bool{}
	for _, v := range e.vars(goal) {
		rel[v] = true
	}
	used := make([]bool, len(pcs))
	as := []*Term{goal}
	for ch := true; ch; {
		ch = false
		for i, p := range pcs {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range e.vars(p) {
				if rel[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				ch = true
				as = append(as, p)
				for _, v := range e.vars(p) {
					rel[v] = true
				}
			}
		}
	}
	r, m := Unknown, (*Model)(nil)
	gc := cone(goal)
	if big := len(gc) > 3000; (big || hardArith(gc)) && e.params["nosweep"] == 0 {
		if !big {
			r, m = e.sol.quick(as, 500)
		}
		if r == Unknown {
			if m = e.guess(as); m != nil {
				r = Sat
			}
		}
		if r == Unknown {
			if g := e.sweep(as[1:], goal, st.wit); g != goal {
				as[0] = g
				e.stats.Sweeps++
			}
		}
	}
	if r == Unknown {
		r, m = e.sol.Check(as, false)
	}
	if r == Sat {
		full := NewModel()
		for k, v := range st.wit.vals {
			if !rel[k] {
				full.vals[k] = v
			}
		}
		for k, v := range m.vals {
			full.vals[k] = v
		}
		m = full
		if !m.EvalBool(goal) {
			return Unknown, nil
		}
	}
	return r, m
}

func (e *Eng) decide(st *State, cond *Term) bool {
	if cond.op == OConst {
		return cond.u != 0
	}
	if k, ok := st.eqs[cond.id]; ok {
		return k.u != 0
	}
	n := e.c.Not(cond)
	if k, ok := st.eqs[n.id]; ok {
		return k.u == 0
	}
	wv := st.wit.EvalBool(cond)
	other := cond
	if wv {
		other = n
	}
	r, m := Unknown, e.patch(st, other)
	if m != nil {
		r = Sat
	} else {
		r, m = e.query(st, other)
	}
	switch r {
	case Unsat:
		st.setEq(cond, e.c.Bool(wv))
		if wv {
			st.bind(cond)
		} else {
			st.bind(n)
		}
		return wv
	case Unknown:
		e.inconclusive("solver unknown on branch")
		// follow both sides conservatively impossible without witness: keep the witnessed side only
		st.setEq(cond, e.c.Bool(wv))
		if wv {
			st.addPC(cond)
		} else {
			st.addPC(n)
		}
		return wv
	}
	var a, b forkAlt
	a = forkAlt{cond: cond, eqs: [][2]*Term{{cond, e.c.True}}}
	b = forkAlt{cond: n, eqs: [][2]*Term{{cond, e.c.False}}}
	if wv {
		a.wit, b.wit = st.wit, m
	} else {
		a.wit, b.wit = m, st.wit
	}
	panic(forkSig{alts: []forkAlt{a, b}})
}

// patch looks for a model of pc and goal next to the witness by changing one variable: goal is
// an (in)equality between a variable and a constant.
func (e *Eng) patch(st *State, goal *Term) *Model {
	t, neg := goal, false
	if t.op == ONot {
		t, neg = t.args[0], true
	}
	if t.op != OEq {
		return nil
	}
	v, k := t.args[0], t.args[1]
	if v.op == OConst {
		v, k = k, v
	}
	if v.op != OVar || k.op != OConst || v.w == 0 || v.w > 64 {
		return nil
	}
	var pcs []*Term
	for p := st.pc; p != nil; p = p.prev {
		for _, id := range e.vars(p.t) {
			if id == v.id {
				pcs = append(pcs, p.t)
				break
			}
		}
	}
	try := func(x uint64) *Model {
		if v.ranged && (x < v.ulo || x > v.uhi) || x&^maskOf(v.w) != 0 {
			return nil
		}
		m := NewModel()
		for a, b := range st.wit.vals {
			m.vals[a] = b
		}
		m.vals[v.id] = new(big.Int).SetUint64(x)
		for _, p := range pcs {
			if !m.EvalBool(p) {
				return nil
			}
		}
		if !m.EvalBool(goal) {
			return nil
		}
		return m
	}
	if !neg {
		return try(k.u)
	}
	for _, d := range []uint64{1, ^uint64(0), 2, 5} {
		if m := try(k.u + d); m != nil {
			return m
		}
	}
	return nil
}

// needConst forces t to a constant, forking over its feasible values.
func (e *Eng) needConst(st *State, t *Term) uint64 {
	if t.op == OConst {
		return t.constU()
	}
	if k, ok := st.eqs[t.id]; ok {
		return k.constU()
	}
	limit := 1100
	var alts []forkAlt
	wv := st.wit.EvalBig(t)
	k := e.c.BVBig(t.w, wv)
	excl := []*Term{e.c.Not(e.c.Eq(t, k))}
	alts = append(alts, forkAlt{e.c.Eq(t, k), st.wit, [][2]*Term{{t, k}}})
	for {
		r, m := e.query(st, excl...)
		if r == Unsat {
			break
		}
		if r == Unknown {
			e.inconclusive("solver unknown on concretisation")
			break
		}
		k := e.c.BVBig(t.w, m.EvalBig(t))
		alts = append(alts, forkAlt{e.c.Eq(t, k), m, [][2]*Term{{t, k}}})
		excl = append(excl, e.c.Not(e.c.Eq(t, k)))
		if len(alts) > limit {
			e.inconclusive("concretisation limit")
			break
		}
	}
	if len(alts) == 1 {
		st.setEq(t, k)
		return k.constU()
	}
	sort.Slice(alts, func(i, j int) bool {
		return alts[i].eqs[0][1].constBig().Cmp(alts[j].eqs[0][1].constBig()) < 0
	})
	panic(forkSig{alts: alts})
}

func (e *Eng) inconclusive(why string) {
	e.incon[why]++
	if e.trace {
		fmt.Fprintln(os.Stderr, "INCONCLUSIVE", why)
	}
}

func (e *Eng) needInt(st *State, v Value) int {
	t := v.(*Term)
	if t.w == 64 || t.w == 0 {
		return int(int64(e.needConst(st, t)))
	}
	return int(e.needConst(st, t))
}

// runtime error values
func (e *Eng) rtErr(msg string) IfaceV {
	t := e.ld.rtErrType
	return IfaceV{t, StrV{s: "runtime error: " + msg}}
}

func (e *Eng) rtPanic(msg string) { panic(goPanic{e.rtErr(msg)}) }

func (e *Eng) panicIf(st *State, cond *Term, msg string) {
	if cond == e.c.False {
		return
	}
	if e.decide(st, cond) {
		e.rtPanic(msg)
	}
}

// ---------- main loop ----------

func (e *Eng) push(st *State) {
	e.nver++
	st.ver = e.nver
	e.work = append(e.work, st)
}

// tryMerge is merge, remembering the pairs that do not.
func (e *Eng) tryMerge(a, b *State) *State {
	k := [2]int{a.ver, b.ver}
	if e.apart[k] {
		return nil
	}
	m := e.merge(a, b)
	if m == nil {
		if e.apart == nil || len(e.apart) > 1<<20 {
			e.apart = map[[2]int]bool{}
		}
		e.apart[k] = true
		return nil
	}
	e.nver++
	m.ver = e.nver
	return m
}

func (e *Eng) popMin() *State {
	if e.params["nomerge"] != 0 {
		n := len(e.work) - 1
		st := e.work[n]
		e.work = e.work[:n]
		return st
	}
	mi := 0
	for i := 1; i < len(e.work); i++ {
		if cmpState(e.work[i], e.work[mi]) < 0 {
			mi = i
		}
	}
	st := e.work[mi]
	var rest, same []*State
	for i, x := range e.work {
		if i == mi {
			continue
		}
		if !st.fresh && !x.fresh && cmpState(x, st) == 0 {
			same = append(same, x)
		} else {
			rest = append(rest, x)
		}
	}
	if len(same) > 0 {
		st.prune()
		var keep []*State
		for _, x := range same {
			x.prune()
			if m := e.tryMerge(st, x); m != nil {
				st = m
			} else {
				// try to merge with another kept one
				done := false
				for i, y := range keep {
					if m := e.tryMerge(y, x); m != nil {
						keep[i] = m
						done = true
						break
					}
				}
				if !done {
					keep = append(keep, x)
				}
			}
		}
		rest = append(rest, keep...)
	}
	e.work = rest
	return st
}

func (e *Eng) explore(init *State) {
	e.push(init)
	for len(e.work) > 0 {
		if e.stopped {
			return
		}
		if time.Now().After(e.deadline) {
			e.inconclusive("time budget exhausted with unexplored states")
			e.work = nil
			return
		}
		if memFull.Load() {
			e.inconclusive("memory budget exhausted with unexplored states")
			e.work = nil
			return
		}
		st := e.popMin()
		if e.trace && time.Since(e.lastProg) > 2*time.Second {
			e.lastProg = time.Now()
			f := st.gs[st.cur].frames
			loc := ""
			if len(f) > 0 {
				t := f[len(f)-1]
				loc = fmt.Sprintf("%s b%d i%d", t.fi.fn, t.blk.Index, t.idx)
			}
			fmt.Fprintf(os.Stderr, "[%s] work=%d steps=%d instrs=%d merges=%d queries=%d terms=%d at %s pc=%d\n", e.harness, len(e.work), st.steps, e.stats.Instrs, e.stats.Merges, e.sol.Stats.Queries, e.c.next, loc, len(st.pcList()))
		}
		e.runState(st)
	}
}

// runState executes st until it finishes, forks or reaches a merge point.
func (e *Eng) runState(st *State) {
	for {
		cont := e.slice(st)
		if !cont {
			return
		}
	}
}

// slice executes instructions; handles signals. Returns false when st left the run.
func (e *Eng) slice(st *State) (cont bool) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch s := r.(type) {
		case forkSig:
			e.stats.Forks += len(s.alts) - 1
			from := st.cov
			var to []int32
			for i, a := range s.alts {
				n := st
				if i < len(s.alts)-1 {
					n = st.clone()
				}
				n.addPC(a.cond)
				n.wit = a.wit
				for _, q := range a.eqs {
					n.setEq(q[0], q[1])
				}
				n.bind(a.cond)
				n.fresh = true
				n.cov = e.cert.node()
				if !s.free {
					e.cert.add(certClause{from: from, to: []int32{n.cov}, cond: a.cond})
				}
				to = append(to, n.cov)
				e.push(n)
			}
			if s.free {
				e.cert.add(certClause{from: from, to: to})
			}
			cont = false
		case goPanic:
			e.startPanic(st, s.v)
			cont = true
		case deadSig:
			e.stats.Paths++
			switch s.why {
			case "assume false", "assume", "other shard":
				e.certEnd(st)
			}
			cont = false
		case parkSig:
			cont = true
		case Unsupported:
			if e.inInit && e.initSkip(st, s.msg) {
				cont = true
				return
			}
			where := e.where(st)
			e.inconclusive("unsupported: " + s.msg + " at " + where)
			e.stats.Paths++
			cont = false
		default:
			fmt.Fprintf(os.Stderr, "engine crash at %s\n", e.where(st))
			if os.Getenv("GOSYM_CRASH") != "" {
				panic(r)
			}
			e.inconclusive(fmt.Sprintf("engine: %v at %s", r, e.where(st)))
			e.stats.Paths++
			cont = false
		}
	}()
	for {
		g := st.gs[st.cur]
		if g.done || g.parked {
			if !e.schedule(st) {
				return false
			}
			continue
		}
		if len(g.frames) == 0 {
			gg := st.g()
			gg.done = true
			if gg.id == 0 {
				// main finished
				e.finished(st)
				return false
			}
			continue
		}
		mp := e.step(st)
		st.fresh = false
		if mp {
			// merge point
			if len(e.work) > 0 {
				e.push(st)
				return false
			}
		}
		e.stats.Instrs++
		st.instrs++
		if e.stats.Instrs&0xfff == 0 {
			if memFull.Load() {
				e.inconclusive("memory budget exhausted with unexplored states")
				e.stopped = true
				return false
			}
			if time.Now().After(e.deadline) {
				e.inconclusive("time budget exhausted with unexplored states")
				e.stopped = true
				return false
			}
		}
	}
}

func (e *Eng) where(st *State) string {
	g := st.gs[st.cur]
	s := ""
	for i := len(g.frames) - 1; i >= 0 && i >= len(g.frames)-4; i-- {
		f := g.frames[i]
		if f.idx < len(f.blk.Instrs) {
			p := e.prog.Fset.Position(f.blk.Instrs[f.idx].Pos())
			s += fmt.Sprintf("%s[%s:%d] < ", f.fi.fn, shortPath(p.Filename), p.Line)
		}
	}
	return strings.TrimSuffix(s, " < ")
}

func shortPath(p string) string {
	if i := strings.LastIndex(p, "/"); i >= 0 {
		if j := strings.LastIndex(p[:i], "/"); j >= 0 {
			return p[j+1:]
		}
	}
	return p
}

// val evaluates an operand.
func (e *Eng) val(st *State, f *Frame, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(x)
	case *ssa.Global:
		return PtrV{obj: e.global(st, x)}
	case *ssa.Function:
		return &FuncV{fn: x}
	case *ssa.Builtin:
		unsupported("builtin value %s", x.Name())
	}
	r, ok := f.fi.reg[v]
	if !ok {
		panic(fmt.Sprintf("no register for %s in %s", v.Name(), f.fi.fn))
	}
	val := f.regs[r]
	if val == nil {
		panic(fmt.Sprintf("undefined register %s (%s) in %s", v.Name(), v, f.fi.fn))
	}
	return val
}

func (e *Eng) global(st *State, g *ssa.Global) ObjID {
	id, ok := e.gids[g]
	if !ok {
		id = ObjID(strHash("global:"+g.String()) | 1)
		e.gids[g] = id
		e.globalIDs[id] = true
		e.gname[id] = g
	}
	if _, ok := st.get(id); !ok {
		el := g.Type().Underlying().(*types.Pointer).Elem()
		var v Value
		if g.Pkg != nil && !e.initDone[g.Pkg.Pkg.Path()] && !strings.HasPrefix(g.Name(), "init$guard") {
			v = e.lazyGlobal(st, g, el)
		} else {
			v = e.zero(el)
		}
		st.put(id, v)
	}
	return id
}

func (e *Eng) constVal(x *ssa.Const) Value {
	t := x.Type()
	if x.Value == nil {
		return e.zero(t)
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		if _, isTP := t.Underlying().(*types.Interface); isTP {
			unsupported("typeparam const")
		}
		unsupported("const of type %s", t)
	}
	if b.Info()&types.IsBoolean != 0 {
		return e.c.Bool(constant.BoolVal(x.Value))
	}
	if w, _, ok := intWidth(b); ok {
		v := constant.ToInt(x.Value)
		if i, exact := constant.Int64Val(v); exact {
			return e.c.BV(w, uint64(i))
		}
		if u, exact := constant.Uint64Val(v); exact {
			return e.c.BV(w, u)
		}
		bi, _ := new(big.Int).SetString(v.ExactString(), 10)
		return e.c.BVBig(w, bi)
	}
	switch {
	case b.Info()&types.IsString != 0:
		if x.Value.Kind() == constant.String {
			return StrV{s: constant.StringVal(x.Value)}
		}
		i, _ := constant.Int64Val(x.Value)
		return StrV{s: string(rune(i))}
	case b.Info()&types.IsFloat != 0:
		fl, _ := constant.Float64Val(x.Value)
		if b.Kind() == types.Float32 {
			return FloatV{float64(float32(fl)), 32}
		}
		return FloatV{fl, 64}
	case b.Info()&types.IsComplex != 0:
		re, _ := constant.Float64Val(constant.Real(x.Value))
		im, _ := constant.Float64Val(constant.Imag(x.Value))
		return ComplexV{complex(re, im)}
	}
	unsupported("const %s", x)
	return nil
}

// ---------- memory ----------

func (e *Eng) sel(st *State, v Value, path []PE) Value {
	for i, p := range path {
		if p.sym != nil {
			a := v.(*ArrayV)
			rest := path[i+1:]
			return e.muxSelect(st, a.e, p.sym, func(x Value) Value { return e.sel(st, x, rest) })
		}
		switch x := v.(type) {
		case *StructV:
			v = x.f[p.i]
		case *ArrayV:
			if p.i >= len(x.e) || p.i < 0 {
				unsupported("load outside array")
			}
			v = x.e[p.i]
		case Opaque:
			unsupported("use of %s", x.why)
		default:
			unsupported("path into %T", v)
		}
	}
	return v
}

// muxSelect builds elems[idx] for symbolic in-range idx.
func (e *Eng) muxSelect(st *State, elems []Value, idx *Term, f func(Value) Value) Value {
	if len(elems) == 0 {
		unsupported("select from empty")
	}
	lo, hi := 0, len(elems)-1
	if idx.w <= 64 {
		if idx.uhi < uint64(hi) {
			hi = int(idx.uhi)
		}
		if idx.ulo <= uint64(hi) {
			lo = int(idx.ulo)
		}
	}
	// lazy table of distinct strings
	if hi-lo > 64 {
		if s, ok := f(elems[lo]).(StrV); ok && s.sym == nil {
			tab := make([]string, len(elems))
			seen := map[string]bool{}
			good := true
			for i := range elems {
				x, ok := f(elems[i]).(StrV)
				if !ok || x.sym != nil || seen[x.s] {
					good = false
					break
				}
				seen[x.s] = true
				tab[i] = x.s
			}
			if good {
				return LazyStr{e.internTab(tab), e.c.Zext(64, idx)}
			}
		}
	}
	var build func(l, h int) (Value, bool)
	build = func(l, h int) (Value, bool) {
		if l == h {
			return f(elems[l]), true
		}
		m := (l + h) / 2
		a, ok := build(l, m)
		if !ok {
			return nil, false
		}
		b, ok := build(m+1, h)
		if !ok {
			return nil, false
		}
		return e.mergeVal(e.c.Ule(idx, e.c.BV(idx.w, uint64(m))), a, b)
	}
	// bit-mux for scalar elements: better sharing
	if _, ok := f(elems[lo]).(*Term); ok {
		var bm func(l, bit int) Value
		n := len(elems)
		nb := 0
		for 1<<nb <= hi {
			nb++
		}
		bm = func(l, bit int) Value {
			if l > hi {
				return nil
			}
			if bit < 0 {
				if l >= n {
					return nil
				}
				return f(elems[l])
			}
			a := bm(l, bit-1)
			b := bm(l+1<<uint(bit), bit-1)
			if b == nil {
				return a
			}
			if a == nil {
				return b
			}
			return e.c.Ite(e.c.Eq(e.c.Extract(bit, bit, idx), e.c.BV(1, 1)), b.(*Term), a.(*Term))
		}
		if r := bm(0, nb-1); r != nil {
			return r
		}
	}
	v, ok := build(lo, hi)
	if !ok {
		k := e.needConst(st, idx)
		return f(elems[k])
	}
	return v
}

var tabIntern = map[string][]string{}

func (e *Eng) internTab(tab []string) []string {
	k := strings.Join(tab, "\x00")
	e.ld.mu.Lock()
	defer e.ld.mu.Unlock()
	if t, ok := tabIntern[k]; ok {
		return t
	}
	tabIntern[k] = tab
	return tab
}

func (e *Eng) upd(v Value, path []PE, nv Value, guard *Term) Value {
	if len(path) == 0 {
		if guard == nil {
			return nv
		}
		m, ok := e.mergeVal(guard, nv, v)
		if !ok {
			unsupported("symbolic store of unmergeable value")
		}
		return m
	}
	p := path[0]
	switch x := v.(type) {
	case *StructV:
		f := append([]Value{}, x.f...)
		f[p.i] = e.upd(f[p.i], path[1:], nv, guard)
		return &StructV{f}
	case *ArrayV:
		a := append([]Value{}, x.e...)
		if p.sym == nil {
			if p.i >= len(a) {
				unsupported("store outside array")
			}
			a[p.i] = e.upd(a[p.i], path[1:], nv, guard)
		} else {
			for i := range a {
				if p.sym.w <= 64 && (uint64(i) > p.sym.uhi || uint64(i) < p.sym.ulo) {
					continue
				}
				gd := e.c.Eq(p.sym, e.c.BV(p.sym.w, uint64(i)))
				if guard != nil {
					gd = e.c.And(guard, gd)
				}
				if gd == e.c.False {
					continue
				}
				a[i] = e.upd(a[i], path[1:], nv, gd)
			}
		}
		return &ArrayV{a}
	case Opaque:
		unsupported("store into %s", x.why)
	}
	unsupported("store path into %T", v)
	return nil
}

func (e *Eng) load(st *State, p PtrV) Value {
	if p.isNil() {
		e.rtPanic("invalid memory address or nil pointer dereference")
	}
	v, ok := st.get(p.obj)
	if !ok {
		if g := e.gname[p.obj]; g != nil {
			e.global(st, g)
			v, ok = st.get(p.obj)
		}
		if !ok {
			panic("dangling object")
		}
	}
	if o, ok := v.(Opaque); ok {
		unsupported("use of %s", o.why)
	}
	r := e.sel(st, v, p.path)
	if o, ok := r.(Opaque); ok {
		unsupported("use of %s", o.why)
	}
	return r
}

func (e *Eng) store(st *State, p PtrV, v Value) {
	if p.isNil() {
		e.rtPanic("invalid memory address or nil pointer dereference")
	}
	o, ok := st.get(p.obj)
	if !ok {
		panic("dangling object store")
	}
	st.put(p.obj, e.upd(o, p.path, v, nil))
}

func appendPath(p []PE, x PE) []PE {
	n := make([]PE, len(p)+1)
	copy(n, p)
	n[len(p)] = x
	return n
}

// sliceElems returns the elements of a slice.
func (e *Eng) sliceElems(st *State, s SliceV) []Value {
	if s.n == 0 {
		return nil
	}
	a, ok := e.load(st, s.base).(*ArrayV)
	if !ok {
		unsupported("slice of non-array")
	}
	return a.e[s.off : s.off+s.n]
}

func (e *Eng) bytesOf(st *State, s SliceV) []*Term {
	el := e.sliceElems(st, s)
	r := make([]*Term, len(el))
	for i, v := range el {
		r[i] = v.(*Term)
	}
	return r
}

func (e *Eng) newSlice(st *State, elems []Value, cap int, elem types.Type) SliceV {
	a := make([]Value, cap)
	copy(a, elems)
	if cap > len(elems) {
		z := e.zero(elem)
		for i := len(elems); i < cap; i++ {
			a[i] = z
		}
	}
	id := st.newObj(&ArrayV{a})
	return SliceV{PtrV{obj: id}, 0, len(elems), cap}
}

func (e *Eng) newBytes(st *State, b []*Term) SliceV {
	a := make([]Value, len(b))
	for i := range b {
		a[i] = b[i]
	}
	id := st.newObj(&ArrayV{a})
	return SliceV{PtrV{obj: id}, 0, len(b), len(b)}
}

// writeSlice overwrites elements of the slice from index 0.
func (e *Eng) writeSlice(st *State, s SliceV, at int, vals []Value) {
	if len(vals) == 0 {
		return
	}
	a := e.load(st, s.base).(*ArrayV)
	n := append([]Value{}, a.e...)
	copy(n[s.off+at:], vals)
	e.store(st, s.base, &ArrayV{n})
}

// ---------- calls ----------

func (e *Eng) newFrame(st *State, fn *ssa.Function, args []Value, bind []Value) *Frame {
	if fn.Blocks == nil {
		unsupported("function without body %s", fn)
	}
	fi := e.info(fn)
	if fi.isRepo {
		e.funcs[fi]++
	} else if e.funcs[fi] == 0 {
		e.funcs[fi] = 1
	}
	f := &Frame{fi: fi, regs: make([]Value, fi.nreg), blk: fn.Blocks[0], cnt: make([]int32, fi.nloops), tok: st.tok}
	g := st.g()
	if len(g.frames) > 0 {
		t := st.top()
		f.hash = mix(mix(t.locHash(), uint64(t.seq)), fi.id)
		t.seq++
		if len(t.defers) > 0 {
			f.hash = mix(f.hash, uint64(len(t.defers)))
		}
	} else {
		f.hash = mix(fi.id, uint64(g.id))
	}
	if len(args) != len(fn.Params) {
		panic(fmt.Sprintf("arity mismatch calling %s: %d vs %d", fn, len(args), len(fn.Params)))
	}
	for i := range fn.Params {
		f.regs[i] = args[i]
	}
	for i := range fn.FreeVars {
		f.regs[len(fn.Params)+i] = bind[i]
	}
	if len(g.frames) > 400 {
		e.suspectHang(st, "no end of nested calls in "+fn.String(), "")
		unsupported("call depth")
	}
	return f
}

func (e *Eng) pushFrame(st *State, f *Frame) {
	g := st.g()
	g.frames = append(g.frames, f)
}

const (
	rkNormal = iota
	rkDiscard
	rkPoolNew
	rkReflect
	rkRangeStr
	rkDeferred
	rkCustom
)

// callFn calls a function value with arguments; result is delivered to the current
// instruction (register assignment) unless retKind says otherwise.
// Returns (value, true) when completed natively.
func (e *Eng) callFn(st *State, fv *FuncV, args []Value, retKind int, site ssa.CallInstruction) (Value, bool) {
	if fv == nil {
		e.rtPanic("invalid memory address or nil pointer dereference")
	}
	if fv.native != "" {
		return e.callNative(st, fv, args)
	}
	fn := fv.fn
	name := fn.String()
	if fn.Origin() != nil {
		name = fn.Origin().String()
	}
	if name == "strconv.AppendFloat" || name == "strconv.FormatFloat" {
		k := len(args) - 4
		if d, ok := args[k].(DyadicV); ok {
			args = append(append(append([]Value{}, args[:k]...), d.n, e.c.BV(64, uint64(d.sh))), args[k+1:]...)
			name = "dyadic:" + name
		}
	}
	if ov, ok := e.ld.override[name]; ok {
		fn = ov
	} else if in, ok := intrinsics[name]; ok {
		ic := &ICall{e: e, st: st, fn: fn, args: args, retKind: retKind, site: site}
		v := in(ic)
		if ic.pushed {
			return nil, false
		}
		return v, true
	}
	if fn.Blocks == nil {
		if fn.Synthetic == "" && fn.Pkg != nil {
			e.ld.ensureBuilt(fn.Pkg)
		}
	}
	if fn.Name() == "init" && fn.Synthetic == "package initializer" {
		if !e.shouldInit(fn.Pkg.Pkg.Path()) {
			return TupleV{}, true
		}
		e.initDone[fn.Pkg.Pkg.Path()] = true
		e.ld.ensureBuilt(fn.Pkg)
	}
	if why, bad := e.blockedFn(fn); bad {
		unsupported("%s", why)
	}
	f := e.newFrame(st, fn, args, fv.bind)
	f.retKind = retKind
	e.pushFrame(st, f)
	return nil, false
}

// resolve the callee of a call instruction.
func (e *Eng) callee(st *State, f *Frame, cc *ssa.CallCommon) (fv *FuncV, args []Value) {
	if cc.IsInvoke() {
		recv := e.val(st, f, cc.Value)
		iv, ok := recv.(IfaceV)
		if !ok {
			unsupported("invoke on %T", recv)
		}
		if iv.t == nil {
			e.rtPanic("invalid memory address or nil pointer dereference")
		}
		for _, a := range cc.Args {
			args = append(args, e.val(st, f, a))
		}
		fv, rargs := e.methodOf(iv, cc.Method)
		return fv, append(rargs, args...)
	}
	for _, a := range cc.Args {
		args = append(args, e.val(st, f, a))
	}
	v := e.val(st, f, cc.Value)
	fv, ok := v.(*FuncV)
	if !ok {
		unsupported("call of %T", v)
	}
	return fv, args
}

func (e *Eng) methodOf(iv IfaceV, m *types.Func) (*FuncV, []Value) {
	switch iv.v.(type) {
	case RTypeV:
		return &FuncV{native: "rtype." + m.Name(), recv: iv.v}, nil
	case StrV:
		if iv.t == e.ld.rtErrType {
			return &FuncV{native: "rterr." + m.Name(), recv: iv.v}, nil
		}
	case Opaque:
		unsupported("method %s on %s", m.Name(), iv.v.(Opaque).why)
	}
	k := methKey{iv.t, m.Id()}
	fn, ok := e.methC[k]
	if !ok {
		e.ld.mu.Lock()
		fn = e.prog.LookupMethod(iv.t, m.Pkg(), m.Name())
		e.ld.mu.Unlock()
		if fn == nil {
			unsupported("no method %s on %s", m.Name(), iv.t)
		}
		e.methC[k] = fn
	}
	return &FuncV{fn: fn}, []Value{iv.v}
}

func (e *Eng) setReg(f *Frame, v ssa.Value, x Value) {
	f.regs[f.fi.reg[v]] = x
}

// finishInstr assigns the result of the current instruction and advances.
func (e *Eng) finish(f *Frame, x Value) {
	in := f.blk.Instrs[f.idx]
	if v, ok := in.(ssa.Value); ok {
		if x == nil {
			x = TupleV{}
		}
		f.regs[f.fi.reg[v]] = x
	}
	f.idx++
	f.seq = 0
}

func (e *Eng) jump(st *State, f *Frame, to *ssa.BasicBlock) {
	from := f.blk
	fi := f.fi
	// phis
	var pi = -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
			break
		}
	}
	n := 0
	var vals []Value
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, e.val(st, f, phi.Edges[pi]))
		n++
	}
	for i := 0; i < n; i++ {
		f.regs[fi.reg[to.Instrs[i].(ssa.Value)]] = vals[i]
	}
	if ln := fi.isHdr[to.Index]; ln >= 0 {
		if fi.inLoop[ln][from.Index] {
			f.cnt[ln]++
			if int(f.cnt[ln]) > e.maxUnwind {
				e.inconclusive(fmt.Sprintf("unwinding bound %d exceeded in %s", e.maxUnwind, fi.fn))
				e.suspectHang(st, fmt.Sprintf("no end after %d rounds of a loop in %s", e.maxUnwind, fi.fn), e.posOf(f))
				panic(deadSig{"unwind"})
			}
		} else {
			f.cnt[ln] = 0
		}
	}
	f.blk = to
	f.idx = n
	f.seq = 0
}

// step executes one instruction; returns true at a merge point.
var traceStep = os.Getenv("GOSYM_STEP") != ""

func (e *Eng) step(st *State) bool {
	g := st.g()
	f := st.top()
	if f.panicking {
		return e.unwind(st, g, f)
	}
	in := f.blk.Instrs[f.idx]
	f.seq = 0
	if traceStep {
		fmt.Fprintf(os.Stderr, "  %s b%d:%d %s\n", f.fi.fn, f.blk.Index, f.idx, in)
	}
	switch x := in.(type) {
	case *ssa.DebugRef:
		f.idx++
	case *ssa.Alloc:
		id := st.newObj(e.zero(x.Type().Underlying().(*types.Pointer).Elem()))
		e.finish(f, PtrV{obj: id})
	case *ssa.UnOp:
		if x.Op == token.ARROW {
			e.visible(st)
			e.execRecv(st, f, x)
			return false
		}
		e.finish(f, e.unop(st, f, x))
	case *ssa.BinOp:
		e.finish(f, e.binop(st, x.Op, e.val(st, f, x.X), e.val(st, f, x.Y), x.X.Type(), x.Y.Type()))
	case *ssa.ChangeType:
		e.finish(f, e.val(st, f, x.X))
	case *ssa.ChangeInterface:
		e.finish(f, e.val(st, f, x.X))
	case *ssa.Convert:
		e.finish(f, e.convert(st, e.val(st, f, x.X), x.X.Type(), x.Type()))
	case *ssa.MultiConvert:
		e.finish(f, e.convert(st, e.val(st, f, x.X), x.X.Type(), x.Type()))
	case *ssa.SliceToArrayPointer:
		s := e.val(st, f, x.X).(SliceV)
		n := int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if s.n < n {
			e.rtPanic("cannot convert slice with length to array or pointer to array")
		}
		if s.isNil() {
			e.finish(f, PtrV{})
		} else if s.off == 0 && e.arrLen(st, s.base) == n {
			e.finish(f, s.base)
		} else {
			unsupported("slice to array pointer of a sub-slice")
		}
	case *ssa.MakeInterface:
		e.finish(f, IfaceV{x.X.Type(), e.val(st, f, x.X)})
	case *ssa.MakeClosure:
		fv := &FuncV{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			fv.bind = append(fv.bind, e.val(st, f, b))
		}
		e.finish(f, fv)
	case *ssa.MakeMap:
		e.finish(f, MapRef{st.newObj(&MapObj{})})
	case *ssa.MakeChan:
		n := e.needInt(st, e.val(st, f, x.Size))
		if n < 0 {
			e.rtPanic("makechan: size out of range")
		}
		e.finish(f, ChanRef{st.newObj(&ChanObj{cap: n})})
	case *ssa.MakeSlice:
		lt := e.val(st, f, x.Len).(*Term)
		ct := e.val(st, f, x.Cap).(*Term)
		e.panicIf(st, e.c.Slt(lt, e.c.BV(lt.w, 0)), "makeslice: len out of range")
		n := e.needInt(st, lt)
		cp := e.needInt(st, ct)
		if cp < n {
			e.rtPanic("makeslice: cap out of range")
		}
		if cp > 1<<20 {
			unsupported("huge make (%d)", cp)
		}
		e.finish(f, e.newSlice(st, nil, cp, x.Type().Underlying().(*types.Slice).Elem()).withLen(n))
	case *ssa.Slice:
		e.finish(f, e.sliceOp(st, f, x))
	case *ssa.FieldAddr:
		p, ok := e.val(st, f, x.X).(PtrV)
		if !ok {
			unsupported("fieldaddr of %T", e.val(st, f, x.X))
		}
		if p.isNil() {
			e.rtPanic("invalid memory address or nil pointer dereference")
		}
		e.finish(f, PtrV{p.obj, appendPath(p.path, PE{i: x.Field})})
	case *ssa.Field:
		sv, ok := e.val(st, f, x.X).(*StructV)
		if !ok {
			unsupported("field of %T", e.val(st, f, x.X))
		}
		e.finish(f, sv.f[x.Field])
	case *ssa.IndexAddr:
		e.finish(f, e.indexAddr(st, f, x))
	case *ssa.Index:
		e.finish(f, e.index(st, f, x))
	case *ssa.Lookup:
		e.finish(f, e.lookup(st, f, x))
	case *ssa.MapUpdate:
		m := e.val(st, f, x.Map).(MapRef)
		e.mapSet(st, m, e.val(st, f, x.Key), e.val(st, f, x.Value), x.Map.Type())
		e.access(st, PtrV{obj: m.obj}, true)
		f.idx++
	case *ssa.Store:
		p, ok := e.val(st, f, x.Addr).(PtrV)
		if !ok {
			unsupported("store to %T", e.val(st, f, x.Addr))
		}
		e.store(st, p, e.val(st, f, x.Val))
		if a, ok := x.Addr.(*ssa.Alloc); !ok || a.Heap {
			e.access(st, p, true)
		}
		f.idx++
		f.seq = 0
	case *ssa.Extract:
		t := e.val(st, f, x.Tuple).(TupleV)
		e.finish(f, t[x.Index])
	case *ssa.TypeAssert:
		e.finish(f, e.typeAssert(st, f, x))
	case *ssa.Range:
		e.finish(f, e.rangeOp(st, f, x))
	case *ssa.Next:
		return e.nextOp(st, f, x)
	case *ssa.Phi:
		panic("phi reached")
	case *ssa.Jump:
		e.jump(st, f, f.blk.Succs[0])
		return len(f.blk.Preds) > 1
	case *ssa.If:
		c := e.val(st, f, x.Cond).(*Term)
		if e.decide(st, c) {
			e.jump(st, f, f.blk.Succs[0])
		} else {
			e.jump(st, f, f.blk.Succs[1])
		}
		return len(f.blk.Preds) > 1
	case *ssa.Return:
		var r Value
		switch len(x.Results) {
		case 0:
			r = TupleV{}
		case 1:
			r = e.val(st, f, x.Results[0])
		default:
			tv := make(TupleV, len(x.Results))
			for i, y := range x.Results {
				tv[i] = e.val(st, f, y)
			}
			r = tv
		}
		e.doReturn(st, g, f, r)
		return true
	case *ssa.RunDefers:
		if len(f.defers) == 0 {
			f.idx++
			return false
		}
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		e.runDeferred(st, d)
	case *ssa.Panic:
		v := e.val(st, f, x.X).(IfaceV)
		if v.t == nil {
			v = e.rtErr("panic called with nil argument")
		}
		e.startPanic(st, v)
	case *ssa.Defer:
		e.execDefer(st, f, x)
	case *ssa.Go:
		e.execGo(st, f, x)
	case *ssa.Send:
		e.visible(st)
		e.execSend(st, f, x)
	case *ssa.Select:
		e.visible(st)
		e.execSelect(st, f, x)
	case *ssa.Call:
		return e.execCall(st, f, x)
	default:
		unsupported("instruction %T", in)
	}
	return false
}

func (s SliceV) withLen(n int) SliceV { s.n = n; return s }

func (e *Eng) arrLen(st *State, p PtrV) int {
	a, ok := e.load(st, p).(*ArrayV)
	if !ok {
		return -1
	}
	return len(a.e)
}

func (e *Eng) execCall(st *State, f *Frame, x *ssa.Call) bool {
	cc := &x.Call
	if b, ok := cc.Value.(*ssa.Builtin); ok && !cc.IsInvoke() {
		var args []Value
		for _, a := range cc.Args {
			args = append(args, e.val(st, f, a))
		}
		v := e.builtin(st, f, b, args, cc)
		e.finish(st.top(), v)
		return false
	}
	fv, args := e.callee(st, f, cc)
	depth := len(st.g().frames)
	v, done := e.callFn(st, fv, args, rkNormal, x)
	if done {
		if len(st.g().frames) != depth {
			panic("native call changed frames")
		}
		e.finish(st.top(), v)
	}
	return false
}

func (e *Eng) doReturn(st *State, g *Goroutine, f *Frame, r Value) {
	g.frames = g.frames[:len(g.frames)-1]
	if len(g.frames) == 0 {
		g.done = true
		if g.id == 0 {
			e.finished(st)
			panic(deadSig{"main returned"})
		}
		return
	}
	c := st.top()
	switch f.retKind {
	case rkNormal:
		e.finish(c, r)
	case rkDiscard, rkDeferred:
		// deferred call: caller re-examines its state
	case rkPoolNew:
		e.finish(c, r)
	case rkReflect:
		e.finish(c, e.wrapResults(st, f.fi.fn.Signature, r))
	default:
		unsupported("return kind")
	}
}

func (e *Eng) execDefer(st *State, f *Frame, x *ssa.Defer) {
	cc := &x.Call
	d := Deferred{}
	if b, ok := cc.Value.(*ssa.Builtin); ok && !cc.IsInvoke() {
		d.bi = b
		for _, a := range cc.Args {
			d.args = append(d.args, e.val(st, f, a))
		}
	} else {
		fv, args := e.callee(st, f, cc)
		d.fn = fv
		d.args = args
	}
	f.defers = append(f.defers, d)
	f.idx++
}

func (e *Eng) runDeferred(st *State, d Deferred) {
	ok := false
	defer func() {
		if ok {
			return
		}
		r := recover()
		switch r.(type) {
		case forkSig, parkSig:
			// the instruction is re-executed: put the deferred call back
			f := st.top()
			f.defers = append(f.defers, d)
		}
		panic(r)
	}()
	e.runDeferred1(st, d)
	ok = true
}

func (e *Eng) runDeferred1(st *State, d Deferred) {
	if d.bi != nil {
		f := st.top()
		e.builtin(st, f, d.bi, d.args, nil)
		return
	}
	n := len(st.g().frames)
	fv := d.fn.(*FuncV)
	_, done := e.callFn(st, fv, d.args, rkDeferred, nil)
	if !done && len(st.g().frames) > n {
		st.top().deferCall = true
	}
}

func (e *Eng) startPanic(st *State, v IfaceV) {
	f := st.top()
	// a new panic in this frame
	f.panicking = true
	f.panicVal = v
	f.recovered = false
}

// unwind advances a panicking frame.
func (e *Eng) unwind(st *State, g *Goroutine, f *Frame) bool {
	if f.recovered {
		f.panicking = false
		f.recovered = false
		f.panicVal = IfaceV{}
		// run remaining defers then return: ssa Recover block
		if f.fi.fn.Recover != nil {
			// remaining defers run first
			if len(f.defers) > 0 {
				// mark as recovered-pending: run defers in normal mode via panicking=false
				d := f.defers[len(f.defers)-1]
				f.defers = f.defers[:len(f.defers)-1]
				f.panicking = true
				f.recovered = true
				e.runDeferred(st, d)
				return false
			}
			f.blk = f.fi.fn.Recover
			f.idx = 0
			return false
		}
		if len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			f.panicking = true
			f.recovered = true
			e.runDeferred(st, d)
			return false
		}
		res := f.fi.fn.Signature.Results()
		var r Value
		switch res.Len() {
		case 0:
			r = TupleV{}
		case 1:
			r = e.zero(res.At(0).Type())
		default:
			r = e.zero(res)
		}
		e.doReturn(st, g, f, r)
		return true
	}
	if len(f.defers) > 0 {
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		e.runDeferred(st, d)
		return false
	}
	// propagate
	v, ge := f.panicVal, f.goexit
	g.frames = g.frames[:len(g.frames)-1]
	if len(g.frames) == 0 {
		g.done = true
		if ge {
			if g.id == 0 {
				panic(deadSig{"main goexit"})
			}
			return true
		}
		e.reportPanic(st, v, f)
		panic(deadSig{"uncaught panic"})
	}
	c := st.top()
	c.panicking = true
	c.panicVal = v
	c.goexit = ge
	c.recovered = false
	return false
}

func (e *Eng) panicText(v IfaceV) string {
	if v.t == nil {
		return "nil"
	}
	switch x := v.v.(type) {
	case StrV:
		if x.sym == nil {
			return x.s
		}
		return "<symbolic string>"
	case PtrV:
		return v.t.String()
	}
	return e.valStr(v)
}

func (e *Eng) reportPanic(st *State, v IfaceV, f *Frame) {
	if e.inInit {
		panic("panic during init: " + e.panicText(v))
	}
	e.violation(st, nil, "uncaught panic: "+e.panicText(v), e.posOf(f))
}

func (e *Eng) posOf(f *Frame) string {
	if f.idx < len(f.blk.Instrs) {
		p := e.prog.Fset.Position(f.blk.Instrs[f.idx].Pos())
		return fmt.Sprintf("%s:%d", shortPath(p.Filename), p.Line)
	}
	return ""
}

// violation records a violation on st (with optional extra condition already known sat with model m).
func (e *Eng) violation(st *State, m *Model, msg, pos string) {
	key := msg + "@" + pos
	if e.violAt[key] {
		return
	}
	e.violAt[key] = true
	if m == nil {
		m = st.wit
	}
	v := Violation{Msg: msg, Pos: pos, Model: m}
	for _, x := range e.c.vars {
		if val, ok := m.vals[x.id]; ok {
			v.Inputs = append(v.Inputs, Input{x.name, val.String(), x.w})
		}
	}
	for t := st.trace; t != nil; t = t.prev {
		v.Trace = append(v.Trace, t.s)
	}
	for i, j := 0, len(v.Trace)-1; i < j; i, j = i+1, j-1 {
		v.Trace[i], v.Trace[j] = v.Trace[j], v.Trace[i]
	}
	e.viol = append(e.viol, v)
	if len(e.viol) >= e.maxViol {
		e.stopped = true
	}
}

// suspectHang records the inputs of a path that seems not to end; they become a violation only if the
// real code does not end on them either.
func (e *Eng) suspectHang(st *State, msg, pos string) {
	if e.inInit || len(e.hang) >= 2 || st.wit == nil {
		return
	}
	n, s, at := len(e.viol), e.stopped, e.violAt
	e.violAt = map[string]bool{}
	e.violation(st, nil, msg, pos)
	e.hang = append(e.hang, e.viol[n:]...)
	e.viol, e.stopped, e.violAt = e.viol[:n], s, at
}

// ---------- operators ----------

func (e *Eng) unop(st *State, f *Frame, x *ssa.UnOp) Value {
	v := e.val(st, f, x.X)
	switch x.Op {
	case token.MUL:
		p, ok := v.(PtrV)
		if !ok {
			unsupported("load through %T", v)
		}
		r := e.load(st, p)
		if a, ok := x.X.(*ssa.Alloc); !ok || a.Heap {
			e.access(st, p, false)
		}
		return r
	case token.NOT:
		return e.c.Not(v.(*Term))
	case token.SUB:
		switch y := v.(type) {
		case *Term:
			return e.c.Neg(y)
		case FloatV:
			return FloatV{-y.f, y.w}
		}
	case token.XOR:
		return e.c.BNot(v.(*Term))
	}
	unsupported("unop %s on %T", x.Op, v)
	return nil
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

func (e *Eng) binop(st *State, op token.Token, a, b Value, ta, tb types.Type) Value {
	c := e.c
	switch op {
	case token.EQL:
		return e.eqIface(st, ta, tb, a, b)
	case token.NEQ:
		return c.Not(e.eqIface(st, ta, tb, a, b))
	}
	if _, ok := a.(DyadicV); ok {
		return e.dyBinop(op, a, b)
	}
	if _, ok := b.(DyadicV); ok {
		return e.dyBinop(op, a, b)
	}
	switch x := a.(type) {
	case *Term:
		y := b.(*Term)
		sg := isSigned(ta)
		switch op {
		case token.ADD:
			return c.Add(x, y)
		case token.SUB:
			return c.Sub(x, y)
		case token.MUL:
			return c.Mul(x, y)
		case token.QUO, token.REM:
			e.panicIf(st, c.Eq(y, c.BV(y.w, 0)), "integer divide by zero")
			switch {
			case sg && op == token.QUO:
				return c.Sdiv(x, y)
			case sg:
				return c.Srem(x, y)
			case op == token.QUO:
				return c.Udiv(x, y)
			}
			return c.Urem(x, y)
		case token.AND:
			if x.w == 0 {
				return c.And(x, y)
			}
			return c.BAnd(x, y)
		case token.OR:
			if x.w == 0 {
				return c.Or(x, y)
			}
			return c.BOr(x, y)
		case token.XOR:
			return c.BXor(x, y)
		case token.AND_NOT:
			return c.BAnd(x, c.BNot(y))
		case token.SHL, token.SHR:
			if isSigned(tb) {
				e.panicIf(st, c.Slt(y, c.BV(y.w, 0)), "negative shift amount")
			}
			return e.shift(op, x, y, sg)
		case token.LSS:
			if sg {
				return c.Slt(x, y)
			}
			return c.Ult(x, y)
		case token.LEQ:
			if sg {
				return c.Sle(x, y)
			}
			return c.Ule(x, y)
		case token.GTR:
			if sg {
				return c.Slt(y, x)
			}
			return c.Ult(y, x)
		case token.GEQ:
			if sg {
				return c.Sle(y, x)
			}
			return c.Ule(y, x)
		}
	case StrV:
		y, ok := b.(StrV)
		if !ok {
			b = e.forceStr(st, b)
			y = b.(StrV)
		}
		switch op {
		case token.ADD:
			if x.sym == nil && y.sym == nil {
				return StrV{s: x.s + y.s}
			}
			return mkStr(append(append([]*Term{}, e.strBytes(x)...), e.strBytes(y)...))
		case token.LSS:
			return e.strLess(x, y)
		case token.GTR:
			return e.strLess(y, x)
		case token.LEQ:
			return c.Not(e.strLess(y, x))
		case token.GEQ:
			return c.Not(e.strLess(x, y))
		}
	case LazyStr:
		return e.binop(st, op, e.forceStr(st, x), b, ta, tb)
	case FloatV:
		y := b.(FloatV)
		r := func(v float64) Value {
			if x.w == 32 {
				v = float64(float32(v))
			}
			return FloatV{v, x.w}
		}
		switch op {
		case token.ADD:
			return r(x.f + y.f)
		case token.SUB:
			return r(x.f - y.f)
		case token.MUL:
			return r(x.f * y.f)
		case token.QUO:
			return r(x.f / y.f)
		case token.LSS:
			return c.Bool(x.f < y.f)
		case token.LEQ:
			return c.Bool(x.f <= y.f)
		case token.GTR:
			return c.Bool(x.f > y.f)
		case token.GEQ:
			return c.Bool(x.f >= y.f)
		}
	}
	unsupported("binop %s on %T,%T", op, a, b)
	return nil
}

func (e *Eng) forceStr(st *State, v Value) Value {
	if l, ok := v.(LazyStr); ok {
		k := e.needConst(st, l.idx)
		return StrV{s: l.tab[k]}
	}
	return v
}

func (e *Eng) eqIface(st *State, ta, tb types.Type, a, b Value) *Term {
	_, ia := ta.Underlying().(*types.Interface)
	_, ib := tb.Underlying().(*types.Interface)
	if ia && !ib {
		b = IfaceV{tb, b}
	} else if ib && !ia {
		a = IfaceV{ta, a}
	}
	return e.eqVal(ta, a, b)
}

func (e *Eng) shift(op token.Token, x, y *Term, sg bool) *Term {
	c := e.c
	// bring y to x's width, saturating
	var big *Term
	if y.w > x.w {
		big = c.Not(c.Ult(y, c.BV(y.w, uint64(x.w))))
		y = c.Extract(x.w-1, 0, y)
	} else {
		y = c.Zext(x.w, y)
		big = c.False
		if uint64(x.w) <= maskOf(x.w) {
			big = c.Not(c.Ult(y, c.BV(x.w, uint64(x.w))))
		}
	}
	switch {
	case op == token.SHL:
		return c.Ite(big, c.BV(x.w, 0), c.Shl(x, y))
	case sg:
		return c.Ite(big, c.Ashr(x, c.BV(x.w, uint64(x.w-1))), c.Ashr(x, y))
	}
	return c.Ite(big, c.BV(x.w, 0), c.Lshr(x, y))
}

func (e *Eng) strLess(x, y StrV) *Term {
	if x.sym == nil && y.sym == nil {
		return e.c.Bool(x.s < y.s)
	}
	n := min(x.Len(), y.Len())
	r := e.c.Bool(x.Len() < y.Len())
	for i := n - 1; i >= 0; i-- {
		a, b := e.strAt(x, i), e.strAt(y, i)
		r = e.c.Ite(e.c.Eq(a, b), r, e.c.Ult(a, b))
	}
	return r
}

func (e *Eng) convert(st *State, v Value, from, to types.Type) Value {
	c := e.c
	fu, tu := from.Underlying(), to.Underlying()
	if tb, ok := tu.(*types.Basic); ok {
		if tb.Kind() == types.UnsafePointer {
			if t, ok := v.(*Term); ok {
				if t.isZero() {
					return PtrV{}
				}
				unsupported("uintptr to unsafe.Pointer")
			}
			return v
		}
		if w, _, ok := intWidth(tb); ok {
			switch x := v.(type) {
			case *Term:
				return c.Resize(w, x, isSigned(from))
			case FloatV:
				if isSigned(to) || x.f < 0 {
					return c.BV(w, uint64(int64(x.f)))
				}
				return c.BV(w, uint64(x.f))
			case PtrV:
				if x.isNil() {
					return c.BV(w, 0)
				}
				unsupported("pointer to uintptr")
			}
		}
		if tb.Info()&types.IsFloat != 0 {
			w := 64
			if tb.Kind() == types.Float32 {
				w = 32
			}
			var r float64
			switch x := v.(type) {
			case DyadicV:
				if w == 32 {
					lim := c.BV(64, 1<<24)
					if r, _ := e.query(st, c.Ult(c.Add(lim, lim), c.Add(x.n, lim))); r != Unsat {
						unsupported("rounding to float32")
					}
				}
				return x
			case *Term:
				if e.params["dyadic"] != 0 && x.op != OConst {
					n := c.Resize(64, x, isSigned(from))
					lim := c.BV(64, 1<<53)
					if w == 32 {
						lim = c.BV(64, 1<<24)
					}
					big := c.Ult(c.Add(lim, lim), c.Add(n, lim))
					if !isSigned(from) {
						big = c.Ult(lim, n)
					}
					if r, _ := e.query(st, big); r == Unsat {
						return DyadicV{n, 0}
					}
				}
				k := e.needConst(st, x)
				if isSigned(from) {
					r = float64(signed(k, x.w))
				} else {
					r = float64(k)
				}
			case FloatV:
				r = x.f
			}
			if w == 32 {
				r = float64(float32(r))
			}
			return FloatV{r, w}
		}
		if tb.Info()&types.IsString != 0 {
			switch x := v.(type) {
			case StrV, LazyStr:
				return x
			case *Term: // rune
				return e.runeToStr(st, x, isSigned(from))
			case SliceV:
				el := fu.(*types.Slice).Elem().Underlying().(*types.Basic)
				if el.Kind() == types.Uint8 {
					return mkStr(e.bytesOf(st, x))
				}
				var out []*Term
				for _, r := range e.sliceElems(st, x) {
					out = append(out, e.strBytes(e.runeToStr(st, r.(*Term), true))...)
				}
				return mkStr(out)
			}
		}
		if tb.Info()&types.IsComplex != 0 {
			return v
		}
	}
	if ts, ok := tu.(*types.Slice); ok {
		s, isStr := e.forceStr(st, v).(StrV)
		if isStr {
			if ts.Elem().Underlying().(*types.Basic).Kind() == types.Uint8 {
				return e.newBytes(st, e.strBytes(s))
			}
			var rs []Value
			for i := 0; i < s.Len(); {
				r, n := e.decodeRune(st, s, i)
				rs = append(rs, r)
				i += n
			}
			return e.newSlice(st, rs, len(rs), ts.Elem())
		}
		return v
	}
	if _, ok := tu.(*types.Pointer); ok {
		return v // unsafe.Pointer -> *T
	}
	if types.Identical(fu, tu) {
		return v
	}
	switch v.(type) {
	case *StructV, *ArrayV, IfaceV, MapRef, ChanRef, *FuncV, SliceV:
		return v
	}
	unsupported("convert %s to %s", from, to)
	return nil
}

// decodeRune decodes one rune at i, forking on symbolic bytes.
func (e *Eng) decodeRune(st *State, s StrV, i int) (*Term, int) {
	c := e.c
	b0 := e.strAt(s, i)
	if s.sym == nil || allConst(s.sym[i:min(len(s.sym), i+4)]) {
		bs := make([]byte, 0, 4)
		for k := i; k < s.Len() && k < i+4; k++ {
			bs = append(bs, byte(e.strAt(s, k).u))
		}
		r, n := utf8.DecodeRune(bs)
		return c.BV(32, uint64(uint32(r))), n
	}
	k8 := func(x uint64) *Term { return c.BV(8, x) }
	if e.decide(st, c.Ult(b0, k8(0x80))) {
		return c.Zext(32, b0), 1
	}
	bad := c.BV(32, 0xFFFD)
	rng := func(t *Term, lo, hi uint64) *Term { return c.And(c.Ule(k8(lo), t), c.Ule(t, k8(hi))) }
	left := s.Len() - i
	low6 := func(t *Term) *Term { return c.Extract(5, 0, t) }
	if e.decide(st, rng(b0, 0xC2, 0xDF)) {
		if left < 2 {
			return bad, 1
		}
		b1 := e.strAt(s, i+1)
		if !e.decide(st, rng(b1, 0x80, 0xBF)) {
			return bad, 1
		}
		return c.Zext(32, c.Concat(c.Extract(4, 0, b0), low6(b1))), 2
	}
	if e.decide(st, rng(b0, 0xE0, 0xEF)) {
		if left < 3 {
			return bad, 1
		}
		b1, b2 := e.strAt(s, i+1), e.strAt(s, i+2)
		lo := c.Ite(c.Eq(b0, k8(0xE0)), k8(0xA0), k8(0x80))
		hi := c.Ite(c.Eq(b0, k8(0xED)), k8(0x9F), k8(0xBF))
		ok := c.And(c.Ule(lo, b1), c.Ule(b1, hi), rng(b2, 0x80, 0xBF))
		if !e.decide(st, ok) {
			return bad, 1
		}
		return c.Zext(32, c.Concat(c.Extract(3, 0, b0), c.Concat(low6(b1), low6(b2)))), 3
	}
	if e.decide(st, rng(b0, 0xF0, 0xF4)) {
		if left < 4 {
			return bad, 1
		}
		b1, b2, b3 := e.strAt(s, i+1), e.strAt(s, i+2), e.strAt(s, i+3)
		lo := c.Ite(c.Eq(b0, k8(0xF0)), k8(0x90), k8(0x80))
		hi := c.Ite(c.Eq(b0, k8(0xF4)), k8(0x8F), k8(0xBF))
		ok := c.And(c.Ule(lo, b1), c.Ule(b1, hi), rng(b2, 0x80, 0xBF), rng(b3, 0x80, 0xBF))
		if !e.decide(st, ok) {
			return bad, 1
		}
		return c.Zext(32, c.Concat(c.Extract(2, 0, b0), c.Concat(low6(b1), c.Concat(low6(b2), low6(b3))))), 4
	}
	return bad, 1
}

func allConst(ts []*Term) bool {
	for _, t := range ts {
		if t.op != OConst {
			return false
		}
	}
	return true
}

func (e *Eng) runeToStr(st *State, t *Term, sg bool) StrV {
	c := e.c
	t = c.Resize(64, t, sg)
	if t.op == OConst {
		v := int64(t.u)
		if v < 0 || v > utf8.MaxRune {
			v = utf8.RuneError
		}
		return StrV{s: string(rune(v))}
	}
	k := func(x uint64) *Term { return c.BV(64, x) }
	if e.decide(st, c.Ult(t, k(0x80))) {
		return mkStr([]*Term{c.Extract(7, 0, t)})
	}
	pre := func(p uint64, n int, x *Term) *Term { return c.Concat(c.BV(8-n, p), x) }
	ex := func(hi, lo int) *Term { return c.Extract(hi, lo, t) }
	if e.decide(st, c.Ult(t, k(0x800))) {
		return mkStr([]*Term{pre(6, 5, ex(10, 6)), pre(2, 6, ex(5, 0))})
	}
	badc := c.Or(c.Ult(k(utf8.MaxRune), t), c.And(c.Ule(k(0xD800), t), c.Ule(t, k(0xDFFF))))
	if e.decide(st, badc) {
		return StrV{s: "\uFFFD"}
	}
	if e.decide(st, c.Ult(t, k(0x10000))) {
		return mkStr([]*Term{pre(0xE, 4, ex(15, 12)), pre(2, 6, ex(11, 6)), pre(2, 6, ex(5, 0))})
	}
	return mkStr([]*Term{pre(0x1E, 3, ex(20, 18)), pre(2, 6, ex(17, 12)), pre(2, 6, ex(11, 6)), pre(2, 6, ex(5, 0))})
}

func (e *Eng) sliceOp(st *State, f *Frame, x *ssa.Slice) Value {
	v := e.forceStr(st, e.val(st, f, x.X))
	get := func(o ssa.Value, def int) *Term {
		if o == nil {
			return e.c.BV(64, uint64(def))
		}
		t := e.val(st, f, o).(*Term)
		return e.c.Resize(64, t, isSigned(o.Type()))
	}
	var length, capacity, off int
	var base PtrV
	isStr := false
	isNil := false
	switch s := v.(type) {
	case StrV:
		isStr = true
		length, capacity = s.Len(), s.Len()
	case SliceV:
		length, capacity, off, base = s.n, s.cap, s.off, s.base
		isNil = s.isNil()
	case PtrV:
		if s.isNil() {
			e.rtPanic("invalid memory address or nil pointer dereference")
		}
		n := e.arrLen(st, s)
		if n < 0 {
			unsupported("slice of pointer to non-array")
		}
		length, capacity, base = n, n, s
	default:
		unsupported("slice of %T", v)
	}
	lo, hi, mx := get(x.Low, 0), get(x.High, length), get(x.Max, capacity)
	bad := e.c.Or(e.c.Ult(hi, lo), e.c.Ult(mx, hi), e.c.Ult(e.c.BV(64, uint64(capacity)), mx))
	e.panicIf(st, bad, "slice bounds out of range")
	l, h, m := int(e.needConst(st, lo)), int(e.needConst(st, hi)), int(e.needConst(st, mx))
	if isStr {
		return v.(StrV).slice(l, h)
	}
	if isNil {
		return SliceV{}
	}
	return SliceV{base, off + l, h - l, m - l}
}

func (e *Eng) idxTerm(st *State, f *Frame, o ssa.Value) *Term {
	t := e.val(st, f, o).(*Term)
	return e.c.Resize(64, t, isSigned(o.Type()))
}

func (e *Eng) indexAddr(st *State, f *Frame, x *ssa.IndexAddr) Value {
	idx := e.idxTerm(st, f, x.Index)
	if k, ok := st.eqs[idx.id]; ok {
		idx = k
	}
	v := e.val(st, f, x.X)
	switch s := v.(type) {
	case SliceV:
		e.panicIf(st, e.c.Not(e.c.Ult(idx, e.c.BV(64, uint64(s.n)))), "index out of range")
		if idx.op == OConst {
			return PtrV{s.base.obj, appendPath(s.base.path, PE{i: s.off + int(idx.u)})}
		}
		t := e.c.Add(idx, e.c.BV(64, uint64(s.off)))
		return PtrV{s.base.obj, appendPath(s.base.path, PE{sym: t})}
	case PtrV:
		if s.isNil() {
			e.rtPanic("invalid memory address or nil pointer dereference")
		}
		n := int(x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		e.panicIf(st, e.c.Not(e.c.Ult(idx, e.c.BV(64, uint64(n)))), "index out of range")
		if idx.op == OConst {
			return PtrV{s.obj, appendPath(s.path, PE{i: int(idx.u)})}
		}
		return PtrV{s.obj, appendPath(s.path, PE{sym: idx})}
	}
	unsupported("indexaddr of %T", v)
	return nil
}

func (e *Eng) index(st *State, f *Frame, x *ssa.Index) Value {
	idx := e.idxTerm(st, f, x.Index)
	if k, ok := st.eqs[idx.id]; ok {
		idx = k
	}
	v := e.forceStr(st, e.val(st, f, x.X))
	switch s := v.(type) {
	case StrV:
		e.panicIf(st, e.c.Not(e.c.Ult(idx, e.c.BV(64, uint64(s.Len())))), "index out of range")
		if idx.op == OConst {
			return e.strAt(s, int(idx.u))
		}
		bs := e.strBytes(s)
		vs := make([]Value, len(bs))
		for i := range bs {
			vs[i] = bs[i]
		}
		return e.muxSelect(st, vs, idx, func(v Value) Value { return v })
	case *ArrayV:
		e.panicIf(st, e.c.Not(e.c.Ult(idx, e.c.BV(64, uint64(len(s.e))))), "index out of range")
		if idx.op == OConst {
			return s.e[idx.u]
		}
		return e.muxSelect(st, s.e, idx, func(v Value) Value { return v })
	}
	unsupported("index of %T", v)
	return nil
}

// ---------- maps ----------

func (e *Eng) mapFind(st *State, m *MapObj, k Value, kt types.Type) int {
	for i := range m.keys {
		if e.decide(st, e.eqVal(kt, m.keys[i], k)) {
			return i
		}
	}
	return -1
}

func (e *Eng) mapObj(st *State, m MapRef) *MapObj {
	if m.obj == 0 {
		return &MapObj{}
	}
	v, _ := st.get(m.obj)
	o, ok := v.(*MapObj)
	if !ok {
		unsupported("map object %T", v)
	}
	return o
}

func keyType(t types.Type) types.Type {
	if m, ok := t.Underlying().(*types.Map); ok {
		return m.Key()
	}
	return nil
}

func (e *Eng) mapSet(st *State, m MapRef, k, v Value, mt types.Type) {
	if m.obj == 0 {
		panic(goPanic{e.rtErr("assignment to entry in nil map")})
	}
	k = e.forceStr(st, k)
	o := e.mapObj(st, m)
	i := e.mapFind(st, o, k, keyType(mt))
	n := &MapObj{append([]Value{}, o.keys...), append([]Value{}, o.vals...)}
	if i < 0 {
		n.keys = append(n.keys, k)
		n.vals = append(n.vals, v)
	} else {
		n.vals[i] = v
	}
	st.put(m.obj, n)
}

func (e *Eng) mapDelete(st *State, m MapRef, k Value, mt types.Type) {
	if m.obj == 0 {
		return
	}
	o := e.mapObj(st, m)
	i := e.mapFind(st, o, k, keyType(mt))
	if i < 0 {
		return
	}
	n := &MapObj{append([]Value{}, o.keys[:i]...), append([]Value{}, o.vals[:i]...)}
	n.keys = append(n.keys, o.keys[i+1:]...)
	n.vals = append(n.vals, o.vals[i+1:]...)
	st.put(m.obj, n)
}

func (e *Eng) lookup(st *State, f *Frame, x *ssa.Lookup) Value {
	v := e.forceStr(st, e.val(st, f, x.X))
	switch m := v.(type) {
	case StrV:
		idx := e.idxTerm(st, f, x.Index)
		e.panicIf(st, e.c.Not(e.c.Ult(idx, e.c.BV(64, uint64(m.Len())))), "index out of range")
		if idx.op == OConst {
			return e.strAt(m, int(idx.u))
		}
		bs := e.strBytes(m)
		vs := make([]Value, len(bs))
		for i := range bs {
			vs[i] = bs[i]
		}
		return e.muxSelect(st, vs, idx, func(v Value) Value { return v })
	case MapRef:
		e.access(st, PtrV{obj: m.obj}, false)
		o := e.mapObj(st, m)
		mt := x.X.Type().Underlying().(*types.Map)
		k := e.forceStr(st, e.val(st, f, x.Index))
		i := e.mapFind(st, o, k, mt.Key())
		var val Value
		if i >= 0 {
			val = o.vals[i]
		} else {
			val = e.zero(mt.Elem())
		}
		if x.CommaOk {
			return TupleV{val, e.c.Bool(i >= 0)}
		}
		return val
	}
	unsupported("lookup in %T", v)
	return nil
}

func (e *Eng) rangeOp(st *State, f *Frame, x *ssa.Range) Value {
	v := e.forceStr(st, e.val(st, f, x.X))
	switch m := v.(type) {
	case StrV:
		return IterRef{st.newObj(&IterObj{str: &m})}
	case MapRef:
		o := e.mapObj(st, m)
		return IterRef{st.newObj(&IterObj{keys: append([]Value{}, o.keys...), m: m.obj})}
	}
	unsupported("range over %T", v)
	return nil
}

func (e *Eng) nextOp(st *State, f *Frame, x *ssa.Next) bool {
	it := e.val(st, f, x.Iter).(IterRef)
	v, _ := st.get(it.obj)
	o := v.(*IterObj)
	tt := x.Type().(*types.Tuple)
	kz := func(i int) Value {
		t := tt.At(i).Type()
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return TupleV{}
		}
		return e.zero(t)
	}
	if x.IsString {
		s := *o.str
		if o.pos >= s.Len() {
			e.finish(f, TupleV{e.c.False, e.c.BV(64, 0), e.c.BV(32, 0)})
			return false
		}
		r, n := e.decodeRune(st, s, o.pos)
		st.put(it.obj, &IterObj{str: o.str, pos: o.pos + n})
		e.finish(f, TupleV{e.c.True, e.c.BV(64, uint64(o.pos)), r})
		return false
	}
	m := e.mapObj(st, MapRef{o.m})
	e.access(st, PtrV{obj: o.m}, false)
	// iteration order: any remaining key may come next
	rem := o.keys
	// drop keys deleted meanwhile
	var live []int
	for i, k := range rem {
		for j := range m.keys {
			if t := e.eqVal(nil, m.keys[j], k); t == e.c.True || t.op != OConst && e.decide(st, t) {
				live = append(live, i)
				break
			}
		}
	}
	if len(live) == 0 {
		e.finish(f, TupleV{e.c.False, kz(1), kz(2)})
		return false
	}
	pick := 0
	if len(live) > 1 && !e.inInit && e.params["maporder"] != 0 {
		nm := fmt.Sprintf("maporder#%d", st.labels["maporder"])
		t := e.c.Var(nm, 8)
		pick = e.choose(st, t, len(live))
		st.label("maporder")
	}
	ki := live[pick]
	k := rem[ki]
	nk := append(append([]Value{}, rem[:ki]...), rem[ki+1:]...)
	st.put(it.obj, &IterObj{keys: nk, m: o.m, pos: o.pos + 1})
	j := e.mapFind(st, m, k, nil)
	e.finish(f, TupleV{e.c.True, k, m.vals[j]})
	return false
}

// choose forks over t in [0,n) and returns the chosen value.
func (e *Eng) choose(st *State, t *Term, n int) int {
	if k, ok := st.eqs[t.id]; ok {
		return int(k.u)
	}
	var alts []forkAlt
	for i := 0; i < n; i++ {
		k := e.c.BV(t.w, uint64(i))
		m := NewModel()
		for a, b := range st.wit.vals {
			m.vals[a] = b
		}
		m.vals[t.id] = big.NewInt(int64(i))
		alts = append(alts, forkAlt{e.c.Eq(t, k), m, [][2]*Term{{t, k}}})
	}
	if strings.HasPrefix(t.name, "sched#") {
		panic(forkSig{alts, true})
	}
	e.certDomain(st, e.c.Ult(t, e.c.BV(t.w, uint64(n))))
	panic(forkSig{alts: alts})
}

// ---------- type assertions ----------

func (e *Eng) implements(t types.Type, it *types.Interface) bool {
	if t == e.ld.rtErrType {
		for i := 0; i < it.NumMethods(); i++ {
			if n := it.Method(i).Name(); n != "Error" && n != "RuntimeError" {
				return false
			}
		}
		return true
	}
	return types.Implements(t, it)
}

func (e *Eng) typeAssert(st *State, f *Frame, x *ssa.TypeAssert) Value {
	iv, ok := e.val(st, f, x.X).(IfaceV)
	if !ok {
		unsupported("type assert on %T", e.val(st, f, x.X))
	}
	var res Value
	good := false
	if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
		if iv.t != nil && e.implements(iv.t, it) {
			good = true
			res = iv
		}
	} else if iv.t != nil && types.Identical(iv.t, x.AssertedType) {
		good = true
		res = iv.v
	}
	if x.CommaOk {
		if !good {
			res = e.zero(x.AssertedType)
		}
		return TupleV{res, e.c.Bool(good)}
	}
	if !good {
		dyn := "nil"
		if iv.t != nil {
			dyn = iv.t.String()
		}
		panic(goPanic{e.rtErr(fmt.Sprintf("interface conversion: interface is %s, not %s", dyn, x.AssertedType))})
	}
	return res
}

// ---------- builtins ----------

func (e *Eng) builtin(st *State, f *Frame, b *ssa.Builtin, args []Value, cc *ssa.CallCommon) Value {
	c := e.c
	i64 := func(n int) Value { return c.BV(64, uint64(n)) }
	switch b.Name() {
	case "len", "cap":
		switch x := args[0].(type) {
		case StrV:
			return i64(x.Len())
		case LazyStr:
			lens := make([]Value, len(x.tab))
			for i, s := range x.tab {
				lens[i] = i64(len(s))
			}
			return e.muxSelect(st, lens, x.idx, func(v Value) Value { return v })
		case SliceV:
			if b.Name() == "cap" {
				return i64(x.cap)
			}
			return i64(x.n)
		case *ArrayV:
			return i64(len(x.e))
		case PtrV:
			if cc != nil {
				if p, ok := cc.Args[0].Type().Underlying().(*types.Pointer); ok {
					return i64(int(p.Elem().Underlying().(*types.Array).Len()))
				}
			}
		case MapRef:
			e.access(st, PtrV{obj: x.obj}, false)
			return i64(len(e.mapObj(st, x).keys))
		case ChanRef:
			if x.obj == 0 {
				return i64(0)
			}
			o := e.chanObj(st, x)
			if b.Name() == "cap" {
				return i64(o.cap)
			}
			return i64(len(o.buf))
		}
		unsupported("len of %T", args[0])
	case "append":
		s := args[0].(SliceV)
		var add []Value
		switch y := e.forceStr(st, args[1]).(type) {
		case SliceV:
			add = e.sliceElems(st, y)
			e.accessSlice(st, y, 0, y.n, false)
		case StrV:
			for _, t := range e.strBytes(y) {
				add = append(add, t)
			}
		}
		if len(add) == 0 {
			return s
		}
		n := s.n + len(add)
		if n <= s.cap {
			e.writeSlice(st, s.withLen(n), s.n, add)
			e.accessSlice(st, s, s.n, len(add), true)
			return s.withLen(n)
		}
		e.accessSlice(st, s, 0, s.n, false)
		el := append(append([]Value{}, e.sliceElems(st, s)...), add...)
		ncap := n
		if s.cap > 0 {
			dbl := 2 * s.cap
			if s.cap >= 256 {
				dbl = s.cap + (s.cap+768)/4
			}
			ncap = max(n, dbl)
		}
		if ncap < 8 {
			if _, ok := el[0].(*Term); ok && el[0].(*Term).w == 8 {
				ncap = 8
			}
		}
		et := b.Type().(*types.Signature).Results().At(0).Type().Underlying().(*types.Slice).Elem()
		return e.newSlice(st, el, ncap, et)
	case "copy":
		d := args[0].(SliceV)
		var src []Value
		switch y := e.forceStr(st, args[1]).(type) {
		case SliceV:
			src = e.sliceElems(st, y)
			e.accessSlice(st, y, 0, min(d.n, len(src)), false)
		case StrV:
			for _, t := range e.strBytes(y) {
				src = append(src, t)
			}
		}
		n := min(d.n, len(src))
		e.writeSlice(st, d, 0, src[:n])
		e.accessSlice(st, d, 0, n, true)
		return i64(n)
	case "clear":
		switch x := args[0].(type) {
		case SliceV:
			et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
			z := make([]Value, x.n)
			for i := range z {
				z[i] = e.zero(et)
			}
			e.writeSlice(st, x, 0, z)
		case MapRef:
			if x.obj != 0 {
				st.put(x.obj, &MapObj{})
			}
		}
		return TupleV{}
	case "delete":
		var mt types.Type = types.Typ[types.Invalid]
		if cc != nil {
			mt = cc.Args[0].Type()
		}
		e.mapDelete(st, args[0].(MapRef), args[1], mt)
		e.access(st, PtrV{obj: args[0].(MapRef).obj}, true)
		return TupleV{}
	case "close":
		e.closeChan(st, args[0].(ChanRef))
		return TupleV{}
	case "panic":
		panic(goPanic{args[0].(IfaceV)})
	case "recover":
		return e.doRecover(st)
	case "print", "println":
		return TupleV{}
	case "min", "max":
		r := args[0]
		for _, y := range args[1:] {
			switch x := r.(type) {
			case *Term:
				sg := isSigned(cc.Args[0].Type())
				var lt *Term
				if sg {
					lt = c.Slt(x, y.(*Term))
				} else {
					lt = c.Ult(x, y.(*Term))
				}
				if b.Name() == "min" {
					r = c.Ite(lt, x, y.(*Term))
				} else {
					r = c.Ite(lt, y.(*Term), x)
				}
			case FloatV:
				if b.Name() == "min" {
					r = FloatV{math.Min(x.f, y.(FloatV).f), x.w}
				} else {
					r = FloatV{math.Max(x.f, y.(FloatV).f), x.w}
				}
			default:
				unsupported("min/max of %T", r)
			}
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(PtrV); ok && p.isNil() {
			e.rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "ssa:deferstack":
		return TupleV{}
	case "String": // unsafe.String
		p := args[0].(PtrV)
		n := e.needInt(st, args[1])
		if n == 0 {
			return StrV{}
		}
		return mkStr(e.bytesAt(st, p, n))
	case "StringData":
		s := e.forceStr(st, args[0]).(StrV)
		if s.Len() == 0 {
			return PtrV{}
		}
		sl := e.newBytes(st, e.strBytes(s))
		return PtrV{sl.base.obj, appendPath(sl.base.path, PE{i: 0})}
	case "SliceData":
		s := args[0].(SliceV)
		if s.isNil() {
			return PtrV{}
		}
		return PtrV{s.base.obj, appendPath(s.base.path, PE{i: s.off})}
	case "Slice":
		p := args[0].(PtrV)
		n := e.needInt(st, args[1])
		if p.isNil() {
			return SliceV{}
		}
		last := p.path[len(p.path)-1]
		return SliceV{PtrV{p.obj, p.path[:len(p.path)-1]}, last.i, n, n}
	}
	unsupported("builtin %s", b.Name())
	return nil
}

func (e *Eng) bytesAt(st *State, p PtrV, n int) []*Term {
	last := p.path[len(p.path)-1]
	return e.bytesOf(st, SliceV{PtrV{p.obj, p.path[:len(p.path)-1]}, last.i, n, n})
}

func (e *Eng) doRecover(st *State) Value {
	g := st.g()
	n := len(g.frames)
	if n < 2 || !g.frames[n-1].deferCall {
		return IfaceV{}
	}
	p := g.frames[n-2]
	if !p.panicking || p.recovered || p.goexit {
		return IfaceV{}
	}
	p = st.own(g, n-2)
	p.recovered = true
	return p.panicVal
}
