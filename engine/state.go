package main

import (
	"go/types"
	"math/bits"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- function info ----------

type FnInfo struct {
	fn      *ssa.Function
	reg     map[ssa.Value]int
	nreg    int
	rpo     []int   // block index -> rpo number
	loops   [][]int // block index -> enclosing loop header block indexes (outermost first)
	isHdr   []int   // block index -> loop number or -1
	nloops  int
	inLoop  [][]bool // loop number -> block idx -> member
	hdrBlk  []int    // loop number -> header block idx
	liveIn  []bitset
	liveOut []bitset
	liveC   map[[2]int]bitset
	id      uint64
	isRepo  bool
}

type bitset []uint64

func (b bitset) has(i int) bool { return b[i>>6]>>(uint(i)&63)&1 == 1 }
func (b bitset) set(i int)      { b[i>>6] |= 1 << (uint(i) & 63) }
func (b bitset) clr(i int)      { b[i>>6] &^= 1 << (uint(i) & 63) }
func (b bitset) or(o bitset) bool {
	ch := false
	for i := range b {
		n := b[i] | o[i]
		if n != b[i] {
			b[i] = n
			ch = true
		}
	}
	return ch
}
func (b bitset) clone() bitset { return append(bitset{}, b...) }

func strHash(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

func mix(h, x uint64) uint64 {
	h ^= x + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
	h *= 0xff51afd7ed558ccd
	return h ^ bits.RotateLeft64(h, 31)
}

func (e *Eng) info(fn *ssa.Function) *FnInfo {
	if fi, ok := e.fis[fn]; ok {
		return fi
	}
	fi := &FnInfo{fn: fn, reg: map[ssa.Value]int{}, liveC: map[[2]int]bitset{}}
	fi.id = strHash(fn.String())
	add := func(v ssa.Value) {
		fi.reg[v] = fi.nreg
		fi.nreg++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	n := len(fn.Blocks)
	fi.rpo = make([]int, n)
	seen := make([]bool, n)
	var post []int
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b.Index] = true
		for _, s := range b.Succs {
			if !seen[s.Index] {
				dfs(s)
			}
		}
		post = append(post, b.Index)
	}
	dfs(fn.Blocks[0])
	if fn.Recover != nil && !seen[fn.Recover.Index] {
		dfs(fn.Recover)
	}
	for i, b := range post {
		fi.rpo[b] = len(post) - 1 - i
	}
	// loops
	fi.isHdr = make([]int, n)
	for i := range fi.isHdr {
		fi.isHdr[i] = -1
	}
	for _, b := range fn.Blocks {
		if !seen[b.Index] {
			continue
		}
		for _, s := range b.Succs {
			if s.Dominates(b) {
				ln := fi.isHdr[s.Index]
				if ln < 0 {
					ln = fi.nloops
					fi.nloops++
					fi.isHdr[s.Index] = ln
					m := make([]bool, n)
					m[s.Index] = true
					fi.inLoop = append(fi.inLoop, m)
					fi.hdrBlk = append(fi.hdrBlk, s.Index)
				}
				m := fi.inLoop[ln]
				st := []*ssa.BasicBlock{b}
				for len(st) > 0 {
					x := st[len(st)-1]
					st = st[:len(st)-1]
					if m[x.Index] {
						continue
					}
					m[x.Index] = true
					st = append(st, x.Preds...)
				}
			}
		}
	}
	fi.loops = make([][]int, n)
	for i := 0; i < n; i++ {
		var ls []int
		for l := 0; l < fi.nloops; l++ {
			if fi.inLoop[l][i] {
				ls = append(ls, l)
			}
		}
		sort.Slice(ls, func(x, y int) bool { return fi.rpo[fi.hdrBlk[ls[x]]] < fi.rpo[fi.hdrBlk[ls[y]]] })
		fi.loops[i] = ls
	}
	// liveness
	nw := (fi.nreg + 63) / 64
	fi.liveIn = make([]bitset, n)
	fi.liveOut = make([]bitset, n)
	for i := range fi.liveIn {
		fi.liveIn[i] = make(bitset, nw)
		fi.liveOut[i] = make(bitset, nw)
	}
	changed := true
	for changed {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			out := fi.liveOut[i]
			for _, s := range b.Succs {
				if out.or(fi.liveIn[s.Index]) {
					changed = true
				}
				// phi uses on this edge
				pi := -1
				for k, p := range s.Preds {
					if p != b {
						continue
					}
					pi = k
					for _, in := range s.Instrs {
						phi, ok := in.(*ssa.Phi)
						if !ok {
							break
						}
						if r, ok := fi.reg[phi.Edges[pi]]; ok && !out.has(r) {
							out.set(r)
							changed = true
						}
					}
				}
			}
			if fn.Recover != nil && b != fn.Recover {
				if out.or(fi.liveIn[fn.Recover.Index]) {
					changed = true
				}
			}
			in := out.clone()
			fi.backward(b, in, 0)
			if fn.Recover != nil && b != fn.Recover {
				in.or(fi.liveIn[fn.Recover.Index])
			}
			if fi.liveIn[i].or(in) {
				changed = true
			}
		}
	}
	fi.isRepo = e.isRepoFn(fn)
	e.fis[fn] = fi
	return fi
}

// backward updates live from the end of b down to before instruction idx.
func (fi *FnInfo) backward(b *ssa.BasicBlock, live bitset, idx int) {
	var ops [16]*ssa.Value
	for k := len(b.Instrs) - 1; k >= idx; k-- {
		in := b.Instrs[k]
		if v, ok := in.(ssa.Value); ok {
			live.clr(fi.reg[v])
		}
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		for _, o := range in.Operands(ops[:0]) {
			if *o == nil {
				continue
			}
			if r, ok := fi.reg[*o]; ok {
				live.set(r)
			}
		}
	}
}

// liveAt: registers live before executing instruction idx of b.
func (fi *FnInfo) liveAt(b *ssa.BasicBlock, idx int) bitset {
	k := [2]int{b.Index, idx}
	if l, ok := fi.liveC[k]; ok {
		return l
	}
	l := fi.liveOut[b.Index].clone()
	fi.backward(b, l, idx)
	if fi.fn.Recover != nil {
		l.or(fi.liveIn[fi.fn.Recover.Index])
	}
	fi.liveC[k] = l
	return l
}

// ---------- frames / goroutines / states ----------

type Deferred struct {
	fn   Value // *FuncV or builtin
	bi   *ssa.Builtin
	args []Value
	inv  *types.Func
	recv Value
}

type Frame struct {
	fi        *FnInfo
	regs      []Value
	blk       *ssa.BasicBlock
	idx       int
	cnt       []int32
	defers    []Deferred
	hash      uint64
	seq       int // per-instruction allocation sequence
	deferCall bool
	panicking bool
	panicVal  IfaceV
	goexit    bool
	recovered bool
	retKind   int
	retData   Value
	results   Value
	tok       *int
}

type Goroutine struct {
	id     int
	frames []*Frame
	done   bool
	parked bool // at a visible op waiting for the scheduler
	wait   int  // for cond: 0 none, 1 waiting, 2 signalled
	vc     VC
	acc    *AccNode
	tok    *int
}

type PC struct {
	t    *Term
	prev *PC
	n    int
}

type State struct {
	e      *Eng
	base   map[ObjID]Value
	over   map[ObjID]Value
	shared bool
	gs     []*Goroutine
	cur    int
	pc     *PC
	wit    *Model
	eqs    map[int]*Term // term id -> const term
	eqsSh  bool
	binds  [][2]*Term // term = constant facts of this state (shared, append-only by copy)
	labels map[string]int
	labSh  bool
	steps  int
	grant  *Grant
	tok    *int
	nextG  int
	id     int
	trace  *TraceEl
	instrs int
	schedReady bool
	sync       map[SyncKey]SyncEnt // immutable
	ver        int    // names this state in e.apart
	fresh      bool   // just forked: must execute before it may merge
	nchoice    int
	cov        int32  // node of the exhaustiveness record
	variant    uint64 // history of Choice values: different choices never merge
}

type TraceEl struct {
	s    string
	prev *TraceEl
}

type Grant struct {
	g    int
	alt  int
	part int
	palt int
}

func (st *State) get(id ObjID) (Value, bool) {
	if v, ok := st.over[id]; ok {
		return v, true
	}
	v, ok := st.base[id]
	return v, ok
}

func (st *State) put(id ObjID, v Value) {
	if st.shared {
		n := make(map[ObjID]Value, len(st.over)+8)
		for k, x := range st.over {
			n[k] = x
		}
		st.over = n
		st.shared = false
	}
	st.over[id] = v
}

func (st *State) setEq(t, k *Term) {
	if st.eqsSh {
		n := make(map[int]*Term, len(st.eqs)+4)
		for a, b := range st.eqs {
			n[a] = b
		}
		st.eqs = n
		st.eqsSh = false
	}
	st.eqs[t.id] = k
}

// bind records term = constant facts used to merge constants back into the term.
func (st *State) bind(cond *Term) {
	if cond.op != OEq || cond.args[0].w == 0 {
		return
	}
	t, k := cond.args[0], cond.args[1]
	if t.op == OConst {
		t, k = k, t
	}
	if k.op != OConst || t.w > 64 {
		return
	}
	st.binds = append(append([][2]*Term{}, st.binds...), [2]*Term{t, k})
}

func (st *State) bound(t *Term) *Term {
	for _, b := range st.binds {
		if b[0] == t {
			return b[1]
		}
	}
	return nil
}

// unify finds a term that equals x in state a and y in state b.
func (e *Eng) unify(a, b *State, x, y *Term) *Term {
	if x.w != y.w || x.w == 0 || x.w > 64 || x == y {
		return nil
	}
	base := func(t *Term) *Term {
		if t.op == OZext {
			return t.args[0]
		}
		return t
	}
	eq := func(st *State, t, k *Term) bool {
		q := st.bound(base(t))
		return q != nil && q.u == k.u
	}
	switch {
	case x.op != OConst && y.op == OConst:
		if eq(b, x, y) {
			return x
		}
	case x.op == OConst && y.op != OConst:
		if eq(a, y, x) {
			return y
		}
	case x.op == OConst && y.op == OConst:
		for _, q := range a.binds {
			if q[0].w <= x.w && q[1].u == x.u {
				if k := b.bound(q[0]); k != nil && k.u == y.u {
					return e.c.Zext(x.w, q[0])
				}
			}
		}
	}
	return nil
}

func (st *State) label(l string) int {
	if st.labSh {
		n := make(map[string]int, len(st.labels)+4)
		for a, b := range st.labels {
			n[a] = b
		}
		st.labels = n
		st.labSh = false
	}
	k := st.labels[l]
	st.labels[l] = k + 1
	return k
}

func (st *State) addPC(t *Term) {
	if t == st.e.c.True {
		return
	}
	n := 1
	if st.pc != nil {
		n = st.pc.n + 1
	}
	st.pc = &PC{t, st.pc, n}
}

func (st *State) pcList() []*Term {
	var r []*Term
	for p := st.pc; p != nil; p = p.prev {
		r = append(r, p.t)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

func (st *State) clone() *State {
	n := *st
	st.shared, n.shared = true, true
	st.eqsSh, n.eqsSh = true, true
	st.labSh, n.labSh = true, true
	st.tok, n.tok = new(int), new(int)
	n.gs = append([]*Goroutine{}, st.gs...)
	st.e.stateID++
	n.id = st.e.stateID
	return &n
}

func (st *State) g() *Goroutine { return st.ownG(st.cur) }

func (st *State) ownG(i int) *Goroutine {
	g := st.gs[i]
	if g.tok != st.tok {
		ng := *g
		ng.tok = st.tok
		ng.frames = append([]*Frame{}, g.frames...)
		st.gs[i] = &ng
		g = &ng
	}
	return g
}

func (st *State) top() *Frame {
	g := st.g()
	return st.own(g, len(g.frames)-1)
}

func (st *State) own(g *Goroutine, i int) *Frame {
	f := g.frames[i]
	if f.tok != st.tok {
		nf := *f
		nf.tok = st.tok
		nf.regs = append([]Value{}, f.regs...)
		nf.cnt = append([]int32{}, f.cnt...)
		nf.defers = append([]Deferred{}, f.defers...)
		g.frames[i] = &nf
		f = &nf
	}
	return f
}

// location key of a frame
func (f *Frame) key(out []int) []int {
	fi := f.fi
	for _, l := range fi.loops[f.blk.Index] {
		out = append(out, fi.rpo[fi.hdrBlk[l]], int(f.cnt[l]))
	}
	return append(out, fi.rpo[f.blk.Index], f.idx)
}

func (f *Frame) locHash() uint64 {
	h := f.hash
	fi := f.fi
	for _, l := range fi.loops[f.blk.Index] {
		h = mix(h, uint64(fi.hdrBlk[l])<<32|uint64(f.cnt[l]))
	}
	return mix(h, uint64(f.blk.Index)<<32|uint64(f.idx))
}

func (st *State) newObj(v Value) ObjID {
	g := st.g()
	var h uint64
	if len(g.frames) > 0 {
		f := st.top()
		h = mix(f.locHash(), uint64(f.seq))
		f.seq++
	} else {
		h = mix(uint64(g.id)+77, uint64(len(st.over)))
	}
	id := ObjID(h | 1)
	st.put(id, v)
	return id
}

func cmpInts(a, b []int) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			if a[i] < b[i] {
				return -1
			}
			return 1
		}
	}
	return len(a) - len(b)
}

func cmpG(a, b *Goroutine) int {
	if a == b {
		return 0
	}
	if a.id != b.id {
		return a.id - b.id
	}
	if a.done != b.done {
		if a.done {
			return 1
		}
		return -1
	}
	var ba, bb [32]int
	for i := 0; i < len(a.frames) && i < len(b.frames); i++ {
		fa, fb := a.frames[i], b.frames[i]
		if fa == fb {
			continue
		}
		if fa.fi != fb.fi {
			if fa.fi.id < fb.fi.id {
				return -1
			}
			return 1
		}
		if c := cmpInts(fa.key(ba[:0]), fb.key(bb[:0])); c != 0 {
			return c
		}
		if fa.hash != fb.hash {
			if fa.hash < fb.hash {
				return -1
			}
			return 1
		}
		if fa.panicking != fb.panicking {
			if fa.panicking {
				return 1
			}
			return -1
		}
	}
	return len(a.frames) - len(b.frames)
}

// cmpState orders states by progress; 0 means same location everywhere.
func cmpState(a, b *State) int {
	if a.variant != b.variant {
		if a.variant < b.variant {
			return -1
		}
		return 1
	}
	if a.steps != b.steps {
		return a.steps - b.steps
	}
	if c := cmpG(a.gs[a.cur], b.gs[b.cur]); c != 0 {
		return c
	}
	if a.cur != b.cur {
		return a.cur - b.cur
	}
	if len(a.gs) != len(b.gs) {
		return len(a.gs) - len(b.gs)
	}
	for i := range a.gs {
		if c := cmpG(a.gs[i], b.gs[i]); c != 0 {
			return c
		}
		if a.gs[i].parked != b.gs[i].parked {
			if a.gs[i].parked {
				return 1
			}
			return -1
		}
		if a.gs[i].wait != b.gs[i].wait {
			return a.gs[i].wait - b.gs[i].wait
		}
	}
	return 0
}

// prune clears dead registers of all frames of the goroutine.
func (st *State) prune() {
	for gi := range st.gs {
		g := st.gs[gi]
		for i := range g.frames {
			f := g.frames[i]
			var live bitset
			if i == len(g.frames)-1 {
				live = f.fi.liveAt(f.blk, f.idx)
			} else {
				live = f.fi.liveAt(f.blk, f.idx+1)
			}
			dirty := false
			for r, v := range f.regs {
				if v != nil && !live.has(r) {
					dirty = true
					break
				}
			}
			if dirty {
				g = st.ownG(gi)
				f = st.own(g, i)
				for r := range f.regs {
					if f.regs[r] != nil && !live.has(r) {
						f.regs[r] = nil
					}
				}
			}
		}
	}
}

// merge tries to merge b into a (same location). Returns nil if shapes differ.
func (e *Eng) merge(a, b *State) *State {
	if e.params["nomerge"] != 0 {
		return nil
	}
	if a.grant != nil || b.grant != nil {
		return nil
	}
	if len(a.labels) != len(b.labels) {
		return nil
	}
	for k, v := range a.labels {
		if b.labels[k] != v {
			return nil
		}
	}
	// values that never merge: seen before any condition is built
	for gi, ga := range a.gs {
		gb := b.gs[gi]
		if ga == gb || len(ga.frames) != len(gb.frames) {
			continue
		}
		for i, fa := range ga.frames {
			if fb := gb.frames[i]; fa != fb && len(fa.regs) == len(fb.regs) {
				for r, va := range fa.regs {
					if va != nil && fb.regs[r] != nil && distinct(va, fb.regs[r]) {
						return nil
					}
				}
			}
		}
	}
	// common pc prefix
	pa, pb := a.pc, b.pc
	var sa, sb []*Term
	for pa != pb {
		na, nb := 0, 0
		if pa != nil {
			na = pa.n
		}
		if pb != nil {
			nb = pb.n
		}
		if na >= nb {
			sa = append(sa, pa.t)
			pa = pa.prev
		} else {
			sb = append(sb, pb.t)
			pb = pb.prev
		}
	}
	c := e.c
	condA, condB := c.And(sa...), c.And(sb...)
	cond := condA
	// single discriminating conjunct
	neg := map[int]bool{}
	for _, t := range sb {
		for _, x := range conj(t) {
			neg[c.Not(x).id] = true
		}
	}
	for i := len(sa) - 1; i >= 0; i-- {
		done := false
		for _, x := range conj(sa[i]) {
			if neg[x.id] {
				cond = x
				done = true
				break
			}
		}
		if done {
			break
		}
	}
	n := a.clone()
	b.clone() // invalidate ownership of b's parts
	if e.exact && onlySched(sa) && onlySched(sb) {
		// the same state reached by another schedule: keep one of the two
	} else {
		n.pc = pa
		n.addPC(c.Or(condA, condB))
	}
	// goroutines
	for gi := range n.gs {
		ga, gb := a.gs[gi], b.gs[gi]
		if ga == gb {
			continue
		}
		g := n.ownG(gi)
		for i := range g.frames {
			fa, fb := ga.frames[i], gb.frames[i]
			if fa == fb {
				continue
			}
			if fa.deferCall != fb.deferCall || fa.recovered != fb.recovered || fa.retKind != fb.retKind || fa.goexit != fb.goexit || len(fa.defers) != len(fb.defers) {
				return nil
			}
			f := n.own(g, i)
			for r := range f.regs {
				va, vb := fa.regs[r], fb.regs[r]
				if va == nil || vb == nil {
					f.regs[r] = nil
					continue
				}
				if ta, ok := va.(*Term); ok {
					if tb, ok := vb.(*Term); ok && !e.exact {
						if u := e.unify(a, b, ta, tb); u != nil {
							f.regs[r] = u
							continue
						}
					}
				}
				v, ok := e.mergeVal(cond, va, vb)
				if !ok {
					return nil
				}
				f.regs[r] = v
			}
			var ok bool
			if f.retData, ok = e.mergeVal(cond, fa.retData, fb.retData); !ok {
				return nil
			}
			if f.results, ok = e.mergeVal(cond, fa.results, fb.results); !ok {
				return nil
			}
			pv, ok := e.mergeVal(cond, fa.panicVal, fb.panicVal)
			if !ok {
				return nil
			}
			f.panicVal = pv.(IfaceV)
			for d := range f.defers {
				da, db := fa.defers[d], fb.defers[d]
				if da.bi != db.bi || da.inv != db.inv || len(da.args) != len(db.args) {
					return nil
				}
				fv, ok := e.mergeVal(cond, da.fn, db.fn)
				if !ok {
					return nil
				}
				rv, ok := e.mergeVal(cond, da.recv, db.recv)
				if !ok {
					return nil
				}
				nd := Deferred{fn: fv, bi: da.bi, inv: da.inv, recv: rv}
				for k := range da.args {
					v, ok := e.mergeVal(cond, da.args[k], db.args[k])
					if !ok {
						return nil
					}
					nd.args = append(nd.args, v)
				}
				f.defers[d] = nd
			}
		}
	}
	// heap
	var conflicts []ObjID
	no := make(map[ObjID]Value, len(a.over)+len(b.over))
	for k, va := range a.over {
		vb, ok := b.over[k]
		if !ok {
			vb, ok = b.base[k]
		}
		if !ok {
			no[k] = va
			continue
		}
		v, ok := e.mergeObj(cond, va, vb)
		if !ok {
			conflicts = append(conflicts, k)
			continue
		}
		no[k] = v
	}
	for k, vb := range b.over {
		if _, ok := a.over[k]; ok {
			continue
		}
		va, ok := a.base[k]
		if !ok {
			no[k] = vb
			continue
		}
		v, ok := e.mergeObj(cond, va, vb)
		if !ok {
			conflicts = append(conflicts, k)
			continue
		}
		no[k] = v
	}
	n.over = no
	n.shared = false
	if len(conflicts) > 0 {
		ra := a.reachable()
		for _, k := range conflicts {
			if _, ok := a.base[k]; ok || ra[k] {
				return nil
			}
		}
		rb := b.reachable()
		for _, k := range conflicts {
			if rb[k] {
				return nil
			}
		}
		// unreachable in both: drop
		for _, k := range conflicts {
			no[k] = Opaque{"merged dead object"}
		}
	}
	// eqs intersection
	ne := map[int]*Term{}
	for k, v := range a.eqs {
		if b.eqs[k] == v {
			ne[k] = v
		}
	}
	n.eqs = ne
	n.eqsSh = false
	n.binds = nil
	for _, q := range a.binds {
		if b.bound(q[0]) == q[1] {
			n.binds = append(n.binds, q)
		}
	}
	n.wit = a.wit
	if b.instrs > n.instrs {
		n.instrs = b.instrs
	}
	n.cov = e.cert.node()
	e.cert.add(certClause{from: a.cov, to: []int32{n.cov}})
	e.cert.add(certClause{from: b.cov, to: []int32{n.cov}})
	e.stats.Merges++
	return n
}

// distinct tells that mergeVal refuses two values, where that is plain.
func distinct(a, b Value) bool {
	switch x := a.(type) {
	case SliceV:
		y, ok := b.(SliceV)
		return !ok || x.base.obj != y.base.obj || x.off != y.off || x.n != y.n || x.cap != y.cap
	case PtrV:
		y, ok := b.(PtrV)
		return !ok || x.obj != y.obj
	case StrV:
		y, ok := b.(StrV)
		return !ok || x.Len() != y.Len()
	case IfaceV:
		y, ok := b.(IfaceV)
		return !ok || (x.t == nil) != (y.t == nil)
	case TupleV:
		y, ok := b.(TupleV)
		if !ok || len(x) != len(y) {
			return true
		}
		for i := range x {
			if x[i] != nil && y[i] != nil && distinct(x[i], y[i]) {
				return true
			}
		}
	}
	return false
}

func (e *Eng) mergeObj(cond *Term, a, b Value) (Value, bool) {
	if sameVal(a, b) {
		return a, true
	}
	return e.mergeVal(cond, a, b)
}

func sameVal(a, b Value) bool {
	switch x := a.(type) {
	case *StructV:
		y, ok := b.(*StructV)
		return ok && x == y
	case *ArrayV:
		y, ok := b.(*ArrayV)
		return ok && x == y
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	}
	return false
}

// reachable objects from live registers, and globals.
func (st *State) reachable() map[ObjID]bool {
	seen := map[ObjID]bool{}
	var work []ObjID
	var visit func(v Value)
	mark := func(id ObjID) {
		if id != 0 && !seen[id] {
			if _, ok := st.base[id]; ok {
				return // initial objects: modified ones are roots
			}
			seen[id] = true
			work = append(work, id)
		}
	}
	visit = func(v Value) {
		switch x := v.(type) {
		case PtrV:
			mark(x.obj)
		case SliceV:
			mark(x.base.obj)
		case *StructV:
			for _, f := range x.f {
				visit(f)
			}
		case *ArrayV:
			if len(x.e) > 0 {
				if _, ok := x.e[0].(*Term); ok {
					return
				}
			}
			for _, f := range x.e {
				visit(f)
			}
		case TupleV:
			for _, f := range x {
				visit(f)
			}
		case IfaceV:
			visit(x.v)
		case *FuncV:
			if x != nil {
				for _, f := range x.bind {
					visit(f)
				}
				visit(x.recv)
			}
		case MapRef:
			mark(x.obj)
		case ChanRef:
			mark(x.obj)
		case IterRef:
			mark(x.obj)
		case *MapObj:
			for i := range x.keys {
				visit(x.keys[i])
				visit(x.vals[i])
			}
		case *ChanObj:
			for _, f := range x.buf {
				visit(f)
			}
		case *IterObj:
			mark(x.m)
			for _, f := range x.keys {
				visit(f)
			}
		case RValueV:
			visit(x.v)
			mark(x.addr.obj)
		case PoolV:
			for _, f := range x.items {
				visit(f)
			}
		}
	}
	for id, v := range st.over {
		if _, ok := st.base[id]; ok {
			visit(v)
		} else if st.e.globalIDs[id] {
			mark(id)
		}
	}
	for _, g := range st.gs {
		for _, f := range g.frames {
			for _, v := range f.regs {
				visit(v)
			}
			visit(f.retData)
			visit(f.results)
			visit(f.panicVal)
			for _, d := range f.defers {
				visit(d.fn)
				visit(d.recv)
				for _, a := range d.args {
					visit(a)
				}
			}
		}
	}
	for len(work) > 0 {
		id := work[len(work)-1]
		work = work[:len(work)-1]
		if v, ok := st.get(id); ok {
			visit(v)
		}
	}
	return seen
}

// onlySched: the conditions are about the scheduler's choices alone.
func onlySched(ts []*Term) bool {
	for _, t := range ts {
		for t.op == ONot {
			t = t.args[0]
		}
		switch t.op {
		case OVar:
			if !strings.HasPrefix(t.name, "sched#") {
				return false
			}
		case OConst:
		default:
			if len(t.args) == 0 || !onlySched(t.args) {
				return false
			}
		}
	}
	return true
}
