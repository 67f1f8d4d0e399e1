package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Data races: plain memory accesses are no scheduling points, which is sound only where accesses of
// different goroutines are ordered by synchronisation. Every goroutine carries a vector clock and the
// list of its accesses; an access that is not ordered after a conflicting access of another
// goroutine is reported. States that merge keep the clocks of one of the schedules that reach them.

type VC []int32

func (v VC) at(i int) int32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func joinVC(a, b VC) VC {
	le := len(b) <= len(a)
	if le {
		for i := range b {
			if b[i] > a[i] {
				le = false
				break
			}
		}
		if le {
			return a
		}
	}
	n := make(VC, max(len(a), len(b)))
	for i := range n {
		n[i] = max(a.at(i), b.at(i))
	}
	return n
}

type AccNode struct {
	obj   ObjID
	path  []PE
	write bool
	clk   int32
	fn    *ssa.Function
	in    ssa.Instruction
	prev  *AccNode
}

type SyncKey struct {
	obj  ObjID
	path uint64
	k    int
}

type SyncEnt struct {
	vc           VC
	sends, recvs int
}

func (e *Eng) racing(st *State) bool { return e.exact && len(st.gs) > 1 }

func tick(g *Goroutine) {
	n := make(VC, max(len(g.vc), g.id+1))
	copy(n, g.vc)
	n[g.id]++
	g.vc = n
}

func (st *State) setSync(k SyncKey, x SyncEnt) {
	n := make(map[SyncKey]SyncEnt, len(st.sync)+1)
	for a, b := range st.sync {
		n[a] = b
	}
	n[k] = x
	st.sync = n
}

func (e *Eng) acquire(st *State, k SyncKey) {
	if !e.exact {
		return
	}
	if x, ok := st.sync[k]; ok && len(x.vc) > 0 {
		g := st.g()
		g.vc = joinVC(g.vc, x.vc)
	}
}

func (e *Eng) release(st *State, k SyncKey) {
	if !e.exact {
		return
	}
	g := st.g()
	if g.vc.at(g.id) == 0 {
		tick(g)
	}
	x := st.sync[k]
	x.vc = joinVC(x.vc, g.vc)
	st.setSync(k, x)
	tick(g)
}

func (e *Eng) acqRel(st *State, k SyncKey) { e.acquire(st, k); e.release(st, k) }

func ptrKey(p PtrV, k int) SyncKey { return SyncKey{p.obj, pathHash(p.path), k} }

func (e *Eng) syncAcq(st *State, p PtrV, k int) { e.acquire(st, ptrKey(p, k)) }
func (e *Eng) syncRel(st *State, p PtrV, k int) { e.release(st, ptrKey(p, k)) }

// syncChan orders a buffered channel operation through the buffer slot it uses.
func (e *Eng) syncChan(st *State, ch ObjID, cap int, send bool) {
	if !e.exact || cap == 0 {
		return
	}
	ck := SyncKey{ch, 0, -1}
	x := st.sync[ck]
	i := x.recvs
	if send {
		i = x.sends
		x.sends = (i + 1) % cap
	} else {
		x.recvs = (i + 1) % cap
	}
	st.setSync(ck, x)
	e.acqRel(st, SyncKey{ch, 1, i})
}

// syncPair orders both sides of a rendezvous.
func (e *Eng) syncPair(st *State, part int) {
	if !e.exact {
		return
	}
	g, h := st.g(), st.ownG(part)
	for _, x := range []*Goroutine{g, h} {
		if x.vc.at(x.id) == 0 {
			tick(x)
		}
	}
	v := joinVC(g.vc, h.vc)
	g.vc, h.vc = v, v
	tick(g)
	tick(h)
}

func overlap(a, b []PE) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i].sym != nil || b[i].sym != nil {
			continue
		}
		if a[i].i != b[i].i {
			return false
		}
	}
	return true
}

// access records a memory access of the current instruction.
func (e *Eng) access(st *State, p PtrV, write bool) {
	if !e.racing(st) || p.isNil() {
		return
	}
	g := st.g()
	f := g.frames[len(g.frames)-1]
	if g.vc.at(g.id) == 0 {
		tick(g)
	}
	for _, h := range st.gs {
		if h.id == g.id {
			continue
		}
		seen := g.vc.at(h.id)
		for n := h.acc; n != nil && n.clk > seen; n = n.prev {
			if n.obj == p.obj && (write || n.write) && overlap(n.path, p.path) {
				e.race(st, f, n, write)
			}
		}
	}
	c := g.vc.at(g.id)
	k := 0
	for n := g.acc; n != nil && n.clk == c && k < 24; n = n.prev {
		if n.obj == p.obj && (n.write || !write) && sameLoc(n.path, p.path) {
			return
		}
		k++
	}
	g.acc = &AccNode{p.obj, p.path, write, c, f.fi.fn, f.blk.Instrs[f.idx], g.acc}
}

func sameLoc(a, b []PE) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (e *Eng) accessSlice(st *State, s SliceV, off, n int, write bool) {
	if !e.racing(st) || s.base.isNil() {
		return
	}
	for i := 0; i < n; i++ {
		e.access(st, PtrV{s.base.obj, appendPath(s.base.path, PE{i: s.off + off + i})}, write)
	}
}

func harnessFn(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn.Pkg != nil && strings.Contains(fn.Pkg.Pkg.Path(), "zzverif")
}

func (e *Eng) race(st *State, f *Frame, n *AccNode, write bool) {
	if harnessFn(f.fi.fn) || harnessFn(n.fn) {
		return
	}
	kind := func(w bool) string {
		if w {
			return "write"
		}
		return "read"
	}
	p := e.prog.Fset.Position(n.in.Pos())
	e.violation(st, nil, fmt.Sprintf("data race: %s, unordered with the %s in %s (%s:%d)", kind(write), kind(n.write), n.fn.Name(), shortPath(p.Filename), p.Line), e.where(st))
}

// quiesced orders the caller after everything that has happened.
func (e *Eng) quiesced(st *State) {
	if !e.exact {
		return
	}
	g := st.g()
	for _, h := range st.gs {
		g.vc = joinVC(g.vc, h.vc)
	}
}
