package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Concurrency: goroutines run until a visible operation, where they park; when all are
// parked, a symbolic scheduler variable picks one enabled transition.

type Comm struct {
	send bool
	ch   ObjID
	val  Value
	alt  int
}

type PendOp struct {
	kind   string
	ptr    PtrV
	comms  []Comm
	hasDef bool
}

func (st *State) live() int {
	n := 0
	for _, g := range st.gs {
		if !g.done {
			n++
		}
	}
	return n
}

// visible parks the current goroutine unless it has been granted.
func (e *Eng) visible(st *State) {
	if st.grant != nil && st.grant.g == st.cur {
		return
	}
	g := st.g()
	g.parked = true
	panic(parkSig{})
}

// dropGrant consumes a grant whose operation needs no scheduling any more.
func (st *State) dropGrant() {
	if st.grant != nil && st.grant.g == st.cur {
		st.grant = nil
	}
}

func (st *State) takeGrant() Grant {
	g := *st.grant
	st.grant = nil
	return g
}

func (e *Eng) chanObj(st *State, c ChanRef) *ChanObj {
	v, ok := st.get(c.obj)
	if !ok {
		panic("dangling channel")
	}
	o, ok := v.(*ChanObj)
	if !ok {
		unsupported("channel object %T", v)
	}
	return o
}

var opKinds = map[string]string{
	"(*sync.Mutex).Lock":      "lock",
	"(*sync.RWMutex).Lock":    "lock",
	"(*sync.RWMutex).RLock":   "rlock",
	"(*sync.WaitGroup).Wait":  "wgwait",
	"(*sync.Cond).Wait":       "condwait",
	"(*sync.Cond).Signal":     "always",
	"(*sync.Cond).Broadcast":  "always",
	"(*sync.Mutex).TryLock":   "always",
	"(*sync.RWMutex).TryLock": "always",
	"reflect.Select":          "rselect",
	"(reflect.Value).Send":    "rsend",
	"(reflect.Value).TrySend": "rtrysend",
	"(reflect.Value).Recv":    "rrecv",
	"(reflect.Value).TryRecv": "rtryrecv",
	"flychain/zzverif.Quiesce": "quiesce",
	"flychain/zzverif.Yield":   "always",
	"time.Sleep":               "always",
	"runtime.Gosched":          "always",
}

func chanOf(v Value) ObjID {
	switch c := v.(type) {
	case ChanRef:
		return c.obj
	case IfaceV:
		return chanOf(c.v)
	case RValueV:
		return chanOf(c.v)
	}
	return 0
}

func (e *Eng) pend(st *State, g *Goroutine) *PendOp {
	f := g.frames[len(g.frames)-1]
	in := f.blk.Instrs[f.idx]
	switch x := in.(type) {
	case *ssa.Send:
		return &PendOp{kind: "comm", comms: []Comm{{true, chanOf(e.val(st, f, x.Chan)), e.val(st, f, x.X), 0}}}
	case *ssa.UnOp:
		return &PendOp{kind: "comm", comms: []Comm{{false, chanOf(e.val(st, f, x.X)), nil, 0}}}
	case *ssa.Select:
		p := &PendOp{kind: "comm", hasDef: !x.Blocking}
		for i, s := range x.States {
			c := Comm{send: s.Dir == types.SendOnly, ch: chanOf(e.val(st, f, s.Chan)), alt: i}
			if c.send {
				c.val = e.val(st, f, s.Send)
			}
			p.comms = append(p.comms, c)
		}
		return p
	case *ssa.Call:
		if _, ok := x.Call.Value.(*ssa.Builtin); ok && !x.Call.IsInvoke() {
			return &PendOp{kind: "always"}
		}
		fv, args := e.callee(st, f, &x.Call)
		return e.pendCall(st, g, fv, args)
	case *ssa.RunDefers:
		d := f.defers[len(f.defers)-1]
		if d.bi != nil {
			return &PendOp{kind: "always"}
		}
		return e.pendCall(st, g, d.fn.(*FuncV), d.args)
	case *ssa.Go:
		return &PendOp{kind: "always"}
	}
	if f.panicking && len(f.defers) > 0 {
		d := f.defers[len(f.defers)-1]
		if d.bi != nil {
			return &PendOp{kind: "always"}
		}
		return e.pendCall(st, g, d.fn.(*FuncV), d.args)
	}
	unsupported("parked at %T", in)
	return nil
}

func (e *Eng) pendCall(st *State, g *Goroutine, fv *FuncV, args []Value) *PendOp {
	if fv.native != "" {
		return &PendOp{kind: "always"}
	}
	name := fv.fn.String()
	if fv.fn.Origin() != nil {
		name = fv.fn.Origin().String()
	}
	k := opKinds[name]
	switch k {
	case "lock", "rlock", "wgwait":
		return &PendOp{kind: k, ptr: args[0].(PtrV)}
	case "condwait":
		return &PendOp{kind: k, ptr: args[0].(PtrV)}
	case "rselect":
		p := &PendOp{kind: "comm"}
		for i, c := range e.sliceElems(st, args[0].(SliceV)) {
			s := c.(*StructV) // Dir, Chan, Send
			dir := s.f[0].(*Term).u
			ch := s.f[1].(RValueV)
			switch dir {
			case 1: // SelectSend
				sv := s.f[2].(RValueV)
				if ch.t == nil {
					continue
				}
				if sv.t == nil {
					panic(goPanic{e.rtErr("reflect.Select: SendDir case missing Send value")})
				}
				p.comms = append(p.comms, Comm{true, chanOf(ch.v), e.toElem(ch.t, sv), i})
			case 2:
				if ch.t == nil {
					continue
				}
				p.comms = append(p.comms, Comm{false, chanOf(ch.v), nil, i})
			case 3:
				p.hasDef = true
			}
		}
		return p
	case "rsend", "rtrysend":
		ch := args[0].(RValueV)
		return &PendOp{kind: "comm", hasDef: k == "rtrysend", comms: []Comm{{true, chanOf(ch.v), e.toElem(ch.t, args[1].(RValueV)), 0}}}
	case "rrecv", "rtryrecv":
		ch := args[0].(RValueV)
		return &PendOp{kind: "comm", hasDef: k == "rtryrecv", comms: []Comm{{false, chanOf(ch.v), nil, 0}}}
	case "quiesce":
		return &PendOp{kind: k}
	}
	return &PendOp{kind: "always"}
}

// toElem converts a reflect value to the channel's element type.
func (e *Eng) toElem(ct types.Type, v RValueV) Value {
	el := ct.Underlying().(*types.Chan).Elem()
	if v.t == nil {
		panic(goPanic{e.rtErr("reflect: send using zero Value argument")})
	}
	if _, ok := el.Underlying().(*types.Interface); ok {
		if _, isI := v.t.Underlying().(*types.Interface); isI {
			return v.v
		}
		return IfaceV{v.t, v.v}
	}
	if !types.AssignableTo(v.t, el) {
		panic(goPanic{e.rtErr("reflect.Value.Send: value of type " + v.t.String() + " is not assignable to type " + el.String())})
	}
	return v.v
}

// grants enumerates enabled transitions.
func (e *Eng) grants(st *State) (out []Grant, desc []string) {
	ops := make([]*PendOp, len(st.gs))
	for i, g := range st.gs {
		if !g.done && g.parked && len(g.frames) > 0 {
			ops[i] = e.pend(st, g)
		}
	}
	for i, g := range st.gs {
		p := ops[i]
		if p == nil {
			continue
		}
		add := func(gr Grant, d string) {
			out = append(out, gr)
			desc = append(desc, d)
		}
		switch p.kind {
		case "always":
			add(Grant{i, 0, -1, 0}, "op")
		case "lock":
			m := e.load(st, p.ptr).(MutexV)
			if !m.locked && m.readers == 0 {
				add(Grant{i, 0, -1, 0}, "lock")
			}
		case "rlock":
			m := e.load(st, p.ptr).(MutexV)
			if !m.locked {
				add(Grant{i, 0, -1, 0}, "rlock")
			}
		case "wgwait":
			if e.load(st, p.ptr).(WGV).n == 0 {
				add(Grant{i, 0, -1, 0}, "wgwait")
			}
		case "condwait":
			switch g.wait {
			case 0:
				add(Grant{i, 0, -1, 0}, "cond.wait")
			case 2:
				lk := e.condLocker(st, p.ptr)
				if lk.isNil() {
					unsupported("cond locker")
				}
				m := e.load(st, lk).(MutexV)
				if !m.locked && m.readers == 0 {
					add(Grant{i, 1, -1, 0}, "cond.wake")
				}
			}
		case "comm":
			definite := false
			for _, c := range p.comms {
				if c.ch == 0 {
					continue
				}
				o := e.chanObj(st, ChanRef{c.ch})
				if c.send {
					if o.closed || len(o.buf) < o.cap {
						definite = true
						add(Grant{i, c.alt, -1, 0}, "send")
						continue
					}
					if o.cap == 0 {
						for j, q := range ops {
							if q == nil || j == i || q.kind != "comm" {
								continue
							}
							for _, d := range q.comms {
								if !d.send && d.ch == c.ch {
									add(Grant{i, c.alt, j, d.alt}, fmt.Sprintf("rendezvous->g%d", j))
								}
							}
						}
					}
				} else {
					if o.armed {
						add(Grant{i, c.alt, -1, 0}, "timer fires")
					}
					if len(o.buf) > 0 || o.closed {
						definite = true
						add(Grant{i, c.alt, -1, 0}, "recv")
					}
				}
			}
			if p.hasDef && !definite {
				add(Grant{i, -1, -1, 0}, "default")
			}
		}
	}
	return
}

// schedule picks the next goroutine; false when the state left the run.
func (e *Eng) schedule(st *State) bool {
	for i, g := range st.gs {
		if !g.done && !g.parked {
			st.cur = i
			return true
		}
	}
	if st.gs[0].done {
		e.stats.Paths++
		e.certEnd(st)
		return false
	}
	st.cur = 0
	if !st.schedReady {
		st.schedReady = true
		if len(e.work) > 0 && st.live() > 1 {
			e.push(st)
			return false
		}
	}
	gr, desc := e.grants(st)
	if len(gr) == 0 {
		// only quiesce waiters may proceed
		for i, g := range st.gs {
			if g.done || len(g.frames) == 0 {
				continue
			}
			if e.pend(st, g).kind == "quiesce" {
				gr = []Grant{{i, 0, -1, 0}}
				desc = []string{"quiesce"}
				break
			}
		}
	}
	if len(gr) == 0 {
		msg := "deadlock: no goroutine can proceed"
		e.violation(st, nil, msg, e.where(st))
		e.stats.Paths++
		return false
	}
	pick := 0
	if len(gr) > 1 {
		nm := fmt.Sprintf("sched#%d", st.steps)
		if len(gr) > 250 {
			unsupported("too many transitions")
		}
		t := e.c.Var(nm, 8)
		pick = e.choose(st, t, len(gr))
	}
	e.stats.Transitions++
	g := gr[pick]
	st.schedReady = false
	if st.live() > 1 {
		st.steps++
		where := ""
		fr := st.gs[g.g].frames
		if len(fr) > 0 {
			f := fr[len(fr)-1]
			p := e.prog.Fset.Position(f.blk.Instrs[f.idx].Pos())
			where = fmt.Sprintf("%s:%d", shortPath(p.Filename), p.Line)
		}
		st.trace = &TraceEl{fmt.Sprintf("g%d %s %s", st.gs[g.g].id, desc[pick], where), st.trace}
	}
	if st.steps > e.maxSteps {
		e.inconclusive(fmt.Sprintf("schedule length bound %d exceeded", e.maxSteps))
		panic(deadSig{"steps"})
	}
	st.grant = &g
	st.cur = g.g
	gg := st.g()
	gg.parked = false
	return true
}

func (e *Eng) closeChan(st *State, c ChanRef) {
	e.visible(st)
	st.takeGrant()
	if c.obj == 0 {
		e.plainPanic("close of nil channel")
	}
	o := e.chanObj(st, c)
	if o.closed {
		e.plainPanic("close of closed channel")
	}
	st.put(c.obj, &ChanObj{o.buf, o.cap, true, o.armed})
	e.release(st, SyncKey{c.obj, 2, 0})
}

func (e *Eng) plainPanic(msg string) { panic(goPanic{e.rtErr(msg)}) }

func chanElem(t types.Type) types.Type { return t.Underlying().(*types.Chan).Elem() }

// doSend performs a granted send.
func (e *Eng) doSend(st *State, gr Grant, ch ObjID, v Value) {
	o := e.chanObj(st, ChanRef{ch})
	if o.closed {
		e.plainPanic("send on closed channel")
	}
	if gr.part >= 0 {
		e.syncPair(st, gr.part)
		e.completeRecv(st, gr.part, gr.palt, v, true)
		return
	}
	st.put(ch, &ChanObj{append(append([]Value{}, o.buf...), v), o.cap, o.closed, o.armed})
	e.syncChan(st, ch, o.cap, true)
}

func (e *Eng) doRecv(st *State, ch ObjID, zero Value) (Value, bool) {
	o := e.chanObj(st, ChanRef{ch})
	if len(o.buf) > 0 {
		v := o.buf[0]
		e.syncChan(st, ch, o.cap, false)
		st.put(ch, &ChanObj{append([]Value{}, o.buf[1:]...), o.cap, o.closed, o.armed})
		return v, true
	}
	if o.armed {
		st.put(ch, &ChanObj{cap: o.cap})
		return zero, true
	}
	e.acquire(st, SyncKey{ch, 2, 0})
	return zero, false
}

// completeRecv finishes the receive of a parked partner.
func (e *Eng) completeRecv(st *State, gid, alt int, v Value, ok bool) {
	g := st.ownG(gid)
	f := st.own(g, len(g.frames)-1)
	g.parked = false
	e.finish(f, e.recvResult(st, f, alt, v, ok))
}

func (e *Eng) recvResult(st *State, f *Frame, alt int, v Value, ok bool) Value {
	switch x := f.blk.Instrs[f.idx].(type) {
	case *ssa.UnOp:
		if x.CommaOk {
			return TupleV{v, e.c.Bool(ok)}
		}
		return v
	case *ssa.Select:
		return e.selectResult(st, x, alt, v, ok)
	case *ssa.Call:
		fv, args := e.callee(st, f, &x.Call)
		switch fv.fn.String() {
		case "reflect.Select":
			el := e.sliceElems(st, args[0].(SliceV))
			ct := el[alt].(*StructV).f[1].(RValueV).t
			return TupleV{e.c.BV(64, uint64(alt)), RValueV{t: chanElem(ct), v: v}, e.c.Bool(ok)}
		case "(reflect.Value).Recv", "(reflect.Value).TryRecv":
			return TupleV{RValueV{t: chanElem(args[0].(RValueV).t), v: v}, e.c.Bool(ok)}
		}
	}
	unsupported("receive completion")
	return nil
}

func (e *Eng) selectResult(st *State, x *ssa.Select, alt int, v Value, ok bool) Value {
	r := TupleV{e.c.BV(64, uint64(int64(alt))), e.c.Bool(ok)}
	for i, s := range x.States {
		if s.Dir == types.SendOnly {
			continue
		}
		if i == alt {
			r = append(r, v)
		} else {
			r = append(r, e.zero(chanElem(s.Chan.Type())))
		}
	}
	return r
}

func (e *Eng) execSend(st *State, f *Frame, x *ssa.Send) {
	gr := st.takeGrant()
	e.doSend(st, gr, chanOf(e.val(st, f, x.Chan)), e.val(st, f, x.X))
	e.finish(st.top(), nil)
}

func (e *Eng) execRecv(st *State, f *Frame, x *ssa.UnOp) {
	st.takeGrant()
	v, ok := e.doRecv(st, chanOf(e.val(st, f, x.X)), e.zero(chanElem(x.X.Type())))
	e.finish(f, e.recvResult(st, f, 0, v, ok))
}

func (e *Eng) execSelect(st *State, f *Frame, x *ssa.Select) {
	gr := st.takeGrant()
	if gr.alt < 0 {
		e.finish(f, e.selectResult(st, x, -1, nil, false))
		return
	}
	s := x.States[gr.alt]
	if s.Dir == types.SendOnly {
		e.doSend(st, gr, chanOf(e.val(st, f, s.Chan)), e.val(st, f, s.Send))
		f = st.top()
		e.finish(f, e.selectResult(st, x, gr.alt, nil, false))
		return
	}
	v, ok := e.doRecv(st, chanOf(e.val(st, f, s.Chan)), e.zero(chanElem(s.Chan.Type())))
	e.finish(f, e.selectResult(st, x, gr.alt, v, ok))
}

func (e *Eng) execGo(st *State, f *Frame, x *ssa.Go) {
	cc := &x.Call
	if b, ok := cc.Value.(*ssa.Builtin); ok && !cc.IsInvoke() {
		unsupported("go builtin %s", b.Name())
	}
	fv, args := e.callee(st, f, cc)
	e.spawn(st, fv, args)
	f = st.top()
	f.idx++
	f.seq = 0
}

func (e *Eng) spawn(st *State, fv *FuncV, args []Value) {
	if fv == nil || fv.native != "" || fv.fn.Blocks == nil {
		if fv != nil && fv.native == "" && fv.fn.Pkg != nil {
			e.ld.ensureBuilt(fv.fn.Pkg)
		}
		if fv == nil || fv.native != "" || fv.fn.Blocks == nil {
			unsupported("go of native function")
		}
	}
	if len(st.gs) > 12 {
		unsupported("too many goroutines")
	}
	h := mix(st.top().locHash(), 0x60)
	id := len(st.gs)
	fi := e.info(fv.fn)
	e.funcs[fi]++
	nf := &Frame{fi: fi, regs: make([]Value, fi.nreg), blk: fv.fn.Blocks[0], cnt: make([]int32, fi.nloops), tok: st.tok, hash: mix(h, fi.id)}
	for i := range fv.fn.Params {
		nf.regs[i] = args[i]
	}
	for i := range fv.fn.FreeVars {
		nf.regs[len(fv.fn.Params)+i] = fv.bind[i]
	}
	ng := &Goroutine{id: id, frames: []*Frame{nf}, tok: st.tok}
	if e.exact {
		g := st.g()
		if g.vc.at(g.id) == 0 {
			tick(g)
		}
		ng.vc = g.vc
		tick(ng)
		tick(g)
	}
	st.gs = append(append([]*Goroutine{}, st.gs...), ng)
}

func (e *Eng) condLocker(st *State, p PtrV) PtrV {
	// sync.Cond{noCopy, L Locker, notify, checker}
	c := e.load(st, p).(*StructV)
	for _, f := range c.f {
		if iv, ok := f.(IfaceV); ok && iv.t != nil {
			if q, ok := iv.v.(PtrV); ok {
				return q
			}
		}
	}
	return PtrV{}
}

func (e *Eng) condField(st *State, p PtrV) (PtrV, CondV) {
	c := e.load(st, p).(*StructV)
	for i, f := range c.f {
		if cv, ok := f.(CondV); ok {
			return PtrV{p.obj, appendPath(p.path, PE{i: i})}, cv
		}
	}
	unsupported("cond layout")
	return PtrV{}, CondV{}
}

var _ = token.ADD
