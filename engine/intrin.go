package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type ICall struct {
	e       *Eng
	st      *State
	fn      *ssa.Function
	args    []Value
	retKind int
	site    ssa.CallInstruction
	pushed  bool
}

func (ic *ICall) t(i int) *Term { return ic.args[i].(*Term) }
func (ic *ICall) str(i int) StrV {
	return ic.e.forceStr(ic.st, ic.args[i]).(StrV)
}
func (ic *ICall) cstr(i int) string {
	s := ic.str(i)
	if s.sym != nil {
		unsupported("symbolic string argument to %s", ic.fn)
	}
	return s.s
}
func (ic *ICall) cint(i int) int { return ic.e.needInt(ic.st, ic.args[i]) }

// call pushes a Go function whose result becomes the result of this instruction.
func (ic *ICall) call(fv *FuncV, args ...Value) Value {
	v, done := ic.e.callFn(ic.st, fv, args, ic.retKind, ic.site)
	if done {
		return v
	}
	ic.pushed = true
	return nil
}

type intrinsic func(ic *ICall) Value

var intrinsics map[string]intrinsic

var unit = TupleV{}

func (ic *ICall) i64(n int) Value { return ic.e.c.BV(64, uint64(n)) }

// fresh creates the next input variable for a label.
func (e *Eng) fresh(st *State, label string, w int) *Term {
	n := st.label(label)
	return e.c.Var(fmt.Sprintf("%s#%d", label, n), w)
}

func (e *Eng) assume(st *State, c *Term) {
	if c == e.c.True {
		return
	}
	if c == e.c.False {
		panic(deadSig{"assume false"})
	}
	if !st.wit.EvalBool(c) {
		r, m := e.query(st, c)
		switch r {
		case Unsat:
			panic(deadSig{"assume"})
		case Unknown:
			e.inconclusive("solver unknown on assumption")
			panic(deadSig{"assume unknown"})
		}
		st.wit = m
	}
	st.addPC(c)
	st.setEq(c, e.c.True)
	e.certDomain(st, c)
}

func (e *Eng) assert(st *State, c *Term, msg string) {
	e.asserts[msg]++
	e.stats.Asserts++
	if c == e.c.True {
		return
	}
	if k, ok := st.eqs[c.id]; ok && k.u == 1 {
		return
	}
	n := e.c.Not(c)
	var r Res
	var m *Model
	if st.wit.EvalBool(n) {
		r, m = Sat, st.wit
	} else {
		e.curAssert = msg
		r, m = e.query(st, n)
	}
	switch r {
	case Sat:
		e.violation(st, m, "assertion failed: "+msg, e.where(st))
		// continue on the satisfying side
		if c == e.c.False {
			panic(deadSig{"assert"})
		}
		if !st.wit.EvalBool(c) {
			h, so := e.sol.hardMs, e.sol.softMs
			e.sol.hardMs, e.sol.softMs = 0, 1000
			r2, m2 := e.query(st, c)
			e.sol.hardMs, e.sol.softMs = h, so
			if r2 != Sat {
				panic(deadSig{"assert"})
			}
			st.wit = m2
		}
		st.addPC(c)
	case Unknown:
		e.inconclusive("solver unknown on assertion: " + msg)
		if st.wit.EvalBool(c) {
			st.addPC(c)
		}
	case Unsat:
		// valid on this path; remembering it is redundant but cheap
	}
	st.setEq(c, e.c.True)
}

const clockID = ObjID(0xC10C0001)

// clock returns an arbitrary non-decreasing instant (nanoseconds).
func (e *Eng) clock(st *State) *Term {
	v, ok := st.get(clockID)
	var last *Term
	if !ok {
		e.globalIDs[clockID] = true
		last = e.c.BV(64, 1)
	} else {
		last = v.(*Term)
	}
	if e.params["frozenclock"] != 0 {
		st.put(clockID, last)
		return last
	}
	d := e.fresh(st, "clock", 40)
	now := e.c.Add(last, e.c.Zext(64, d))
	st.put(clockID, now)
	return now
}

// uf applies an uninterpreted function (functional consistency is added to the path condition).
func (e *Eng) uf(st *State, name string, args []*Term, w int) *Term {
	key := fmt.Sprintf("%s/%d", name, len(args))
	for _, a := range e.ufs[key] {
		same := true
		for i := range args {
			if a.args[i] != args[i] {
				same = false
				break
			}
		}
		if same {
			return a.res
		}
	}
	res := e.c.Var(fmt.Sprintf("uf:%s@%d", key, len(e.ufs[key])), w)
	for _, a := range e.ufs[key] {
		var eqs []*Term
		for i := range args {
			eqs = append(eqs, e.c.Eq(a.args[i], args[i]))
		}
		e.ufAx = append(e.ufAx, e.c.Or(e.c.Not(e.c.And(eqs...)), e.c.Eq(a.res, res)))
	}
	e.ufs[key] = append(e.ufs[key], ufApp{args, res})
	return res
}

func init() {
	const V = "flychain/zzverif."
	intrinsics = map[string]intrinsic{
		// ---- harness runtime ----
		V + "Byte": func(ic *ICall) Value { return ic.e.fresh(ic.st, ic.cstr(0), 8) },
		V + "U16":  func(ic *ICall) Value { return ic.e.fresh(ic.st, ic.cstr(0), 16) },
		V + "U32":  func(ic *ICall) Value { return ic.e.fresh(ic.st, ic.cstr(0), 32) },
		V + "U64":  func(ic *ICall) Value { return ic.e.fresh(ic.st, ic.cstr(0), 64) },
		V + "I64":  func(ic *ICall) Value { return ic.e.fresh(ic.st, ic.cstr(0), 64) },
		V + "Int":  func(ic *ICall) Value { return ic.e.fresh(ic.st, ic.cstr(0), 64) },
		V + "I8":   func(ic *ICall) Value { return ic.e.fresh(ic.st, ic.cstr(0), 8) },
		V + "Bool": func(ic *ICall) Value { return ic.e.fresh(ic.st, ic.cstr(0), 0) },
		V + "Bytes": func(ic *ICall) Value {
			n := ic.cint(1)
			l := ic.cstr(0)
			b := make([]*Term, n)
			for i := range b {
				b[i] = ic.e.fresh(ic.st, l, 8)
			}
			return ic.e.newBytes(ic.st, b)
		},
		V + "Str": func(ic *ICall) Value {
			n := ic.cint(1)
			l := ic.cstr(0)
			b := make([]*Term, n)
			for i := range b {
				b[i] = ic.e.fresh(ic.st, l, 8)
			}
			return mkStr(b)
		},
		V + "Choice": func(ic *ICall) Value {
			lo, hi := ic.cint(1), ic.cint(2)
			l := ic.cstr(0)
			nm := fmt.Sprintf("%s#%d", l, ic.st.labels[l])
			if lo == hi {
				ic.st.label(l)
				return ic.i64(lo)
			}
			t := ic.e.c.Var(nm, 16)
			k := ic.e.choose(ic.st, t, hi-lo+1)
			ic.st.label(l)
			ic.st.variant = mix(ic.st.variant, uint64(k)+1)
			if n := ic.e.params["shards"]; n > 1 && ic.st.nchoice < ic.e.shardDepth() {
				ic.st.nchoice++
				if ic.st.nchoice == ic.e.shardDepth() && int((ic.st.variant>>20)%uint64(n)) != ic.e.params["shard"] {
					panic(deadSig{"other shard"})
				}
			}
			return ic.i64(lo + k)
		},
		V + "IntIn": func(ic *ICall) Value {
			lo, hi := ic.t(1), ic.t(2)
			if lo.op == OConst && hi.op == OConst && int64(lo.u) >= 0 && int64(hi.u) >= int64(lo.u) {
				l := ic.cstr(0)
				n := ic.st.label(l)
				return ic.e.c.VarR(fmt.Sprintf("%s#%d", l, n), 64, lo.u, hi.u)
			}
			t := ic.e.fresh(ic.st, ic.cstr(0), 64)
			ic.e.assume(ic.st, ic.e.c.And(ic.e.c.Sle(lo, t), ic.e.c.Sle(t, hi)))
			return t
		},
		V + "Param": func(ic *ICall) Value {
			if v, ok := ic.e.params[ic.cstr(0)]; ok {
				return ic.i64(v)
			}
			return ic.args[1]
		},
		V + "Assume": func(ic *ICall) Value { ic.e.assume(ic.st, ic.t(0)); return unit },
		V + "Assert": func(ic *ICall) Value { ic.e.assert(ic.st, ic.t(0), ic.cstr(1)); return unit },
		V + "Reach":  func(ic *ICall) Value { ic.e.reached[ic.cstr(0)] = true; return unit },
		V + "And": func(ic *ICall) Value {
			var ts []*Term
			for _, v := range ic.e.sliceElems(ic.st, ic.args[0].(SliceV)) {
				ts = append(ts, v.(*Term))
			}
			return ic.e.c.And(ts...)
		},
		V + "Or": func(ic *ICall) Value {
			var ts []*Term
			for _, v := range ic.e.sliceElems(ic.st, ic.args[0].(SliceV)) {
				ts = append(ts, v.(*Term))
			}
			return ic.e.c.Or(ts...)
		},
		V + "Implies": func(ic *ICall) Value { return ic.e.c.Implies(ic.t(0), ic.t(1)) },
		V + "IteU64":  func(ic *ICall) Value { return ic.e.c.Ite(ic.t(0), ic.t(1), ic.t(2)) },
		V + "IteByte": func(ic *ICall) Value { return ic.e.c.Ite(ic.t(0), ic.t(1), ic.t(2)) },
		V + "IteInt":  func(ic *ICall) Value { return ic.e.c.Ite(ic.t(0), ic.t(1), ic.t(2)) },
		V + "EqStr": func(ic *ICall) Value {
			return ic.e.eqVal(types.Typ[types.String], ic.args[0], ic.args[1])
		},
		V + "EqBytes": func(ic *ICall) Value {
			a, b := ic.args[0].(SliceV), ic.args[1].(SliceV)
			if a.n != b.n {
				return ic.e.c.False
			}
			x, y := ic.e.bytesOf(ic.st, a), ic.e.bytesOf(ic.st, b)
			var r []*Term
			for i := range x {
				r = append(r, ic.e.c.Eq(x[i], y[i]))
			}
			return ic.e.c.And(r...)
		},
		V + "Quiesce": func(ic *ICall) Value {
			if ic.st.live() <= 1 {
				ic.st.dropGrant()
				ic.e.quiesced(ic.st)
			return unit
			}
			ic.e.visible(ic.st)
			ic.st.takeGrant()
			ic.e.quiesced(ic.st)
			return unit
		},
		V + "Yield": func(ic *ICall) Value {
			if ic.st.live() <= 1 {
				ic.st.dropGrant()
				return unit
			}
			ic.e.visible(ic.st)
			ic.st.takeGrant()
			return unit
		},
		"(*flychain/zzverif.Atomic).Lock":   func(ic *ICall) Value { return unit },
		"(*flychain/zzverif.Atomic).Unlock": func(ic *ICall) Value { return unit },
		V + "Symbolic":    func(ic *ICall) Value { return ic.e.c.True },
		V + "Unsupported": func(ic *ICall) Value { unsupported("harness: %s", ic.cstr(0)); return nil },
		V + "keccakUF": func(ic *ICall) Value {
			b := ic.e.bytesOf(ic.st, ic.args[0].(SliceV))
			r := ic.e.uf(ic.st, "keccak256", b, 256)
			for _, ax := range ic.e.ufAx {
				ic.e.assume(ic.st, ax)
			}
			ic.e.ufAx = nil
			out := make([]Value, 32)
			for i := range out {
				out[i] = ic.e.c.Extract(255-8*i, 248-8*i, r)
			}
			return &ArrayV{out}
		},
		V + "ExpectExit": func(ic *ICall) Value { ic.st.labels[exitLabel] = ic.cint(0) + 1; return nil },
		V + "Advance": func(ic *ICall) Value {
			e, st := ic.e, ic.st
			last := e.c.BV(64, 1)
			if v, ok := st.get(clockID); ok {
				last = v.(*Term)
			}
			e.globalIDs[clockID] = true
			st.put(clockID, e.c.Add(last, ic.args[0].(*Term)))
			return nil
		},
		V + "Duration": func(ic *ICall) Value { // duration passed to the i-th timer created
			v, ok := ic.st.get(timerLogID)
			if !ok {
				return ic.e.c.BV(64, ^uint64(0))
			}
			l := v.(*ArrayV)
			i := ic.cint(0)
			if i >= len(l.e) {
				return ic.e.c.BV(64, ^uint64(0))
			}
			return l.e[i]
		},

		V + "xLen": func(ic *ICall) Value { return ic.i64(ic.args[0].(IfaceV).v.(SliceV).n) },
		V + "xSwap": func(ic *ICall) Value {
			s := ic.args[0].(IfaceV).v.(SliceV)
			i, j := ic.cint(1), ic.cint(2)
			el := append([]Value{}, ic.e.sliceElems(ic.st, s)...)
			el[i], el[j] = el[j], el[i]
			ic.e.writeSlice(ic.st, s, 0, el)
			return unit
		},
		// ---- runtime ----
		"runtime.KeepAlive":      func(ic *ICall) Value { return unit },
		"runtime.GC":             func(ic *ICall) Value { return unit },
		"runtime.SetFinalizer":   func(ic *ICall) Value { return unit },
		"runtime.Caller":         func(ic *ICall) Value { return ic.zeroRes() },
		"runtime.Callers":        func(ic *ICall) Value { return ic.i64(0) },
		"runtime.Gosched":        func(ic *ICall) Value { return ic.visOp() },
		"runtime.Goexit":         func(ic *ICall) Value { f := ic.st.top(); f.panicking = true; f.goexit = true; f.panicVal = IfaceV{}; ic.pushed = true; return nil },
		"internal/abi.NoEscape":  func(ic *ICall) Value { return ic.args[0] },
		"internal/abi.Escape":    func(ic *ICall) Value { return ic.args[0] },
		"strings.noescape":       func(ic *ICall) Value { return ic.args[0] },
		"os.Getenv":              func(ic *ICall) Value { return StrV{} },
		"os.Exit": func(ic *ICall) Value {
			if ic.st.labels[exitLabel] == ic.cint(0)+1 {
				ic.e.finished(ic.st)
				panic(deadSig{"expected exit"})
			}
			ic.e.violation(ic.st, nil, "process exit", ic.e.where(ic.st))
			panic(deadSig{"exit"})
		},
		"internal/godebug.New":   func(ic *ICall) Value { return PtrV{obj: ic.st.newObj(Opaque{"godebug setting"})} },
		"(*internal/godebug.Setting).Value": func(ic *ICall) Value { return StrV{} },
		"(*internal/godebug.Setting).IncNonDefault": func(ic *ICall) Value { return unit },
		"github.com/go-stack/stack.Caller": func(ic *ICall) Value { return ic.stackCaller(ic.cint(0)) },
		"strconv.IsPrint":                  func(ic *ICall) Value { return ic.e.runeIn(ic.t(0), strconv.IsPrint) },
		"github.com/go-stack/stack.Trace":  func(ic *ICall) Value { return ic.zeroRes() },
		"runtime/debug.Stack":              func(ic *ICall) Value { return ic.zeroRes() },
		"runtime/debug.PrintStack":         func(ic *ICall) Value { return unit },

		// ---- time ----
		"time.Now": func(ic *ICall) Value {
			now := ic.e.clock(ic.st)
			t := ic.e.zero(ic.fn.Signature.Results().At(0).Type()).(*StructV)
			return &StructV{[]Value{ic.e.c.BV(64, 1<<63), now, t.f[2]}}
		},
		"time.now":                         nil,
		"time.Sleep":                       func(ic *ICall) Value { return ic.visOp() },
		"time.runtimeNano":                 func(ic *ICall) Value { return ic.e.clock(ic.st) },
		"flychain/common/mclock.nanotime": func(ic *ICall) Value { return ic.e.clock(ic.st) },
		"time.NewTimer": func(ic *ICall) Value {
			e, st := ic.e, ic.st
			var log []Value
			if v, ok := st.get(timerLogID); ok {
				log = v.(*ArrayV).e
			}
			e.globalIDs[timerLogID] = true
			st.put(timerLogID, &ArrayV{append(append([]Value{}, log...), ic.args[0])})
			tt := ic.fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
			s := e.zero(tt).(*StructV)
			f := append([]Value{}, s.f...)
			ch := st.newObj(&ChanObj{cap: 1, armed: true})
			f[0] = ChanRef{ch}
			return PtrV{obj: st.newObj(&StructV{f})}
		},
		"(*time.Timer).Stop": func(ic *ICall) Value {
			s := ic.e.load(ic.st, ic.args[0].(PtrV)).(*StructV)
			ch := s.f[0].(ChanRef)
			o := ic.e.chanObj(ic.st, ch)
			ic.st.put(ch.obj, &ChanObj{cap: 1})
			return ic.e.c.Bool(o.armed)
		},
		"(*time.Timer).Reset": func(ic *ICall) Value {
			s := ic.e.load(ic.st, ic.args[0].(PtrV)).(*StructV)
			ch := s.f[0].(ChanRef)
			o := ic.e.chanObj(ic.st, ch)
			ic.st.put(ch.obj, &ChanObj{cap: 1, armed: true})
			return ic.e.c.Bool(o.armed)
		},

		// ---- sync ----
		"(*sync.Mutex).Lock":     lockOp,
		"(*sync.RWMutex).Lock":   lockOp,
		"(*sync.Mutex).Unlock":   unlockOp,
		"(*sync.RWMutex).Unlock": unlockOp,
		"(*sync.Mutex).TryLock":  tryLockOp,
		"(*sync.RWMutex).RLock": func(ic *ICall) Value {
			p := ic.args[0].(PtrV)
			ic.e.load(ic.st, p)
			ic.e.visible(ic.st)
			ic.st.takeGrant()
			m := ic.e.load(ic.st, p).(MutexV)
			m.readers++
			ic.e.store(ic.st, p, m)
			ic.e.syncAcq(ic.st, p, 0)
			return unit
		},
		"(*sync.RWMutex).RUnlock": func(ic *ICall) Value {
			p := ic.args[0].(PtrV)
			m := ic.e.load(ic.st, p).(MutexV)
			if m.readers == 0 {
				ic.e.plainPanic("sync: RUnlock of unlocked RWMutex")
			}
			m.readers--
			ic.e.store(ic.st, p, m)
			ic.e.syncRel(ic.st, p, 1)
			return unit
		},
		"(*sync.WaitGroup).Add": func(ic *ICall) Value {
			p := ic.args[0].(PtrV)
			w := ic.e.load(ic.st, p).(WGV)
			w.n += ic.cint(1)
			if w.n < 0 {
				ic.e.plainPanic("sync: negative WaitGroup counter")
			}
			ic.e.store(ic.st, p, w)
			ic.e.syncRel(ic.st, p, 0)
			return unit
		},
		"(*sync.WaitGroup).Done": func(ic *ICall) Value {
			p := ic.args[0].(PtrV)
			w := ic.e.load(ic.st, p).(WGV)
			w.n--
			if w.n < 0 {
				ic.e.plainPanic("sync: negative WaitGroup counter")
			}
			ic.e.store(ic.st, p, w)
			ic.e.syncRel(ic.st, p, 0)
			return unit
		},
		"(*sync.WaitGroup).Wait": func(ic *ICall) Value {
			ic.e.visible(ic.st)
			ic.st.takeGrant()
			ic.e.syncAcq(ic.st, ic.args[0].(PtrV), 0)
			return unit
		},
		"(*sync.Cond).Wait": func(ic *ICall) Value {
			e, st := ic.e, ic.st
			e.visible(st)
			gr := st.takeGrant()
			p := ic.args[0].(PtrV)
			lk := e.condLocker(st, p)
			g := st.g()
			if gr.alt == 0 {
				m := e.load(st, lk).(MutexV)
				if !m.locked {
					e.plainPanic("sync: unlock of unlocked mutex")
				}
				m.locked = false
				e.store(st, lk, m)
				cp, cv := e.condField(st, p)
				e.store(st, cp, CondV{append(append([]int{}, cv.waiters...), g.id)})
				e.syncRel(st, lk, 0)
				g.wait = 1
				g.parked = true
				panic(parkSig{})
			}
			m := e.load(st, lk).(MutexV)
			m.locked = true
			e.store(st, lk, m)
			e.syncAcq(st, lk, 0)
			e.syncAcq(st, lk, 1)
			g.wait = 0
			return unit
		},
		"(*sync.Cond).Signal":    func(ic *ICall) Value { return condWake(ic, false) },
		"(*sync.Cond).Broadcast": func(ic *ICall) Value { return condWake(ic, true) },
		"(*sync.Pool).Get": func(ic *ICall) Value {
			e, st := ic.e, ic.st
			p := ic.args[0].(PtrV)
			id := ObjID(mix(uint64(p.obj), pathHash(p.path)+99) | 1)
			if v, ok := st.get(id); ok {
				if pv := v.(PoolV); len(pv.items) > 0 {
					it := pv.items[len(pv.items)-1]
					st.put(id, PoolV{append([]Value{}, pv.items[:len(pv.items)-1]...)})
					e.acquire(st, SyncKey{id, 0, 0})
					return it
				}
			}
			s := e.load(st, p).(*StructV)
			nf, ok := s.f[len(s.f)-1].(*FuncV)
			if !ok || nf == nil {
				return IfaceV{}
			}
			return ic.call(nf)
		},
		"(*sync.Pool).Put": func(ic *ICall) Value {
			st := ic.st
			p := ic.args[0].(PtrV)
			id := ObjID(mix(uint64(p.obj), pathHash(p.path)+99) | 1)
			ic.e.globalIDs[id] = true
			var items []Value
			if v, ok := st.get(id); ok {
				items = v.(PoolV).items
			}
			st.put(id, PoolV{append(append([]Value{}, items...), ic.args[1])})
			ic.e.release(st, SyncKey{id, 0, 0})
			return unit
		},

		// ---- math ----
		"math.Float64bits": func(ic *ICall) Value { return ic.e.c.BV(64, math.Float64bits(ic.args[0].(FloatV).f)) },
		"math.Float32bits": func(ic *ICall) Value { return ic.e.c.BV(32, uint64(math.Float32bits(float32(ic.args[0].(FloatV).f)))) },
		"math.Float64frombits": func(ic *ICall) Value {
			return FloatV{math.Float64frombits(ic.e.needConst(ic.st, ic.t(0))), 64}
		},
		"math.Float32frombits": func(ic *ICall) Value {
			return FloatV{float64(math.Float32frombits(uint32(ic.e.needConst(ic.st, ic.t(0))))), 32}
		},
		"math.Floor": func(ic *ICall) Value { return FloatV{math.Floor(ic.args[0].(FloatV).f), 64} },
		"math.Ceil":  func(ic *ICall) Value { return FloatV{math.Ceil(ic.args[0].(FloatV).f), 64} },
		"math.Trunc": func(ic *ICall) Value { return FloatV{math.Trunc(ic.args[0].(FloatV).f), 64} },
		"math.Abs":   func(ic *ICall) Value { return FloatV{math.Abs(ic.args[0].(FloatV).f), 64} },
		"math.Log10": func(ic *ICall) Value { return FloatV{math.Log10(ic.args[0].(FloatV).f), 64} },
		"math.Pow":   func(ic *ICall) Value { return FloatV{math.Pow(ic.args[0].(FloatV).f, ic.args[1].(FloatV).f), 64} },
		"math/bits.Mul64": func(ic *ICall) Value {
			c := ic.e.c
			p := c.Mul(c.Zext(128, ic.t(0)), c.Zext(128, ic.t(1)))
			return TupleV{c.Extract(127, 64, p), c.Extract(63, 0, p)}
		},
		"math/bits.Add64": func(ic *ICall) Value {
			c := ic.e.c
			p := c.Add(c.Add(c.Zext(65, ic.t(0)), c.Zext(65, ic.t(1))), c.Zext(65, ic.t(2)))
			return TupleV{c.Extract(63, 0, p), c.Zext(64, c.Extract(64, 64, p))}
		},
		"math/bits.RotateLeft64": func(ic *ICall) Value { return rotl(ic, 64) },
		"math/bits.RotateLeft32": func(ic *ICall) Value { return rotl(ic, 32) },
		"math/bits.Len64":        func(ic *ICall) Value { return ic.e.bitLen(ic.t(0)) },
		"math/bits.Len":          func(ic *ICall) Value { return ic.e.bitLen(ic.t(0)) },
		"math/bits.Len32":        func(ic *ICall) Value { return ic.e.bitLen(ic.t(0)) },
		"math/bits.Len8":         func(ic *ICall) Value { return ic.e.bitLen(ic.t(0)) },
		"math/bits.LeadingZeros64": func(ic *ICall) Value {
			return ic.e.c.Sub(ic.e.c.BV(64, 64), ic.e.bitLen(ic.t(0)))
		},
		"math/bits.TrailingZeros64": func(ic *ICall) Value { return ic.e.tz(ic.t(0)) },
		"math/bits.TrailingZeros32": func(ic *ICall) Value { return ic.e.tz(ic.t(0)) },
		"math/bits.TrailingZeros":   func(ic *ICall) Value { return ic.e.tz(ic.t(0)) },

		// ---- errors ----
		"internal/reflectlite.TypeOf": func(ic *ICall) Value { return ic.e.typeOf(ic.args[0].(IfaceV)) },
	}
	delete(intrinsics, "time.now")
	for _, w := range []struct {
		n string
		w int
	}{{"Int32", 32}, {"Int64", 64}, {"Uint32", 32}, {"Uint64", 64}, {"Uintptr", 64}} {
		intrinsics["sync/atomic.Load"+w.n] = atomLoad
		intrinsics["sync/atomic.Store"+w.n] = atomStore
		intrinsics["sync/atomic.Add"+w.n] = func(ic *ICall) Value {
			ic.visOp()
			p := ic.args[0].(PtrV)
			v := ic.e.c.Add(ic.e.load(ic.st, p).(*Term), ic.t(1))
			ic.e.store(ic.st, p, v)
			ic.e.acqRel(ic.st, ptrKey(p, 3))
			return v
		}
		intrinsics["sync/atomic.Swap"+w.n] = atomSwap
		intrinsics["sync/atomic.CompareAndSwap"+w.n] = atomCAS
	}
	intrinsics["sync/atomic.LoadPointer"] = atomLoad
	intrinsics["sync/atomic.StorePointer"] = atomStore
	intrinsics["sync/atomic.SwapPointer"] = atomSwap
	intrinsics["sync/atomic.CompareAndSwapPointer"] = atomCAS
	fld0 := func(ic *ICall) { p := ic.args[0].(PtrV); if p.isNil() { ic.e.rtPanic("invalid memory address or nil pointer dereference") }; ic.args[0] = PtrV{p.obj, appendPath(p.path, PE{i: 0})} }
	intrinsics["(*sync/atomic.Value).Load"] = func(ic *ICall) Value { fld0(ic); return atomLoad(ic) }
	intrinsics["(*sync/atomic.Value).Store"] = func(ic *ICall) Value {
		if ic.args[1].(IfaceV).t == nil {
			panic(goPanic{ic.e.rtErr("sync/atomic: store of nil value into Value")})
		}
		fld0(ic)
		ic.visOp()
		old := ic.e.load(ic.st, ic.args[0].(PtrV)).(IfaceV)
		if old.t != nil && !types.Identical(old.t, ic.args[1].(IfaceV).t) {
			panic(goPanic{ic.e.rtErr("sync/atomic: store of inconsistently typed value into Value")})
		}
		ic.e.store(ic.st, ic.args[0].(PtrV), ic.args[1])
		ic.e.acqRel(ic.st, ptrKey(ic.args[0].(PtrV), 3))
		return unit
	}
	intrinsics["(*sync/atomic.Value).Swap"] = func(ic *ICall) Value { fld0(ic); return atomSwap(ic) }
	initBig()
	initMisc()
	initReflect()
}

const timerLogID = ObjID(0xC10C0003)

func pathHash(p []PE) uint64 {
	h := uint64(7)
	for _, x := range p {
		h = mix(h, uint64(x.i))
	}
	return h
}

// runeIn is the membership of a rune in a set, as one formula.
func (e *Eng) runeIn(r *Term, in func(rune) bool) Value {
	c := e.c
	if r.op == OConst {
		return c.Bool(in(rune(int32(r.u))))
	}
	if e.printSet == nil {
		for k := rune(0); k <= 0x10ffff; k++ {
			if !in(k) {
				continue
			}
			q := k
			for q < 0x10ffff && in(q+1) {
				q++
			}
			e.printSet = append(e.printSet, [2]rune{k, q})
			k = q
		}
	}
	var ts []*Term
	for _, p := range e.printSet {
		if uint64(p[1]) < r.ulo || uint64(p[0]) > r.uhi {
			continue
		}
		ts = append(ts, c.And(c.Ule(c.BV(32, uint64(p[0])), r), c.Ule(r, c.BV(32, uint64(p[1])))))
	}
	return c.Or(ts...)
}

// stackCaller models stack.Caller: the call site skip frames up.
func (ic *ICall) stackCaller(skip int) Value {
	st, g := ic.st, ic.st.g()
	call := ic.zeroRes().(*StructV)
	for i := len(g.frames) - 1; i >= 0; i-- {
		f := g.frames[i]
		if f.fi.fn.Synthetic != "" && f.fi.fn.Pkg == nil { // wrappers do not show
			continue
		}
		if skip > 0 {
			skip--
			continue
		}
		if f.idx >= len(f.blk.Instrs) {
			break
		}
		p := ic.e.prog.Fset.Position(f.blk.Instrs[f.idx].Pos())
		name := strings.ReplaceAll(f.fi.fn.String(), "$", ".func")
		ft := ic.fn.Signature.Results().At(0).Type().Underlying().(*types.Struct).Field(0).Type()
		u := ft.Underlying().(*types.Struct)
		fr := ic.e.zero(ft).(*StructV)
		nf := append([]Value(nil), fr.f...)
		for k := 0; k < u.NumFields(); k++ {
			switch u.Field(k).Name() {
			case "PC":
				nf[k] = ic.e.c.BV(64, strHash(fmt.Sprintf("pc %s:%d:%d", p.Filename, p.Line, p.Column))|1)
			case "Function":
				nf[k] = StrV{s: name}
			case "File":
				nf[k] = StrV{s: p.Filename}
			case "Line":
				nf[k] = ic.e.c.BV(64, uint64(p.Line))
			}
		}
		_ = st
		return &StructV{[]Value{&StructV{nf}}}
	}
	return call
}

func (ic *ICall) zeroRes() Value {
	r := ic.fn.Signature.Results()
	switch r.Len() {
	case 0:
		return unit
	case 1:
		return ic.e.zero(r.At(0).Type())
	}
	return ic.e.zero(r)
}

// visOp: a scheduling point when other goroutines are alive.
func (ic *ICall) visOp() Value {
	if ic.st.live() <= 1 {
		ic.st.dropGrant()
		return unit
	}
	ic.e.visible(ic.st)
	ic.st.takeGrant()
	return unit
}

func lockOp(ic *ICall) Value {
	p := ic.args[0].(PtrV)
	if _, ok := ic.e.load(ic.st, p).(MutexV); !ok {
		unsupported("lock of %T", ic.e.load(ic.st, p))
	}
	ic.e.visible(ic.st)
	ic.st.takeGrant()
	ic.e.store(ic.st, p, MutexV{locked: true})
	ic.e.syncAcq(ic.st, p, 0)
	ic.e.syncAcq(ic.st, p, 1)
	return unit
}

func tryLockOp(ic *ICall) Value {
	p := ic.args[0].(PtrV)
	ic.visOp()
	m := ic.e.load(ic.st, p).(MutexV)
	if m.locked || m.readers > 0 {
		return ic.e.c.False
	}
	ic.e.store(ic.st, p, MutexV{locked: true})
	ic.e.syncAcq(ic.st, p, 0)
	return ic.e.c.True
}

func unlockOp(ic *ICall) Value {
	p := ic.args[0].(PtrV)
	m, ok := ic.e.load(ic.st, p).(MutexV)
	if !ok {
		unsupported("unlock")
	}
	if !m.locked {
		ic.e.violation(ic.st, nil, "fatal error: sync: unlock of unlocked mutex", ic.e.where(ic.st))
		panic(deadSig{"fatal"})
	}
	ic.e.store(ic.st, p, MutexV{})
	ic.e.syncRel(ic.st, p, 0)
	return unit
}

func condWake(ic *ICall, all bool) Value {
	e, st := ic.e, ic.st
	ic.visOp()
	cp, cv := e.condField(st, ic.args[0].(PtrV))
	if len(cv.waiters) == 0 {
		return unit
	}
	n := 1
	if all {
		n = len(cv.waiters)
	}
	for _, id := range cv.waiters[:n] {
		st.ownG(id).wait = 2
	}
	e.store(st, cp, CondV{append([]int{}, cv.waiters[n:]...)})
	return unit
}

func atomLoad(ic *ICall) Value {
	ic.visOp()
	ic.e.syncAcq(ic.st, ic.args[0].(PtrV), 3)
	return ic.e.load(ic.st, ic.args[0].(PtrV))
}
func atomStore(ic *ICall) Value {
	ic.visOp()
	ic.e.store(ic.st, ic.args[0].(PtrV), ic.args[1])
	ic.e.acqRel(ic.st, ptrKey(ic.args[0].(PtrV), 3))
	return unit
}
func atomSwap(ic *ICall) Value {
	ic.visOp()
	v := ic.e.load(ic.st, ic.args[0].(PtrV))
	ic.e.store(ic.st, ic.args[0].(PtrV), ic.args[1])
	ic.e.acqRel(ic.st, ptrKey(ic.args[0].(PtrV), 3))
	return v
}
func atomCAS(ic *ICall) Value {
	granted := ic.st.grant
	eq := ic.e.eqVal(nil, ic.e.load(ic.st, ic.args[0].(PtrV)), ic.args[1])
	_ = granted
	if eq.op != OConst {
		// decide before consuming the grant (the instruction may be re-executed)
		if ic.st.live() > 1 {
			ic.e.visible(ic.st)
		}
		ok := ic.e.decide(ic.st, eq)
		ic.visOp()
		if ok {
			ic.e.store(ic.st, ic.args[0].(PtrV), ic.args[2])
		}
		ic.e.acqRel(ic.st, ptrKey(ic.args[0].(PtrV), 3))
		return ic.e.c.Bool(ok)
	}
	ic.visOp()
	eq = ic.e.eqVal(nil, ic.e.load(ic.st, ic.args[0].(PtrV)), ic.args[1])
	if eq == ic.e.c.True {
		ic.e.store(ic.st, ic.args[0].(PtrV), ic.args[2])
	}
	ic.e.acqRel(ic.st, ptrKey(ic.args[0].(PtrV), 3))
	return eq
}

func rotl(ic *ICall, w int) Value {
	c := ic.e.c
	k := int(int64(ic.e.needConst(ic.st, ic.t(1)))) & (w - 1)
	x := ic.t(0)
	if k == 0 {
		return x
	}
	return c.Concat(c.Extract(w-1-k, 0, x), c.Extract(w-1, w-k, x))
}

// bitLen returns the 64-bit term for the number of significant bits of t.
func (e *Eng) bitLen(t *Term) *Term {
	r := e.c.BV(64, 0)
	for i := 0; i < t.w && i < t.nbits; i++ {
		r = e.c.Ite(e.c.Eq(e.c.Extract(i, i, t), e.c.BV(1, 1)), e.c.BV(64, uint64(i+1)), r)
	}
	return r
}

func (e *Eng) tz(t *Term) *Term {
	r := e.c.BV(64, uint64(t.w))
	for i := t.w - 1; i >= 0; i-- {
		r = e.c.Ite(e.c.Eq(e.c.Extract(i, i, t), e.c.BV(1, 1)), e.c.BV(64, uint64(i)), r)
	}
	return r
}

// callNative invokes engine-implemented functions bound to values.
func (e *Eng) callNative(st *State, fv *FuncV, args []Value) (Value, bool) {
	switch {
	case strings.HasPrefix(fv.native, "rterr."):
		if fv.native == "rterr.Error" {
			return fv.recv, true
		}
		return unit, true
	case strings.HasPrefix(fv.native, "rtype."):
		return e.rtypeMethod(st, strings.TrimPrefix(fv.native, "rtype."), fv.recv.(RTypeV), args), true
	}
	unsupported("native %s", fv.native)
	return nil, false
}

var _ = big.NewInt

// shardDepth is the number of choices that decide which shard explores a path (parameter sd).
func (e *Eng) shardDepth() int {
	if n := e.params["sd"]; n > 0 {
		return n
	}
	return 4
}

const exitLabel = "\x00exit"
