package main

import (
	"go/token"
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

// StrV is a string of concrete length; sym==nil means fully concrete.
type StrV struct {
	s   string
	sym []*Term
}

func (s StrV) Len() int {
	if s.sym != nil {
		return len(s.sym)
	}
	return len(s.s)
}

type ObjID uint64

type PE struct {
	i   int
	sym *Term
}

type PtrV struct {
	obj  ObjID
	path []PE
}

func (p PtrV) isNil() bool { return p.obj == 0 }

type SliceV struct {
	base PtrV // pointer to the array
	off  int
	n    int
	cap  int
}

func (s SliceV) isNil() bool { return s.base.obj == 0 }

type StructV struct{ f []Value }
type ArrayV struct{ e []Value }
type TupleV []Value

type IfaceV struct {
	t types.Type // nil => nil interface
	v Value
}

type FuncV struct {
	fn     *ssa.Function
	bind   []Value
	native string // bound native function name
	recv   Value
}

type MapRef struct{ obj ObjID } // 0 => nil map
type ChanRef struct{ obj ObjID }

type MapObj struct {
	keys []Value
	vals []Value
}

type ChanObj struct {
	buf    []Value
	cap    int
	closed bool
	armed  bool // timer channel that may fire at any moment
}

// DyadicV is the floating-point number n / 2^sh, exactly (n is signed with at most 53 bits).
type DyadicV struct {
	n  *Term
	sh int
}

type FloatV struct {
	f float64
	w int
}
type ComplexV struct{ c complex128 }

// IterV is a map/string iterator stored in an object.
type IterObj struct {
	str  *StrV
	pos  int
	keys []Value
	m    ObjID
}
type IterRef struct{ obj ObjID }

// BigMag is the magnitude of a math/big integer (modelled exactly).
type BigMag struct{ t *Term } // nil => 0

// sync natives
type MutexV struct {
	locked  bool
	owner   int
	readers int
}
type OnceV struct{ state int }
type WGV struct{ n int }
type CondV struct{ waiters []int }
type PoolV struct{ items []Value }

// Opaque is a value the engine does not model; using it is an error.
type Opaque struct{ why string }

// reflect natives
type RTypeV struct{ t types.Type }
type RValueV struct {
	t    types.Type // nil => invalid
	v    Value
	addr PtrV // addressable location when set
}

// LazyElem: element of a table of distinct concrete strings chosen by a symbolic index.
type LazyStr struct {
	tab []string
	idx *Term // index within tab (64 bit)
}

type Unsupported struct{ msg string }

func unsupported(f string, a ...interface{}) { panic(Unsupported{fmt.Sprintf(f, a...)}) }

func isNamed(t types.Type, pkg, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	o := n.Obj()
	return o.Name() == name && o.Pkg() != nil && o.Pkg().Path() == pkg
}

func namedPath(t types.Type) string {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return ""
	}
	return n.Obj().Pkg().Path() + "." + n.Obj().Name()
}

func intWidth(b *types.Basic) (w int, signed bool, ok bool) {
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint32:
		return 32, false, true
	case types.Int16:
		return 16, true, true
	case types.Uint16:
		return 16, false, true
	case types.Int8:
		return 8, true, true
	case types.Uint8:
		return 8, false, true
	}
	return 0, false, false
}

func (e *Eng) zero(t types.Type) Value {
	switch namedPath(t) {
	case "reflect.Value":
		return RValueV{}
	case "math/big.nat":
		return BigMag{}
	case "sync.Mutex", "sync.RWMutex", "internal/sync.Mutex":
		return MutexV{}
	case "sync.WaitGroup":
		return WGV{}
	case "sync.notifyList":
		return CondV{}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return e.c.False
		}
		if w, _, ok := intWidth(u); ok {
			return e.c.BV(w, 0)
		}
		switch u.Kind() {
		case types.String, types.UntypedString:
			return StrV{}
		case types.Float64, types.UntypedFloat:
			return FloatV{0, 64}
		case types.Float32:
			return FloatV{0, 32}
		case types.Complex128, types.Complex64:
			return ComplexV{}
		case types.UnsafePointer:
			return PtrV{}
		case types.UntypedNil:
			return PtrV{}
		}
	case *types.Pointer:
		return PtrV{}
	case *types.Slice:
		return SliceV{}
	case *types.Map:
		return MapRef{}
	case *types.Chan:
		return ChanRef{}
	case *types.Signature:
		return (*FuncV)(nil)
	case *types.Interface:
		return IfaceV{}
	case *types.Struct:
		f := make([]Value, u.NumFields())
		for i := range f {
			f[i] = e.zero(u.Field(i).Type())
		}
		return &StructV{f}
	case *types.Array:
		n := int(u.Len())
		a := make([]Value, n)
		if n > 0 {
			z := e.zero(u.Elem())
			for i := range a {
				a[i] = z
			}
		}
		return &ArrayV{a}
	case *types.Tuple:
		tv := make(TupleV, u.Len())
		for i := range tv {
			tv[i] = e.zero(u.At(i).Type())
		}
		return tv
	}
	unsupported("zero value of %s", t)
	return nil
}

func mkStr(b []*Term) StrV {
	conc := true
	for _, t := range b {
		if t.op != OConst {
			conc = false
			break
		}
	}
	if conc {
		x := make([]byte, len(b))
		for i, t := range b {
			x[i] = byte(t.u)
		}
		return StrV{s: string(x)}
	}
	return StrV{sym: b}
}

func (e *Eng) strBytes(s StrV) []*Term {
	if s.sym != nil {
		return s.sym
	}
	r := make([]*Term, len(s.s))
	for i := 0; i < len(s.s); i++ {
		r[i] = e.c.BV(8, uint64(s.s[i]))
	}
	return r
}

func (e *Eng) strAt(s StrV, i int) *Term {
	if s.sym != nil {
		return s.sym[i]
	}
	return e.c.BV(8, uint64(s.s[i]))
}

func (s StrV) slice(lo, hi int) StrV {
	if s.sym != nil {
		return mkStr(s.sym[lo:hi])
	}
	return StrV{s: s.s[lo:hi]}
}

// eqVal returns the boolean term for a == b (Go semantics) for type t.
func (e *Eng) eqVal(t types.Type, a, b Value) *Term {
	c := e.c
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok {
			return c.False
		}
		return c.Eq(x, y)
	case StrV:
		if ls, ok := b.(LazyStr); ok {
			return e.lazyEq(ls, x)
		}
		return e.strEq(x, b.(StrV))
	case LazyStr:
		switch y := b.(type) {
		case StrV:
			return e.lazyEq(x, y)
		case LazyStr:
			if &x.tab[0] == &y.tab[0] {
				return c.Eq(x.idx, y.idx)
			}
		}
	case PtrV:
		y, ok := b.(PtrV)
		if !ok {
			unsupported("pointer comparison with %T", b)
		}
		if x.obj != y.obj || len(x.path) != len(y.path) {
			return c.False
		}
		r := c.True
		for i := range x.path {
			p, q := x.path[i], y.path[i]
			if p.sym == nil && q.sym == nil {
				if p.i != q.i {
					return c.False
				}
				continue
			}
			pt, qt := p.sym, q.sym
			if pt == nil {
				pt = c.BV(64, uint64(p.i))
			}
			if qt == nil {
				qt = c.BV(64, uint64(q.i))
			}
			r = c.And(r, c.Eq(pt, qt))
		}
		return r
	case MapRef:
		return c.Bool(x == b.(MapRef))
	case ChanRef:
		return c.Bool(x == b.(ChanRef))
	case *FuncV:
		y := b.(*FuncV)
		return c.Bool((x == nil) == (y == nil) && x == y)
	case SliceV:
		y := b.(SliceV)
		if x.isNil() || y.isNil() {
			return c.Bool(x.isNil() == y.isNil())
		}
		unsupported("slice comparison")
	case IfaceV:
		y, ok := b.(IfaceV)
		if !ok {
			unsupported("iface compare with %T", b)
		}
		if x.t == nil || y.t == nil {
			return c.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return c.False
		}
		if _, ok := x.v.(RTypeV); !ok && !types.Comparable(x.t) {
			panic(goPanic{e.rtErr("comparing uncomparable type " + x.t.String())})
		}
		return e.eqVal(x.t, x.v, y.v)
	case RTypeV:
		return c.Bool(types.Identical(x.t, b.(RTypeV).t))
	case *StructV:
		y := b.(*StructV)
		st, _ := t.Underlying().(*types.Struct)
		var rs []*Term
		for i := range x.f {
			var ft types.Type
			if st != nil {
				if st.Field(i).Name() == "_" {
					continue
				}
				ft = st.Field(i).Type()
			}
			rs = append(rs, e.eqVal(ft, x.f[i], y.f[i]))
		}
		return c.And(rs...)
	case *ArrayV:
		y := b.(*ArrayV)
		var et types.Type
		if t != nil {
			if at, ok := t.Underlying().(*types.Array); ok {
				et = at.Elem()
			}
		}
		var rs []*Term
		for i := range x.e {
			rs = append(rs, e.eqVal(et, x.e[i], y.e[i]))
		}
		return c.And(rs...)
	case FloatV:
		if _, ok := b.(DyadicV); ok {
			l, r := e.dyAlign(a, b)
			return c.Eq(l, r)
		}
		return c.Bool(x.f == b.(FloatV).f)
	case DyadicV:
		l, r := e.dyAlign(a, b)
		return c.Eq(l, r)
	}
	unsupported("equality of %T and %T", a, b)
	return nil
}

func (e *Eng) strEq(x, y StrV) *Term {
	if x.Len() != y.Len() {
		return e.c.False
	}
	if x.sym == nil && y.sym == nil {
		return e.c.Bool(x.s == y.s)
	}
	var rs []*Term
	for i := 0; i < x.Len(); i++ {
		t := e.c.Eq(e.strAt(x, i), e.strAt(y, i))
		if t == e.c.False {
			return t
		}
		rs = append(rs, t)
	}
	return e.c.And(rs...)
}

func (e *Eng) lazyEq(l LazyStr, s StrV) *Term {
	var rs []*Term
	for i, w := range l.tab {
		q := e.strEq(StrV{s: w}, s)
		if q != e.c.False {
			rs = append(rs, e.c.And(e.c.Eq(l.idx, e.c.BV(64, uint64(i))), q))
		}
	}
	return e.c.Or(rs...)
}

// mergeVal builds ite(cond,a,b); ok=false when shapes differ.
func (e *Eng) mergeVal(cond *Term, a, b Value) (Value, bool) {
	switch x := a.(type) {
	case nil:
		return nil, b == nil
	case *Term:
		y, ok := b.(*Term)
		if !ok || x.w != y.w {
			return nil, false
		}
		if e.exact && x != y {
			return nil, false
		}
		return e.c.Ite(cond, x, y), true
	case StrV:
		y, ok := b.(StrV)
		if !ok || x.Len() != y.Len() {
			return nil, false
		}
		if x.sym == nil && y.sym == nil && x.s == y.s {
			return x, true
		}
		r := make([]*Term, x.Len())
		for i := range r {
			p, q := e.strAt(x, i), e.strAt(y, i)
			if e.exact && p != q {
				return nil, false
			}
			r[i] = e.c.Ite(cond, p, q)
		}
		return mkStr(r), true
	case LazyStr:
		y, ok := b.(LazyStr)
		if !ok || &x.tab[0] != &y.tab[0] {
			return nil, false
		}
		if e.exact && x.idx != y.idx {
			return nil, false
		}
		return LazyStr{x.tab, e.c.Ite(cond, x.idx, y.idx)}, true
	case PtrV:
		y, ok := b.(PtrV)
		if !ok || x.obj != y.obj {
			return nil, false
		}
		if !samePath(x.path, y.path) {
			return nil, false
		}
		return x, true
	case SliceV:
		y, ok := b.(SliceV)
		if !ok || x.base.obj != y.base.obj || x.off != y.off || x.n != y.n || x.cap != y.cap || !samePath(x.base.path, y.base.path) {
			return nil, false
		}
		return x, true
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.f) != len(y.f) {
			return nil, false
		}
		if x == y {
			return x, true
		}
		r := make([]Value, len(x.f))
		for i := range r {
			v, ok := e.mergeVal(cond, x.f[i], y.f[i])
			if !ok {
				return nil, false
			}
			r[i] = v
		}
		return &StructV{r}, true
	case *ArrayV:
		y, ok := b.(*ArrayV)
		if !ok || len(x.e) != len(y.e) {
			return nil, false
		}
		if x == y {
			return x, true
		}
		r := make([]Value, len(x.e))
		for i := range r {
			v, ok := e.mergeVal(cond, x.e[i], y.e[i])
			if !ok {
				return nil, false
			}
			r[i] = v
		}
		return &ArrayV{r}, true
	case TupleV:
		y, ok := b.(TupleV)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		r := make(TupleV, len(x))
		for i := range r {
			v, ok := e.mergeVal(cond, x[i], y[i])
			if !ok {
				return nil, false
			}
			r[i] = v
		}
		return r, true
	case IfaceV:
		y, ok := b.(IfaceV)
		if !ok {
			return nil, false
		}
		if x.t == nil || y.t == nil {
			return x, x.t == nil && y.t == nil
		}
		if x.t != y.t && !types.Identical(x.t, y.t) {
			return nil, false
		}
		v, ok := e.mergeVal(cond, x.v, y.v)
		return IfaceV{x.t, v}, ok
	case *FuncV:
		y, ok := b.(*FuncV)
		if !ok {
			return nil, false
		}
		if x == y {
			return x, true
		}
		if x == nil || y == nil || x.fn != y.fn || x.native != y.native || len(x.bind) != len(y.bind) {
			return nil, false
		}
		nb := make([]Value, len(x.bind))
		for i := range nb {
			v, ok := e.mergeVal(cond, x.bind[i], y.bind[i])
			if !ok {
				return nil, false
			}
			nb[i] = v
		}
		rv, ok := e.mergeVal(cond, x.recv, y.recv)
		if !ok {
			return nil, false
		}
		return &FuncV{x.fn, nb, x.native, rv}, true
	case MapRef, ChanRef, MutexV, OnceV, WGV, IterRef:
		return a, a == b
	case CondV:
		y, ok := b.(CondV)
		if !ok || len(x.waiters) != len(y.waiters) {
			return nil, false
		}
		for i := range x.waiters {
			if x.waiters[i] != y.waiters[i] {
				return nil, false
			}
		}
		return x, true
	case NativeV:
		y, ok := b.(NativeV)
		return a, ok && x.re == y.re
	case PoolV:
		y, ok := b.(PoolV)
		if !ok || len(x.items) != len(y.items) {
			return nil, false
		}
		r := make([]Value, len(x.items))
		for i := range r {
			v, ok := e.mergeVal(cond, x.items[i], y.items[i])
			if !ok {
				return nil, false
			}
			r[i] = v
		}
		return PoolV{r}, true
	case DyadicV:
		y, ok := b.(DyadicV)
		if !ok || x.sh != y.sh {
			return nil, false
		}
		return DyadicV{e.c.Ite(cond, x.n, y.n), x.sh}, true
	case FloatV:
		y, ok := b.(FloatV)
		return a, ok && math.Float64bits(x.f) == math.Float64bits(y.f) && x.w == y.w
	case ComplexV:
		return a, a == b
	case BigMag:
		y, ok := b.(BigMag)
		if !ok {
			return nil, false
		}
		if x.t == y.t {
			return x, true
		}
		if e.exact {
			return nil, false
		}
		xt, yt := e.magT(x), e.magT(y)
		w := max(xt.w, yt.w)
		return e.normMag(e.c.Ite(cond, e.c.Zext(w, xt), e.c.Zext(w, yt))), true
	case RTypeV:
		y, ok := b.(RTypeV)
		return a, ok && types.Identical(x.t, y.t)
	case RValueV:
		y, ok := b.(RValueV)
		if !ok || (x.t == nil) != (y.t == nil) {
			return nil, false
		}
		if x.t == nil {
			return x, true
		}
		if !types.Identical(x.t, y.t) || x.addr.obj != y.addr.obj || !samePath(x.addr.path, y.addr.path) {
			return nil, false
		}
		v, ok := e.mergeVal(cond, x.v, y.v)
		return RValueV{x.t, v, x.addr}, ok
	case *MapObj:
		y, ok := b.(*MapObj)
		if !ok || len(x.keys) != len(y.keys) {
			return nil, false
		}
		if x == y {
			return x, true
		}
		r := &MapObj{}
		for i := range x.keys {
			k, ok := e.mergeVal(cond, x.keys[i], y.keys[i])
			if !ok {
				return nil, false
			}
			v, ok := e.mergeVal(cond, x.vals[i], y.vals[i])
			if !ok {
				return nil, false
			}
			r.keys = append(r.keys, k)
			r.vals = append(r.vals, v)
		}
		return r, true
	case *ChanObj:
		y, ok := b.(*ChanObj)
		if !ok || x.closed != y.closed || x.armed != y.armed || x.cap != y.cap || len(x.buf) != len(y.buf) {
			return nil, false
		}
		if x == y {
			return x, true
		}
		r := &ChanObj{cap: x.cap, closed: x.closed, armed: x.armed}
		for i := range x.buf {
			v, ok := e.mergeVal(cond, x.buf[i], y.buf[i])
			if !ok {
				return nil, false
			}
			r.buf = append(r.buf, v)
		}
		return r, true
	case *IterObj:
		y, ok := b.(*IterObj)
		if !ok || x.pos != y.pos || (x.str == nil) != (y.str == nil) || len(x.keys) != len(y.keys) {
			return nil, false
		}
		if x == y {
			return x, true
		}
		r := &IterObj{pos: x.pos, m: x.m}
		if x.str != nil {
			v, ok := e.mergeVal(cond, *x.str, *y.str)
			if !ok {
				return nil, false
			}
			s := v.(StrV)
			r.str = &s
		}
		for i := range x.keys {
			v, ok := e.mergeVal(cond, x.keys[i], y.keys[i])
			if !ok {
				return nil, false
			}
			r.keys = append(r.keys, v)
		}
		return r, true
	case Opaque:
		return a, a == b
	}
	return nil, false
}

func samePath(a, b []PE) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (e *Eng) valStr(v Value) string {
	switch x := v.(type) {
	case StrV:
		if x.sym == nil {
			return fmt.Sprintf("%q", x.s)
		}
		var b strings.Builder
		for _, t := range x.sym {
			b.WriteString(t.str(2) + ",")
		}
		return "sym" + b.String()
	case *Term:
		return x.str(3)
	case IfaceV:
		if x.t == nil {
			return "nil"
		}
		return fmt.Sprintf("%s(%s)", x.t, e.valStr(x.v))
	case *StructV:
		s := "{"
		for _, f := range x.f {
			s += e.valStr(f) + " "
		}
		return s + "}"
	}
	return fmt.Sprintf("%T%v", v, v)
}

// dyadic gives v as n / 2^sh.
func (e *Eng) dyadic(v Value) (n *Term, sh int) {
	switch x := v.(type) {
	case DyadicV:
		return x.n, x.sh
	case FloatV:
		fr, ex := math.Frexp(x.f)
		m := int64(fr * (1 << 53))
		ex -= 53
		if m == 0 {
			return e.c.BV(64, 0), 0
		}
		for m&1 == 0 {
			m >>= 1
			ex++
		}
		if ex > 0 && ex < 60 && m < 1<<uint(61-ex) && m > -1<<uint(61-ex) {
			m, ex = m<<uint(ex), 0
		}
		if ex <= 0 && ex > -60 && !math.IsInf(x.f, 0) && !math.IsNaN(x.f) {
			return e.c.BV(64, uint64(m)), -ex
		}
	}
	unsupported("floating-point arithmetic on %T", v)
	return nil, 0
}

func (e *Eng) dyAlign(a, b Value) (x, y *Term) {
	x, i := e.dyadic(a)
	y, j := e.dyadic(b)
	x, y = e.c.Sext(128, x), e.c.Sext(128, y)
	if i < j {
		x = e.c.Shl(x, e.c.BV(128, uint64(j-i)))
	} else if j < i {
		y = e.c.Shl(y, e.c.BV(128, uint64(i-j)))
	}
	return
}

func (e *Eng) dyBinop(op token.Token, a, b Value) Value {
	c := e.c
	switch op {
	case token.LSS, token.GEQ, token.GTR, token.LEQ:
		x, y := e.dyAlign(a, b)
		switch op {
		case token.LSS:
			return c.Slt(x, y)
		case token.GEQ:
			return c.Not(c.Slt(x, y))
		case token.GTR:
			return c.Slt(y, x)
		}
		return c.Not(c.Slt(y, x))
	case token.QUO, token.MUL:
		if d, ok := a.(DyadicV); ok {
			if f, ok := b.(FloatV); ok {
				fr, ex := math.Frexp(f.f)
				if fr == 0.5 {
					ex--
					if op == token.MUL {
						ex = -ex
					}
					if sh := d.sh + ex; sh >= 0 && sh < 60 {
						return DyadicV{d.n, sh}
					}
				}
			}
		}
	}
	unsupported("floating-point %s on %T,%T", op, a, b)
	return nil
}
