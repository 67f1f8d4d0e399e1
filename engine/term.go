package main

import (
	"encoding/binary"
	"fmt"
	"math/big"
	"math/bits"
	"sort"
)

// ---------- terms ----------
// A hash-consed DAG of Bool (w==0) and BitVec (w>0) terms.

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot // bool
	OAnd // bool n-ary
	OOr  // bool n-ary
	OIte
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OAdd
	OSub
	OMul
	OUdiv
	OUrem
	OSdiv
	OSrem
	OBAnd
	OBOr
	OBXor // n-ary
	OBNot
	OShl
	OLshr
	OAshr
	OConcat // a high, b low
	OExtract
	OZext
	OSext
)

var opNames = [...]string{"const", "var", "not", "and", "or", "ite", "=", "bvult", "bvule", "bvslt", "bvsle", "bvadd", "bvsub", "bvmul", "bvudiv", "bvurem", "bvsdiv", "bvsrem", "bvand", "bvor", "bvxor", "bvnot", "bvshl", "bvlshr", "bvashr", "concat", "extract", "zext", "sext"}

type Term struct {
	op     Op
	w      int
	id     int
	args   []*Term
	u      uint64   // const value (w<=64), Bool: 0/1; extract: lo
	b      *big.Int // const value (w>64)
	hi     int      // extract hi
	name   string
	ulo    uint64 // unsigned interval (w<=64)
	uhi    uint64
	nbits  int // upper bound of significant bits (any width)
	depth  int
	not    *Term // its negation, once made
	ranged bool // variable with a global range [ulo,uhi]
}

type Ctx struct {
	linSub   bool // lin subtracted a constant
	noLinDiv bool // do not distribute division over linear terms
	tab    map[string]*Term
	next   int
	vars   []*Term
	varTab map[string]*Term
	True   *Term
	False  *Term
	keybuf []byte
	bvc    map[[2]uint64]*Term
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[string]*Term{}, varTab: map[string]*Term{}, bvc: map[[2]uint64]*Term{}}
	c.False = c.mkConst(0, 0)
	c.True = c.mkConst(0, 1)
	return c
}

func maskOf(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

var bigOne = big.NewInt(1)

func bigMask(w int) *big.Int {
	m := new(big.Int).Lsh(bigOne, uint(w))
	return m.Sub(m, bigOne)
}

func (c *Ctx) mkConst(w int, u uint64) *Term {
	k := [2]uint64{uint64(w), u}
	if t, ok := c.bvc[k]; ok {
		return t
	}
	t := &Term{op: OConst, w: w, u: u, id: c.next, ulo: u, uhi: u, nbits: bits.Len64(u)}
	c.next++
	c.bvc[k] = t
	return t
}

// BV makes a constant of width w (truncating).
func (c *Ctx) BV(w int, u uint64) *Term {
	if w > 64 {
		return c.BVBig(w, new(big.Int).SetUint64(u))
	}
	return c.mkConst(w, u&maskOf(w))
}

func (c *Ctx) BVBig(w int, v *big.Int) *Term {
	v = new(big.Int).And(v, bigMask(w)) // two's complement semantics for negative
	if w <= 64 {
		return c.mkConst(w, v.Uint64())
	}
	return c.intern(&Term{op: OConst, w: w, b: v, nbits: v.BitLen()})
}

func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

func (c *Ctx) Var(name string, w int) *Term {
	if t, ok := c.varTab[name]; ok {
		if t.w != w {
			panic("var width mismatch " + name)
		}
		return t
	}
	t := &Term{op: OVar, w: w, name: name, id: c.next, ulo: 0, uhi: maskOf(w), nbits: w}
	if w == 0 {
		t.uhi = 1
		t.nbits = 1
	}
	c.next++
	c.vars = append(c.vars, t)
	c.varTab[name] = t
	return t
}

// VarR is a variable that globally ranges over [lo,hi].
func (c *Ctx) VarR(name string, w int, lo, hi uint64) *Term {
	if t, ok := c.varTab[name]; ok {
		if t.w != w || !t.ranged || t.ulo != lo || t.uhi != hi {
			panic(Unsupported{"input " + name + " used with different ranges"})
		}
		return t
	}
	t := c.Var(name, w)
	t.ranged, t.ulo, t.uhi = true, lo, hi
	t.nbits = bits.Len64(hi)
	return t
}

func (c *Ctx) intern(t *Term) *Term {
	k := c.keybuf[:0]
	k = append(k, byte(t.op))
	k = binary.AppendUvarint(k, uint64(t.w))
	switch t.op {
	case OConst:
		k = append(k, t.b.Bytes()...)
	case OExtract:
		k = binary.AppendUvarint(k, uint64(t.hi))
		k = binary.AppendUvarint(k, t.u)
	}
	for _, a := range t.args {
		k = binary.AppendUvarint(k, uint64(a.id))
	}
	c.keybuf = k
	if e, ok := c.tab[string(k)]; ok {
		return e
	}
	t.id = c.next
	c.next++
	d := 0
	for _, a := range t.args {
		if a.depth > d {
			d = a.depth
		}
	}
	t.depth = d + 1
	if t.op != OConst {
		c.bounds(t)
	}
	c.tab[string(k)] = t
	return t
}

// bounds computes unsigned interval and significant bits.
func (c *Ctx) bounds(t *Term) {
	w := t.w
	t.nbits = w
	t.ulo, t.uhi = 0, maskOf(w)
	if w == 0 {
		t.uhi = 1
		t.nbits = 1
		return
	}
	nb := w
	a := t.args
	switch t.op {
	case OIte:
		nb = max(a[1].nbits, a[2].nbits)
		if w <= 64 {
			t.ulo = min(a[1].ulo, a[2].ulo)
			t.uhi = max(a[1].uhi, a[2].uhi)
		}
	case OZext:
		nb = a[0].nbits
		if w <= 64 {
			t.ulo, t.uhi = a[0].ulo, a[0].uhi
		}
	case OBAnd:
		nb = min(a[0].nbits, a[1].nbits)
		if w <= 64 {
			t.uhi = min(a[0].uhi, a[1].uhi)
		}
	case OBOr, OBXor:
		nb = 0
		for _, x := range a {
			nb = max(nb, x.nbits)
		}
		if w <= 64 && t.op == OBOr {
			t.ulo = max(a[0].ulo, a[1].ulo)
		}
	case OAdd:
		nb = min(w, max(a[0].nbits, a[1].nbits)+1)
		if w <= 64 {
			hi, c1 := bits.Add64(a[0].uhi, a[1].uhi, 0)
			if c1 == 0 && hi <= maskOf(w) {
				t.uhi = hi
				t.ulo = a[0].ulo + a[1].ulo
			} else if a[1].op == OConst {
				if n := -a[1].u & maskOf(w); n <= a[0].ulo {
					t.ulo, t.uhi = a[0].ulo-n, a[0].uhi-n
					nb = bits.Len64(t.uhi)
				}
			}
		}
	case OSub:
		if w <= 64 && a[0].ulo >= a[1].uhi {
			t.ulo = a[0].ulo - a[1].uhi
			t.uhi = a[0].uhi - a[1].ulo
			nb = bits.Len64(t.uhi)
		} else if w <= 64 && a[0].uhi < a[1].ulo {
			t.ulo = (a[0].ulo - a[1].uhi) & maskOf(w)
			t.uhi = (a[0].uhi - a[1].ulo) & maskOf(w)
		}
	case OMul:
		nb = min(w, a[0].nbits+a[1].nbits)
		if w <= 64 {
			h, l := bits.Mul64(a[0].uhi, a[1].uhi)
			if h == 0 && l <= maskOf(w) {
				t.uhi = l
				t.ulo = a[0].ulo * a[1].ulo
			}
		}
	case OUdiv:
		nb = w
		if w <= 64 && a[1].ulo > 0 {
			t.uhi = a[0].uhi / a[1].ulo
			t.ulo = a[0].ulo / a[1].uhi
		}
		if a[1].op == OConst && a[1].nbits > 0 {
			nb = max(a[0].nbits-a[1].nbits+1, 0)
		}
	case OUrem:
		if a[1].op == OConst && a[1].nbits > 0 {
			nb = min(a[0].nbits, a[1].nbits)
			if w <= 64 {
				t.uhi = min(a[0].uhi, a[1].u-1)
			}
		} else {
			// x urem 0 = x, otherwise < y
			if w <= 64 && a[1].ulo > 0 {
				t.uhi = min(a[0].uhi, a[1].uhi-1)
			} else {
				nb = a[0].nbits
				if w <= 64 {
					t.uhi = a[0].uhi
				}
			}
			nb = min(nb, a[0].nbits)
		}
	case OShl:
		if a[1].op == OConst && a[1].nbits < 30 {
			s := int(a[1].constU())
			nb = min(w, a[0].nbits+s)
			if w <= 64 && a[0].nbits+s <= w {
				t.ulo, t.uhi = a[0].ulo<<uint(s), a[0].uhi<<uint(s)
			}
		}
	case OLshr:
		nb = a[0].nbits
		if a[1].op == OConst && a[1].nbits < 30 {
			s := int(a[1].constU())
			nb = max(0, a[0].nbits-s)
			if w <= 64 {
				if s < 64 {
					t.ulo, t.uhi = a[0].ulo>>uint(s), a[0].uhi>>uint(s)
				} else {
					t.ulo, t.uhi = 0, 0
				}
			}
		} else if w <= 64 {
			t.uhi = a[0].uhi
		}
	case OConcat:
		if a[0].nbits == 0 {
			nb = a[1].nbits
		} else {
			nb = a[0].nbits + a[1].w
		}
		if w <= 64 {
			t.ulo = a[0].ulo<<uint(a[1].w) | a[1].ulo
			t.uhi = a[0].uhi<<uint(a[1].w) | a[1].uhi
		}
	case OExtract:
		lo := int(t.u)
		nb = min(w, max(0, a[0].nbits-lo))
		if w <= 64 && a[0].w <= 64 && a[0].uhi>>uint(lo) <= maskOf(w) {
			t.ulo, t.uhi = a[0].ulo>>uint(lo), a[0].uhi>>uint(lo)
		}
	case OSext:
		if a[0].nbits < a[0].w {
			nb = a[0].nbits
			if w <= 64 {
				t.ulo, t.uhi = a[0].ulo, a[0].uhi
			}
		}
	}
	t.nbits = nb
	if w <= 64 {
		if nb < 64 {
			t.uhi = min(t.uhi, maskOf(nb))
		}
		t.nbits = min(t.nbits, bits.Len64(t.uhi))
	}
}

func (t *Term) IsConst() bool { return t.op == OConst }
func (t *Term) constU() uint64 {
	if t.b != nil {
		return t.b.Uint64()
	}
	return t.u
}
func (t *Term) constBig() *big.Int {
	if t.b != nil {
		return t.b
	}
	return new(big.Int).SetUint64(t.u)
}
func (t *Term) isZero() bool { return t.op == OConst && t.nbits == 0 }
func (t *Term) isOnes() bool {
	if t.op != OConst {
		return false
	}
	if t.w <= 64 {
		return t.u == maskOf(t.w)
	}
	return t.nbits == t.w && t.b.Cmp(bigMask(t.w)) == 0
}
func (t *Term) isOne() bool { return t.op == OConst && t.nbits == 1 && t.constU() == 1 }

func signed(u uint64, w int) int64 {
	if w >= 64 {
		return int64(u)
	}
	sh := uint(64 - w)
	return int64(u<<sh) >> sh
}
func signedBig(b *big.Int, w int) *big.Int {
	if b.Bit(w-1) == 1 {
		return new(big.Int).Sub(b, new(big.Int).Lsh(bigOne, uint(w)))
	}
	return b
}

// ---- boolean constructors ----

func (c *Ctx) Not(a *Term) *Term {
	if a.op == OConst {
		return c.Bool(a.u == 0)
	}
	if a.op == ONot {
		return a.args[0]
	}
	if a.not == nil {
		a.not = c.intern(&Term{op: ONot, args: []*Term{a}})
	}
	return a.not
}

func (c *Ctx) nary(op Op, in []*Term) *Term {
	unit, zero := c.True, c.False
	if op == OOr {
		unit, zero = c.False, c.True
	}
	set := make(map[int]*Term, len(in))
	var out []*Term
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == unit {
			return true
		}
		if t == zero {
			return false
		}
		if t.op == op {
			for _, x := range t.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if _, ok := set[t.id]; ok {
			return true
		}
		n := c.Not(t)
		if _, ok := set[n.id]; ok {
			return false
		}
		set[t.id] = t
		out = append(out, t)
		return true
	}
	for _, t := range in {
		if !add(t) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	// absorption of negated dual: (or a (and (not a) b)) -> or a b
	for i, t := range out {
		var dual Op = OOr
		if op == OOr {
			dual = OAnd
		}
		if t.op == dual {
			var keep []*Term
			changed := false
			for _, x := range t.args {
				if _, ok := set[c.Not(x).id]; ok {
					changed = true
					continue
				}
				if _, ok := set[x.id]; ok {
					// absorbed completely
					rest := append(append([]*Term{}, out[:i]...), out[i+1:]...)
					return c.nary(op, rest)
				}
				keep = append(keep, x)
			}
			if changed {
				rest := append(append([]*Term{}, out[:i]...), out[i+1:]...)
				var r *Term
				if dual == OOr {
					r = c.Or(keep...)
				} else {
					r = c.And(keep...)
				}
				return c.nary(op, append(rest, r))
			}
		}
	}
	// factor common conjuncts in (or (and p a) (and p b))
	if op == OOr && len(out) == 2 {
		if r := c.factorOr(out[0], out[1]); r != nil {
			return r
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return c.intern(&Term{op: op, args: out})
}

func conj(t *Term) []*Term {
	if t.op == OAnd {
		return t.args
	}
	return []*Term{t}
}

func (c *Ctx) factorOr(a, b *Term) *Term {
	ca, cb := conj(a), conj(b)
	if len(ca) == 1 && len(cb) == 1 {
		return nil
	}
	sa := map[int]bool{}
	for _, x := range ca {
		sa[x.id] = true
	}
	var common, rb []*Term
	cs := map[int]bool{}
	for _, x := range cb {
		if sa[x.id] {
			common = append(common, x)
			cs[x.id] = true
		} else {
			rb = append(rb, x)
		}
	}
	if len(common) == 0 {
		return nil
	}
	var ra []*Term
	for _, x := range ca {
		if !cs[x.id] {
			ra = append(ra, x)
		}
	}
	return c.And(append(common, c.Or(c.And(ra...), c.And(rb...)))...)
}

func (c *Ctx) And(a ...*Term) *Term     { return c.nary(OAnd, a) }
func (c *Ctx) Or(a ...*Term) *Term      { return c.nary(OOr, a) }
func (c *Ctx) Implies(a, b *Term) *Term { return c.Or(c.Not(a), b) }

func (c *Ctx) Ite(cond, a, b *Term) *Term {
	if cond == c.True {
		return a
	}
	if cond == c.False {
		return b
	}
	if a == b {
		return a
	}
	if a.w != b.w {
		panic(fmt.Sprintf("ite width %d %d", a.w, b.w))
	}
	if cond.op == ONot {
		return c.Ite(cond.args[0], b, a)
	}
	if a.w == 0 {
		if a == c.True {
			return c.Or(cond, b)
		}
		if a == c.False {
			return c.And(c.Not(cond), b)
		}
		if b == c.True {
			return c.Or(c.Not(cond), a)
		}
		if b == c.False {
			return c.And(cond, a)
		}
		if cond == a {
			return c.Or(cond, b)
		}
		if cond == b {
			return c.And(cond, a)
		}
	}
	if a.op == OIte && a.args[0] == cond {
		a = a.args[1]
	}
	if b.op == OIte && b.args[0] == cond {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	// ite(c, ite(d, x, y), y) -> ite(c&d, x, y)
	if a.op == OIte && a.args[2] == b {
		return c.Ite(c.And(cond, a.args[0]), a.args[1], b)
	}
	if a.op == OIte && a.args[1] == b {
		return c.Ite(c.And(cond, c.Not(a.args[0])), a.args[2], b)
	}
	if b.op == OIte && b.args[1] == a {
		return c.Ite(c.Or(cond, b.args[0]), a, b.args[2])
	}
	if b.op == OIte && b.args[2] == a {
		return c.Ite(c.Or(cond, c.Not(b.args[0])), a, b.args[1])
	}
	// zext/concat commoning
	if a.op == OZext && b.op == OZext && a.args[0].w == b.args[0].w {
		return c.Zext(a.w, c.Ite(cond, a.args[0], b.args[0]))
	}
	return c.intern(&Term{op: OIte, w: a.w, args: []*Term{cond, a, b}})
}

// iteLeavesConst reports whether t is an ite-tree whose leaves are all constants (bounded size).
func iteLeavesConst(t *Term, budget *int) bool {
	*budget--
	if *budget < 0 {
		return false
	}
	if t.op == OConst {
		return true
	}
	if t.op == OIte {
		return iteLeavesConst(t.args[1], budget) && iteLeavesConst(t.args[2], budget)
	}
	return false
}

// mapIte applies f to the constant leaves of an ite tree.
func (c *Ctx) mapIte(t *Term, f func(*Term) *Term, memo map[*Term]*Term) *Term {
	if r, ok := memo[t]; ok {
		return r
	}
	var r *Term
	if t.op == OIte {
		r = c.Ite(t.args[0], c.mapIte(t.args[1], f, memo), c.mapIte(t.args[2], f, memo))
	} else {
		r = f(t)
	}
	memo[t] = r
	return r
}

const iteBudget = 64

func (c *Ctx) pushIte2(a, b *Term, f func(x, y *Term) *Term) *Term {
	if b.op == OConst && a.op == OIte {
		n := iteBudget
		if iteLeavesConst(a, &n) {
			return c.mapIte(a, func(x *Term) *Term { return f(x, b) }, map[*Term]*Term{})
		}
	}
	if a.op == OConst && b.op == OIte {
		n := iteBudget
		if iteLeavesConst(b, &n) {
			return c.mapIte(b, func(x *Term) *Term { return f(a, x) }, map[*Term]*Term{})
		}
	}
	return nil
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.w != b.w {
		panic(fmt.Sprintf("eq width %d %d", a.w, b.w))
	}
	if a.op == OConst && b.op == OConst {
		return c.False
	}
	if a.op == OConst {
		a, b = b, a
	}
	if a.w == 0 {
		if b == c.True {
			return a
		}
		if b == c.False {
			return c.Not(a)
		}
		if a == c.Not(b) {
			return c.False
		}
	}
	if a.w > 0 && a.w <= 64 {
		if a.uhi < b.ulo || b.uhi < a.ulo {
			return c.False
		}
	} else if a.w > 64 && b.op == OConst && b.nbits > a.nbits {
		return c.False
	}
	if r := c.pushIte2(a, b, c.Eq); r != nil {
		return r
	}
	if b.op == OConst {
		switch a.op {
		case OZext:
			iw := a.args[0].w
			if b.nbits > iw {
				return c.False
			}
			return c.Eq(a.args[0], c.BVBig(iw, b.constBig()))
		case OSext:
			iw := a.args[0].w
			lowc := c.Extract(iw-1, 0, b)
			if c.Sext(a.w, lowc) != b {
				return c.False
			}
			return c.Eq(a.args[0], lowc)
		case OConcat:
			lw := a.args[1].w
			return c.And(c.Eq(a.args[0], c.Extract(a.w-1, lw, b)), c.Eq(a.args[1], c.Extract(lw-1, 0, b)))
		case OBNot:
			return c.Eq(a.args[0], c.BNot(b))
		case OBXor:
			if len(a.args) == 2 && a.args[0].op == OConst {
				return c.Eq(a.args[1], c.BXor(b, a.args[0]))
			}
			if len(a.args) == 2 && b.isZero() {
				return c.Eq(a.args[0], a.args[1])
			}
		case OAdd:
			if a.args[1].op == OConst {
				return c.Eq(a.args[0], c.Sub(b, a.args[1]))
			}
		case OIte:
			// ite with one constant leaf
			if a.args[1].op == OConst {
				if a.args[1] == b {
					return c.Or(a.args[0], c.Eq(a.args[2], b))
				}
				return c.And(c.Not(a.args[0]), c.Eq(a.args[2], b))
			}
			if a.args[2].op == OConst {
				if a.args[2] == b {
					return c.Or(c.Not(a.args[0]), c.Eq(a.args[1], b))
				}
				return c.And(a.args[0], c.Eq(a.args[1], b))
			}
		}
	}
	if a.op == OZext && b.op == OZext {
		x, y := a.args[0], b.args[0]
		if x.w == y.w {
			return c.Eq(x, y)
		}
		if x.w < y.w {
			return c.Eq(c.Zext(y.w, x), y)
		}
		return c.Eq(x, c.Zext(x.w, y))
	}
	if a.op == OConcat && b.op == OConcat && a.args[1].w == b.args[1].w {
		return c.And(c.Eq(a.args[0], b.args[0]), c.Eq(a.args[1], b.args[1]))
	}
	if a.op == OIte && b.op == OIte && a.args[0] == b.args[0] {
		return c.Ite(a.args[0], c.Eq(a.args[1], b.args[1]), c.Eq(a.args[2], b.args[2]))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.intern(&Term{op: OEq, args: []*Term{a, b}})
}

func (c *Ctx) Ult(a, b *Term) *Term {
	if a == b {
		return c.False
	}
	if a.w <= 64 {
		if a.uhi < b.ulo {
			return c.True
		}
		if a.ulo >= b.uhi {
			return c.False
		}
	} else {
		if a.op == OConst && b.op == OConst {
			return c.Bool(a.b.Cmp(b.b) < 0)
		}
		if b.isZero() {
			return c.False
		}
		if b.op == OConst && b.nbits > a.nbits {
			return c.True
		}
	}
	if b.isOne() {
		return c.Eq(a, c.BV(a.w, 0))
	}
	if a.isZero() {
		return c.Not(c.Eq(b, a))
	}
	if r := c.pushIte2(a, b, c.Ult); r != nil {
		return r
	}
	// narrow when both have few significant bits
	if n := max(a.nbits, b.nbits); n < a.w && n > 0 && (a.op == OZext || b.op == OZext || a.op == OConst || b.op == OConst) {
		if (a.op == OZext || a.op == OConst) && (b.op == OZext || b.op == OConst) {
			x, y := c.Extract(n-1, 0, a), c.Extract(n-1, 0, b)
			return c.Ult(x, y)
		}
	}
	return c.intern(&Term{op: OUlt, args: []*Term{a, b}})
}
func (c *Ctx) Ule(a, b *Term) *Term { return c.Not(c.Ult(b, a)) }

func (c *Ctx) Slt(a, b *Term) *Term {
	if a == b {
		return c.False
	}
	w := a.w
	if a.op == OConst && b.op == OConst {
		if w <= 64 {
			return c.Bool(signed(a.u, w) < signed(b.u, w))
		}
		return c.Bool(signedBig(a.b, w).Cmp(signedBig(b.b, w)) < 0)
	}
	if a.nbits < w && b.nbits < w {
		return c.Ult(a, b)
	}
	if w <= 64 {
		half := uint64(1) << uint(w-1)
		an, bn := a.ulo >= half, b.ulo >= half
		switch {
		case an && bn:
			return c.Ult(a, b)
		case an && b.uhi < half:
			return c.True
		case bn && a.uhi < half:
			return c.False
		}
	}
	if r := c.pushIte2(a, b, c.Slt); r != nil {
		return r
	}
	if b.isZero() {
		return c.Eq(c.Extract(w-1, w-1, a), c.BV(1, 1))
	}
	return c.intern(&Term{op: OSlt, args: []*Term{a, b}})
}
func (c *Ctx) Sle(a, b *Term) *Term { return c.Not(c.Slt(b, a)) }

// ---- bitvector constructors ----

func (c *Ctx) fold2(op Op, a, b *Term) *Term {
	w := a.w
	if w <= 64 {
		x, y := a.u, b.u
		var r uint64
		switch op {
		case OAdd:
			r = x + y
		case OSub:
			r = x - y
		case OMul:
			r = x * y
		case OUdiv:
			if y == 0 {
				r = ^uint64(0)
			} else {
				r = x / y
			}
		case OUrem:
			if y == 0 {
				r = x
			} else {
				r = x % y
			}
		case OSdiv, OSrem:
			sx, sy := signed(x, w), signed(y, w)
			if sy == 0 {
				if op == OSrem {
					r = x
				} else if sx >= 0 {
					r = ^uint64(0)
				} else {
					r = 1
				}
			} else if sy == -1 {
				if op == OSdiv {
					r = uint64(-sx)
				}
			} else if op == OSdiv {
				r = uint64(sx / sy)
			} else {
				r = uint64(sx % sy)
			}
		case OBAnd:
			r = x & y
		case OBOr:
			r = x | y
		case OBXor:
			r = x ^ y
		case OShl:
			if y < 64 {
				r = x << y
			}
		case OLshr:
			if y < 64 {
				r = x >> y
			}
		case OAshr:
			s := y
			if s > 63 {
				s = 63
			}
			r = uint64(signed(x, w) >> s)
		}
		return c.BV(w, r)
	}
	x, y := a.constBig(), b.constBig()
	r := new(big.Int)
	switch op {
	case OAdd:
		r.Add(x, y)
	case OSub:
		r.Sub(x, y)
	case OMul:
		r.Mul(x, y)
	case OUdiv:
		if y.Sign() == 0 {
			r = bigMask(w)
		} else {
			r.Quo(x, y)
		}
	case OUrem:
		if y.Sign() == 0 {
			r = x
		} else {
			r.Rem(x, y)
		}
	case OSdiv, OSrem:
		sx, sy := signedBig(x, w), signedBig(y, w)
		if sy.Sign() == 0 {
			if op == OSrem {
				r = x
			} else if sx.Sign() >= 0 {
				r = bigMask(w)
			} else {
				r = bigOne
			}
		} else if op == OSdiv {
			r.Quo(sx, sy)
		} else {
			r.Rem(sx, sy)
		}
	case OBAnd:
		r.And(x, y)
	case OBOr:
		r.Or(x, y)
	case OBXor:
		r.Xor(x, y)
	case OShl:
		if y.IsUint64() && y.Uint64() < uint64(w) {
			r.Lsh(x, uint(y.Uint64()))
		}
	case OLshr:
		if y.IsUint64() && y.Uint64() < uint64(w) {
			r.Rsh(x, uint(y.Uint64()))
		}
	case OAshr:
		s := uint64(w)
		if y.IsUint64() && y.Uint64() < s {
			s = y.Uint64()
		}
		r.Rsh(signedBig(x, w), uint(s))
	}
	return c.BVBig(w, r)
}

func (c *Ctx) bin(op Op, a, b *Term) *Term {
	return c.intern(&Term{op: op, w: a.w, args: []*Term{a, b}})
}

func chk(a, b *Term) {
	if a.w != b.w || a.w == 0 {
		panic(fmt.Sprintf("bv width mismatch %d %d", a.w, b.w))
	}
}

func (c *Ctx) Add(a, b *Term) *Term {
	chk(a, b)
	if a.op == OConst && b.op == OConst {
		return c.fold2(OAdd, a, b)
	}
	if a.op == OConst {
		a, b = b, a
	}
	if b.isZero() {
		return a
	}
	if a.isZero() {
		return b
	}
	if b.op == OConst {
		if a.op == OAdd && a.args[1].op == OConst {
			return c.Add(a.args[0], c.fold2(OAdd, a.args[1], b))
		}
		if a.op == OSub && a.args[0].op == OConst {
			return c.Sub(c.fold2(OAdd, a.args[0], b), a.args[1])
		}
		if r := c.pushIte2(a, b, c.Add); r != nil {
			return r
		}
	} else {
		if a.op == OAdd && a.args[1].op == OConst {
			return c.Add(c.Add(a.args[0], b), a.args[1])
		}
		if b.op == OAdd && b.args[1].op == OConst {
			return c.Add(c.Add(a, b.args[0]), b.args[1])
		}
		if b.op == OSub && b.args[1] == a {
			return b.args[0]
		}
		if b.op == OSub && b.args[0].isZero() {
			return c.Sub(a, b.args[1])
		}
		if a.op == OSub && a.args[0].isZero() {
			return c.Sub(b, a.args[1])
		}
		if a.op == OSub && a.args[1] == b {
			return a.args[0]
		}
		if r := c.disjointOr(a, b); r != nil {
			return r
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return c.bin(OAdd, a, b)
}

// disjointOr recognises sums/ors of bitwise disjoint shifted terms and builds a concat.
func (c *Ctx) disjointOr(a, b *Term) *Term {
	w := a.w
	for i := 0; i < 2; i++ {
		// a has low k zero bits, b fits into k bits
		k := lowZeros(a)
		if k > 0 && b.nbits <= k && k < w {
			hi := c.Extract(w-1, k, a)
			lo := c.Extract(k-1, 0, b)
			return c.Concat(hi, lo)
		}
		a, b = b, a
	}
	return nil
}

// lowZeros: number of known zero low bits (structural).
func lowZeros(t *Term) int {
	switch t.op {
	case OConst:
		if t.nbits == 0 {
			return t.w
		}
		if t.b != nil {
			return int(t.b.TrailingZeroBits())
		}
		return bits.TrailingZeros64(t.u)
	case OConcat:
		l := lowZeros(t.args[1])
		if l == t.args[1].w {
			return l + lowZeros(t.args[0])
		}
		return l
	case OZext, OSext:
		l := lowZeros(t.args[0])
		if l == t.args[0].w {
			return t.w
		}
		return l
	case OShl:
		if t.args[1].op == OConst && t.args[1].nbits < 20 {
			return min(t.w, int(t.args[1].constU())+lowZeros(t.args[0]))
		}
	}
	return 0
}

func (c *Ctx) Sub(a, b *Term) *Term {
	chk(a, b)
	if a.op == OConst && b.op == OConst {
		return c.fold2(OSub, a, b)
	}
	if a == b {
		return c.BV(a.w, 0)
	}
	if b.isZero() {
		return a
	}
	if b.op == OConst {
		if a.op == OSub && a.args[0].op == OConst {
			return c.Sub(c.Sub(a.args[0], b), a.args[1])
		}
		return c.Add(a, c.Neg(b))
	}
	if a.op == OAdd {
		if a.args[0] == b {
			return a.args[1]
		}
		if a.args[1] == b {
			return a.args[0]
		}
	}
	if b.op == OSub && b.args[0].op == OConst {
		return c.Sub(c.Add(a, b.args[1]), b.args[0])
	}
	if a.op == OConst {
		if r := c.pushIte2(a, b, c.Sub); r != nil {
			return r
		}
	}
	// (x+k) - (y+l)
	if a.op == OAdd && a.args[1].op == OConst {
		if b.op == OAdd && b.args[1].op == OConst {
			return c.Add(c.Sub(a.args[0], b.args[0]), c.Sub(a.args[1], b.args[1]))
		}
		return c.Add(c.Sub(a.args[0], b), a.args[1])
	}
	return c.bin(OSub, a, b)
}

func (c *Ctx) Neg(a *Term) *Term {
	z := c.BV(a.w, 0)
	if a.op == OConst {
		return c.fold2(OSub, z, a)
	}
	if a.op == OSub {
		return c.Sub(a.args[1], a.args[0])
	}
	return c.bin(OSub, z, a)
}

func (c *Ctx) Mul(a, b *Term) *Term {
	chk(a, b)
	if a.op == OConst && b.op == OConst {
		return c.fold2(OMul, a, b)
	}
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		if b.isZero() {
			return b
		}
		if b.isOne() {
			return a
		}
		tz := lowZeros(b)
		if b.nbits == tz+1 {
			return c.Shl(a, c.BV(a.w, uint64(tz)))
		}
		if a.op == OSub && a.args[0].isZero() {
			return c.Neg(c.Mul(a.args[1], b))
		}
		if r := c.pushIte2(a, b, c.Mul); r != nil {
			return r
		}
		if a.op == OMul && a.args[1].op == OConst {
			return c.Mul(a.args[0], c.fold2(OMul, a.args[1], b))
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return c.bin(OMul, a, b)
}

func isPow2(t *Term) (int, bool) {
	if t.op != OConst || t.nbits == 0 {
		return 0, false
	}
	tz := lowZeros(t)
	return tz, t.nbits == tz+1
}

func (c *Ctx) Udiv(a, b *Term) *Term {
	chk(a, b)
	if a.op == OConst && b.op == OConst {
		return c.fold2(OUdiv, a, b)
	}
	if k, ok := isPow2(b); ok {
		return c.Lshr(a, c.BV(a.w, uint64(k)))
	}
	if a.w <= 64 && b.ulo > 0 && a.uhi < b.ulo {
		return c.BV(a.w, 0)
	}
	if q, _, ok := c.linDiv(a, b); ok {
		return q
	}
	if n := max(a.nbits, b.nbits); n < a.w && n > 0 && !b.isZero() && b.op == OConst {
		return c.Zext(a.w, c.Udiv(c.Extract(n-1, 0, a), c.Extract(n-1, 0, b)))
	}
	return c.bin(OUdiv, a, b)
}

type linTerm struct {
	k uint64
	t *Term
}

// lin writes t as k + sum of ci*xi over the natural numbers (no wrap-around), flattening sums.
func (c *Ctx) lin(t *Term, f uint64, out *[]linTerm, k *uint64) bool {
	if len(*out) > 64 {
		return false
	}
	h, _ := bits.Mul64(t.uhi, f)
	if h != 0 {
		return false
	}
	switch t.op {
	case OConst:
		*k += t.u * f
		return true
	case OAdd:
		hi, cc := bits.Add64(t.args[0].uhi, t.args[1].uhi, 0)
		if cc == 0 && hi <= maskOf(t.w) {
			return c.lin(t.args[0], f, out, k) && c.lin(t.args[1], f, out, k)
		}
		if x := t.args[1]; x.op == OConst {
			if n := -x.u & maskOf(t.w); n <= t.args[0].ulo {
				if h, l := bits.Mul64(n, f); h == 0 {
					c.linSub = true
					*k -= l // the sum stays non-negative: wraps back when the rest is added
					return c.lin(t.args[0], f, out, k)
				}
			}
		}
	case OMul:
		if x := t.args[1]; x.op == OConst {
			h, l := bits.Mul64(t.args[0].uhi, x.u)
			h2, fk := bits.Mul64(f, x.u)
			if h == 0 && l <= maskOf(t.w) && h2 == 0 {
				return c.lin(t.args[0], fk, out, k)
			}
		}
	case OShl:
		if x := t.args[1]; x.op == OConst && x.u < 60 && t.args[0].nbits+int(x.u) <= t.w {
			h2, fk := bits.Mul64(f, 1<<x.u)
			if h2 == 0 {
				return c.lin(t.args[0], fk, out, k)
			}
		}
	case OConcat:
		h2, fk := bits.Mul64(f, 1<<uint(t.args[1].w))
		if t.args[1].w < 64 && h2 == 0 && t.args[0].nbits > 0 {
			return c.lin(t.args[0], fk, out, k) && c.lin(t.args[1], f, out, k)
		}
	case OZext:
		return c.lin(t.args[0], f, out, k)
	case OExtract:
		if t.u == 0 && t.args[0].w <= 64 && t.args[0].nbits <= t.w {
			return c.lin(t.args[0], f, out, k)
		}
	}
	*out = append(*out, linTerm{f, t})
	return true
}

func gcd(a, b uint64) uint64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// linDiv splits a/b and a%b for a linear a and constant b.
func (c *Ctx) linDiv(a, b *Term) (q, r *Term, ok bool) {
	if c.noLinDiv {
		return nil, nil, false
	}
	if a.w > 64 || b.op != OConst || b.u == 0 {
		return
	}
	switch a.op {
	case OAdd, OMul, OShl, OConcat, OZext, OExtract:
	default:
		return
	}
	var ts []linTerm
	var k uint64
	c.linSub = false
	if !c.lin(a, 1, &ts, &k) {
		return
	}
	w := a.w
	if c.linSub && k > 1<<62 {
		return nil, nil, false // negative constant part
	}
	moved := k >= b.u
	q, rest := c.BV(w, k/b.u), c.BV(w, k%b.u)
	for _, t := range ts {
		x := c.Resize(w, t.t, false)
		if t.k >= b.u {
			moved = true
			q = c.Add(q, c.Mul(x, c.BV(w, t.k/b.u)))
		}
		if t.k%b.u != 0 {
			rest = c.Add(rest, c.Mul(x, c.BV(w, t.k%b.u)))
		}
	}
	if moved {
		return c.Add(q, c.Udiv(rest, b)), c.Urem(rest, b), true
	}
	// floor((g*A+r)/(g*B)) = floor(A/B) for r < g
	sort.SliceStable(ts, func(i, j int) bool { return ts[i].k > ts[j].k })
	for j := 1; j <= len(ts); j++ {
		g := b.u
		for _, t := range ts[:j] {
			g = gcd(g, t.k)
		}
		max, over := k, uint64(0)
		for _, t := range ts[j:] {
			h, l := bits.Mul64(t.k, t.t.uhi)
			var cc uint64
			max, cc = bits.Add64(max, l, 0)
			over |= h | cc
		}
		if g <= 1 || over != 0 || max >= g {
			continue
		}
		hi, lo := c.BV(w, 0), c.BV(w, k)
		for i, t := range ts {
			x := c.Resize(w, t.t, false)
			if i < j {
				hi = c.Add(hi, c.Mul(x, c.BV(w, t.k/g)))
			} else {
				lo = c.Add(lo, c.Mul(x, c.BV(w, t.k)))
			}
		}
		gb := c.BV(w, b.u/g)
		return c.Udiv(hi, gb), c.Add(c.Mul(c.Urem(hi, gb), c.BV(w, g)), lo), true
	}
	return
}
func (c *Ctx) Urem(a, b *Term) *Term {
	chk(a, b)
	if a.op == OConst && b.op == OConst {
		return c.fold2(OUrem, a, b)
	}
	if k, ok := isPow2(b); ok {
		if k == 0 {
			return c.BV(a.w, 0)
		}
		return c.Zext(a.w, c.Extract(k-1, 0, a))
	}
	if a.w <= 64 && a.uhi < b.ulo {
		return a
	}
	if a.w > 64 && b.op == OConst && a.nbits < b.nbits {
		return a
	}
	if _, r, ok := c.linDiv(a, b); ok {
		return r
	}
	if n := max(a.nbits, b.nbits); n < a.w && n > 0 && !b.isZero() {
		return c.Zext(a.w, c.Urem(c.Extract(n-1, 0, a), c.Extract(n-1, 0, b)))
	}
	return c.bin(OUrem, a, b)
}
func (c *Ctx) Sdiv(a, b *Term) *Term {
	chk(a, b)
	if a.op == OConst && b.op == OConst {
		return c.fold2(OSdiv, a, b)
	}
	if a.nbits < a.w && b.nbits < b.w {
		return c.Udiv(a, b)
	}
	if b.nbits < b.w && a.op == OSub {
		if n := c.Neg(a); n.nbits < n.w {
			return c.Neg(c.Udiv(n, b))
		}
	}
	return c.bin(OSdiv, a, b)
}
func (c *Ctx) Srem(a, b *Term) *Term {
	chk(a, b)
	if a.op == OConst && b.op == OConst {
		return c.fold2(OSrem, a, b)
	}
	if a.nbits < a.w && b.nbits < b.w {
		return c.Urem(a, b)
	}
	if b.nbits < b.w && a.op == OSub {
		if n := c.Neg(a); n.nbits < n.w {
			return c.Neg(c.Urem(n, b))
		}
	}
	return c.bin(OSrem, a, b)
}

func (c *Ctx) BNot(a *Term) *Term {
	if a.op == OConst {
		if a.w <= 64 {
			return c.BV(a.w, ^a.u)
		}
		return c.BVBig(a.w, new(big.Int).Not(a.b))
	}
	if a.op == OBNot {
		return a.args[0]
	}
	return c.intern(&Term{op: OBNot, w: a.w, args: []*Term{a}})
}

func (c *Ctx) BAnd(a, b *Term) *Term {
	chk(a, b)
	if a.op == OConst && b.op == OConst {
		return c.fold2(OBAnd, a, b)
	}
	if a.op == OConst {
		a, b = b, a
	}
	if a == b {
		return a
	}
	if b.op == OConst {
		if b.isZero() {
			return b
		}
		if b.isOnes() {
			return a
		}
		// low mask
		tz := lowZeros(b)
		ones := b.nbits - tz
		if b.constBigBitsContiguous(tz, ones) {
			// bits [tz, tz+ones)
			if tz == 0 && a.nbits <= ones {
				return a
			}
			mid := c.Extract(tz+ones-1, tz, a)
			r := mid
			if tz > 0 {
				r = c.Concat(r, c.BV(tz, 0))
			}
			return c.Zext(a.w, r)
		}
		if a.op == OBAnd && a.args[1].op == OConst {
			return c.BAnd(a.args[0], c.fold2(OBAnd, a.args[1], b))
		}
		if r := c.pushIte2(a, b, c.BAnd); r != nil {
			return r
		}
	} else {
		if a == c.BNot(b) {
			return c.BV(a.w, 0)
		}
		if a.op == OZext && b.op == OZext && a.args[0].w == b.args[0].w {
			return c.Zext(a.w, c.BAnd(a.args[0], b.args[0]))
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return c.bin(OBAnd, a, b)
}

func (t *Term) constBigBitsContiguous(tz, n int) bool {
	if n <= 0 {
		return false
	}
	if t.w <= 64 {
		return t.u>>uint(tz) == maskOf(n)
	}
	return new(big.Int).Rsh(t.b, uint(tz)).Cmp(bigMask(n)) == 0
}

func (c *Ctx) BOr(a, b *Term) *Term {
	chk(a, b)
	if a.op == OConst && b.op == OConst {
		return c.fold2(OBOr, a, b)
	}
	if a.op == OConst {
		a, b = b, a
	}
	if a == b {
		return a
	}
	if b.op == OConst {
		if b.isZero() {
			return a
		}
		if b.isOnes() {
			return b
		}
		if a.op == OBOr && a.args[1].op == OConst {
			return c.BOr(a.args[0], c.fold2(OBOr, a.args[1], b))
		}
		if r := c.pushIte2(a, b, c.BOr); r != nil {
			return r
		}
	}
	if a.isZero() {
		return b
	}
	if r := c.disjointOr(a, b); r != nil {
		return r
	}
	// rotl: shl(x,n) | lshr(x,w-n)  (after canonicalisation: concat(extract(x),0) | zext(extract(x)))
	if b.op != OConst && a.id > b.id {
		a, b = b, a
	}
	return c.bin(OBOr, a, b)
}

func (c *Ctx) BXor(a, b *Term) *Term {
	chk(a, b)
	return c.xorN([]*Term{a, b})
}

type piece struct {
	lo int
	t  *Term
}

// pieces lists the non-zero parts of a concatenation with their positions.
func pieces(t *Term, lo int, out *[]piece) {
	switch {
	case t.isZero():
	case t.op == OConcat:
		pieces(t.args[1], lo, out)
		pieces(t.args[0], lo+t.args[1].w, out)
	case t.op == OZext:
		pieces(t.args[0], lo, out)
	default:
		*out = append(*out, piece{lo, t})
	}
}

// hasConstPart: a concatenation with a non-zero constant piece.
func hasConstPart(t *Term) bool {
	switch t.op {
	case OConst:
		return !t.isZero()
	case OConcat:
		return hasConstPart(t.args[0]) || hasConstPart(t.args[1])
	case OZext:
		return hasConstPart(t.args[0])
	}
	return false
}

// splitConst writes t as v xor k with k the constant pieces of t.
func (c *Ctx) splitConst(t *Term) (v, k *Term) {
	switch t.op {
	case OConst:
		return c.BV(t.w, 0), t
	case OConcat:
		v0, k0 := c.splitConst(t.args[0])
		v1, k1 := c.splitConst(t.args[1])
		return c.Concat(v0, v1), c.Concat(k0, k1)
	case OZext:
		v0, k0 := c.splitConst(t.args[0])
		return c.Zext(t.w, v0), c.Zext(t.w, k0)
	}
	return t, c.BV(t.w, 0)
}

func (c *Ctx) xorN(in []*Term) *Term {
	w := in[0].w
	k := c.BV(w, 0)
	cnt := map[*Term]int{}
	var order []*Term
	var add func(t *Term)
	add = func(t *Term) {
		switch {
		case t.op == OConst:
			k = c.fold2(OBXor, k, t)
		case t.op == OBXor:
			for _, x := range t.args {
				add(x)
			}
		case t.op == OBNot:
			k = c.BNot(k)
			add(t.args[0])
		default:
			if cnt[t] == 0 {
				order = append(order, t)
			}
			cnt[t]++
		}
	}
	for _, t := range in {
		add(t)
	}
	if len(order) > 1 {
		// constant parts of concatenations belong to the constant
		strip := false
		for _, t := range order {
			if t.op == OConcat && hasConstPart(t) {
				strip = true
			}
		}
		if strip {
			old, oldCnt := order, cnt
			order, cnt = nil, map[*Term]int{}
			for _, t := range old {
				if oldCnt[t]%2 == 0 {
					continue
				}
				if t.op == OConcat {
					var cp *Term
					t, cp = c.splitConst(t)
					k = c.fold2(OBXor, k, cp)
				}
				add(t)
			}
		}
	}
	var out []*Term
	seen := map[*Term]bool{}
	for _, t := range order {
		if cnt[t]%2 == 1 && !seen[t] {
			seen[t] = true
			out = append(out, t)
		}
	}
	if len(out) == 0 {
		return k
	}
	// disjoint parts: the whole is a concatenation
	if len(out) > 1 {
		var ps []piece
		ok := true
		for _, t := range out {
			if t.op != OConcat && t.op != OZext {
				ok = false
				break
			}
			pieces(t, 0, &ps)
		}
		if ok {
			sort.Slice(ps, func(i, j int) bool { return ps[i].lo < ps[j].lo })
			at := 0
			for _, p := range ps {
				if p.lo < at {
					ok = false
					break
				}
				at = p.lo + p.t.w
			}
			if ok {
				var r *Term
				app := func(t *Term) {
					if r == nil {
						r = t
					} else {
						r = c.Concat(t, r)
					}
				}
				at := 0
				for _, p := range ps {
					if p.lo > at {
						app(c.BV(p.lo-at, 0))
					}
					app(p.t)
					at = p.lo + p.t.w
				}
				out = []*Term{c.Zext(w, r)}
			}
		}
	}
	if len(out) == 1 && !k.isOnes() && !k.isZero() && (out[0].op == OZext || out[0].op == OConcat) {
		// the constant goes into the parts
		r := out[0]
		if r.op == OZext {
			iw := r.args[0].w
			return c.Concat(c.Extract(w-1, iw, k), c.BXor(r.args[0], c.Extract(iw-1, 0, k)))
		}
		if r.args[0].op == OConst || r.args[1].op == OConst {
			lw := r.args[1].w
			return c.Concat(c.BXor(r.args[0], c.Extract(w-1, lw, k)), c.BXor(r.args[1], c.Extract(lw-1, 0, k)))
		}
	}
	// rotations: (t<<n) ^ (t>>(w-n)) is a concatenation
	for i := 0; i < len(out); i++ {
		h := out[i]
		if h == nil || h.op != OConcat || h.args[0].op != OExtract || !h.args[1].isZero() {
			continue
		}
		for j, l := range out {
			if l != nil && l.op == OZext && l.args[0].op == OExtract && l.args[0].w == h.args[1].w && l.args[0].args[0] == h.args[0].args[0] && l.args[0].u == uint64(h.args[0].hi+1) {
				out[i] = c.Concat(h.args[0], l.args[0])
				out[j] = nil
				break
			}
		}
	}
	n := 0
	for _, t := range out {
		if t != nil {
			out[n] = t
			n++
		}
	}
	out = out[:n]
	neg := k.isOnes()
	if !neg && !k.isZero() {
		if len(out) == 1 {
			if r := c.pushIte2(out[0], k, c.BXor); r != nil {
				return r
			}
		}
		out = append(out, k)
	}
	var r *Term
	if len(out) == 1 {
		r = out[0]
	} else {
		sort.Slice(out, func(i, j int) bool {
			if (out[i].op == OConst) != (out[j].op == OConst) {
				return out[i].op == OConst
			}
			return out[i].id < out[j].id
		})
		r = c.intern(&Term{op: OBXor, w: w, args: out})
	}
	if neg {
		return c.BNot(r)
	}
	return r
}

func (c *Ctx) Shl(a, s *Term) *Term {
	chk(a, s)
	if a.op == OConst && s.op == OConst {
		return c.fold2(OShl, a, s)
	}
	if s.isZero() || a.isZero() {
		return a
	}
	if s.op == OConst {
		if s.nbits > 30 || int(s.constU()) >= a.w {
			return c.BV(a.w, 0)
		}
		n := int(s.constU())
		return c.Concat(c.Extract(a.w-1-n, 0, a), c.BV(n, 0))
	}
	return c.bin(OShl, a, s)
}
func (c *Ctx) Lshr(a, s *Term) *Term {
	chk(a, s)
	if a.op == OConst && s.op == OConst {
		return c.fold2(OLshr, a, s)
	}
	if s.isZero() || a.isZero() {
		return a
	}
	if s.op == OConst {
		if s.nbits > 30 || int(s.constU()) >= a.w {
			return c.BV(a.w, 0)
		}
		n := int(s.constU())
		return c.Zext(a.w, c.Extract(a.w-1, n, a))
	}
	return c.bin(OLshr, a, s)
}
func (c *Ctx) Ashr(a, s *Term) *Term {
	chk(a, s)
	if a.op == OConst && s.op == OConst {
		return c.fold2(OAshr, a, s)
	}
	if s.isZero() || a.isZero() {
		return a
	}
	if a.nbits < a.w {
		return c.Lshr(a, s)
	}
	if s.op == OConst {
		n := a.w - 1
		if s.nbits <= 30 && int(s.constU()) < n {
			n = int(s.constU())
		}
		return c.Sext(a.w, c.Extract(a.w-1, n, a))
	}
	return c.bin(OAshr, a, s)
}

func (c *Ctx) Concat(a, b *Term) *Term {
	w := a.w + b.w
	if a.op == OConst && b.op == OConst {
		v := new(big.Int).Lsh(a.constBig(), uint(b.w))
		v.Or(v, b.constBig())
		return c.BVBig(w, v)
	}
	if a.isZero() {
		return c.Zext(w, b)
	}
	if a.op == OZext { // push zext outward
		return c.Zext(w, c.Concat(a.args[0], b))
	}
	// adjacent extracts
	if a.op == OExtract && b.op == OExtract && a.args[0] == b.args[0] && int(a.u) == b.hi+1 {
		return c.Extract(a.hi, int(b.u), a.args[0])
	}
	// right assoc: concat(concat(x,y),z) -> concat(x, concat(y,z))
	if a.op == OConcat {
		return c.Concat(a.args[0], c.Concat(a.args[1], b))
	}
	if b.op == OConcat {
		// try merge of a with b's head
		h := b.args[0]
		if a.op == OExtract && h.op == OExtract && a.args[0] == h.args[0] && int(a.u) == h.hi+1 {
			return c.Concat(c.Extract(a.hi, int(h.u), a.args[0]), b.args[1])
		}
		if a.op == OConst && h.op == OConst {
			return c.Concat(c.Concat(a, h), b.args[1])
		}
	}
	return c.intern(&Term{op: OConcat, w: w, args: []*Term{a, b}})
}

func (c *Ctx) Extract(hi, lo int, a *Term) *Term {
	w := hi - lo + 1
	if w == a.w {
		return a
	}
	if w <= 0 || hi >= a.w {
		panic(fmt.Sprintf("bad extract %d %d of %d", hi, lo, a.w))
	}
	if a.nbits <= lo {
		return c.BV(w, 0)
	}
	switch a.op {
	case OConst:
		return c.BVBig(w, new(big.Int).Rsh(a.constBig(), uint(lo)))
	case OExtract:
		l := int(a.u)
		return c.Extract(hi+l, lo+l, a.args[0])
	case OZext:
		iw := a.args[0].w
		if hi < iw {
			return c.Extract(hi, lo, a.args[0])
		}
		return c.Zext(w, c.Extract(iw-1, lo, a.args[0]))
	case OSext:
		iw := a.args[0].w
		if hi < iw {
			return c.Extract(hi, lo, a.args[0])
		}
		if lo == 0 {
			return c.Sext(w, a.args[0])
		}
		if lo < iw-1 {
			return c.Sext(w, c.Extract(iw-1, lo, a.args[0]))
		}
		return c.Sext(w, c.Extract(iw-1, iw-1, a.args[0]))
	case OConcat:
		lw := a.args[1].w
		if hi < lw {
			return c.Extract(hi, lo, a.args[1])
		}
		if lo >= lw {
			return c.Extract(hi-lw, lo-lw, a.args[0])
		}
		return c.Concat(c.Extract(hi-lw, 0, a.args[0]), c.Extract(lw-1, lo, a.args[1]))
	case OBAnd:
		if a.depth > 12 {
			break
		}
		return c.BAnd(c.Extract(hi, lo, a.args[0]), c.Extract(hi, lo, a.args[1]))
	case OBOr:
		if a.depth > 12 {
			break
		}
		return c.BOr(c.Extract(hi, lo, a.args[0]), c.Extract(hi, lo, a.args[1]))
	case OBNot:
		if a.depth > 12 {
			break
		}
		return c.BNot(c.Extract(hi, lo, a.args[0]))
	case OBXor:
		if a.depth > 12 {
			break
		}
		var xs []*Term
		for _, x := range a.args {
			xs = append(xs, c.Extract(hi, lo, x))
		}
		return c.xorN(xs)
	case OIte:
		n := iteBudget
		if iteLeavesConst(a, &n) {
			return c.mapIte(a, func(x *Term) *Term { return c.Extract(hi, lo, x) }, map[*Term]*Term{})
		}
		if a.args[1].op == OConst || a.args[2].op == OConst || a.args[1].op == OZext || a.args[2].op == OZext || a.args[1].op == OConcat || a.args[2].op == OConcat {
			return c.Ite(a.args[0], c.Extract(hi, lo, a.args[1]), c.Extract(hi, lo, a.args[2]))
		}
	case OAdd:
		if lo == 0 && (a.args[0].op == OZext || a.args[1].op == OZext || a.args[1].op == OConst || hi < 64 && a.w > 64) {
			return c.Add(c.Extract(hi, 0, a.args[0]), c.Extract(hi, 0, a.args[1]))
		}
	case OSub:
		if lo == 0 && (a.args[0].op == OZext || a.args[1].op == OZext || a.args[0].op == OConst || hi < 64 && a.w > 64) {
			return c.Sub(c.Extract(hi, 0, a.args[0]), c.Extract(hi, 0, a.args[1]))
		}
	case OMul:
		if lo == 0 && (a.args[0].op == OZext || a.args[1].op == OZext || a.args[1].op == OConst) {
			return c.Mul(c.Extract(hi, 0, a.args[0]), c.Extract(hi, 0, a.args[1]))
		}
	}
	return c.intern(&Term{op: OExtract, w: w, hi: hi, u: uint64(lo), args: []*Term{a}})
}

func (c *Ctx) Zext(w int, a *Term) *Term {
	if w == a.w {
		return a
	}
	if w < a.w {
		panic("zext narrower")
	}
	if a.op == OConst {
		return c.BVBig(w, a.constBig())
	}
	if a.op == OZext {
		return c.Zext(w, a.args[0])
	}
	if a.op == OExtract && a.u == 0 && a.args[0].w == w && a.args[0].nbits <= a.w {
		return a.args[0]
	}
	return c.intern(&Term{op: OZext, w: w, args: []*Term{a}})
}

func (c *Ctx) Sext(w int, a *Term) *Term {
	if w == a.w {
		return a
	}
	if a.op == OConst {
		return c.BVBig(w, signedBig(a.constBig(), a.w))
	}
	if a.nbits < a.w {
		return c.Zext(w, a)
	}
	if a.op == OSext {
		return c.Sext(w, a.args[0])
	}
	return c.intern(&Term{op: OSext, w: w, args: []*Term{a}})
}

// Resize: truncate or extend.
func (c *Ctx) Resize(w int, a *Term, sgn bool) *Term {
	if w < a.w {
		return c.Extract(w-1, 0, a)
	}
	if w == a.w {
		return a
	}
	if sgn {
		return c.Sext(w, a)
	}
	return c.Zext(w, a)
}

func (c *Ctx) BoolToBV(w int, b *Term) *Term { return c.Ite(b, c.BV(w, 1), c.BV(w, 0)) }

// ---------- evaluation ----------

type Model struct {
	vals map[int]*big.Int // var id -> value (nil => default 0)
	memo map[int]mval
}
type mval struct {
	u uint64
	b *big.Int
}

func NewModel() *Model { return &Model{vals: map[int]*big.Int{}, memo: map[int]mval{}} }

func (m *Model) EvalBool(t *Term) bool { return m.eval(t).u != 0 }
func (m *Model) EvalU(t *Term) uint64 {
	v := m.eval(t)
	if v.b != nil {
		return v.b.Uint64()
	}
	return v.u
}
func (m *Model) EvalBig(t *Term) *big.Int {
	v := m.eval(t)
	if v.b != nil {
		return v.b
	}
	return new(big.Int).SetUint64(v.u)
}

func (m *Model) eval(t *Term) mval {
	if t.op == OConst {
		return mval{t.u, t.b}
	}
	if v, ok := m.memo[t.id]; ok {
		return v
	}
	var v mval
	switch t.op {
	case OVar:
		x := m.vals[t.id]
		if x == nil {
			x = new(big.Int)
			if t.ranged {
				x.SetUint64(t.ulo)
			}
		}
		if t.w > 64 {
			v.b = x
		} else {
			v.u = x.Uint64()
		}
	case ONot:
		v.u = 1 - m.eval(t.args[0]).u
	case OAnd:
		v.u = 1
		for _, a := range t.args {
			if m.eval(a).u == 0 {
				v.u = 0
				break
			}
		}
	case OOr:
		for _, a := range t.args {
			if m.eval(a).u != 0 {
				v.u = 1
				break
			}
		}
	case OIte:
		if m.eval(t.args[0]).u != 0 {
			v = m.eval(t.args[1])
		} else {
			v = m.eval(t.args[2])
		}
	case OEq:
		a, b := m.eval(t.args[0]), m.eval(t.args[1])
		if a.b != nil {
			v.u = b2u(a.b.Cmp(b.b) == 0)
		} else {
			v.u = b2u(a.u == b.u)
		}
	case OUlt, OSlt:
		a, b := m.eval(t.args[0]), m.eval(t.args[1])
		w := t.args[0].w
		if a.b != nil {
			x, y := a.b, b.b
			if t.op == OSlt {
				x, y = signedBig(x, w), signedBig(y, w)
			}
			v.u = b2u(x.Cmp(y) < 0)
		} else if t.op == OUlt {
			v.u = b2u(a.u < b.u)
		} else {
			v.u = b2u(signed(a.u, w) < signed(b.u, w))
		}
	default:
		v = m.evalBV(t)
	}
	m.memo[t.id] = v
	return v
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

var evalCtx = NewCtx()

func mkc(w int, v mval) *Term {
	if w > 64 {
		return &Term{op: OConst, w: w, b: v.b, nbits: v.b.BitLen()}
	}
	return &Term{op: OConst, w: w, u: v.u, nbits: bits.Len64(v.u)}
}

func toM(w int, b *big.Int) mval {
	if w > 64 {
		return mval{b: b}
	}
	return mval{u: b.Uint64()}
}

func (m *Model) evalBV(t *Term) mval {
	switch t.op {
	case OBNot:
		a := m.eval(t.args[0])
		if t.w <= 64 {
			return mval{u: ^a.u & maskOf(t.w)}
		}
		return mval{b: new(big.Int).Xor(a.b, bigMask(t.w))}
	case OBXor:
		if t.w <= 64 {
			var r uint64
			for _, x := range t.args {
				r ^= m.eval(x).u
			}
			return mval{u: r}
		}
		r := new(big.Int)
		for _, x := range t.args {
			r.Xor(r, m.eval(x).b)
		}
		return mval{b: r}
	case OConcat:
		a, b := m.eval(t.args[0]), m.eval(t.args[1])
		if t.w <= 64 {
			return mval{u: a.u<<uint(t.args[1].w) | b.u}
		}
		r := new(big.Int).Lsh(m.EvalBig(t.args[0]), uint(t.args[1].w))
		r.Or(r, m.EvalBig(t.args[1]))
		return mval{b: r}
	case OExtract:
		a := m.eval(t.args[0])
		if a.b == nil {
			return mval{u: (a.u >> t.u) & maskOf(t.w)}
		}
		r := new(big.Int).Rsh(a.b, uint(t.u))
		r.And(r, bigMask(t.w))
		return toM(t.w, r)
	case OZext:
		a := m.eval(t.args[0])
		if t.w <= 64 {
			return a
		}
		return mval{b: m.EvalBig(t.args[0])}
	case OSext:
		a := m.eval(t.args[0])
		iw := t.args[0].w
		if t.w <= 64 {
			return mval{u: uint64(signed(a.u, iw)) & maskOf(t.w)}
		}
		r := new(big.Int).And(signedBig(m.EvalBig(t.args[0]), iw), bigMask(t.w))
		return mval{b: r}
	}
	a, b := m.eval(t.args[0]), m.eval(t.args[1])
	if t.w <= 64 {
		// reuse fold2 on an allocation-light path
		return mval{u: fold64(t.op, t.w, a.u, b.u)}
	}
	r := evalCtxFold(t.op, t.w, a, b)
	return r
}

func fold64(op Op, w int, x, y uint64) uint64 {
	var r uint64
	switch op {
	case OAdd:
		r = x + y
	case OSub:
		r = x - y
	case OMul:
		r = x * y
	case OBAnd:
		r = x & y
	case OBOr:
		r = x | y
	case OShl:
		if y < 64 {
			r = x << y
		}
	case OLshr:
		if y < 64 {
			r = x >> y
		}
	case OUdiv:
		if y == 0 {
			r = ^uint64(0)
		} else {
			r = x / y
		}
	case OUrem:
		if y == 0 {
			r = x
		} else {
			r = x % y
		}
	default:
		var c Ctx
		c.bvc = map[[2]uint64]*Term{}
		return c.fold2(op, mkc(w, mval{u: x}), mkc(w, mval{u: y})).u
	}
	return r & maskOf(w)
}

func evalCtxFold(op Op, w int, a, b mval) mval {
	c := &Ctx{tab: map[string]*Term{}, bvc: map[[2]uint64]*Term{}}
	t := c.fold2(op, mkc(w, a), mkc(w, b))
	return mval{b: t.b}
}

func (t *Term) String() string {
	return t.str(6)
}
func (t *Term) str(d int) string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			return fmt.Sprint(t.u == 1)
		}
		if t.b != nil {
			return fmt.Sprintf("0x%x:%d", t.b, t.w)
		}
		return fmt.Sprintf("0x%x:%d", t.u, t.w)
	case OVar:
		return t.name
	}
	if d == 0 {
		return fmt.Sprintf("t%d", t.id)
	}
	s := "(" + opNames[t.op]
	if t.op == OExtract {
		s += fmt.Sprintf("[%d:%d]", t.hi, t.u)
	}
	for _, a := range t.args {
		s += " " + a.str(d-1)
	}
	return s + ")"
}
