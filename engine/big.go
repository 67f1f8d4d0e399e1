package main

import (
	"fmt"
	"math/big"
	"strings"
)

// Exact model of math/big.Int: sign flag plus a magnitude bit-vector that grows as needed.

type bigI struct {
	neg *Term
	mag *Term
}

func (e *Eng) magT(m BigMag) *Term {
	if m.t == nil {
		return e.c.BV(1, 0)
	}
	return m.t
}

// normMag trims a magnitude to its known significant width.
func (e *Eng) normMag(t *Term) BigMag {
	n := t.nbits
	if n == 0 {
		return BigMag{}
	}
	if n < t.w {
		t = e.c.Extract(n-1, 0, t)
	}
	return BigMag{t}
}

func (e *Eng) loadBig(st *State, v Value) bigI {
	p, ok := v.(PtrV)
	if !ok {
		unsupported("big.Int pointer %T", v)
	}
	s := e.load(st, p).(*StructV)
	return bigI{s.f[0].(*Term), e.magT(s.f[1].(BigMag))}
}

func (e *Eng) storeBig(st *State, v Value, b bigI) Value {
	m := e.normMag(b.mag)
	neg := b.neg
	if m.t == nil {
		neg = e.c.False
	}
	e.store(st, v.(PtrV), &StructV{[]Value{neg, m}})
	return v
}

func (e *Eng) isZeroT(t *Term) *Term { return e.c.Eq(t, e.c.BV(t.w, 0)) }

// twos returns the two's complement of b in w bits (w must exceed mag width).
func (e *Eng) twos(b bigI, w int) *Term {
	m := e.c.Zext(w, b.mag)
	if b.neg == e.c.False {
		return m
	}
	return e.c.Ite(b.neg, e.c.Neg(m), m)
}

func (e *Eng) fromTwos(t *Term) bigI {
	c := e.c
	neg := c.Eq(c.Extract(t.w-1, t.w-1, t), c.BV(1, 1))
	return bigI{neg, c.Ite(neg, c.Neg(t), t)}
}

func (e *Eng) bigAdd(a, b bigI) bigI {
	c := e.c
	if a.neg == b.neg && a.neg.op == OConst {
		w := max(a.mag.w, b.mag.w) + 1
		return bigI{a.neg, c.Add(c.Zext(w, a.mag), c.Zext(w, b.mag))}
	}
	if a.neg.op == OConst && b.neg.op == OConst {
		w := max(a.mag.w, b.mag.w)
		x, y := c.Zext(w, a.mag), c.Zext(w, b.mag)
		lt := c.Ult(x, y)
		// a + b with opposite signs
		mag := c.Ite(lt, c.Sub(y, x), c.Sub(x, y))
		neg := c.Ite(lt, b.neg, a.neg)
		return bigI{c.And(neg, c.Not(e.isZeroT(mag))), mag}
	}
	w := max(a.mag.w, b.mag.w) + 2
	return e.fromTwos(c.Add(e.twos(a, w), e.twos(b, w)))
}

func (e *Eng) bigNeg(a bigI) bigI {
	return bigI{e.c.And(e.c.Not(a.neg), e.c.Not(e.isZeroT(a.mag))), a.mag}
}

func (e *Eng) bigMul(a, b bigI) bigI {
	c := e.c
	w := a.mag.w + b.mag.w
	m := c.Mul(c.Zext(w, a.mag), c.Zext(w, b.mag))
	neg := c.And(c.Or(c.And(a.neg, c.Not(b.neg)), c.And(c.Not(a.neg), b.neg)), c.Not(e.isZeroT(m)))
	return bigI{neg, m}
}

// divmod returns truncated quotient and remainder magnitudes.
func (e *Eng) divmod(a, b *Term) (q, r *Term) {
	c := e.c
	w := max(a.w, b.w)
	x, y := c.Zext(w, a), c.Zext(w, b)
	return c.Udiv(x, y), c.Urem(x, y)
}

func (e *Eng) bigDivZero(st *State, b bigI) {
	z := e.isZeroT(b.mag)
	if z == e.c.False {
		return
	}
	if e.decide(st, z) {
		panic(goPanic{IfaceV{e.ld.strT, StrV{s: "division by zero"}}})
	}
}

func (e *Eng) bigMod(a, m bigI) bigI { // Euclidean modulus
	c := e.c
	_, r := e.divmod(a.mag, m.mag)
	if a.neg == c.False {
		return bigI{c.False, r}
	}
	w := max(r.w, m.mag.w)
	r = c.Zext(w, r)
	y := c.Zext(w, m.mag)
	return bigI{c.False, c.Ite(c.And(a.neg, c.Not(e.isZeroT(r))), c.Sub(y, r), r)}
}

func (e *Eng) cmpMag(a, b *Term) (lt, eq *Term) {
	w := max(a.w, b.w)
	x, y := e.c.Zext(w, a), e.c.Zext(w, b)
	return e.c.Ult(x, y), e.c.Eq(x, y)
}

func (e *Eng) bigCmp(a, b bigI) *Term {
	c := e.c
	lt, eq := e.cmpMag(a.mag, b.mag)
	one, m1, zero := c.BV(64, 1), c.BV(64, ^uint64(0)), c.BV(64, 0)
	absPos := c.Ite(eq, zero, c.Ite(lt, m1, one))
	absNeg := c.Ite(eq, zero, c.Ite(lt, one, m1))
	if a.neg == c.False && b.neg == c.False {
		return absPos
	}
	return c.Ite(a.neg, c.Ite(b.neg, absNeg, m1), c.Ite(b.neg, one, absPos))
}

// constI returns the value when fully concrete.
func (b bigI) constI() (*big.Int, bool) {
	if b.neg.op != OConst || b.mag.op != OConst {
		return nil, false
	}
	v := new(big.Int).Set(b.mag.constBig())
	if b.neg.u == 1 {
		v.Neg(v)
	}
	return v, true
}

func (e *Eng) fromBig(v *big.Int) bigI {
	a := new(big.Int).Abs(v)
	w := a.BitLen()
	if w == 0 {
		w = 1
	}
	return bigI{e.c.Bool(v.Sign() < 0), e.c.BVBig(w, a)}
}

// defineAux introduces a variable whose value is determined by constraints (value under the
// current witness is val).
func (e *Eng) defineAux(st *State, name string, w int, val *big.Int) *Term {
	n := st.label("aux:" + name)
	t := e.c.Var(fmt.Sprintf("aux:%s#%d@%d", name, n, e.auxN), w)
	e.auxN++
	m := NewModel()
	for a, b := range st.wit.vals {
		m.vals[a] = b
	}
	m.vals[t.id] = val
	st.wit = m
	return t
}

// digitCount forces the number of base-b digits of a magnitude to be concrete.
func (e *Eng) digitCount(st *State, mag *Term, base int) int {
	c := e.c
	cnt := c.BV(16, 1)
	p := big.NewInt(int64(base))
	n := 1
	for p.BitLen() <= mag.w {
		n++
		cnt = c.Ite(c.Ule(c.BVBig(mag.w, p), mag), c.BV(16, uint64(n)), cnt)
		p = new(big.Int).Mul(p, big.NewInt(int64(base)))
	}
	return int(e.needConst(st, cnt))
}

func stripZext(t *Term) *Term {
	for t.op == OZext {
		t = t.args[0]
	}
	return t
}

// digits returns the textual magnitude in a base.
func (e *Eng) digits(st *State, mag *Term, base int) []*Term {
	c := e.c
	if mag.op == OConst {
		s := mag.constBig().Text(base)
		return e.strBytes(StrV{s: s})
	}
	if base == 10 {
		if d, ok := e.decText[stripZext(mag)]; ok {
			return append([]*Term(nil), d...)
		}
	}
	n := e.digitCount(st, mag, base)
	out := make([]*Term, n)
	asc := func(d *Term) *Term { // d: 8 bits < base
		if base <= 10 {
			return c.Add(d, c.BV(8, '0'))
		}
		return c.Ite(c.Ult(d, c.BV(8, 10)), c.Add(d, c.BV(8, '0')), c.Add(d, c.BV(8, 'a'-10)))
	}
	bits := 0
	switch base {
	case 2:
		bits = 1
	case 8:
		bits = 3
	case 16:
		bits = 4
	}
	if bits > 0 {
		w := n * bits
		m := mag
		if m.w < w {
			m = c.Zext(w, m)
		}
		for i := 0; i < n; i++ {
			lo := (n - 1 - i) * bits
			out[i] = asc(c.Zext(8, c.Extract(lo+bits-1, lo, m)))
		}
		return out
	}
	// decimal: digits are the unique solution of sum d_i * base^i = mag
	v := st.wit.EvalBig(mag).Text(base)
	for len(v) < n {
		v = "0" + v
	}
	w := mag.w + 8
	var sum *Term
	ds := make([]*Term, n)
	for i := 0; i < n; i++ {
		d, _ := new(big.Int).SetString(string(v[len(v)-n+i]), base)
		ds[i] = e.defineAux(st, "digit", 4, d)
		st.addPC(c.Ult(ds[i], c.BV(4, uint64(base))))
	}
	for i := 0; i < n; i++ {
		d := c.Zext(w, ds[i])
		if sum == nil {
			sum = d
		} else {
			sum = c.Add(c.Mul(sum, c.BV(w, uint64(base))), d)
		}
		out[i] = asc(c.Zext(8, ds[i]))
	}
	st.addPC(c.Eq(sum, c.Zext(w, mag)))
	if n > 1 {
		st.addPC(c.Not(e.isZeroT(ds[0])))
	}
	return out
}

func (e *Eng) bigText(st *State, neg *Term, mag *Term, base int) StrV {
	// fork-capable parts first
	ng := e.decide(st, neg)
	d := e.digits(st, mag, base)
	if ng {
		d = append([]*Term{e.c.BV(8, '-')}, d...)
	}
	return mkStr(d)
}

// parseInt models (*big.Int).SetString for a string of concrete length.
func (e *Eng) parseBig(st *State, s StrV, base int) (bigI, bool) {
	c := e.c
	if s.sym == nil {
		v, ok := new(big.Int).SetString(s.s, base)
		if !ok {
			return bigI{}, false
		}
		return e.fromBig(v), true
	}
	b := s.sym
	neg := c.False
	if len(b) == 0 {
		return bigI{}, false
	}
	is := func(t *Term, ch byte) bool { return e.decide(st, c.Eq(t, c.BV(8, uint64(ch)))) }
	if is(b[0], '-') {
		neg = c.True
		b = b[1:]
	} else if is(b[0], '+') {
		b = b[1:]
	}
	if len(b) == 0 {
		return bigI{}, false
	}
	if base == 0 {
		base = 10
		for _, t := range b {
			if is(t, '_') {
				unsupported("underscore in base-0 integer text")
			}
		}
		if len(b) > 0 && is(b[0], '0') {
			if len(b) == 1 {
				return bigI{c.False, c.BV(1, 0)}, true
			}
			lower := c.BOr(b[1], c.BV(8, 0x20))
			switch {
			case is(lower, 'x'):
				base, b = 16, b[2:]
			case is(lower, 'b'):
				base, b = 2, b[2:]
			case is(lower, 'o'):
				base, b = 8, b[2:]
			default:
				base, b = 8, b[1:]
			}
			if len(b) == 0 {
				return bigI{}, false
			}
		}
	}
	if base > 36 || base < 2 {
		unsupported("big.Int base %d", base)
	}
	var oks []*Term
	per := 1
	for 1<<per < base {
		per++
	}
	w := per*len(b) + 1
	sum := c.BV(w, 0)
	for _, t := range b {
		isD := c.And(c.Ule(c.BV(8, '0'), t), c.Ule(t, c.BV(8, uint64('0'+min(base, 10)-1))))
		ok := isD
		d := c.Sub(t, c.BV(8, '0'))
		if base > 10 {
			lo := c.And(c.Ule(c.BV(8, 'a'), t), c.Ule(t, c.BV(8, uint64('a'+base-11))))
			up := c.And(c.Ule(c.BV(8, 'A'), t), c.Ule(t, c.BV(8, uint64('A'+base-11))))
			ok = c.Or(isD, lo, up)
			d = c.Ite(isD, d, c.Ite(lo, c.Sub(t, c.BV(8, 'a'-10)), c.Sub(t, c.BV(8, 'A'-10))))
		}
		oks = append(oks, ok)
		dn := c.Extract(per-1, 0, d)
		if base == 16 || base == 8 || base == 2 {
			// exact concatenation
			if sum.isZero() && len(oks) == 1 {
				sum = dn
			} else {
				sum = c.Concat(sum, dn)
			}
		} else {
			sum = c.Add(c.Mul(sum, c.BV(w, uint64(base))), c.Zext(w, dn))
		}
	}
	if !e.decide(st, c.And(oks...)) {
		return bigI{}, false
	}
	if base == 10 && b[0].ulo >= '1' && sum.op != OConst {
		all := true
		for _, t := range b {
			all = all && t.ulo >= '0' && t.uhi <= '9'
		}
		if all { // the decimal expansion of this term is known
			if e.decText == nil {
				e.decText = map[*Term][]*Term{}
			}
			e.decText[stripZext(sum)] = b
		}
	}
	if neg == c.True {
		neg = c.Not(e.isZeroT(sum))
	}
	return bigI{neg, sum}, true
}

func (e *Eng) wordCount(st *State, mag *Term) int {
	c := e.c
	if mag.op == OConst {
		return (mag.nbits + 63) / 64
	}
	cnt := c.Ite(e.isZeroT(mag), c.BV(16, 0), c.BV(16, 1))
	for i := 64; i < mag.w; i += 64 {
		hi := c.Extract(mag.w-1, i, mag)
		cnt = c.Ite(e.isZeroT(hi), cnt, c.BV(16, uint64(i/64+1)))
	}
	return int(e.needConst(st, cnt))
}

func (e *Eng) byteCount(st *State, mag *Term) int {
	c := e.c
	if mag.op == OConst {
		return (mag.nbits + 7) / 8
	}
	cnt := c.Ite(e.isZeroT(mag), c.BV(16, 0), c.BV(16, 1))
	for i := 8; i < mag.w; i += 8 {
		hi := c.Extract(mag.w-1, i, mag)
		cnt = c.Ite(e.isZeroT(hi), cnt, c.BV(16, uint64(i/8+1)))
	}
	return int(e.needConst(st, cnt))
}

func (e *Eng) magBytes(mag *Term, n int) []*Term {
	c := e.c
	if mag.w < 8*n {
		mag = c.Zext(8*n, mag)
	}
	out := make([]*Term, n)
	for i := range out {
		lo := 8 * (n - 1 - i)
		out[i] = c.Extract(lo+7, lo, mag)
	}
	return out
}

func (e *Eng) low64(b bigI) *Term {
	c := e.c
	m := b.mag
	if m.w > 64 {
		m = c.Extract(63, 0, m)
	} else {
		m = c.Zext(64, m)
	}
	return c.Ite(b.neg, c.Neg(m), m)
}

func (e *Eng) concatBytes(bs []*Term) *Term {
	t := bs[0]
	for _, b := range bs[1:] {
		t = e.c.Concat(t, b)
	}
	return t
}

func (e *Eng) bigPow(a bigI, n uint64, m *bigI) bigI {
	res := e.fromBig(big.NewInt(1))
	base := a
	if m != nil {
		base = e.bigMod(a, *m)
		res = e.bigMod(res, *m)
	}
	for n > 0 {
		if n&1 == 1 {
			res = e.bigMul(res, base)
			if m != nil {
				res = e.bigMod(res, *m)
			}
			nm := e.normMag(res.mag)
			res.mag = e.magT(nm)
		}
		n >>= 1
		if n > 0 {
			base = e.bigMul(base, base)
			if m != nil {
				base = e.bigMod(base, *m)
			}
			nm := e.normMag(base.mag)
			base.mag = e.magT(nm)
		}
		if base.mag.w > 70000 || res.mag.w > 70000 {
			unsupported("big.Int too wide")
		}
	}
	return res
}

func initBig() {
	const B = "(*math/big.Int)."
	I := func(ic *ICall, i int) bigI { return ic.e.loadBig(ic.st, ic.args[i]) }
	ret := func(ic *ICall, b bigI) Value { return ic.e.storeBig(ic.st, ic.args[0], b) }
	newBig := func(ic *ICall, b bigI) Value {
		p := PtrV{obj: ic.st.newObj(&StructV{[]Value{ic.e.c.False, BigMag{}}})}
		return ic.e.storeBig(ic.st, p, b)
	}
	fromInt := func(ic *ICall, t *Term) bigI {
		c := ic.e.c
		neg := c.Slt(t, c.BV(64, 0))
		return bigI{neg, c.Ite(neg, c.Neg(t), t)}
	}
	add := func(name string, f intrinsic) { intrinsics[B+name] = f }
	intrinsics["math/big.NewInt"] = func(ic *ICall) Value { return newBig(ic, fromInt(ic, ic.t(0))) }
	add("Set", func(ic *ICall) Value { return ret(ic, I(ic, 1)) })
	add("SetInt64", func(ic *ICall) Value { return ret(ic, fromInt(ic, ic.t(1))) })
	add("SetUint64", func(ic *ICall) Value { return ret(ic, bigI{ic.e.c.False, ic.t(1)}) })
	add("Neg", func(ic *ICall) Value { return ret(ic, ic.e.bigNeg(I(ic, 1))) })
	add("Abs", func(ic *ICall) Value { return ret(ic, bigI{ic.e.c.False, I(ic, 1).mag}) })
	add("Add", func(ic *ICall) Value { return ret(ic, ic.e.bigAdd(I(ic, 1), I(ic, 2))) })
	add("Sub", func(ic *ICall) Value {
		b := I(ic, 2)
		c := ic.e.c
		if b.neg.op == OConst && b.neg.u == 0 {
			// keep the sign constant (a zero with neg=true is harmless inside bigAdd)
			a := I(ic, 1)
			if a.neg == c.False {
				w := max(a.mag.w, b.mag.w)
				x, y := c.Zext(w, a.mag), c.Zext(w, b.mag)
				lt := c.Ult(x, y)
				return ret(ic, bigI{lt, c.Ite(lt, c.Sub(y, x), c.Sub(x, y))})
			}
		}
		return ret(ic, ic.e.bigAdd(I(ic, 1), ic.e.bigNeg(b)))
	})
	add("Mul", func(ic *ICall) Value { return ret(ic, ic.e.bigMul(I(ic, 1), I(ic, 2))) })
	sgn := func(e *Eng, a, b bigI, q *Term) *Term {
		c := e.c
		return c.And(c.Or(c.And(a.neg, c.Not(b.neg)), c.And(c.Not(a.neg), b.neg)), c.Not(e.isZeroT(q)))
	}
	add("Quo", func(ic *ICall) Value {
		a, b := I(ic, 1), I(ic, 2)
		ic.e.bigDivZero(ic.st, b)
		q, _ := ic.e.divmod(a.mag, b.mag)
		return ret(ic, bigI{sgn(ic.e, a, b, q), q})
	})
	add("Rem", func(ic *ICall) Value {
		a, b := I(ic, 1), I(ic, 2)
		ic.e.bigDivZero(ic.st, b)
		_, r := ic.e.divmod(a.mag, b.mag)
		return ret(ic, bigI{ic.e.c.And(a.neg, ic.e.c.Not(ic.e.isZeroT(r))), r})
	})
	ediv := func(e *Eng, a, b bigI) bigI {
		c := e.c
		q, r := e.divmod(a.mag, b.mag)
		w := q.w + 1
		q = c.Zext(w, q)
		q = c.Ite(c.And(a.neg, c.Not(e.isZeroT(r))), c.Add(q, c.BV(w, 1)), q)
		return bigI{sgn(e, a, b, q), q}
	}
	add("Div", func(ic *ICall) Value {
		a, b := I(ic, 1), I(ic, 2)
		ic.e.bigDivZero(ic.st, b)
		return ret(ic, ediv(ic.e, a, b))
	})
	add("Mod", func(ic *ICall) Value {
		a, b := I(ic, 1), I(ic, 2)
		ic.e.bigDivZero(ic.st, b)
		return ret(ic, ic.e.bigMod(a, b))
	})
	add("DivMod", func(ic *ICall) Value { // z.DivMod(x, y, m)
		a, b := I(ic, 1), I(ic, 2)
		ic.e.bigDivZero(ic.st, b)
		m := ic.e.bigMod(a, b)
		z := ediv(ic.e, a, b)
		ic.e.storeBig(ic.st, ic.args[0], z)
		ic.e.storeBig(ic.st, ic.args[3], m)
		return TupleV{ic.args[0], ic.args[3]}
	})
	add("QuoRem", func(ic *ICall) Value {
		a, b := I(ic, 1), I(ic, 2)
		ic.e.bigDivZero(ic.st, b)
		q, r := ic.e.divmod(a.mag, b.mag)
		ic.e.storeBig(ic.st, ic.args[0], bigI{sgn(ic.e, a, b, q), q})
		ic.e.storeBig(ic.st, ic.args[3], bigI{ic.e.c.And(a.neg, ic.e.c.Not(ic.e.isZeroT(r))), r})
		return TupleV{ic.args[0], ic.args[3]}
	})
	add("Cmp", func(ic *ICall) Value { return ic.e.bigCmp(I(ic, 0), I(ic, 1)) })
	add("CmpAbs", func(ic *ICall) Value {
		a, b := I(ic, 0), I(ic, 1)
		return ic.e.bigCmp(bigI{ic.e.c.False, a.mag}, bigI{ic.e.c.False, b.mag})
	})
	add("Sign", func(ic *ICall) Value {
		c := ic.e.c
		a := I(ic, 0)
		return c.Ite(ic.e.isZeroT(a.mag), c.BV(64, 0), c.Ite(a.neg, c.BV(64, ^uint64(0)), c.BV(64, 1)))
	})
	add("BitLen", func(ic *ICall) Value { return ic.e.bitLen(I(ic, 0).mag) })
	add("TrailingZeroBits", func(ic *ICall) Value {
		a := I(ic, 0)
		return ic.e.c.Ite(ic.e.isZeroT(a.mag), ic.e.c.BV(64, 0), ic.e.tz(a.mag))
	})
	add("Int64", func(ic *ICall) Value { return ic.e.low64(I(ic, 0)) })
	add("Uint64", func(ic *ICall) Value { return ic.e.low64(I(ic, 0)) })
	add("IsUint64", func(ic *ICall) Value {
		a := I(ic, 0)
		c := ic.e.c
		r := c.Not(a.neg)
		if a.mag.w > 64 {
			r = c.And(r, ic.e.isZeroT(c.Extract(a.mag.w-1, 64, a.mag)))
		}
		return r
	})
	add("IsInt64", func(ic *ICall) Value {
		a := I(ic, 0)
		c := ic.e.c
		w := max(a.mag.w, 65)
		m := c.Zext(w, a.mag)
		lim := c.BVBig(w, new(big.Int).Lsh(big.NewInt(1), 63))
		return c.Or(c.Ult(m, lim), c.And(a.neg, c.Eq(m, lim)))
	})
	add("Bytes", func(ic *ICall) Value {
		a := I(ic, 0)
		n := ic.e.byteCount(ic.st, a.mag)
		return ic.e.newBytes(ic.st, ic.e.magBytes(a.mag, n))
	})
	add("FillBytes", func(ic *ICall) Value {
		a := I(ic, 0)
		e := ic.e
		buf := ic.args[1].(SliceV)
		if a.mag.w > 8*buf.n {
			hi := e.c.Extract(a.mag.w-1, 8*buf.n, a.mag)
			if buf.n == 0 {
				hi = a.mag
			}
			if e.decide(ic.st, e.c.Not(e.isZeroT(hi))) {
				panic(goPanic{IfaceV{e.ld.strT, StrV{s: "math/big: buffer too small to fit value"}}})
			}
		}
		bs := e.magBytes(a.mag, buf.n)
		vs := make([]Value, len(bs))
		for i := range bs {
			vs[i] = bs[i]
		}
		e.writeSlice(ic.st, buf, 0, vs)
		return buf
	})
	add("SetBytes", func(ic *ICall) Value {
		bs := ic.e.bytesOf(ic.st, ic.args[1].(SliceV))
		if len(bs) == 0 {
			return ret(ic, bigI{ic.e.c.False, ic.e.c.BV(1, 0)})
		}
		return ret(ic, bigI{ic.e.c.False, ic.e.concatBytes(bs)})
	})
	add("Bits", func(ic *ICall) Value {
		a := I(ic, 0)
		n := ic.e.wordCount(ic.st, a.mag)
		if n == 0 {
			return SliceV{}
		}
		m := a.mag
		if m.w < 64*n {
			m = ic.e.c.Zext(64*n, m)
		}
		var out []*Term
		for i := 0; i < n; i++ {
			out = append(out, ic.e.c.Extract(64*i+63, 64*i, m))
		}
		return ic.e.newBytes(ic.st, out)
	})
	add("SetBits", func(ic *ICall) Value {
		ws := ic.e.bytesOf(ic.st, ic.args[1].(SliceV))
		if len(ws) == 0 {
			return ret(ic, bigI{ic.e.c.False, ic.e.c.BV(1, 0)})
		}
		rev := make([]*Term, len(ws))
		for i := range ws {
			rev[len(ws)-1-i] = ws[i]
		}
		return ret(ic, bigI{ic.e.c.False, ic.e.concatBytes(rev)})
	})
	bit := func(op func(e *Eng, x, y *Term) *Term) intrinsic {
		return func(ic *ICall) Value {
			a, b := I(ic, 1), I(ic, 2)
			w := max(a.mag.w, b.mag.w) + 1
			e := ic.e
			if a.neg == e.c.False && b.neg == e.c.False {
				r := op(e, e.c.Zext(w, a.mag), e.c.Zext(w, b.mag))
				return ret(ic, bigI{e.c.False, r})
			}
			// sign-aware: two's complement in w bits, sign extended
			r := op(e, e.twos(a, w), e.twos(b, w))
			return ret(ic, e.fromTwos(r))
		}
	}
	add("And", bit(func(e *Eng, x, y *Term) *Term { return e.c.BAnd(x, y) }))
	add("Or", bit(func(e *Eng, x, y *Term) *Term { return e.c.BOr(x, y) }))
	add("Xor", bit(func(e *Eng, x, y *Term) *Term { return e.c.BXor(x, y) }))
	add("AndNot", bit(func(e *Eng, x, y *Term) *Term { return e.c.BAnd(x, e.c.BNot(y)) }))
	add("Not", func(ic *ICall) Value {
		a := I(ic, 1)
		return ret(ic, ic.e.fromTwos(ic.e.c.BNot(ic.e.twos(a, a.mag.w+1))))
	})
	add("Lsh", func(ic *ICall) Value {
		a := I(ic, 1)
		n := ic.cint(2)
		if n > 4096 || n < 0 {
			unsupported("big.Int.Lsh by %d", n)
		}
		w := a.mag.w + n
		return ret(ic, bigI{a.neg, ic.e.c.Shl(ic.e.c.Zext(w, a.mag), ic.e.c.BVBig(w, big.NewInt(int64(n))))})
	})
	add("Rsh", func(ic *ICall) Value {
		a := I(ic, 1)
		n := ic.cint(2)
		c := ic.e.c
		if a.neg != c.False {
			w := a.mag.w + 1
			t := ic.e.twos(a, w)
			if n >= w {
				n = w - 1
			}
			return ret(ic, ic.e.fromTwos(c.Sext(w, c.Extract(w-1, n, t))))
		}
		if n >= a.mag.w {
			return ret(ic, bigI{c.False, c.BV(1, 0)})
		}
		return ret(ic, bigI{c.False, c.Extract(a.mag.w-1, n, a.mag)})
	})
	add("Bit", func(ic *ICall) Value {
		a := I(ic, 0)
		n := ic.cint(1)
		c := ic.e.c
		t := ic.e.twos(a, a.mag.w+1)
		if n < 0 {
			panic(goPanic{IfaceV{ic.e.ld.strT, StrV{s: "negative bit index"}}})
		}
		if n >= t.w {
			n = t.w - 1
		}
		return c.Zext(64, c.Extract(n, n, t))
	})
	add("SetBit", func(ic *ICall) Value {
		a := I(ic, 1)
		n := ic.cint(2)
		v := ic.t(3)
		c := ic.e.c
		if a.neg != c.False {
			unsupported("SetBit of possibly negative")
		}
		w := max(a.mag.w, n+1)
		one := c.BVBig(w, new(big.Int).Lsh(big.NewInt(1), uint(n)))
		m := c.Zext(w, a.mag)
		return ret(ic, bigI{c.False, c.Ite(ic.e.isZeroT(v), c.BAnd(m, c.BNot(one)), c.BOr(m, one))})
	})
	add("Exp", func(ic *ICall) Value {
		a, n := I(ic, 1), I(ic, 2)
		var m *bigI
		if p := ic.args[3].(PtrV); !p.isNil() {
			x := I(ic, 3)
			if !ic.e.decide(ic.st, ic.e.isZeroT(x.mag)) {
				m = &x
			}
		}
		nv, ok := n.constI()
		if !ok {
			if n.mag.w > 12 {
				unsupported("Exp with symbolic exponent")
			}
			if ic.e.decide(ic.st, n.neg) {
				unsupported("Exp with negative exponent")
			}
			nv = new(big.Int).SetUint64(ic.e.needConst(ic.st, n.mag))
		}
		if nv.Sign() < 0 {
			if m == nil {
				return ret(ic, ic.e.fromBig(big.NewInt(1)))
			}
			unsupported("Exp with negative exponent")
		}
		if av, ok := a.constI(); ok {
			if m == nil {
				return ret(ic, ic.e.fromBig(new(big.Int).Exp(av, nv, nil)))
			}
			if mv, ok := m.constI(); ok {
				return ret(ic, ic.e.fromBig(new(big.Int).Exp(av, nv, mv)))
			}
		}
		if nv.BitLen() > 20 {
			unsupported("Exp with large exponent")
		}
		return ret(ic, ic.e.bigPow(a, nv.Uint64(), m))
	})
	add("ModInverse", func(ic *ICall) Value {
		g, n := I(ic, 1), I(ic, 2)
		nv, ok := n.constI()
		if !ok {
			unsupported("ModInverse with symbolic modulus")
		}
		e, c := ic.e, ic.e.c
		if gv, ok := g.constI(); ok {
			r := new(big.Int).ModInverse(gv, nv)
			if r == nil {
				return PtrV{}
			}
			return ret(ic, e.fromBig(r))
		}
		if nv.BitLen() > 12 {
			unsupported("ModInverse with symbolic argument and wide modulus")
		}
		k := int(nv.Int64())
		if k < 0 {
			k = -k
		}
		r := e.bigMod(g, n).mag
		res := c.BV(13, 0)
		bad := c.False
		for i := 0; i < k; i++ {
			eq := c.False
			if i>>uint(min(r.w, 30)) == 0 {
				eq = c.Eq(r, c.BV(r.w, uint64(i)))
			}
			inv := new(big.Int).ModInverse(big.NewInt(int64(i)), big.NewInt(int64(k)))
			if inv == nil {
				bad = c.Or(bad, eq)
			} else {
				res = c.Ite(eq, c.BV(13, inv.Uint64()), res)
			}
		}
		if e.decide(ic.st, bad) {
			return PtrV{}
		}
		return ret(ic, bigI{c.False, res})
	})
	add("SetString", func(ic *ICall) Value {
		b, ok := ic.e.parseBig(ic.st, ic.str(1), ic.cint(2))
		if !ok {
			return TupleV{PtrV{}, ic.e.c.False}
		}
		return TupleV{ret(ic, b), ic.e.c.True}
	})
	add("UnmarshalText", func(ic *ICall) Value {
		b, ok := ic.e.parseBig(ic.st, mkStr(ic.e.bytesOf(ic.st, ic.args[1].(SliceV))), 0)
		if !ok {
			es := ic.e.ld.pkgs["errors"].Type("errorString").Type()
			return IfaceV{ptrTo(es), PtrV{obj: ic.st.newObj(&StructV{[]Value{StrV{s: "math/big: cannot unmarshal"}}})}}
		}
		ret(ic, b)
		return IfaceV{}
	})
	text := func(ic *ICall, base int) Value {
		if ic.args[0].(PtrV).isNil() {
			return StrV{s: "<nil>"}
		}
		a := I(ic, 0)
		return ic.e.bigText(ic.st, a.neg, a.mag, base)
	}
	add("Text", func(ic *ICall) Value { return text(ic, ic.cint(1)) })
	add("String", func(ic *ICall) Value { return text(ic, 10) })
	intrinsics["(math/big.nat).itoa"] = func(ic *ICall) Value {
		m := ic.e.magT(ic.args[0].(BigMag))
		s := ic.e.bigText(ic.st, ic.t(1), m, ic.cint(2))
		return ic.e.newBytes(ic.st, ic.e.strBytes(s))
	}
	intrinsics["(math/big.nat).utoa"] = func(ic *ICall) Value {
		m := ic.e.magT(ic.args[0].(BigMag))
		s := ic.e.bigText(ic.st, ic.e.c.False, m, ic.cint(1))
		return ic.e.newBytes(ic.st, ic.e.strBytes(s))
	}
}

// bigInterp lists math/big functions that may be interpreted from source.
func bigInterp(name string) bool {
	for _, s := range []string{").Format", ").MarshalText", ").MarshalJSON", ").Append", "big.writeMultiple", ".init"} {
		if strings.HasSuffix(name, s) {
			return true
		}
	}
	return false
}
