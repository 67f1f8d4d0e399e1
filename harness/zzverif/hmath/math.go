// Package hmath: harnesses for common/math.
package hmath

import (
	"math/big"

	"flychain/common/math"
	zz "flychain/zzverif"
)

func pow2(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }

// symInt is an arbitrary integer with magnitude of n bytes.
func symInt(l string, n int, neg bool) *big.Int {
	v := new(big.Int).SetBytes(zz.Bytes(l, n))
	if neg {
		v.Neg(v)
	}
	return v
}

func be(v *big.Int, n int) []byte { return v.FillBytes(make([]byte, n)) }

// U256: reduction modulo 2^256 of every integer within the bound.
func U256() {
	n := zz.Choice("n", 0, zz.Param("n", 40))
	neg := zz.Choice("neg", 0, 1) == 1
	x := symInt("x", n, neg)
	// reference: two's complement low 256 bits
	var low []byte
	for i := 0; i < 32; i++ {
		low = append(low, 0)
	}
	mag := new(big.Int).Abs(x)
	mb := mag.FillBytes(make([]byte, 48))
	copy(low, mb[16:])
	if neg {
		c := byte(1)
		for i := 31; i >= 0; i-- {
			s := ^low[i] + c
			c = zz.IteByte(zz.And(c == 1, s == 0), 1, 0)
			low[i] = s
		}
	}
	y := new(big.Int).Set(x)
	r := math.U256(y)
	zz.Assert(r == y, "U256 works in place")
	zz.Assert(r.Sign() >= 0 && r.BitLen() <= 256, "U256 yields an unsigned 256-bit integer")
	zz.Assert(zz.EqBytes(be(r, 32), low), "U256 is the value modulo 2^256")
	b := math.U256Bytes(new(big.Int).Set(x))
	zz.Assert(len(b) == 32, "U256Bytes is 32 bytes long")
	zz.Assert(len(b) == 32 && zz.EqBytes(b, low), "U256Bytes is the 32-byte big-endian value modulo 2^256")
	zz.Reach("end")
}

// S256: signed interpretation of every unsigned 256-bit integer, inverse of U256.
func S256() {
	n := zz.Choice("n", 0, 32)
	x := symInt("x", n, false)
	x0 := new(big.Int).Set(x)
	r := math.S256(x)
	if x0.BitLen() == 256 {
		d := new(big.Int).Sub(x0, pow2(256))
		zz.Assert(r.Cmp(d) == 0, "values from 2^255 are negative")
	} else {
		zz.Assert(r.Cmp(x0) == 0, "values below 2^255 are kept")
	}
	zz.Assert(x.Cmp(x0) == 0, "S256 leaves its argument unchanged")
	zz.Assert(math.U256(new(big.Int).Set(r)).Cmp(x0) == 0, "U256 inverts S256")
	zz.Reach("end")
}

// Padded: PaddedBigBytes and ReadBits on every non-negative integer and length.
func Padded() {
	n := zz.Choice("n", 0, zz.Param("n", 34))
	l := zz.Choice("len", 0, 8)
	if l == 8 {
		l = 32
	} else if l == 7 {
		l = 20
	} else if l == 6 {
		l = 9
	} else if l == 5 {
		l = 8
	}
	xb := zz.Bytes("x", n)
	if n > 0 {
		zz.Assume(xb[0] != 0)
	}
	x := new(big.Int).SetBytes(xb)
	x0 := new(big.Int).Set(x)
	p := math.PaddedBigBytes(x, l)
	want := l
	if n > l {
		want = n
	}
	zz.Assert(len(p) == want, "PaddedBigBytes is padded to at least the requested length")
	if len(p) == want {
		zz.Assert(zz.EqBytes(p, be(x0, want)), "PaddedBigBytes is the big-endian value")
	}
	buf := zz.Bytes("old", l)
	if n == 0 {
		for i := range buf {
			buf[i] = 0
		}
	}
	for i := range buf {
		buf[i] = 0
	}
	math.ReadBits(x, buf)
	full := be(x0, 48)
	zz.Assert(zz.EqBytes(buf, full[48-l:]), "ReadBits stores the low-order bytes")
	zz.Assert(x.Cmp(x0) == 0, "the integer is left unchanged")
	zz.Reach("end")
}

// ByteAt: Byte returns the n-th byte of the padded big-endian form.
func ByteAt() {
	n := zz.Choice("n", zz.Param("from", 0), zz.Param("n", 33))
	pad := zz.Choice("pad", 0, 34)
	x := symInt("x", n, false)
	k := zz.IntIn("k", 0, 40)
	full := be(x, 80)
	var want byte
	for i := 0; i < pad; i++ {
		want = zz.IteByte(k == i, full[80-pad+i], want)
	}
	zz.Assert(math.Byte(x, pad, k) == want, "Byte is the n-th byte of the padded value, or zero beyond it")
	zz.Reach("end")
}

// FirstBit: FirstBitSet is the number of trailing zero bits.
func FirstBit() {
	n := zz.Choice("n", 0, zz.Param("n", 5))
	x := symInt("x", n, zz.Choice("neg", 0, 1) == 1)
	r := math.FirstBitSet(x)
	if x.Sign() == 0 {
		zz.Assert(r == 0, "the first bit of zero is 0")
	} else {
		m := new(big.Int).Abs(x)
		b := be(m, 8)
		v := uint64(0)
		for _, c := range b {
			v = v<<8 | uint64(c)
		}
		zz.Assert(zz.And(r >= 0, r < 64), "the first bit is within the integer")
		zz.Assert(v<<uint(63-r) == 1<<63, "the first bit is set and all lower bits are clear")
	}
	zz.Reach("end")
}

// MinMax of every pair.
func MinMax() {
	x := symInt("x", zz.Choice("nx", zz.Param("from", 0), zz.Param("n", 9)), zz.Choice("negx", 0, 1) == 1)
	y := symInt("y", zz.Choice("ny", zz.Param("from", 0), zz.Param("n", 9)), zz.Choice("negy", 0, 1) == 1)
	x0, y0 := new(big.Int).Set(x), new(big.Int).Set(y)
	mx, mn := math.BigMax(x, y), math.BigMin(x, y)
	zz.Assert((mx == x || mx == y) && (mn == x || mn == y), "the result is one of the arguments")
	zz.Assert(mx.Cmp(x0) >= 0 && mx.Cmp(y0) >= 0, "BigMax is the larger")
	zz.Assert(mn.Cmp(x0) <= 0 && mn.Cmp(y0) <= 0, "BigMin is the smaller")
	zz.Assert(x.Cmp(x0) == 0 && y.Cmp(y0) == 0, "the arguments are left unchanged")
	zz.Reach("end")
}

// Exp: modular exponentiation against square-and-multiply; the arguments stay as they were.
func Exp() {
	base := symInt("b", zz.Choice("nb", 0, zz.Param("nb", 3)), zz.Choice("neg", 0, 1) == 1)
	exps := []string{"0", "1", "2", "3", "5", "10", "255", "18446744073709551615", "18446744073709551616", "36893488147419103235"}
	e, _ := new(big.Int).SetString(exps[zz.Choice("e", 0, zz.Param("ne", 9))], 10)
	b0, e0 := new(big.Int).Set(base), new(big.Int).Set(e)
	m := pow2(256)
	want := big.NewInt(1)
	sq := new(big.Int).Set(base)
	for i := 0; i < e0.BitLen(); i++ {
		if e0.Bit(i) == 1 {
			want.Mul(want, sq)
			want.Mod(want, m)
		}
		sq.Mul(sq, sq)
		sq.Mod(sq, m)
	}
	r := math.Exp(base, e)
	zz.Assert(r.Sign() >= 0 && r.BitLen() <= 256, "the result is an unsigned 256-bit integer")
	zz.Assert(r.Cmp(want) == 0, "Exp is base^exponent modulo 2^256")
	zz.Assert(base.Cmp(b0) == 0, "Exp leaves the base unchanged")
	zz.Assert(e.Cmp(e0) == 0, "Exp leaves the exponent unchanged")
	zz.Reach("end")
}

// ExpSym: symbolic exponents with a concrete base.
func ExpSym() {
	base := big.NewInt(int64([]int{2, 3, 0, 1}[zz.Choice("b", 0, 3)]))
	n := zz.IntIn("e", 0, zz.Param("maxe", 15))
	e := new(big.Int).SetInt64(int64(n))
	b := base.Uint64()
	r := math.Exp(base, e)
	want := uint64(1)
	for i := 0; i < zz.Param("maxe", 15); i++ {
		want = zz.IteU64(i < n, want*b, want)
	}
	zz.Assert(r.IsUint64() && r.Uint64() == want, "Exp is the power for every exponent")
	zz.Reach("end")
}

// Pow: BigPow.
func Pow() {
	a := zz.IntIn("a", 0, zz.Param("maxa", 255))
	k := zz.Choice("k", 0, zz.Param("k", 6))
	r := math.BigPow(int64(a), int64(k))
	want := uint64(1)
	for i := 0; i < k; i++ {
		want *= uint64(a)
	}
	zz.Assert(r.IsUint64() && r.Uint64() == want, "BigPow is the power")
	zz.Reach("end")
}

func isDig(c byte) bool { return zz.And(c >= '0', c <= '9') }
func isHex(c byte) bool {
	return zz.Or(isDig(c), zz.And(c >= 'a', c <= 'f'), zz.And(c >= 'A', c <= 'F'))
}
func nib(c byte) byte {
	return zz.IteByte(isDig(c), c-'0', zz.IteByte(zz.And(c >= 'a', c <= 'f'), c-'a'+10, c-'A'+10))
}

// parse is the specification of the accepted texts: decimal, or hex after 0x, with an optional sign.
func parse(s string) (ok bool, v *big.Int) {
	n := len(s)
	if n == 0 {
		return true, new(big.Int)
	}
	from := 0
	hex := n >= 2 && zz.And(s[0] == '0', zz.Or(s[1] == 'x', s[1] == 'X'))
	if hex {
		from = 2
	}
	neg := false
	if n > from && zz.Or(s[from] == '-', s[from] == '+') {
		neg = s[from] == '-'
		from++
	}
	if n == from {
		return false, nil
	}
	v = new(big.Int)
	for i := from; i < n; i++ {
		if hex {
			if !isHex(s[i]) {
				return false, nil
			}
			v.Lsh(v, 4)
			v.Or(v, new(big.Int).SetUint64(uint64(nib(s[i]))))
		} else {
			if !isDig(s[i]) {
				return false, nil
			}
			v.Mul(v, big.NewInt(10))
			v.Add(v, new(big.Int).SetUint64(uint64(s[i]-'0')))
		}
	}
	if neg {
		v.Neg(v)
	}
	return true, v
}

// Parse: ParseBig256 and the text decoders on every short string.
func Parse() {
	n := zz.Choice("n", 0, zz.Param("n", 5))
	s := zz.Str("s", n)
	ok, want := parse(s)
	old := zz.U32("old")
	switch zz.Choice("kind", 0, 2) {
	case 0:
		v, got := math.ParseBig256(s)
		zz.Assert(got == ok, "exactly decimal and 0x-hex integers are accepted")
		if got && ok {
			zz.Assert(v.Cmp(want) == 0, "the value of the digits is returned")
		}
	case 1:
		x := math.HexOrDecimal256(*new(big.Int).SetUint64(uint64(old)))
		err := x.UnmarshalText([]byte(s))
		zz.Assert((err == nil) == ok, "exactly decimal and 0x-hex integers are accepted")
		b := big.Int(x)
		if ok {
			zz.Assert(b.Cmp(want) == 0, "the value of the digits is stored")
		} else {
			zz.Assert(b.IsUint64() && b.Uint64() == uint64(old), "a rejected decode leaves the value unchanged")
		}
	case 2:
		x := math.Decimal256(*new(big.Int).SetUint64(uint64(old)))
		err := x.UnmarshalText([]byte(s))
		zz.Assert((err == nil) == ok, "exactly decimal and 0x-hex integers are accepted")
		b := big.Int(x)
		if ok {
			zz.Assert(b.Cmp(want) == 0, "the value of the digits is stored")
		} else {
			zz.Assert(b.IsUint64() && b.Uint64() == uint64(old), "a rejected decode leaves the value unchanged")
		}
	}
	zz.Reach("end")
}

// ParseRange: hex texts around the 256-bit limit.
func ParseRange() {
	n := zz.Choice("n", 63, 66)
	s := zz.Str("s", n)
	for i := 0; i < n; i++ {
		zz.Assume(isHex(s[i]))
	}
	neg := zz.Choice("neg", 0, 1) == 1
	pre := "0x"
	if neg {
		pre = "0x-"
	}
	v, ok := math.ParseBig256(pre + s)
	fits := true
	for i := 0; i < n-64; i++ {
		fits = zz.And(fits, nib(s[i]) == 0)
	}
	if fits {
		zz.Assert(ok, "magnitudes of up to 256 bits are accepted")
		if ok {
			zz.Assert(v.BitLen() <= 256, "the value has at most 256 bits")
			b := be(new(big.Int).Abs(v), 32)
			for i := 0; i < 64; i++ {
				k := n - 64 + i
				var d byte
				if k >= 0 {
					d = nib(s[k])
				}
				g := b[i/2] >> 4
				if i%2 == 1 {
					g = b[i/2] & 15
				}
				zz.Assert(g == d, "the value of the digits is returned")
			}
			zz.Assert(zz.Implies(v.Sign() != 0, (v.Sign() < 0) == neg), "the sign is returned")
		}
	} else {
		zz.Assert(!ok, "larger magnitudes are rejected")
		x := math.NewHexOrDecimal256(7)
		zz.Assert(x.UnmarshalText([]byte(pre+s)) != nil, "larger magnitudes are rejected")
		b := big.Int(*x)
		zz.Assert(b.IsInt64() && b.Int64() == 7, "a rejected decode leaves the value unchanged")
	}
	zz.Reach("end")
}

// RoundTrip: text forms of non-negative integers decode back.
func RoundTrip() {
	n := zz.Choice("n", 0, zz.Param("n", 10))
	xb := zz.Bytes("x", n)
	if n > 0 {
		zz.Assume(xb[0] != 0)
	}
	v := new(big.Int).SetBytes(xb)
	h := math.HexOrDecimal256(*new(big.Int).Set(v))
	t, err := h.MarshalText()
	zz.Assert(err == nil, "MarshalText succeeds")
	zz.Assert(len(t) >= 3 && t[0] == '0' && t[1] == 'x', "HexOrDecimal256 is written in hex")
	var h2 math.HexOrDecimal256
	zz.Assert(h2.UnmarshalText(t) == nil, "HexOrDecimal256 reads its own text")
	hb := big.Int(h2)
	zz.Assert(hb.Cmp(v) == 0, "HexOrDecimal256 reads back the same value")
	var np *math.HexOrDecimal256
	t, err = np.MarshalText()
	zz.Assert(err == nil && string(t) == "0x0", "a nil HexOrDecimal256 is written as zero")
	zz.Reach("end")
}

// DecRound: decimal text of non-negative integers decodes back.
func DecRound() {
	n := zz.Choice("n", 0, zz.Param("n", 2))
	xb := zz.Bytes("x", n)
	if n > 0 {
		zz.Assume(xb[0] != 0)
	}
	v := new(big.Int).SetBytes(xb)
	d := math.Decimal256(*new(big.Int).Set(v))
	t, err := d.MarshalText()
	zz.Assert(err == nil && zz.EqStr(string(t), d.String()), "MarshalText equals String")
	for _, c := range t {
		zz.Assert(isDig(c), "Decimal256 is written in decimal digits")
	}
	if len(t) > 1 {
		zz.Assert(t[0] != '0', "Decimal256 has no leading zeros")
	}
	var d2 math.Decimal256
	zz.Assert(d2.UnmarshalText(t) == nil, "Decimal256 reads its own text")
	db := big.Int(d2)
	zz.Assert(db.Cmp(v) == 0, "Decimal256 reads back the same value")
	var np *math.Decimal256
	zz.Assert(np.String() == "0", "a nil Decimal256 is written as zero")
	zz.Reach("end")
}
