// Package hcry: harnesses for crypto.
package hcry

import (
	"errors"
	"math/big"

	"flychain/crypto"
	zz "flychain/zzverif"
)

// small curves y^2 = x^3 + b of prime order, so that every point but infinity generates the group
var small = []struct{ p, b, n, gx, gy uint64 }{
	{13, 2, 19, 1, 4}, {31, 3, 43, 1, 2}, {61, 2, 61, 1, 8}, {127, 3, 127, 1, 2}, {283, 3, 277, 1, 2},
}

type pt struct{ x, y uint64 }

func u(v uint64) *big.Int { return new(big.Int).SetUint64(v) }

func curve(i int) *crypto.BitCurve {
	c := small[i]
	bits := 0
	for v := c.p; v > 0; v >>= 1 {
		bits++
	}
	return &crypto.BitCurve{P: u(c.p), N: u(c.n), B: u(c.b), Gx: u(c.gx), Gy: u(c.gy), BitSize: bits}
}

// point is an arbitrary point of the curve other than infinity.
func point(l string, i int) pt {
	c := small[i]
	x := uint64(zz.IntIn(l+"x", 0, int(c.p)-1))
	y := uint64(zz.IntIn(l+"y", 0, int(c.p)-1))
	zz.Assume(y*y%c.p == (x*x*x+c.b)%c.p)
	return pt{x, y}
}

func inv(a, p uint64) uint64 {
	r, e := uint64(1), p-2
	a %= p
	for ; e > 0; e >>= 1 {
		if e&1 == 1 {
			r = r * a % p
		}
		a = a * a % p
	}
	return r
}

// table lists k*G for k = 0..n-1 by the textbook group law, (0,0) being infinity.
func table(i int) []pt {
	c := small[i]
	t := []pt{{0, 0}, {c.gx, c.gy}}
	p := c.p
	for k := uint64(2); k < c.n; k++ {
		q := t[k-1]
		var l uint64
		if q.x == c.gx {
			if q.y != c.gy {
				panic("order")
			}
			l = 3 * q.x % p * q.x % p * inv(2*q.y, p) % p
		} else {
			l = (q.y + p - c.gy) % p * inv((q.x+p-c.gx)%p, p) % p
		}
		x := (l*l + 2*p - q.x - c.gx) % p
		t = append(t, pt{x, (l*(q.x+p-x) + p - q.y) % p})
	}
	return t
}

// nth selects an entry by a symbolic index.
func nth(t []pt, k uint64) (x, y uint64) {
	for i, q := range t {
		x = zz.IteU64(k == uint64(i), q.x, x)
		y = zz.IteU64(k == uint64(i), q.y, y)
	}
	return
}

func eq(x, y *big.Int, wx, wy uint64) bool {
	return x != nil && y != nil && zz.And(x.IsUint64(), y.IsUint64(), x.Uint64() == wx, y.Uint64() == wy)
}

// Add: the sum of any two points, and doubling, against the defining equations of the group law.
func Add() {
	i := zz.Param("curve", 1)
	c := curve(i)
	p := small[i].p
	a := point("a", i)
	kind := zz.Choice("kind", 0, 4)
	b := a
	switch kind {
	case 0:
		b = point("b", i)
		zz.Assume(b.x != a.x)
	case 1: // the same point
	case 2: // the opposite point
		b = pt{a.x, (p - a.y) % p}
	case 3:
		b = pt{0, 0}
	case 4:
		a, b = pt{0, 0}, a
	}
	ax, ay, bx, by := u(a.x), u(a.y), u(b.x), u(b.y)
	x, y := c.Add(ax, ay, bx, by)
	zz.Assert(eq(ax, ay, a.x, a.y) && eq(bx, by, b.x, b.y), "the arguments are left unchanged")
	if x == nil || y == nil {
		zz.Assert(false, "the sum is a point")
		return
	}
	zz.Assert(zz.And(x.Sign() >= 0, y.Sign() >= 0, x.Cmp(c.P) < 0, y.Cmp(c.P) < 0), "coordinates are reduced")
	rx, ry := x.Uint64(), y.Uint64()
	switch kind {
	case 0:
		d, s := (b.x+p-a.x)%p, (b.y+p-a.y)%p
		zz.Assert((rx+a.x+b.x)*(d*d%p)%p == s*s%p, "the sum of two points is the third point of their line, mirrored")
		zz.Assert((ry+a.y)*d%p == s*(a.x+p-rx)%p, "the sum of two points is the third point of their line, mirrored")
	case 1:
		dbl(a, p, rx, ry)
		x2, y2 := c.Double(ax, ay)
		zz.Assert(eq(x2, y2, rx, ry), "Double is the sum of a point with itself")
		zz.Assert(eq(ax, ay, a.x, a.y), "the arguments are left unchanged")
	case 2:
		zz.Assert(zz.And(rx == 0, ry == 0), "the sum of opposite points is infinity")
	case 3:
		zz.Assert(zz.And(rx == a.x, ry == a.y), "infinity is neutral")
	case 4:
		zz.Assert(zz.And(rx == b.x, ry == b.y), "infinity is neutral")
	}
	zz.Reach("end")
}

func dbl(a pt, p, rx, ry uint64) {
	if a.y == 0 {
		zz.Assert(zz.And(rx == 0, ry == 0), "doubling a point of order two gives infinity")
		return
	}
	d, s := 2*a.y%p, 3*a.x%p*a.x%p
	zz.Assert((rx+2*a.x)*(d*d%p)%p == s*s%p, "twice a point is the third point of its tangent, mirrored")
	zz.Assert((ry+a.y)*d%p == s*(a.x+p-rx)%p, "twice a point is the third point of its tangent, mirrored")
}

// On: IsOnCurve decides the curve equation for every pair of coordinates.
func On() {
	i := zz.Param("curve", 1)
	c := curve(i)
	x, y := uint64(zz.IntIn("x", 0, 1023)), uint64(zz.IntIn("y", 0, 1023))
	p := small[i].p
	bx, by := u(x), u(y)
	on := c.IsOnCurve(bx, by)
	zz.Assert(on == (y*y%p == (x*x%p*x+small[i].b)%p), "a point is on the curve exactly when it satisfies the equation")
	zz.Assert(eq(bx, by, x, y), "the arguments are left unchanged")
	zz.Reach("end")
}

// Scalar: multiples of the base point for every scalar of the given number of bytes.
func Scalar() {
	i := zz.Param("curve", 1)
	c := curve(i)
	t := table(i)
	n := zz.Choice("n", zz.Param("lo", 0), zz.Param("n", 1))
	k := zz.Bytes("k", n)
	if m := zz.Param("long", 0); m > 0 { // all but the first and the last byte are fixed
		k = append(k, make([]byte, m-n)...)
		k[m/2] |= byte(m / 30)
		zz.Assume(n > 0)
		if n > 0 {
			zz.Assume(k[0] < 4)
			k[m-1] = byte(zz.IntIn("last", 0, 31))
		}
	}
	kk := append([]byte{}, k...)
	v, zero := uint64(0), true // modulo the order of the base point
	for _, b := range k {
		v = (v<<8 | uint64(b)) % small[i].n
		zero = zz.And(zero, b == 0)
	}
	x, y := c.ScalarBaseMult(k)
	zz.Assert(zz.EqBytes(k, kk), "the scalar is left unchanged")
	zz.Assert(eq(c.Gx, c.Gy, small[i].gx, small[i].gy), "the base point is left unchanged")
	if zero {
		zz.Assert((x == nil && y == nil) || eq(x, y, 0, 0), "the zero multiple is no point")
	} else {
		wx, wy := nth(t, v)
		zz.Assert(eq(x, y, wx, wy), "ScalarBaseMult is the multiple of the base point")
	}
	zz.Reach("end")
}

// ScalarPoint: multiples of any point: (k*(m*G)) = (k*m)*G.
func ScalarPoint() {
	i := zz.Param("curve", 0)
	c := curve(i)
	t := table(i)
	m := zz.Choice("m", 1, int(small[i].n)-1)
	k := zz.Byte("k")
	bx, by := u(t[m].x), u(t[m].y)
	x, y := c.ScalarMult(bx, by, []byte{k})
	zz.Assert(eq(bx, by, t[m].x, t[m].y), "the point is left unchanged")
	if k == 0 {
		zz.Assert((x == nil && y == nil) || eq(x, y, 0, 0), "the zero multiple is no point")
	} else {
		wx, wy := nth(t, uint64(k)*uint64(m)%small[i].n)
		zz.Assert(eq(x, y, wx, wy), "ScalarMult is the multiple of the point")
	}
	zz.Reach("end")
}

type src struct {
	short bool
	fail  int
	b     []byte
	n     int
}

var errSrc = errors.New("source failed")

func (s *src) Read(p []byte) (int, error) {
	if s.fail >= 0 && s.n >= s.fail {
		return 0, errSrc
	}
	k := len(p)
	if s.short && k > 1 {
		k = 1
	}
	zz.Assume(s.n+k <= 4) // at most two attempts
	for i := 0; i < k; i++ {
		b := zz.Byte("rnd")
		p[i] = b
		s.b = append(s.b, b)
		s.n++
	}
	return k, nil
}

// Generate: key pairs on a 9-bit curve for every random stream.
func Generate() {
	i := 4
	c := curve(i)
	t := table(i)
	s := &src{short: zz.Choice("short", 0, 1) == 1, fail: zz.Choice("fail", -1, 3)}
	priv, x, y, err := c.GenerateKey(s)
	if err != nil {
		zz.Assert(err == errSrc, "the source's error is reported")
		zz.Assert(s.fail >= 0, "key generation fails only when the source does")
		zz.Assert(x == nil && y == nil, "no public key without randomness")
		zz.Reach("error")
		return
	}
	if s.n == 4 {
		zz.Assert(zz.And(s.b[0]&1 == 0, s.b[1] == 0x42), "key generation retries only for the zero key")
		s.b = s.b[2:]
	}
	zz.Assert(len(priv) == 2, "the private key has the size of the field")
	v := uint64(priv[0])<<8 | uint64(priv[1])
	zz.Assert(v < 512, "the private key has at most the bits of the field")
	zz.Assert(zz.And(priv[0] == s.b[0]&1, priv[1] == s.b[1]^0x42), "every random bit goes into the private key")
	zz.Assert(v != 0, "the private key is not zero")
	wx, wy := nth(t, v%small[i].n)
	zz.Assert(eq(x, y, wx, wy), "the public key is the private key's multiple of the base point")
	zz.Reach("end")
}

// Encode: point encoding of the named curves' size round-trips, and decoding demands the exact form.
func Encode() {
	cs := []*crypto.BitCurve{crypto.S160(), crypto.S192(), crypto.S224(), crypto.S256(), curve(4), {BitSize: 17}}
	c := cs[zz.Choice("curve", 0, len(cs)-1)]
	l := (c.BitSize + 7) / 8
	n := zz.Choice("nx", 0, zz.Param("n", 4))
	m := zz.Choice("ny", 0, zz.Param("n", 4))
	if n == zz.Param("n", 4) || n > l {
		n = l
	}
	if m == zz.Param("n", 4) || m > l {
		m = l
	}
	bx, by := zz.Bytes("x", n), zz.Bytes("y", m)
	if n > 0 {
		zz.Assume(bx[0] != 0)
	}
	if m > 0 {
		zz.Assume(by[0] != 0)
	}
	x, y := new(big.Int).SetBytes(bx), new(big.Int).SetBytes(by)
	b := c.Marshal(x, y)
	zz.Assert(len(b) == 1+2*l, "an encoded point has the uncompressed length")
	if len(b) != 1+2*l {
		return
	}
	zz.Assert(b[0] == 4, "an encoded point starts with 4")
	pad := func(v []byte) []byte { return append(make([]byte, l-len(v)), v...) }
	zz.Assert(zz.And(zz.EqBytes(b[1:1+l], pad(bx)), zz.EqBytes(b[1+l:], pad(by))), "the coordinates follow, left-padded")
	x2, y2 := c.Unmarshal(b)
	zz.Assert(x2 != nil && y2 != nil, "an encoded point decodes")
	if x2 != nil && y2 != nil {
		zz.Assert(zz.And(x2.Cmp(x) == 0, y2.Cmp(y) == 0), "an encoded point decodes to itself")
	}
	zz.Reach("end")
}

// DecodePoint: Unmarshal accepts exactly the uncompressed form.
func DecodePoint() {
	c := curve(4)
	n := zz.Choice("n", 0, 8)
	d := zz.Bytes("d", n)
	x, y := c.Unmarshal(d)
	if n == 5 && d[0] == 4 {
		zz.Assert(eq(x, y, uint64(d[1])<<8|uint64(d[2]), uint64(d[3])<<8|uint64(d[4])), "the coordinates are decoded")
	} else {
		zz.Assert(x == nil && y == nil, "anything but the uncompressed form is rejected")
	}
	zz.Reach("end")
}

// Named: the parameters of the named curves are the standard ones, and the same on every call.
func Named() {
	want := [][6]string{
		{"fffffffffffffffffffffffffffffffeffffac73", "100000000000000000001b8fa16dfab9aca16b6b3", "7", "3b4c382ce37aa192a4019e763036f4f5dd4d7ebb", "938cf935318fdced6bc28286531733c3f03c4fee", "160"},
		{"fffffffffffffffffffffffffffffffffffffffeffffee37", "fffffffffffffffffffffffe26f2fc170f69466a74defd8d", "3", "db4ff10ec057e9ae26b07d0280b7f4341da5d1b1eae06c7d", "9b2f2f6d9c5628a7844163d015be86344082aa88d95e2f9d", "192"},
		{"fffffffffffffffffffffffffffffffffffffffffffffffeffffe56d", "10000000000000000000000000001dce8d2ec6184caf0a971769fb1f7", "5", "a1455b334df099df30fc28a169a467e9e47075a90f7e650eb6b7a45c", "7e089fed7fba344282cafbd6f7e319f7c0b0bd59e2ca4bdb556d61a5", "224"},
		{"fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", "7", "79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798", "483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8", "256"},
	}
	fs := []func() *crypto.BitCurve{crypto.S160, crypto.S192, crypto.S224, crypto.S256}
	i := zz.Choice("curve", 0, 3)
	c := fs[i]()
	zz.Assert(c == fs[i](), "each call returns the same curve")
	h := func(v *big.Int) string { return v.Text(16) }
	zz.Assert(h(c.P) == want[i][0] && h(c.N) == want[i][1] && h(c.B) == want[i][2] && h(c.Gx) == want[i][3] && h(c.Gy) == want[i][4] && big.NewInt(int64(c.BitSize)).String() == want[i][5], "the parameters are the standard ones")
	zz.Assert(c.IsOnCurve(c.Gx, c.Gy), "the base point is on the curve")
	p := c.Params()
	zz.Assert(p.P.Cmp(c.P) == 0 && p.N.Cmp(c.N) == 0 && p.B.Cmp(c.B) == 0 && p.Gx.Cmp(c.Gx) == 0 && p.Gy.Cmp(c.Gy) == 0 && p.BitSize == c.BitSize, "Params repeats the parameters")
	zz.Reach("end")
}
