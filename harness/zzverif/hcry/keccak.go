package hcry

import (
	"hash"

	crand "crypto/rand"
	"errors"
	"flychain/crypto/randentropy"
	"flychain/crypto/sha3"
	"io"

	zz "flychain/zzverif"
)

// The Keccak-f[1600] permutation written from the specification: theta, rho, pi, chi, iota,
// with rotation offsets and round constants computed, not tabulated.
type kstate [5][5]uint64 // [x][y]

func rotl(v uint64, n int) uint64 {
	n %= 64
	if n == 0 {
		return v
	}
	return v<<uint(n) | v>>uint(64-n)
}

func rcBit(t int) bool {
	r := 1
	for i := 0; i < t%255; i++ {
		r <<= 1
		if r&0x100 != 0 {
			r ^= 0x171
		}
	}
	return r&1 == 1
}

func permute(a *kstate) {
	var rot [5][5]int
	x, y := 1, 0
	for t := 0; t < 24; t++ {
		rot[x][y] = (t + 1) * (t + 2) / 2
		x, y = y, (2*x+3*y)%5
	}
	for rnd := 0; rnd < 24; rnd++ {
		var c, d [5]uint64
		for x := 0; x < 5; x++ {
			c[x] = a[x][0] ^ a[x][1] ^ a[x][2] ^ a[x][3] ^ a[x][4]
		}
		for x := 0; x < 5; x++ {
			d[x] = c[(x+4)%5] ^ rotl(c[(x+1)%5], 1)
		}
		var b kstate
		for x := 0; x < 5; x++ {
			for y := 0; y < 5; y++ {
				b[y][(2*x+3*y)%5] = rotl(a[x][y]^d[x], rot[x][y])
			}
		}
		for x := 0; x < 5; x++ {
			for y := 0; y < 5; y++ {
				a[x][y] = b[x][y] ^ (^b[(x+1)%5][y] & b[(x+2)%5][y])
			}
		}
		var rc uint64
		for j := 0; j <= 6; j++ {
			if rcBit(j + 7*rnd) {
				rc |= 1 << uint((1<<uint(j))-1)
			}
		}
		a[0][0] ^= rc
	}
}

// specHash is Keccak[c=2n] with the original padding 10*1.
func specHash(bits int, msg []byte) []byte {
	rate := 200 - 2*bits/8
	p := append([]byte{}, msg...)
	p = append(p, 1)
	for len(p)%rate != 0 {
		p = append(p, 0)
	}
	p[len(p)-1] |= 0x80
	var s kstate
	for o := 0; o < len(p); o += rate {
		for i := 0; i < rate/8; i++ {
			var v uint64
			for k := 7; k >= 0; k-- {
				v = v<<8 | uint64(p[o+8*i+k])
			}
			s[i%5][i/5] ^= v
		}
		permute(&s)
	}
	var out []byte
	for i := 0; len(out) < bits/8; i++ {
		v := s[i%5][i/5]
		for k := 0; k < 8; k++ {
			out = append(out, byte(v>>uint(8*k)))
		}
	}
	return out[:bits/8]
}

var variants = []int{224, 256, 384, 512}

func newHash(v int) hash.Hash {
	switch v {
	case 0:
		return sha3.NewKeccak224()
	case 1:
		return sha3.NewKeccak256()
	case 2:
		return sha3.NewKeccak384()
	}
	return sha3.NewKeccak512()
}

func variant() int {
	v := zz.Choice("variant", 0, 3)
	if p := zz.Param("variant", -1); p >= 0 {
		zz.Assume(v == p)
	}
	return v
}

// msgLen picks lengths around the interesting ones of the rate.
func msgLen(rate int) int {
	ls := []int{0, 1, 7, 8, 9, 31, 32, rate - 9, rate - 8, rate - 1, rate, rate + 1, rate + 8, 2*rate - 1, 2 * rate, 2*rate + 5}
	hi := zz.Param("lens", len(ls)-1)
	return ls[zz.Choice("len", zz.Param("lenlo", 0), hi)]
}

// Hash: one write and a sum give the specified digest; sizes are reported right; Sum appends to
// its argument and leaves the state unchanged; Reset restarts.
func Hash() {
	v := variant()
	bits := variants[v]
	rate := 200 - 2*bits/8
	h := newHash(v)
	zz.Assert(h.Size() == bits/8, "size is the digest length")
	zz.Assert(h.BlockSize() == rate, "block size is the rate")
	msg := zz.Bytes("m", msgLen(rate))
	orig := append([]byte{}, msg...)
	n, err := h.Write(msg)
	zz.Assert(n == len(msg) && err == nil, "write takes everything")
	zz.Assert(zz.EqBytes(msg, orig), "write does not change its argument")
	want := specHash(bits, msg)
	zz.Assert(zz.EqBytes(h.Sum(nil), want), "the digest of the specification")
	pre := []byte{1, 2, 3}
	got := h.Sum(pre)
	zz.Assert(len(got) == 3+bits/8 && zz.EqBytes(got[:3], []byte{1, 2, 3}) && zz.EqBytes(got[3:], want), "a second sum appends the same digest")
	h.Reset()
	zz.Assert(zz.EqBytes(h.Sum(nil), specHash(bits, nil)), "reset starts over")
	zz.Reach("end")
}

// Chunks: any way of cutting the message into writes, with sums in between, gives the same digest.
func Chunks() {
	v := variant()
	bits := variants[v]
	rate := 200 - 2*bits/8
	cuts := []int{0, 1, 4, 8, 15, rate - 4, rate - 1, rate, rate + 3}
	h := newHash(v)
	var msg []byte
	k := zz.Param("k", 2)
	for i := 0; i < k; i++ {
		part := zz.Bytes("m", cuts[zz.Choice("cut", zz.Param("cutlo", 0), zz.Param("cuthi", len(cuts)-1))])
		h.Write(part)
		msg = append(msg, part...)
		if i == 0 && zz.Param("mid", 1) != 0 {
			h.Sum(nil)
		}
	}
	one := newHash(v)
	one.Write(msg)
	zz.Assert(zz.EqBytes(h.Sum(nil), one.Sum(nil)), "cutting the message differently changes nothing")
	zz.Assert(zz.EqBytes(h.Sum(nil), specHash(bits, msg)), "the digest of the specification")
	h.Reset()
	h.Write(msg)
	zz.Assert(zz.EqBytes(h.Sum(nil), one.Sum(nil)), "after a reset the hash is fresh")
	zz.Reach("end")
}

type entSrc struct {
	data []byte
	pos  int
	fail int // position at which the source fails, -1 never
}

var errEnt = errors.New("broken")

func (s *entSrc) Read(p []byte) (int, error) {
	if s.pos == s.fail {
		return 0, errEnt
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := zz.Choice("short", 1, 3)
	if n > len(p) {
		n = len(p)
	}
	if n > len(s.data)-s.pos {
		n = len(s.data) - s.pos
	}
	if s.fail >= 0 && n > s.fail-s.pos {
		n = s.fail - s.pos
	}
	copy(p, s.data[s.pos:s.pos+n])
	s.pos += n
	return n, nil
}

// Entropy: exactly the requested number of bytes of the system source, in order, however the
// source splits them; a failing source is never passed off as randomness.
func Entropy() {
	max := zz.Param("n", 4)
	s := &entSrc{data: zz.Bytes("d", 2*max+1), fail: -1}
	crand.Reader = s
	n := zz.Choice("n", 0, max)
	f := zz.Choice("fail", 0, max+1)
	if f <= max {
		s.fail = f
	}
	viaReader := zz.Bool("reader")
	panicked := true
	var got []byte
	func() {
		defer func() { recover() }()
		if viaReader {
			got = make([]byte, n)
			k, err := io.ReadFull(randentropy.Reader, got)
			zz.Assert(err == nil && k == n, "the reader fills the whole buffer")
		} else {
			got = randentropy.GetEntropyCSPRNG(n)
		}
		panicked = false
	}()
	zz.Assert(panicked == (s.fail >= 0 && s.fail < n), "panics exactly when the source fails before enough bytes")
	if !panicked {
		zz.Assert(len(got) == n, "exactly the requested number of bytes")
		zz.Assert(zz.EqBytes(got, s.data[:n]), "the bytes of the source, in order")
		zz.Assert(s.pos == n, "no more bytes are taken than asked for")
	}
	zz.Reach("end")
}

// Helper: the Sha3 helper is Keccak-256 of its argument.
func Helper() {
	m := zz.Bytes("m", zz.Choice("n", 0, zz.Param("n", 3)))
	zz.Assert(zz.EqBytes(randentropy.Sha3(m), specHash(256, m)), "Keccak-256 of the data")
	zz.Reach("end")
}
