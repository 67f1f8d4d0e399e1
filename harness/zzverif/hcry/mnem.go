package hcry

import (
	"flychain/crypto"
	zz "flychain/zzverif"
)

func hexd(v uint32, i int) byte {
	d := byte(v>>uint(28-4*i)) & 15
	return zz.IteByte(d < 10, '0'+d, 'a'+d-10)
}

func triple(v uint64) (a, b, c uint64) {
	n := uint64(len(crypto.MnemonicWords))
	a = v % n
	b = (v/n + a) % n
	c = (v/n/n + b) % n
	return
}

// Encode: every group of eight lower-case hex digits gives the three words of its value.
func MnemEncode() {
	g := zz.Choice("groups", zz.Param("lo", 0), zz.Param("groups", 1))
	var b []byte
	var vs []uint64
	for i := 0; i < g; i++ {
		v := zz.U32("v")
		vs = append(vs, uint64(v))
		for j := 0; j < 8; j++ {
			b = append(b, hexd(v, j))
		}
	}
	w := crypto.MnemonicEncode(string(b))
	zz.Assert(len(w) == 3*g, "three words per eight digits")
	if len(w) == 3*g {
		for i, v := range vs {
			x, y, z := triple(v)
			zz.Assert(zz.EqStr(w[3*i], crypto.MnemonicWords[x]), "first word")
			zz.Assert(zz.EqStr(w[3*i+1], crypto.MnemonicWords[y]), "second word")
			zz.Assert(zz.EqStr(w[3*i+2], crypto.MnemonicWords[z]), "third word")
		}
	}
	zz.Reach("end")
}

// MnemDecode: the three words of every 32-bit value decode to its eight digits.
func MnemDecode() {
	ws := crypto.MnemonicWords
	n := uint64(len(ws))
	g := zz.Choice("groups", zz.Param("lo", 1), zz.Param("groups", 1))
	top := zz.Param("max", int(n)-1)
	var in []string
	var want []byte
	for i := 0; i < g; i++ {
		a := zz.IntIn("a", 0, top)
		b := zz.IntIn("b", 0, top)
		c := zz.IntIn("c", 0, top)
		// differences modulo n
		y := (uint64(b) + n - uint64(a)) % n
		z := (uint64(c) + n - uint64(b)) % n
		x := uint64(a) + n*y + n*n*z
		zz.Assume(x < 1<<32)
		in = append(in, ws[a], ws[b], ws[c])
		for j := 0; j < 8; j++ {
			want = append(want, hexd(uint32(x), j))
		}
	}
	zz.Assert(zz.EqStr(crypto.MnemonicDecode(in), string(want)), "the digits of the value")
	zz.Reach("end")
}

// MnemInverse: the value of the words of a value is the value.
func MnemInverse() {
	n := uint64(len(crypto.MnemonicWords))
	v := uint64(zz.U32("v"))
	a, b, c := triple(v)
	y := (b + n - a) % n
	z := (c + n - b) % n
	zz.Assert(a+n*y+n*n*z == v, "the word arithmetic is invertible")
	zz.Reach("end")
}

// Words: the word list has no duplicates, and IndexOf finds every word and no other text.
func Words() {
	ws := crypto.MnemonicWords
	i := zz.IntIn("i", 0, len(ws)-1)
	zz.Assert(crypto.IndexOf(ws, ws[i]) == int64(i), "every word is found at its own index")
	zz.Assert(crypto.IndexOf(ws, "notawordofthelist") == -1, "other texts are not found")
	s := zz.Str("s", zz.Choice("n", 0, zz.Param("n", 3)))
	l := []string{"ab", "", "abc", "b", "ab"}
	k := crypto.IndexOf(l, s)
	want := int64(-1)
	for j := len(l) - 1; j >= 0; j-- {
		if zz.EqStr(l[j], s) {
			want = int64(j)
		}
	}
	zz.Assert(k == want, "IndexOf is the first index of the text")
	zz.Reach("end")
}
