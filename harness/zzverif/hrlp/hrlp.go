package hrlp

import (
	"bytes"
	"math/big"

	zz "flychain/zzverif"
	rlp "flychain/zzverif/rlp"
)

type codec[T any] interface {
	*T
	rlp.Encoder
	rlp.Decoder
}

func list(parts ...[]byte) []byte {
	var c []byte
	for _, p := range parts {
		c = append(c, p...)
	}
	return append(rlp.Head(nil, 0xC0, len(c)), c...)
}

func u(v uint64) []byte   { return rlp.Str(nil, rlp.Num(v)) }
func s(b []byte) []byte   { return rlp.Str(nil, b) }
func t(v string) []byte   { return s([]byte(v)) }
func i(v *big.Int) []byte { return s(v.Bytes()) }
func b(v bool) []byte     { return u(zz.IteU64(v, 1, 0)) }

var nilS, nilL = []byte{0x80}, []byte{0xC0}

func blob(l string) []byte {
	return zz.Bytes(l+" text", zz.Choice(l+" length", 0, zz.Param("n", 2)))
}

func num(l string) *big.Int { return new(big.Int).SetBytes(blob(l)) }

func count(l string) int { return zz.Choice(l, 0, zz.Param("items", 2)) }

func encode[T any, P codec[T]](v *T) []byte {
	var w bytes.Buffer
	err := P(v).EncodeRLP(&w)
	zz.Assert(err == nil, "a value can be encoded")
	return w.Bytes()
}

// check encodes a value, compares with the expected encoding and decodes it again. again holds the
// encoding expected of the decoded value.
func check[T any, P codec[T]](v T, want, again []byte) {
	got := encode[T, P](&v)
	zz.Assert(bytes.Equal(got, want), "a value is encoded as its type and tags say")
	st := rlp.NewStream(append(append([]byte{}, want...), 0xAA, 0xBB))
	var d T
	err := P(&d).DecodeRLP(st)
	zz.Assert(err == nil, "an encoding can be decoded")
	if err != nil {
		return
	}
	zz.Assert(st.Rest() == 2, "decoding takes exactly one value")
	zz.Assert(bytes.Equal(encode[T, P](&d), again), "decoding gives back the value")
	zz.Reach("end")
}

func same(a, b []byte) bool { return bytes.Equal(a, b) }

// Plain: fields of the basic types.
func Plain() {
	switch zz.Choice("type", 0, 4) {
	case 0:
		v := Basic{zz.Bool("bool"), zz.Byte("u8"), zz.U16("u16")}
		w := list(b(v.B), u(uint64(v.U8)), u(uint64(v.U16)))
		check(v, w, w)
	case 1:
		v := Wide{zz.U32("u32"), zz.U64("u64")}
		w := list(u(uint64(v.U32)), u(v.U64))
		check(v, w, w)
	case 2:
		v := Texts{S: string(blob("s")), D: blob("d")}
		copy(v.A[:], zz.Bytes("a", 2))
		copy(v.N[:], zz.Bytes("m", 3))
		w := list(t(v.S), s(v.D), s(v.A[:]), s(v.N[:]), nilS)
		check(v, w, w)
	case 3:
		v := Named{M: MyU16(zz.U16("named")), Y: MyByte(zz.Byte("y")), S: MyStr(blob("s")), B: blob("b"), F: MyBool(zz.Bool("f")), W: MyU64(zz.U64("w64"))}
		w := list(u(uint64(v.M)), u(uint64(v.Y)), t(string(v.S)), s(v.B), b(bool(v.F)), u(uint64(v.W)))
		check(v, w, w)
	case 4:
		v := Skips{A: zz.Byte("a"), hidden: zz.Byte("h"), Skip: 1.5, B: string(blob("b"))}
		w := list(u(uint64(v.A)), t(v.B))
		check(v, w, w)
	}
}

func inner(l string) Inner    { return Inner{zz.Byte(l + " byte"), blob(l)} }
func encInner(v Inner) []byte { return list(u(uint64(v.A)), s(v.B)) }

// Pointers: a nil pointer is an empty string or list and decodes to the zero value, or to nil where
// the tag says so.
func Pointers() {
	isNil := zz.Choice("nil", 0, 1) == 1
	pick := func(none, some []byte) []byte {
		if isNil {
			return list(none)
		}
		return list(some)
	}
	x := zz.Byte("x")
	str := string(blob("s"))
	bs := blob("d")
	arr := [2]byte{zz.Byte("y"), zz.Byte("z")}
	in := Inner{x, bs}
	switch zz.Choice("type", 0, 8) {
	case 0: // without tags
		v := Ptrs{U: &x, S: &str, A: &arr, B: &bs, I: &in}
		w := list(u(uint64(x)), t(str), s(arr[:]), s(bs), encInner(in))
		a := w
		switch zz.Choice("which", 0, 3) {
		case 0:
		case 1:
			v.U = nil
			w = list(nilS, t(str), s(arr[:]), s(bs), encInner(in))
			a = w
		case 2:
			v.S = nil
			w = list(u(uint64(x)), nilS, s(arr[:]), s(bs), encInner(in))
			a = w
		case 3:
			v.B = nil
			w = list(u(uint64(x)), t(str), s(arr[:]), nilS, encInner(in))
			a = w
		}
		check(v, w, a)
	case 1:
		v := NilU8{&x}
		if isNil {
			v.A = nil
		}
		w := pick(nilS, u(uint64(x)))
		check(v, w, w)
		nilCheck(w, isNil || x == 0, func(d *NilU8) bool { return d.A == nil })
	case 2:
		v := NilU8L{&x}
		if isNil {
			v.A = nil
		}
		w := pick(nilL, u(uint64(x)))
		check(v, w, w)
		nilCheck(w, isNil, func(d *NilU8L) bool { return d.A == nil })
	case 3:
		v := NilStr{&str}
		if isNil {
			v.A = nil
		}
		w := pick(nilS, t(str))
		check(v, w, w)
		nilCheck(w, isNil || str == "", func(d *NilStr) bool { return d.A == nil })
	case 4:
		v := NilArr{&arr}
		if isNil {
			v.A = nil
		}
		w := pick(nilS, s(arr[:]))
		check(v, w, w)
		nilCheck(w, isNil, func(d *NilArr) bool { return d.A == nil })
	case 5:
		v := NilBytes{&bs}
		if isNil {
			v.A = nil
		}
		w := pick(nilS, s(bs))
		check(v, w, w)
		nilCheck(w, isNil || len(bs) == 0, func(d *NilBytes) bool { return d.A == nil })
	case 6:
		v := NilInner{&in}
		if isNil {
			v.A = nil
		}
		w := pick(nilL, encInner(in))
		check(v, w, w)
		nilCheck(w, isNil, func(d *NilInner) bool { return d.A == nil })
	case 7:
		v := NilInnS{&in}
		if isNil {
			v.A = nil
		}
		w := pick(nilS, encInner(in))
		check(v, w, w)
		nilCheck(w, isNil, func(d *NilInnS) bool { return d.A == nil })
	case 8:
		ints := make([]uint16, count("ints"))
		var es [][]byte
		for k := range ints {
			ints[k] = zz.U16("int")
			es = append(es, u(uint64(ints[k])))
		}
		v := NilInts{&ints}
		if isNil {
			v.A = nil
		}
		w := pick(nilL, list(es...))
		check(v, w, w)
		nilCheck(w, isNil || len(ints) == 0, func(d *NilInts) bool { return d.A == nil })
	}
}

func nilCheck[T any, P codec[T]](w []byte, want bool, isNil func(*T) bool) {
	var d T
	if P(&d).DecodeRLP(rlp.NewStream(w)) == nil {
		zz.Assert(isNil(&d) == want, "a pointer is nil exactly when the value is empty")
	}
}

// NilThenMore: a nil pointer with another field after it.
func NilThenMore() {
	x := zz.U16("x")
	v := NilMid{A: &x, B: zz.Byte("b")}
	w := list(u(uint64(x)), u(uint64(v.B)))
	if zz.Choice("nil", 0, 1) == 1 {
		v.A = nil
		w = list(nilS, u(uint64(v.B)))
		got := encode(&v)
		zz.Assert(same(got, w), "a value is encoded as its type and tags say")
		var d NilMid
		err := d.DecodeRLP(rlp.NewStream(w))
		zz.Assert(err == nil && d.A == nil && d.B == v.B, "fields after a nil pointer are decoded")
		return
	}
	zz.Assume(x != 0) // decodes to nil
	check(v, w, w)
}

// Nested: lists, structures and big integers.
func Nested() {
	n := count("items")
	switch zz.Choice("type", 0, 6) {
	case 0:
		v := Lists{U: blob("u")}
		var a, c, e [][]byte
		for k := 0; k < n; k++ {
			x := zz.U16("elem")
			v.V = append(v.V, x)
			a = append(a, u(uint64(x)))
		}
		check(v, list(s(v.U), list(a...), list(c...), list(e...)), list(s(v.U), list(a...), list(c...), list(e...)))
	case 1:
		v := Lists{}
		var a, c, e [][]byte
		for k := 0; k < n; k++ {
			v.W = append(v.W, MyU16(zz.U16("w")))
			v.X = append(v.X, blob("x"))
			c = append(c, u(uint64(v.W[k])))
			e = append(e, s(v.X[k]))
		}
		w := list(nilS, list(a...), list(c...), list(e...))
		check(v, w, w)
	case 2:
		v := Structs{I: inner("i")}
		v.N.S = string(blob("n"))
		w := list(encInner(v.I), nilL, nilL, list(t(v.N.S)))
		check(v, w, w)
	case 3:
		v := Structs{}
		var a, c [][]byte
		for k := 0; k < n; k++ {
			x := inner("l")
			if zz.Choice("where", 0, 1) == 0 {
				v.L = append(v.L, x)
				a = append(a, encInner(x))
			} else {
				v.P = append(v.P, &x)
				c = append(c, encInner(x))
			}
		}
		w := list(encInner(Inner{}), list(a...), list(c...), list(nilS))
		check(v, w, w)
	case 4:
		v := Bigs{P: num("p"), V: *num("v")}
		var a [][]byte
		for k := 0; k < n; k++ {
			v.L = append(v.L, num("l"))
			a = append(a, i(v.L[k]))
		}
		pe := i(v.P)
		if zz.Choice("nil", 0, 1) == 1 {
			v.P, pe = nil, nilS
		}
		w := list(pe, i(&v.V), list(a...))
		check(v, w, w)
	case 5:
		pick := func(l string) []byte {
			switch zz.Choice(l, 0, 2) {
			case 0:
				return s(blob(l))
			case 1:
				return list(s(blob(l)))
			}
			return nilL
		}
		v := Raws{R: pick("r")}
		var a [][]byte
		for k := 0; k < n; k++ {
			v.L = append(v.L, pick("l"))
			a = append(a, v.L[k])
		}
		w := list(v.R, list(a...))
		check(v, w, w)
	case 6:
		own := func(l string) byte {
			x := zz.Byte(l + " byte")
			zz.Assume(x != 0xFF)
			return x
		}
		v := Owns{A: &Own{own("a")}}
		var a [][]byte
		for k := 0; k < n; k++ {
			v.B = append(v.B, &Own{own("b")})
			a = append(a, []byte{0x82, 'x', v.B[k].v})
		}
		w := list([]byte{0x82, 'x', v.A.v}, list(a...))
		check(v, w, w)
	}
}

// Negative: a negative integer and a failing method of a part make the encoding fail.
func Negative() {
	x := num("x")
	zz.Assume(x.Sign() > 0)
	x.Neg(x)
	var w bytes.Buffer
	switch zz.Choice("where", 0, 4) {
	case 0:
		zz.Assert((&Bigs{P: x}).EncodeRLP(&w) == rlp.ErrNegativeBigInt, "a negative integer is refused")
	case 1:
		zz.Assert((&Bigs{V: *x}).EncodeRLP(&w) == rlp.ErrNegativeBigInt, "a negative integer is refused")
	case 2:
		zz.Assert((&Bigs{L: []*big.Int{big.NewInt(1), x}}).EncodeRLP(&w) == rlp.ErrNegativeBigInt, "a negative integer is refused")
	case 3:
		zz.Assert((&Owns{A: &Own{0xFF}}).EncodeRLP(&w) == errOwn, "an error of a part's own method is returned")
	case 4:
		zz.Assert((&Owns{A: &Own{1}, B: []*Own{{2}, {0xFF}}}).EncodeRLP(&w) == errOwn, "an error of a part's own method is returned")
	}
	zz.Assert(w.Len() == 0, "nothing is written with an error")
	zz.Reach("end")
}

// Optional: trailing optional fields that are zero are left out, others are written.
func Optional() {
	switch zz.Choice("type", 0, 2) {
	case 0:
		v := Opt{zz.Byte("a"), zz.U16("b16"), string(blob("c")), blob("d")}
		fs := [][]byte{u(uint64(v.A)), u(uint64(v.B)), t(v.C), s(v.D)}
		k := 4
		if len(v.D) == 0 {
			k = 3
			if v.C == "" {
				k = 2
				if v.B == 0 {
					k = 1
				}
			}
		}
		check(v, list(fs[:k]...), list(fs[:k]...))
	case 1:
		x := zz.Byte("a")
		v := OptPtr{}
		fs := [][]byte{nilS, nilS, nil, nilL}
		k := 0
		if zz.Choice("a set", 0, 1) == 1 {
			v.A, fs[0], k = &x, u(uint64(x)), 1
		}
		if zz.Choice("b set", 0, 1) == 1 {
			v.B = num("b")
			fs[1], k = i(v.B), 2
		}
		v.C = [2]byte{zz.Byte("c"), zz.Byte("c")}
		fs[2] = s(v.C[:])
		if v.C != [2]byte{} {
			k = 3
		}
		if zz.Choice("d set", 0, 1) == 1 {
			in := inner("d")
			v.D, fs[3], k = &in, encInner(in), 4
		}
		// once decoded, written pointers are set
		check(v, list(fs[:k]...), list(fs[:k]...))
	case 2:
		v := OptStruct{A: zz.Bool("abool"), B: Small{zz.Byte("b"), zz.Bool("b2")}}
		v.C.S = string(blob("c"))
		var a [][]byte
		for k := count("items"); k > 0; k-- {
			x := zz.U16("elem")
			v.D = append(v.D, x)
			a = append(a, u(uint64(x)))
		}
		fs := [][]byte{b(v.A), list(u(uint64(v.B.A)), b(v.B.B)), list(t(v.C.S)), list(a...)}
		k := 4
		if len(v.D) == 0 {
			k = 3
			if v.C.S == "" {
				k = 2
				if v.B == (Small{}) {
					k = 1
					if !v.A {
						k = 0
					}
				}
			}
		}
		check(v, list(fs[:k]...), list(fs[:k]...))
	}
}

// canon decodes arbitrary bytes: what is accepted is exactly the encoding of the result.
func canon[T any, P codec[T]](before T, optional bool) {
	in := zz.Bytes("in", zz.Choice("in length", 0, zz.Param("bytes", 4)))
	d := before
	was := encode[T, P](&d)
	st := rlp.NewStream(in)
	if P(&d).DecodeRLP(st) != nil {
		zz.Assert(same(encode[T, P](&d), was), "a failed decoding leaves the value unchanged")
		zz.Reach("refused")
		return
	}
	out := encode[T, P](&d)
	if optional {
		var e T
		zz.Assert(P(&e).DecodeRLP(rlp.NewStream(out)) == nil && same(encode[T, P](&e), out), "a decoded value survives another round")
	} else {
		zz.Assert(same(out, in[:len(in)-st.Rest()]), "only the encoding of a value is accepted for it")
	}
	zz.Reach("accepted")
}

// Input: arbitrary bytes.
func Input() {
	x, str, arr, ints := byte(7), "q", [2]byte{1, 2}, []uint16{3}
	bs := []byte{9, 8}
	in := Inner{5, bs}
	switch zz.Choice("type", 0, 19) {
	case 0:
		canon(Basic{true, 3, 500}, false)
	case 1:
		canon(Wide{7, 9}, false)
	case 2:
		canon(Skips{A: 1, B: "z"}, false)
	case 3:
		canon(in, false)
	case 4:
		canon(NilU8{&x}, false)
	case 5:
		canon(NilU8L{&x}, false)
	case 6:
		canon(NilStr{&str}, false)
	case 7:
		canon(NilArr{&arr}, false)
	case 8:
		canon(NilBytes{&bs}, false)
	case 9:
		canon(NilInner{&in}, false)
	case 10:
		canon(NilInnS{&in}, false)
	case 11:
		canon(NilInts{&ints}, false)
	case 12:
		canon(Lists{U: bs, V: ints}, false)
	case 13:
		canon(Structs{I: in, L: []Inner{in}}, false)
	case 14:
		canon(Bigs{P: big.NewInt(300)}, false)
	case 15:
		canon(Opt{A: 1, B: 2}, true)
	case 16:
		canon(OptPtr{A: &x}, true)
	case 17:
		canon(OptStruct{A: true}, true)
	case 18:
		canon(Owns{A: &Own{4}}, false)
	case 19:
		canon(Named{M: 3}, false)
	}
}

// Refused: types outside the supported set are refused when generating.
func Refused() {
	zz.Assert(len(accepted) == 0, "unsupported types are refused")
	zz.Reach("end")
}
