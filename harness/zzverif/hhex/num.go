package hhex

import (
	"math/big"
	"reflect"

	"flychain/common/hexutil"
	zz "flychain/zzverif"
)

func hasPrefix(s string) bool {
	return len(s) >= 2 && zz.And(s[0] == '0', zz.Or(s[1] == 'x', s[1] == 'X'))
}

func allHex(s string, from int) bool {
	ok := true
	for i := from; i < len(s); i++ {
		ok = zz.And(ok, isHex(s[i]))
	}
	return ok
}

// num64 is the value of the digits s[2:] modulo 2^64.
func num64(s string) uint64 {
	v := uint64(0)
	for i := 2; i < len(s); i++ {
		v = v<<4 | uint64(nib(s[i]))
	}
	return v
}

// refUint is the documented minimal encoding of v.
func refUint(v uint64) string {
	n := 1
	for n < 16 && v>>(4*uint(n)) != 0 {
		n++
	}
	out := []byte("0x")
	for i := n - 1; i >= 0; i-- {
		out = append(out, lowerDigit(byte(v>>(4*uint(i)))&15))
	}
	return string(out)
}

// UintEncode: every 64-bit value encodes minimally and decodes back through every entry point.
func UintEncode() {
	v := zz.U64("v")
	want := refUint(v)
	s := hexutil.EncodeUint64(v)
	zz.Assert(zz.EqStr(s, want), "EncodeUint64 is 0x plus the minimal digits")
	d, err := hexutil.DecodeUint64(s)
	zz.Assert(err == nil && d == v, "DecodeUint64 inverts EncodeUint64")
	zz.Assert(hexutil.MustDecodeUint64(s) == v, "MustDecodeUint64 inverts EncodeUint64")
	zz.Assert(zz.EqStr(hexutil.Uint64(v).String(), want), "Uint64.String is the encoding")
	zz.Assert(zz.EqStr(hexutil.Uint(v).String(), want), "Uint.String is the encoding")
	t, err := hexutil.Uint64(v).MarshalText()
	zz.Assert(err == nil && zz.EqStr(string(t), want), "Uint64.MarshalText is the encoding")
	t2, err := hexutil.Uint(v).MarshalText()
	zz.Assert(err == nil && zz.EqStr(string(t2), want), "Uint.MarshalText is the encoding")
	q := []byte("\"" + s + "\"")
	var x hexutil.Uint64
	zz.Assert(x.UnmarshalText(t) == nil && uint64(x) == v, "Uint64.UnmarshalText inverts MarshalText")
	x = 0
	zz.Assert(x.UnmarshalJSON(q) == nil && uint64(x) == v, "Uint64.UnmarshalJSON inverts the encoding")
	x = 0
	zz.Assert(x.UnmarshalGraphQL(s) == nil && uint64(x) == v, "Uint64.UnmarshalGraphQL inverts the encoding")
	var y hexutil.Uint
	zz.Assert(y.UnmarshalText(t) == nil && uint64(y) == v, "Uint.UnmarshalText inverts MarshalText")
	y = 0
	zz.Assert(y.UnmarshalJSON(q) == nil && uint64(y) == v, "Uint.UnmarshalJSON inverts the encoding")
	zz.Reach("end")
}

// UintDecode: acceptance, value and error class of DecodeUint64 on every string.
func UintDecode() {
	n := zz.Choice("n", zz.Param("from", 0), zz.Param("n", 19))
	s := zz.Str("s", n)
	d, err := hexutil.DecodeUint64(s)
	if n == 0 {
		zz.Assert(err == error(hexutil.ErrEmptyString), "empty string is reported as such")
		return
	}
	if !hasPrefix(s) {
		zz.Assert(err == error(hexutil.ErrMissingPrefix), "missing prefix is reported as such")
		return
	}
	if n == 2 {
		zz.Assert(err == error(hexutil.ErrEmptyNumber), "a bare prefix is reported as such")
		return
	}
	hex := allHex(s, 2)
	zero := n > 3 && s[2] == '0'
	zz.Assert(zz.Implies(zz.And(hex, zero), err == error(hexutil.ErrLeadingZero)), "leading zeros are reported as such")
	zz.Assert(zz.Implies(zz.And(!hex, !zero, n <= 18), err == error(hexutil.ErrSyntax)), "a bad digit is reported as a syntax error")
	zz.Assert(zz.Implies(!hex, err != nil), "a bad digit is rejected")
	if n <= 18 {
		zz.Assert(zz.Implies(zz.And(hex, !zero), err == nil), "a quantity of up to 64 bits is accepted")
		zz.Assert(zz.Implies(zz.And(hex, !zero), d == num64(s)), "the value of the digits is returned")
	} else {
		zz.Assert(zz.Implies(zz.And(hex, !zero), err == error(hexutil.ErrUint64Range)), "a quantity above 64 bits is reported as such")
	}
	zz.Reach("end")
}

// UintText: text, JSON and GraphQL decoders of Uint64 and Uint on every input.
func UintText() {
	n := zz.Choice("n", zz.Param("from", 0), zz.Param("n", 19))
	s := zz.Str("s", n)
	old := zz.U64("old")
	kind := zz.Choice("kind", 0, 4)
	var err error
	var got uint64
	in := []byte(s)
	x, y := hexutil.Uint64(old), hexutil.Uint(old)
	switch kind {
	case 0:
		err = x.UnmarshalText(in)
		got = uint64(x)
	case 1:
		err = x.UnmarshalJSON([]byte("\"" + s + "\""))
		got = uint64(x)
	case 2:
		err = x.UnmarshalGraphQL(s)
		got = uint64(x)
	case 3:
		err = y.UnmarshalText(in)
		got = uint64(y)
	case 4:
		err = y.UnmarshalJSON([]byte("\"" + s + "\""))
		got = uint64(y)
	}
	if n == 0 {
		zz.Assert(err == nil && got == 0, "empty text decodes to zero")
		return
	}
	ok := n > 2 && n <= 18 && zz.And(hasPrefix(s), allHex(s, 2), zz.Or(n == 3, s[2] != '0'))
	zz.Assert(zz.Implies(ok, err == nil), "a well-formed quantity of up to 64 bits is accepted")
	zz.Assert(zz.Implies(ok, got == num64(s)), "the value of the digits is stored")
	zz.Assert(zz.Implies(!ok, err != nil), "any other text is rejected")
	zz.Assert(zz.Implies(!ok, got == old), "a rejected decode leaves the destination unchanged")
	zz.Assert(zz.EqStr(string(in), s), "decoding leaves its input unchanged")
	zz.Reach("end")
}

// NonString: JSON decoders reject every non-string token and leave the destination unchanged.
func NonString() {
	n := zz.Choice("n", zz.Param("from", 0), zz.Param("n", 5))
	s := zz.Str("s", n)
	quoted := n >= 2 && zz.And(s[0] == '"', s[n-1] == '"')
	zz.Assume(!quoted)
	old := zz.U64("old")
	ob := zz.Byte("ob")
	switch zz.Choice("kind", zz.Param("lo", 0), zz.Param("hi", 4)) {
	case 0:
		x := hexutil.Uint64(old)
		zz.Assert(x.UnmarshalJSON([]byte(s)) != nil, "non-string JSON is rejected for Uint64")
		zz.Assert(uint64(x) == old, "rejected JSON leaves a Uint64 unchanged")
	case 1:
		x := hexutil.Uint(old)
		zz.Assert(x.UnmarshalJSON([]byte(s)) != nil, "non-string JSON is rejected for Uint")
		zz.Assert(uint64(x) == old, "rejected JSON leaves a Uint unchanged")
	case 2:
		x := hexutil.Big(*new(big.Int).SetUint64(old))
		zz.Assert(x.UnmarshalJSON([]byte(s)) != nil, "non-string JSON is rejected for Big")
		zz.Assert(x.ToInt().Uint64() == old, "rejected JSON leaves a Big unchanged")
	case 3:
		x := hexutil.Bytes{ob}
		zz.Assert(x.UnmarshalJSON([]byte(s)) != nil, "non-string JSON is rejected for Bytes")
		zz.Assert(len(x) == 1 && x[0] == ob, "rejected JSON leaves Bytes unchanged")
	case 4:
		out := []byte{ob, ob}
		zz.Assert(hexutil.UnmarshalFixedJSON(reflect.TypeOf(0), []byte(s), out) != nil, "non-string JSON is rejected for fixed-size data")
		zz.Assert(zz.And(out[0] == ob, out[1] == ob), "rejected JSON leaves the output unchanged")
	}
	zz.Reach("end")
}

// FailKeep: a decode that fails, through any entry point, leaves the destination as it was.
func FailKeep() {
	n := zz.Choice("n", zz.Param("from", 0), zz.Param("n", 6))
	s := zz.Str("s", n)
	var in interface{} = s
	via := zz.Choice("via", 0, 2)
	if via == 1 {
		s = "\"" + s + "\""
	}
	type dec interface {
		UnmarshalText([]byte) error
		UnmarshalJSON([]byte) error
	}
	call := func(d dec) error {
		switch via {
		case 0:
			return d.UnmarshalText([]byte(s))
		case 1:
			return d.UnmarshalJSON([]byte(s))
		}
		if g, ok := d.(interface{ UnmarshalGraphQL(interface{}) error }); ok {
			return g.UnmarshalGraphQL(in)
		}
		return nil
	}
	old := zz.U64("old")
	switch zz.Choice("kind", 0, 3) {
	case 0:
		x := hexutil.Uint64(old)
		err := call(&x)
		zz.Assert(zz.Or(err == nil, uint64(x) == old), "a failed decode leaves a Uint64 unchanged")
	case 1:
		x := hexutil.Uint(old)
		err := call(&x)
		zz.Assert(zz.Or(err == nil, uint64(x) == old), "a failed decode leaves a Uint unchanged")
	case 2:
		x := hexutil.Big(*new(big.Int).SetUint64(old))
		if err := call(&x); err != nil {
			zz.Assert(x.ToInt().IsUint64() && x.ToInt().Uint64() == old, "a failed decode leaves a Big unchanged")
		}
	case 3:
		b := zz.Bytes("b", zz.Choice("old length", 0, 4))
		x := append(hexutil.Bytes(nil), b...)
		if err := call(&x); err != nil {
			zz.Assert(zz.EqBytes(x, b), "a failed decode leaves Bytes unchanged")
		}
	}
	zz.Reach("end")
}

func symBig(l string, bits int) *big.Int {
	return new(big.Int).SetBytes(zz.Bytes(l, bits/8))
}

// refBig is the documented minimal encoding of the big-endian bytes m.
func refBig(m []byte, neg bool) string {
	var ds []byte
	for _, b := range m {
		ds = append(ds, b>>4, b&15)
	}
	if len(ds) == 0 {
		ds = []byte{0}
	}
	for len(ds) > 1 && ds[0] == 0 {
		ds = ds[1:]
	}
	out := "0x"
	if neg && !(len(ds) == 1 && ds[0] == 0) {
		out = "-0x"
	}
	for _, d := range ds {
		out += string([]byte{lowerDigit(d)})
	}
	return out
}

// BigEncode: every integer encodes minimally and every non-negative one decodes back.
func BigEncode() {
	nb := zz.Choice("bytes", 0, zz.Param("bytes", 9))
	m := zz.Bytes("m", nb)
	if nb > 0 {
		zz.Assume(m[0] != 0)
	}
	neg := zz.Choice("neg", 0, 1) == 1
	v := new(big.Int).SetBytes(m)
	if neg {
		v.Neg(v)
	}
	cp := new(big.Int).Set(v)
	want := refBig(m, neg)
	s := hexutil.EncodeBig(v)
	zz.Assert(zz.EqStr(s, want), "EncodeBig is sign, 0x and the minimal digits")
	b := hexutil.Big(*v)
	zz.Assert(zz.EqStr(b.String(), want), "Big.String is the encoding")
	t, err := b.MarshalText()
	zz.Assert(err == nil && zz.EqStr(string(t), want), "Big.MarshalText is the encoding")
	zz.Assert(v.Cmp(cp) == 0, "encoding leaves the integer unchanged")
	d, err := hexutil.DecodeBig(s)
	var x hexutil.Big
	errT := x.UnmarshalText(t)
	if neg && nb > 0 {
		zz.Assert(err != nil && errT != nil, "a negative quantity is not accepted")
		return
	}
	zz.Assert(err == nil && d.Cmp(cp) == 0, "DecodeBig inverts EncodeBig")
	zz.Assert(hexutil.MustDecodeBig(s).Cmp(cp) == 0, "MustDecodeBig inverts EncodeBig")
	zz.Assert(errT == nil && x.ToInt().Cmp(cp) == 0, "Big.UnmarshalText inverts MarshalText")
	zz.Assert(zz.EqStr(hexutil.EncodeBig(d), want), "re-encoding a decoded quantity gives the same text")
	zz.Reach("end")
}

// BigDecode: acceptance, value and error class of every big-quantity decoder on every string.
func BigDecode() {
	n := zz.Choice("n", zz.Param("lo", 0), zz.Param("n", 20))
	s := zz.Str("s", n)
	if zz.Param("wf", 0) == 1 {
		// well-formed digits only (long inputs)
		zz.Assume(hasPrefix(s))
		for i := 2; i < n; i++ {
			zz.Assume(isHex(s[i]))
		}
	}
	kind := zz.Choice("kind", 0, 3)
	var err error
	var got *big.Int
	old := zz.U64("old")
	x := hexutil.Big(*new(big.Int).SetUint64(old))
	switch kind {
	case 0:
		got, err = hexutil.DecodeBig(s)
	case 1:
		err = x.UnmarshalText([]byte(s))
		got = x.ToInt()
	case 2:
		err = x.UnmarshalJSON([]byte("\"" + s + "\""))
		got = x.ToInt()
	case 3:
		err = x.UnmarshalGraphQL(s)
		got = x.ToInt()
	}
	if n == 0 {
		if kind == 0 {
			zz.Assert(err == error(hexutil.ErrEmptyString), "empty string is reported as such")
		} else {
			zz.Assert(err == nil && got.Sign() == 0, "empty text decodes to zero")
		}
		return
	}
	hex := zz.And(hasPrefix(s), allHex(s, 2))
	zero := n > 3 && s[2] == '0'
	ok := zz.And(n > 2, n <= 66, hex, !zero)
	if kind == 0 {
		if !hasPrefix(s) {
			zz.Assert(err == error(hexutil.ErrMissingPrefix), "missing prefix is reported as such")
			return
		}
		if n == 2 {
			zz.Assert(err == error(hexutil.ErrEmptyNumber), "a bare prefix is reported as such")
			return
		}
		zz.Assert(zz.Implies(zz.And(hex, zero), err == error(hexutil.ErrLeadingZero)), "leading zeros are reported as such")
		zz.Assert(zz.Implies(zz.And(hex, !zero, n > 66), err == error(hexutil.ErrBig256Range)), "a quantity above 256 bits is reported as such")
		zz.Assert(zz.Implies(zz.And(!hex, !zero, n <= 66), err == error(hexutil.ErrSyntax)), "a bad digit is reported as a syntax error")
	}
	if ok {
		zz.Assert(err == nil, "a well-formed quantity of up to 256 bits is accepted")
		// compare with the digits, most significant first
		w := got.FillBytes(make([]byte, 32))
		for i := 0; i < 64; i++ {
			var d byte
			if k := n - 64 + i; k >= 2 {
				d = nib(s[k])
			}
			g := w[i/2] >> 4
			if i%2 == 1 {
				g = w[i/2] & 15
			}
			zz.Assert(g == d, "the value of the digits is returned")
		}
	} else {
		zz.Assert(err != nil, "any other text is rejected")
		if kind != 0 {
			zz.Assert(got.IsUint64() && got.Uint64() == old, "a rejected decode leaves the destination unchanged")
		}
	}
	zz.Reach("end")
}

// GraphQL: the numeric GraphQL inputs.
func GraphQL() {
	v := int32(zz.U32("v"))
	zz.Assume(v >= 0)
	var b hexutil.Big
	zz.Assert(b.UnmarshalGraphQL(v) == nil && b.ToInt().IsInt64() && b.ToInt().Int64() == int64(v), "an int32 GraphQL value is taken as is")
	var u hexutil.Uint64
	zz.Assert(u.UnmarshalGraphQL(v) == nil && uint64(u) == uint64(v), "an int32 GraphQL value is taken as is")
	old := zz.U64("old")
	u = hexutil.Uint64(old)
	zz.Assert(u.UnmarshalGraphQL(1.5) != nil && uint64(u) == old, "a GraphQL value of another type is rejected")
	by := hexutil.Bytes{1}
	zz.Assert(by.UnmarshalGraphQL(v) != nil && len(by) == 1 && by[0] == 1, "a GraphQL value of another type is rejected")
	zz.Assert(b.UnmarshalGraphQL(true) != nil && b.ToInt().Int64() == int64(v), "a GraphQL value of another type is rejected")
	zz.Reach("end")
}

// Fixed: fixed-size decoding on every input; failure leaves the output untouched.
func Fixed() {
	n := zz.Choice("n", zz.Param("from", 0), zz.Param("n", 8))
	m := zz.Choice("m", zz.Param("mfrom", 0), zz.Param("m", 3))
	s := zz.Str("s", n)
	in := []byte(s)
	out := zz.Bytes("out", m)
	old := append([]byte{}, out...)
	kind := zz.Choice("kind", 0, 2)
	var err error
	switch kind {
	case 0:
		err = hexutil.UnmarshalFixedText("T", in, out)
	case 1:
		err = hexutil.UnmarshalFixedJSON(reflect.TypeOf(0), []byte("\""+s+"\""), out)
	case 2:
		err = hexutil.UnmarshalFixedUnprefixedText("T", in, out)
	}
	p := hasPrefix(s)
	from := 2
	if kind == 2 && !p {
		from = 0
		p = true
	}
	ok := false
	if n == 0 {
		ok = m == 0
		from = 0
	} else if p && n-from == 2*m {
		ok = allHex(s, from)
	}
	if ok {
		zz.Assert(err == nil, "hex of exactly the required length is accepted")
		for i := range out {
			zz.Assert(out[i] == nib(s[from+2*i])<<4|nib(s[from+2*i+1]), "the decoded bytes are stored")
		}
	} else {
		zz.Assert(err != nil, "anything but hex of the required length is rejected")
		zz.Assert(zz.EqBytes(out, old), "a rejected decode leaves the output unchanged")
	}
	zz.Assert(zz.EqStr(string(in), s), "decoding leaves its input unchanged")
	zz.Reach("end")
}

// MustPanics: the Must variants panic exactly when the plain ones fail.
func MustPanics() {
	n := zz.Choice("n", zz.Param("from", 0), zz.Param("n", 5))
	s := zz.Str("s", n)
	panics := func(f func()) (p bool) {
		defer func() { p = recover() != nil }()
		f()
		return
	}
	_, e1 := hexutil.Decode(s)
	zz.Assert(panics(func() { hexutil.MustDecode(s) }) == (e1 != nil), "MustDecode panics exactly on invalid input")
	_, e2 := hexutil.DecodeUint64(s)
	zz.Assert(panics(func() { hexutil.MustDecodeUint64(s) }) == (e2 != nil), "MustDecodeUint64 panics exactly on invalid input")
	_, e3 := hexutil.DecodeBig(s)
	zz.Assert(panics(func() { hexutil.MustDecodeBig(s) }) == (e3 != nil), "MustDecodeBig panics exactly on invalid input")
	zz.Reach("end")
}
