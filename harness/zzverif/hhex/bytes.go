// Package hhex: harnesses for hex encoding and decoding.
package hhex

import (
	"math/big"

	"flychain/common/hexutil"
	zz "flychain/zzverif"
)

var _ = big.NewInt

func isHex(c byte) bool {
	return zz.Or(zz.And(c >= '0', c <= '9'), zz.And(c >= 'a', c <= 'f'), zz.And(c >= 'A', c <= 'F'))
}

// nib is the value of a hex digit (meaningless otherwise).
func nib(c byte) byte {
	return zz.IteByte(zz.And(c >= '0', c <= '9'), c-'0', zz.IteByte(zz.And(c >= 'a', c <= 'f'), c-'a'+10, c-'A'+10))
}

func lowerDigit(n byte) byte { return zz.IteByte(n < 10, n+'0', n-10+'a') }

// refEncode is the documented encoding: 0x then two lower-case digits per byte.
func refEncode(b []byte) string {
	out := []byte("0x")
	for _, x := range b {
		out = append(out, lowerDigit(x>>4), lowerDigit(x&15))
	}
	return string(out)
}

// BytesEncode: every entry point produces the documented encoding and decoding inverts it.
func BytesEncode() {
	n := zz.Choice("n", zz.Param("from", 0), zz.Param("n", 6))
	b := zz.Bytes("b", n)
	orig := append([]byte{}, b...)
	want := refEncode(orig)
	s := hexutil.Encode(b)
	zz.Assert(zz.EqStr(s, want), "Encode yields 0x plus two lower-case digits per byte")
	zz.Assert(zz.EqStr(hexutil.Bytes(b).String(), want), "Bytes.String equals Encode")
	t, err := hexutil.Bytes(b).MarshalText()
	zz.Assert(err == nil, "Bytes.MarshalText succeeds")
	zz.Assert(zz.EqStr(string(t), want), "Bytes.MarshalText equals Encode")
	d, err := hexutil.Decode(s)
	zz.Assert(err == nil, "Decode accepts every encoding")
	zz.Assert(zz.EqBytes(d, orig), "Decode inverts Encode")
	var x hexutil.Bytes
	zz.Assert(x.UnmarshalText(t) == nil && zz.EqBytes(x, orig), "Bytes.UnmarshalText inverts MarshalText")
	zz.Assert(zz.EqBytes(b, orig), "encoding leaves its input unchanged")
	zz.Reach("end")
}

// BytesDecode: acceptance, value and error class for every string.
func BytesDecode() {
	n := zz.Choice("n", zz.Param("from", 0), zz.Param("n", 8))
	s := zz.Str("s", n)
	b, err := hexutil.Decode(s)
	prefix := n >= 2 && zz.And(s[0] == '0', zz.Or(s[1] == 'x', s[1] == 'X'))
	okDigits := true
	var want []byte
	if n >= 2 && n%2 == 0 {
		for i := 2; i < n; i += 2 {
			okDigits = zz.And(okDigits, isHex(s[i]), isHex(s[i+1]))
			want = append(want, nib(s[i])<<4|nib(s[i+1]))
		}
	}
	switch {
	case n == 0:
		zz.Assert(err == error(hexutil.ErrEmptyString), "empty string is reported as such")
	case !prefix:
		zz.Assert(err == error(hexutil.ErrMissingPrefix), "missing prefix is reported as such")
	case n%2 != 0:
		zz.Assert(err == error(hexutil.ErrOddLength) || err == error(hexutil.ErrSyntax), "odd length is rejected")
		all := true
		for i := 2; i < n; i++ {
			all = zz.And(all, isHex(s[i]))
		}
		zz.Assert(zz.Implies(all, err == error(hexutil.ErrOddLength)), "odd number of valid digits is reported as odd length")
	case okDigits:
		zz.Assert(err == nil, "well-formed input is accepted")
		zz.Assert(zz.EqBytes(b, want), "decoded value is the value of the digits")
	default:
		zz.Assert(err == error(hexutil.ErrSyntax), "bad digit is reported as a syntax error")
	}
	zz.Reach("end")
}

// BytesText: the text and JSON decoders accept exactly the same bytes.
func BytesText() {
	n := zz.Choice("n", zz.Param("from", 0), zz.Param("n", 8))
	in := zz.Bytes("s", n)
	cp := append([]byte{}, in...)
	old := []byte{zz.Byte("old"), zz.Byte("old")}
	oldCp := append([]byte{}, old...)
	x := hexutil.Bytes(old)
	json := zz.Bool("json")
	var err error
	if json {
		q := append(append([]byte{'"'}, in...), '"')
		err = x.UnmarshalJSON(q)
	} else {
		err = x.UnmarshalText(in)
	}
	prefix := n >= 2 && zz.And(in[0] == '0', zz.Or(in[1] == 'x', in[1] == 'X'))
	ok := n%2 == 0
	var want []byte
	if n == 0 {
		ok = true
	} else {
		ok = ok && prefix
		if ok {
			for i := 2; i+1 < n; i += 2 {
				ok = zz.And(ok, isHex(in[i]), isHex(in[i+1]))
				want = append(want, nib(in[i])<<4|nib(in[i+1]))
			}
		}
	}
	if ok {
		zz.Assert(err == nil, "well-formed text is accepted")
		zz.Assert(zz.EqBytes(x, want), "value of the digits is stored")
	} else {
		zz.Assert(err != nil, "malformed text is rejected")
		zz.Assert(zz.EqBytes(x, oldCp), "a rejected decode leaves the destination unchanged")
	}
	zz.Assert(zz.EqBytes(in, cp), "decoding leaves its input unchanged")
	zz.Reach("end")
}
