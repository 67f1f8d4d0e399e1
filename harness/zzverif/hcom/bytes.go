// Package hcom: harnesses for the common package.
package hcom

import (
	"flychain/common"
	"flychain/common/hexutil"
	zz "flychain/zzverif"
)

func isHex(c byte) bool {
	return zz.Or(zz.And(c >= '0', c <= '9'), zz.And(c >= 'a', c <= 'f'), zz.And(c >= 'A', c <= 'F'))
}

func nib(c byte) byte {
	return zz.IteByte(zz.And(c >= '0', c <= '9'), c-'0', zz.IteByte(zz.And(c >= 'a', c <= 'f'), c-'a'+10, c-'A'+10))
}

func lowerDigit(n byte) byte { return zz.IteByte(n < 10, n+'0', n-10+'a') }
func upperDigit(n byte) byte { return zz.IteByte(n < 10, n+'0', n-10+'A') }

func has0x(s string) bool {
	return len(s) >= 2 && zz.And(s[0] == '0', zz.Or(s[1] == 'x', s[1] == 'X'))
}

func allHex(s string) bool {
	ok := true
	for i := 0; i < len(s); i++ {
		ok = zz.And(ok, isHex(s[i]))
	}
	return ok
}

func hexOf(b []byte) string {
	var out []byte
	for _, x := range b {
		out = append(out, lowerDigit(x>>4), lowerDigit(x&15))
	}
	return string(out)
}

// unhex decodes digits, which must be an even number.
func unhex(s string) []byte {
	out := make([]byte, len(s)/2)
	for i := range out {
		out[i] = nib(s[2*i])<<4 | nib(s[2*i+1])
	}
	return out
}

func cp(b []byte) []byte { return append([]byte{}, b...) }

// Pad: padding, trimming and copying.
func Pad() {
	n := zz.Choice("n", 0, zz.Param("n", 5))
	l := zz.Choice("l", 0, zz.Param("l", 8)) - 1
	b := zz.Bytes("b", n)
	orig := cp(b)
	r, p := common.RightPadBytes(b, l), common.LeftPadBytes(b, l)
	want := n
	if l > n {
		want = l
	}
	zz.Assert(len(r) == want && len(p) == want, "padding yields the larger of both lengths")
	for i := 0; i < want; i++ {
		if i < n {
			zz.Assert(r[i] == orig[i], "right padding keeps the bytes in front")
		} else {
			zz.Assert(r[i] == 0, "right padding appends zeros")
		}
		if i >= want-n {
			zz.Assert(p[i] == orig[i-(want-n)], "left padding keeps the bytes at the end")
		} else {
			zz.Assert(p[i] == 0, "left padding prepends zeros")
		}
	}
	zz.Assert(zz.EqBytes(b, orig), "padding leaves its input unchanged")
	c := common.CopyBytes(b)
	zz.Assert(zz.EqBytes(c, orig), "CopyBytes copies the bytes")
	if n > 0 {
		c[0]++
		zz.Assert(b[0] == orig[0], "CopyBytes returns an independent copy")
	}
	zz.Assert(common.CopyBytes(nil) == nil, "CopyBytes keeps nil")
	zz.Assert(c != nil, "CopyBytes of a slice that is not nil is not nil")
	zz.Reach("end")
}

// Trim: TrimLeftZeroes and TrimRightZeroes cut exactly the zero bytes at the end.
func Trim() {
	n := zz.Choice("n", 0, zz.Param("n", 6))
	b := zz.Bytes("b", n)
	orig := cp(b)
	l, r := common.TrimLeftZeroes(b), common.TrimRightZeroes(b)
	zz.Assert(len(l) <= n && len(r) <= n, "trimming does not grow")
	zz.Assert(zz.EqBytes(l, orig[n-len(l):]), "TrimLeftZeroes returns a suffix")
	zz.Assert(zz.EqBytes(r, orig[:len(r)]), "TrimRightZeroes returns a prefix")
	for i := 0; i < n-len(l); i++ {
		zz.Assert(orig[i] == 0, "TrimLeftZeroes drops only zeros")
	}
	for i := len(r); i < n; i++ {
		zz.Assert(orig[i] == 0, "TrimRightZeroes drops only zeros")
	}
	if len(l) > 0 {
		zz.Assert(l[0] != 0, "no leading zero is left")
	}
	if len(r) > 0 {
		zz.Assert(r[len(r)-1] != 0, "no trailing zero is left")
	}
	zz.Assert(zz.EqBytes(common.LeftPadBytes(l, n), orig), "left padding undoes left trimming")
	zz.Assert(zz.EqBytes(common.RightPadBytes(r, n), orig), "right padding undoes right trimming")
	zz.Assert(zz.EqBytes(b, orig), "trimming leaves its input unchanged")
	zz.Reach("end")
}

// HexBytes: Bytes2Hex, Hex2Bytes, Hex2BytesFixed and FromHex.
func HexBytes() {
	n := zz.Choice("n", 0, zz.Param("n", 4))
	b := zz.Bytes("b", n)
	orig := cp(b)
	h := common.Bytes2Hex(b)
	zz.Assert(zz.EqStr(h, hexOf(orig)), "Bytes2Hex yields two lower-case digits per byte")
	zz.Assert(zz.EqBytes(common.Hex2Bytes(h), orig), "Hex2Bytes inverts Bytes2Hex")
	zz.Assert(zz.EqBytes(common.FromHex("0x"+h), orig), "FromHex accepts the 0x prefix")
	zz.Assert(zz.EqBytes(common.FromHex(h), orig) || n > 0 && true, "FromHex accepts plain digits")
	if n > 0 {
		zz.Assert(zz.EqBytes(common.FromHex("0X"+h), orig), "FromHex accepts the 0X prefix")
		zz.Assert(zz.EqBytes(common.FromHex(h), orig), "FromHex accepts plain digits")
		odd := common.FromHex("0x" + h[1:])
		w := cp(orig)
		w[0] &= 15
		zz.Assert(zz.EqBytes(odd, w), "FromHex left-pads an odd number of digits")
	}
	fl := zz.Choice("flen", 0, zz.Param("n", 4)+1)
	f := common.Hex2BytesFixed(h, fl)
	zz.Assert(len(f) == fl, "Hex2BytesFixed yields the requested length")
	for i := 0; i < fl; i++ {
		k := n - fl + i
		if k >= 0 {
			zz.Assert(f[i] == orig[k], "Hex2BytesFixed keeps the low-order bytes")
		} else {
			zz.Assert(f[i] == 0, "Hex2BytesFixed left-pads with zeros")
		}
	}
	zz.Assert(zz.EqBytes(b, orig), "encoding leaves its input unchanged")
	zz.Reach("end")
}

// ParseHex: ParseHexOrString on every string.
func ParseHex() {
	n := zz.Choice("n", 0, zz.Param("n", 6))
	s := zz.Str("s", n)
	b, err := common.ParseHexOrString(s)
	d, derr := hexutil.Decode(s)
	if n > 0 && !has0x(s) {
		zz.Assert(err == nil && zz.EqStr(string(b), s), "a string without the prefix is taken verbatim")
	} else {
		zz.Assert((err == nil) == (derr == nil), "a prefixed string is accepted exactly if it is valid hex")
		if err == nil && derr == nil {
			zz.Assert(zz.EqBytes(b, d), "a prefixed string is decoded")
		}
	}
	zz.Reach("end")
}
