package hcom

import (
	"math/big"

	"flychain/common"
	zz "flychain/zzverif"
)

// FromBytes: Hash and Address hold the low-order bytes of any byte string or integer.
func FromBytes() {
	n := zz.Choice("n", 0, zz.Param("n", 34))
	b := zz.Bytes("b", n)
	orig := cp(b)
	h := common.BytesToHash(b)
	a := common.BytesToAddress(b)
	for i := 0; i < 32; i++ {
		k := n - 32 + i
		if k >= 0 {
			zz.Assert(h[i] == orig[k], "BytesToHash keeps the low-order bytes")
		} else {
			zz.Assert(h[i] == 0, "BytesToHash left-pads with zeros")
		}
	}
	for i := 0; i < 20; i++ {
		k := n - 20 + i
		if k >= 0 {
			zz.Assert(a[i] == orig[k], "BytesToAddress keeps the low-order bytes")
		} else {
			zz.Assert(a[i] == 0, "BytesToAddress left-pads with zeros")
		}
	}
	v := new(big.Int).SetBytes(b)
	v0 := new(big.Int).Set(v)
	zz.Assert(common.BigToHash(v) == h, "BigToHash agrees with BytesToHash")
	zz.Assert(common.BigToAddress(v) == a, "BigToAddress agrees with BytesToAddress")
	hx := "0x" + hexOf(orig)
	zz.Assert(common.HexToHash(hx) == h, "HexToHash agrees with BytesToHash")
	zz.Assert(common.HexToAddress(hx) == a, "HexToAddress agrees with BytesToAddress")
	zz.Assert(zz.EqBytes(h.Bytes(), h[:]), "Hash.Bytes are its bytes")
	zz.Assert(zz.EqBytes(a.Bytes(), a[:]), "Address.Bytes are its bytes")
	zz.Assert(h.Big().Cmp(new(big.Int).SetBytes(h[:])) == 0, "Hash.Big is its big-endian value")
	zz.Assert(a.Big().Cmp(new(big.Int).SetBytes(a[:])) == 0, "Address.Big is its big-endian value")
	zz.Assert(common.BigToHash(h.Big()) == h, "BigToHash inverts Hash.Big")
	zz.Assert(common.BigToAddress(a.Big()) == a, "BigToAddress inverts Address.Big")
	ah := a.Hash()
	for i := 0; i < 32; i++ {
		if i < 12 {
			zz.Assert(ah[i] == 0, "Address.Hash left-pads with zeros")
		} else {
			zz.Assert(ah[i] == a[i-12], "Address.Hash keeps the address")
		}
	}
	zz.Assert(zz.EqBytes(b, orig), "conversion leaves its input unchanged")
	zz.Assert(v.Cmp(v0) == 0, "conversion leaves the integer unchanged")
	zz.Reach("end")
}

func isPanic(f func()) (p bool) {
	defer func() { p = recover() != nil }()
	f()
	return
}

// RoundTrip: every textual and SQL form of a hash or address decodes back to it.
func RoundTrip() {
	hb := zz.Bytes("h", 32)
	h := common.BytesToHash(hb)
	want := "0x" + hexOf(hb)
	zz.Assert(zz.EqStr(h.Hex(), want), "Hash.Hex is 0x plus 64 digits")
	zz.Assert(zz.EqStr(h.String(), want), "Hash.String equals Hash.Hex")
	t, err := h.MarshalText()
	zz.Assert(err == nil && zz.EqStr(string(t), want), "Hash.MarshalText equals Hash.Hex")
	var h2 common.Hash
	zz.Assert(h2.UnmarshalText(t) == nil && h2 == h, "Hash.UnmarshalText inverts MarshalText")
	h2 = common.Hash{}
	zz.Assert(h2.UnmarshalJSON([]byte("\""+want+"\"")) == nil && h2 == h, "Hash.UnmarshalJSON reads the text form")
	h2 = common.Hash{}
	zz.Assert(h2.UnmarshalGraphQL(want) == nil && h2 == h, "Hash.UnmarshalGraphQL reads the text form")
	v, err := h.Value()
	h2 = common.Hash{}
	zz.Assert(err == nil && h2.Scan(v) == nil && h2 == h, "Hash.Scan inverts Value")
	u := common.UnprefixedHash(h)
	t, err = u.MarshalText()
	zz.Assert(err == nil && zz.EqStr(string(t), want[2:]), "UnprefixedHash.MarshalText is 64 digits")
	var u2 common.UnprefixedHash
	zz.Assert(u2.UnmarshalText(t) == nil && u2 == u, "UnprefixedHash.UnmarshalText inverts MarshalText")
	u2 = common.UnprefixedHash{}
	zz.Assert(u2.UnmarshalText([]byte(want)) == nil && u2 == u, "UnprefixedHash.UnmarshalText accepts the prefix")
	zz.Assert(zz.EqStr(h.TerminalString(), want[2:8]+".."+want[60:]), "Hash.TerminalString abbreviates the digits")

	ab := zz.Bytes("a", 20)
	a := common.BytesToAddress(ab)
	awant := "0x" + hexOf(ab)
	t, err = a.MarshalText()
	zz.Assert(err == nil && zz.EqStr(string(t), awant), "Address.MarshalText is 0x plus 40 digits")
	var a2 common.Address
	zz.Assert(a2.UnmarshalText(t) == nil && a2 == a, "Address.UnmarshalText inverts MarshalText")
	a2 = common.Address{}
	zz.Assert(a2.UnmarshalJSON([]byte("\""+awant+"\"")) == nil && a2 == a, "Address.UnmarshalJSON reads the text form")
	a2 = common.Address{}
	zz.Assert(a2.UnmarshalGraphQL(awant) == nil && a2 == a, "Address.UnmarshalGraphQL reads the text form")
	v, err = a.Value()
	a2 = common.Address{}
	zz.Assert(err == nil && a2.Scan(v) == nil && a2 == a, "Address.Scan inverts Value")
	ua := common.UnprefixedAddress(a)
	t, err = ua.MarshalText()
	zz.Assert(err == nil && zz.EqStr(string(t), awant[2:]), "UnprefixedAddress.MarshalText is 40 digits")
	var ua2 common.UnprefixedAddress
	zz.Assert(ua2.UnmarshalText(t) == nil && ua2 == ua, "UnprefixedAddress.UnmarshalText inverts MarshalText")
	ua2 = common.UnprefixedAddress{}
	zz.Assert(ua2.UnmarshalText([]byte(awant)) == nil && ua2 == ua, "UnprefixedAddress.UnmarshalText accepts the prefix")
	zz.Reach("end")
}

// decoders of fixed-size types: acceptance on inputs around the required length.
func Decoders() {
	addr := zz.Choice("addr", 0, 1) == 1
	size := 32
	if addr {
		size = 20
	}
	n := 2*size + 2 + zz.Choice("delta", 0, 5) - 3
	s := zz.Str("s", n)
	form := zz.Choice("form", 0, 3)
	old := zz.Bytes("old", size)
	oh, oa := common.BytesToHash(old), common.BytesToAddress(old)
	h, a := oh, oa
	uh, ua := common.UnprefixedHash(oh), common.UnprefixedAddress(oa)
	var err error
	var got []byte
	in := []byte(s)
	switch form {
	case 0:
		if addr {
			err = a.UnmarshalText(in)
		} else {
			err = h.UnmarshalText(in)
		}
	case 1:
		q := []byte("\"" + s + "\"")
		if addr {
			err = a.UnmarshalJSON(q)
		} else {
			err = h.UnmarshalJSON(q)
		}
	case 2:
		if addr {
			err = a.UnmarshalGraphQL(s)
		} else {
			err = h.UnmarshalGraphQL(s)
		}
	case 3:
		if addr {
			err = ua.UnmarshalText(in)
			a = common.Address(ua)
		} else {
			err = uh.UnmarshalText(in)
			h = common.Hash(uh)
		}
	}
	if addr {
		got = a[:]
	} else {
		got = h[:]
	}
	from := 2
	p := has0x(s)
	if form == 3 && !p {
		from, p = 0, true
	}
	ok := false
	if p && n-from == 2*size {
		ok = allHex(s[from:])
	}
	if ok {
		zz.Assert(err == nil, "well-formed text is accepted")
		zz.Assert(zz.EqBytes(got, unhex(s[from:])), "the decoded bytes are stored")
	} else {
		zz.Assert(err != nil, "malformed text is rejected")
		zz.Assert(zz.EqBytes(got, old), "a rejected decode leaves the value unchanged")
	}
	zz.Assert(zz.EqStr(string(in), s), "decoding leaves its input unchanged")
	zz.Reach("end")
}

// Scan: only byte strings of the exact length are accepted, and copied.
func Scan() {
	addr := zz.Choice("addr", 0, 1) == 1
	size := 32
	if addr {
		size = 20
	}
	n := zz.Choice("n", 0, size+2)
	b := zz.Bytes("b", n)
	old := zz.Bytes("old", size)
	h, a := common.BytesToHash(old), common.BytesToAddress(old)
	var src interface{} = b
	other := zz.Choice("other", 0, 2)
	switch other {
	case 1:
		src = string(b)
	case 2:
		src = nil
	}
	var err error
	var got []byte
	if addr {
		err = a.Scan(src)
		got = a[:]
	} else {
		err = h.Scan(src)
		got = h[:]
	}
	if other == 0 && n == size {
		zz.Assert(err == nil && zz.EqBytes(got, b), "a byte string of the exact length is stored")
		b[0]++
		zz.Assert(got[0] == b[0]-1, "the bytes are copied")
	} else {
		zz.Assert(err != nil, "anything else is rejected")
		zz.Assert(zz.EqBytes(got, old), "a rejected scan leaves the value unchanged")
	}
	var gh common.Hash
	var ga common.Address
	if other != 1 {
		zz.Assert(gh.UnmarshalGraphQL(1) != nil && ga.UnmarshalGraphQL(nil) != nil && gh == (common.Hash{}) && ga == (common.Address{}), "a GraphQL value of another type is rejected")
	}
	zz.Reach("end")
}

// refChecksum is EIP-55 over the address bytes.
func refChecksum(ab []byte) string {
	low := hexOf(ab)
	hash := zz.Keccak([]byte(low))
	out := []byte("0x")
	for i := 0; i < 40; i++ {
		hb := hash[i/2] >> 4
		if i%2 == 1 {
			hb = hash[i/2] & 15
		}
		n := ab[i/2] >> 4
		if i%2 == 1 {
			n = ab[i/2] & 15
		}
		out = append(out, zz.IteByte(hb > 7, upperDigit(n), lowerDigit(n)))
	}
	return string(out)
}

// Checksum: Hex, String and the formatting verbs give the EIP-55 form of every address.
func Checksum() {
	ab := zz.Bytes("a", 20)
	a := common.BytesToAddress(ab)
	want := refChecksum(ab)
	zz.Assert(zz.EqStr(a.Hex(), want), "Address.Hex is the EIP-55 form")
	zz.Assert(zz.EqStr(a.String(), want), "Address.String is the EIP-55 form")
	zz.Assert(common.IsHexAddress(want), "the EIP-55 form is a valid address string")
	zz.Assert(common.HexToAddress(want) == a, "HexToAddress inverts Hex")
	m := common.NewMixedcaseAddress(a)
	zz.Assert(m.Address() == a && zz.EqStr(m.Original(), want), "NewMixedcaseAddress keeps the address and its EIP-55 form")
	zz.Assert(m.ValidChecksum(), "the EIP-55 form has a valid checksum")
	zz.Reach("end")
}

// IsAddr: IsHexAddress on every string.
func IsAddr() {
	n := 38 + zz.Choice("n", 0, 6)
	if zz.Choice("short", 0, 1) == 1 {
		n = n - 38
	}
	s := zz.Str("s", n)
	body := s
	if has0x(s) {
		body = s[2:]
	}
	want := len(body) == 40 && allHex(body)
	zz.Assert(common.IsHexAddress(s) == want, "exactly 40 hex digits with an optional 0x prefix are accepted")
	m, err := common.NewMixedcaseAddressFromString(s)
	zz.Assert((err == nil) == want, "NewMixedcaseAddressFromString accepts exactly the valid address strings")
	if want && err == nil {
		a := common.BytesToAddress(unhex(body))
		zz.Assert(m.Address() == a, "the address is the value of the digits")
		zz.Assert(zz.EqStr(m.Original(), s), "the original string is kept")
		zz.Assert(m.ValidChecksum() == (n == 42 && zz.EqStr(s, refChecksum(a[:]))), "ValidChecksum holds exactly for the EIP-55 form")
	}
	zz.Reach("end")
}
