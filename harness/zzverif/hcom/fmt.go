package hcom

import (
	"fmt"
	"strings"
	"time"

	"flychain/common"
	zz "flychain/zzverif"
)

// MixedJSON: a mixed-case address read from JSON keeps its text and is written back equivalently.
func MixedJSON() {
	n := 42 + zz.Choice("delta", 0, 4) - 3
	s := zz.Str("s", n)
	for i := 0; i < n; i++ {
		zz.Assume(zz.And(s[i] > 32, s[i] < 127, s[i] != '"', s[i] != '\\', s[i] != '<', s[i] != '>', s[i] != '&'))
	}
	old := zz.Bytes("old", 20)
	oa := common.BytesToAddress(old)
	m := common.NewMixedcaseAddress(oa)
	q := []byte("\"" + s + "\"")
	err := m.UnmarshalJSON(q)
	ok := false
	if has0x(s) && n == 42 {
		ok = allHex(s[2:])
	}
	if !ok {
		zz.Assert(err != nil, "malformed text is rejected")
		zz.Assert(m.Address() == oa, "a rejected decode leaves the address unchanged")
		return
	}
	zz.Assert(err == nil, "well-formed text is accepted")
	zz.Assert(zz.EqBytes(m.Address().Bytes(), unhex(s[2:])), "the address is the value of the digits")
	zz.Assert(zz.EqStr(m.Original(), s), "the original text is kept")
	out, err := m.MarshalJSON()
	zz.Assert(err == nil && zz.EqStr(string(out), "\"0x"+s[2:]+"\""), "MarshalJSON writes 0x plus the original digits")
	zz.Reach("end")
}

// MixedWrite: any valid address text, prefixed or not, is written as JSON that reads back as the same address.
func MixedWrite() {
	ab := zz.Bytes("a", 20)
	digits := hexOf(ab)
	pre := []string{"", "0x", "0X"}[zz.Choice("prefix", 0, 2)]
	m, err := common.NewMixedcaseAddressFromString(pre + digits)
	zz.Assert(err == nil, "every address text is accepted")
	if err != nil {
		return
	}
	out, err := m.MarshalJSON()
	zz.Assert(err == nil && zz.EqStr(string(out), "\"0x"+digits+"\""), "MarshalJSON writes 0x plus the original digits")
	var back common.MixedcaseAddress
	zz.Assert(back.UnmarshalJSON(out) == nil && back.Address() == common.BytesToAddress(ab), "the written JSON reads back as the same address")
	str := m.String()
	if m.ValidChecksum() {
		zz.Assert(zz.EqStr(str, pre+digits+" [chksum ok]"), "String marks a valid checksum")
	} else {
		zz.Assert(zz.EqStr(str, pre+digits+" [chksum INVALID]"), "String marks an invalid checksum")
	}
	zz.Reach("end")
}

func upper(s string) string {
	out := []byte(s)
	for i, c := range out {
		out[i] = zz.IteByte(zz.And(c >= 'a', c <= 'z'), c-32, c)
	}
	return string(out)
}

// dec is the %d form of a byte array.
func dec(b []byte) string {
	var parts []string
	for _, x := range b {
		parts = append(parts, fmt.Sprint(x))
	}
	return "[" + strings.Join(parts, " ") + "]"
}

// Verbs: the documented formatting verbs of Hash and Address.
func Verbs() {
	b := zz.Bytes("b", 32)
	h, a := common.BytesToHash(b), common.BytesToAddress(b[:20])
	hx, ax := hexOf(b), hexOf(b[:20])
	sum := a.Hex()
	switch zz.Choice("verb", 0, 8) {
	case 0:
		zz.Assert(zz.EqStr(fmt.Sprintf("%v", h), "0x"+hx) && zz.EqStr(fmt.Sprint(h), "0x"+hx), "%v of a hash is its hex form")
		zz.Assert(zz.EqStr(fmt.Sprintf("%v", a), sum) && zz.EqStr(fmt.Sprint(a), sum), "%v of an address is its checksummed form")
	case 1:
		zz.Assert(zz.EqStr(fmt.Sprintf("%s", h), "0x"+hx), "%s of a hash is its hex form")
		zz.Assert(zz.EqStr(fmt.Sprintf("%s", a), sum), "%s of an address is its checksummed form")
	case 2:
		zz.Assert(zz.EqStr(fmt.Sprintf("%q", h), "\"0x"+hx+"\""), "%q of a hash is its quoted hex form")
		zz.Assert(zz.EqStr(fmt.Sprintf("%q", a), "\""+sum+"\""), "%q of an address is its quoted checksummed form")
	case 3:
		zz.Assert(zz.EqStr(fmt.Sprintf("%x", h), hx), "%x of a hash is its digits")
		zz.Assert(zz.EqStr(fmt.Sprintf("%x", a), ax), "%x of an address is its digits")
	case 4:
		zz.Assert(zz.EqStr(fmt.Sprintf("%#x", h), "0x"+hx), "%#x of a hash has the prefix")
		zz.Assert(zz.EqStr(fmt.Sprintf("%#x", a), "0x"+ax), "%#x of an address has the prefix")
	case 5:
		zz.Assert(zz.EqStr(fmt.Sprintf("%X", h), upper(hx)), "%X of a hash is its upper-case digits")
		zz.Assert(zz.EqStr(fmt.Sprintf("%X", a), upper(ax)), "%X of an address is its upper-case digits")
	case 6:
		zz.Assert(zz.EqStr(fmt.Sprintf("%#X", h), "0X"+upper(hx)), "%#X of a hash has the prefix")
		zz.Assert(zz.EqStr(fmt.Sprintf("%#X", a), "0X"+upper(ax)), "%#X of an address has the prefix")
	case 7:
		zz.Assert(zz.EqStr(fmt.Sprintf("%t", h), "%!t(hash="+hx+")"), "another verb is reported with the digits of the hash")
		zz.Assert(zz.EqStr(fmt.Sprintf("%t", a), "%!t(address="+ax+")"), "another verb is reported with the digits of the address")
	case 8:
		// decimal: all bytes but two are fixed, which keeps the text lengths few
		var h2 common.Hash
		var a2 common.Address
		h2[3], h2[31] = b[0], b[1]
		a2[0], a2[19] = b[0], b[1]
		zz.Assert(zz.EqStr(fmt.Sprintf("%d", h2), dec(h2[:])), "%d of a hash lists its bytes")
		zz.Assert(zz.EqStr(fmt.Sprintf("%d", a2), dec(a2[:])), "%d of an address lists its bytes")
	}
	zz.Reach("end")
}

// Age: the age text lists the three largest units of the age, from years down to seconds.
func Age() {
	syms := []string{"y", "mo", "w", "d", "h", "m", "s"}
	maxs := []int{zz.Param("years", 99), 11, 0, 0, 23, 59, 59}
	secs := []int64{12 * 30 * 24 * 3600, 30 * 24 * 3600, 7 * 24 * 3600, 24 * 3600, 3600, 60, 1}
	first := zz.Choice("first", zz.Param("lo", 0), 7)
	total := int64(0)
	var n []int
	md := 0
	for i := range syms {
		v := 0
		if i == 2 || i == 3 {
			if first == 2 && i == 2 {
				v = zz.IntIn("md7", 7, 29)
			} else if first == 3 && i == 3 {
				v = zz.IntIn("md1", 1, 6)
			} else if first < 2 && i == 2 {
				v = zz.IntIn("md", 0, 29)
			}
			if i == 2 {
				md = v
				v = md / 7
			} else if first != 3 {
				v = md % 7
			}
		} else if i == first {
			v = zz.IntIn(syms[i]+"1", 1, maxs[i])
		} else if i > first && (i < 3 || zz.Param("coarse", 0) == 0) {
			v = zz.IntIn(syms[i], 0, maxs[i])
		}
		n = append(n, v)
	}
	if first != 3 {
		total = int64(md) * secs[3]
	} else {
		total = int64(n[3]) * secs[3]
	}
	for i := range syms {
		if i != 2 && i != 3 {
			total += int64(n[i]) * secs[i]
		}
	}
	want := ""
	k := 0
	for i := range syms {
		if n[i] > 0 && k < 3 {
			want += fmt.Sprintf("%d%s", n[i], syms[i])
			k++
		}
	}
	if first == 7 {
		want = "0"
	}
	got := common.PrettyAge(time.Now().Add(-time.Duration(total)*time.Second - 500*time.Millisecond)).String()
	zz.Assert(zz.EqStr(got, want), "the age is given in its three largest non-zero units")
	zz.Reach("end")
}
