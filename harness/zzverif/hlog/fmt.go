// Package hlog: harnesses for log.
package hlog

import (
	"math/big"
	"time"

	"flychain/log"
	zz "flychain/zzverif"
)

// grouped checks the form of a number and returns its digits (most significant first).
func grouped(s string, neg bool) []byte {
	zz.Assert(len(s) > 0, "a number has digits")
	if len(s) == 0 {
		return nil
	}
	zz.Assert((s[0] == '-') == neg, "a number has a minus sign exactly when it is negative")
	if s[0] == '-' {
		s = s[1:]
	}
	nd := len(s) - len(s)/4 // digits, if separated
	sep := nd > 5
	if !sep {
		nd = len(s)
	}
	var d []byte
	for i := 0; i < len(s); i++ {
		if sep && (len(s)-1-i)%4 == 3 {
			zz.Assert(s[i] == ',', "a number of six or more digits is separated in groups of three")
			continue
		}
		zz.Assert(zz.And(s[i] >= '0', s[i] <= '9'), "a number consists of digits")
		d = append(d, s[i]-'0')
	}
	zz.Assert(len(d) > 0, "a number has digits")
	if len(d) > 1 {
		zz.Assert(d[0] != 0, "a number has no leading zeros")
	}
	return d
}

// digits gives an arbitrary number of at most max through its decimal digits: each number has one
// such expansion, so all of them are covered; each digit stays symbolic.
func digits(max string, min int) (d []byte, v uint64) {
	k := zz.Choice("digits", 1, len(max))
	free := 0 // the digits before this one are those of max, this one is smaller
	if k == len(max) {
		free = zz.Choice("free", 0, k)
	}
	d = make([]byte, k)
	for i := range d {
		lo := 0
		if i == 0 {
			lo = 1
		}
		if k == 1 {
			lo = min
		}
		switch {
		case k == len(max) && i < free:
			d[i] = max[i] - '0'
		case k == len(max) && i == free:
			zz.Assume(lo < int(max[i]-'0'))
			d[i] = digit(lo, int(max[i]-'0')-1)
		default:
			d[i] = digit(lo, 9)
		}
	}
	for _, c := range d {
		v = v*10 + uint64(c)
	}
	return
}

func digit(lo, hi int) byte { return byte(zz.IntIn("d"+string(rune(48+lo))+string(rune(48+hi)), lo, hi)) }

func same(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	eq := true
	for i := range a {
		eq = zz.And(eq, a[i] == b[i])
	}
	return eq
}

// Int64: every signed 64-bit number.
func Int64() {
	neg := zz.Choice("neg", 0, 1)
	max := "9223372036854775807"
	if neg == 1 {
		max = "9223372036854775808"
	}
	d, m := digits(max, neg)
	v := int64(m)
	if neg == 1 {
		v = -v
	}
	zz.Assert(same(grouped(log.FormatLogfmtInt64(v), neg == 1), d), "the digits are those of the number")
	zz.Reach("end")
}

// Uint64: every unsigned 64-bit number.
func Uint64() {
	d, v := digits("18446744073709551615", 0)
	zz.Assert(same(grouped(log.FormatLogfmtUint64(v), false), d), "the digits are those of the number")
	zz.Reach("end")
}

// fixed renders one record and returns what follows the fixed part of a logfmt line.
func lineOf(f log.Format, lvl log.Lvl, msg string, ctx ...interface{}) string {
	return string(f.Format(&log.Record{
		Time: time.Date(2022, 3, 4, 5, 6, 7, 0, time.UTC), Lvl: lvl, Msg: msg, Ctx: ctx,
		KeyNames: log.RecordKeyNames{Time: "t", Lvl: "lvl", Msg: "msg", Ctx: "ctx"},
	}))
}

// above gives an arbitrary number greater than max, of up to extra more digits, as text.
func above(max string, extra int) (d []byte) {
	k := len(max) + zz.Choice("longer", 0, extra)
	d = make([]byte, k)
	up := -1 // the digits before this one are those of max, this one is greater
	if k == len(max) {
		up = zz.Choice("up", 0, k-1)
		zz.Assume(max[up] < '9')
	}
	for i := range d {
		switch {
		case i < up:
			d[i] = max[i] - '0'
		case i == up:
			d[i] = digit(int(max[i]-'0')+1, 9)
		case i == 0:
			d[i] = digit(1, 9)
		default:
			d[i] = digit(0, 9)
		}
	}
	return
}

// Big: integers beyond 64 bits as context values.
func Big() {
	neg := zz.Choice("neg", 0, 1) == 1
	max := "18446744073709551615"
	if neg {
		max = "9223372036854775808"
	}
	d := above(max, zz.Param("n", 3))
	t := make([]byte, 0, len(d)+1)
	if neg {
		t = append(t, '-')
	}
	for _, c := range d {
		t = append(t, '0'+c)
	}
	v, ok := new(big.Int).SetString(string(t), 10)
	if !ok {
		return
	}
	line := lineOf(log.LogfmtFormat(), log.LvlInfo, "m", "k", v)
	const head = "t=2022-03-04T05:06:07+0000 lvl=info msg=m k="
	zz.Assert(len(line) > len(head) && line[:len(head)] == head, "a line starts with time, level and message")
	s := line[len(head):]
	zz.Assert(s[len(s)-1] == '\n', "a line ends with a newline")
	zz.Assert(same(grouped(s[:len(s)-1], neg), d), "the digits are those of the number")
	zz.Reach("end")
}

// Float: numbers with a fraction as context values.
func Float() {
	sh := []int{0, 1, 3, 10, 20}[zz.Choice("shift", 0, 4)]
	w := zz.Choice("width", 0, 1)
	lim := 1 << uint(zz.Param("bits", 53))
	if w == 1 {
		lim = 1 << 24
	}
	n := zz.IntIn([]string{"n64", "n32"}[w], -lim, lim)
	var f interface{}
	if w == 1 {
		f = float32(n) / float32(int(1)<<uint(sh))
	} else {
		f = float64(n) / float64(int(1)<<uint(sh))
	}
	want := ""
	u := uint64(n)
	if n < 0 {
		want = "-"
		u = -u
	}
	u *= 1000
	q := u >> uint(sh)
	if sh > 0 {
		rem, half := u&(1<<uint(sh)-1), uint64(1)<<uint(sh-1)
		if rem > half || rem == half && q&1 == 1 {
			q++
		}
	}
	want += zz.Thousandths(q)
	line := lineOf(log.LogfmtFormat(), log.LvlInfo, "m", "k", f)
	zz.Assert(zz.EqStr(line, "t=2022-03-04T05:06:07+0000 lvl=info msg=m k="+want+"\n"), "a number with a fraction is shown to the nearest thousandth")
	zz.Reach("end")
}
