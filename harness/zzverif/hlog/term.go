package hlog

import (
	"strings"
	"flychain/log"
	zz "flychain/zzverif"
)

var lvls = []log.Lvl{log.LvlCrit, log.LvlError, log.LvlWarn, log.LvlInfo, log.LvlDebug, log.LvlTrace}
var lvlNames = []string{"crit", "eror", "warn", "info", "dbug", "trce"}
var lvlAligned = []string{"CRIT ", "ERROR", "WARN ", "INFO ", "DEBUG", "TRACE"}

// verbatim tells whether a message is shown as it is.
func verbatim(s string) bool {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c != '\n' && c != '\r' && !zz.And(c >= ' ', c < 0x7f, c != '=') {
			return false
		}
	}
	return true
}

// Term: the terminal form, with and without colors.
func Term() {
	n := zz.Param("n", 2)
	var msg, key, val string = "m", "k", "v"
	lo, hi := 0, 2
	if zz.Param("long", 0) == 1 {
		lo, hi = 3, 3
	}
	switch zz.Choice("where", lo, hi) {
	case 3: // around the column where the context starts
		msg = strings.Repeat([]string{"x", "\u00e9", "\u4e16"}[zz.Choice("fill", 0, 2)], []int{0, 12, 13, 18, 19, 36, 38, 39, 40, 41}[zz.Choice("len", 0, 9)]) + textOf("msg", n)
	case 0:
		msg = textOf("msg", n)
	case 1:
		key = textOf("key", n)
	case 2:
		val = textOf("val", n)
	}
	ll, lh := 0, 5
	if zz.Param("long", 0) == 1 {
		ll, lh = 3, 3
	}
	l := zz.Choice("lvl", ll, lh)
	bare := zz.Choice("bare", 0, 1) == 1
	var ctx []interface{}
	want := []pair{}
	if !bare {
		ctx = []interface{}{key, val, "c", "d"}
		want = []pair{{key, val}, {"c", "d"}}
	}
	s := lineOf(log.TerminalFormat(false), lvls[l], msg, ctx...)
	h := lvlAligned[l] + "[03-04|05:06:07.000] "
	zz.Assert(len(s) > len(h) && s[:len(h)] == h, "a terminal line starts with level and time")
	if len(s) <= len(h) {
		return
	}
	rest := s[len(h):]
	cols := 0
	if verbatim(msg) {
		zz.Assert(len(rest) > len(msg) && zz.EqStr(rest[:len(msg)], msg), "a printable message is shown as it is")
		if len(rest) <= len(msg) {
			return
		}
		rest, cols = rest[len(msg):], len(msg)
	} else {
		v, n, ok := token(rest)
		zz.Assert(ok && zz.EqStr(string(v), msg), "any other message is quoted")
		if !ok {
			return
		}
		rest, cols = rest[n:], -1
	}
	if bare {
		zz.Assert(rest == " \n" || rest == "\n", "a message without context ends the line")
	} else {
		sp := 0
		for sp < len(rest) && rest[sp] == ' ' {
			sp++
		}
		zz.Assert(sp >= 1, "the context is separated from the message")
		if cols >= 0 && cols < 40 {
			zz.Assert(cols+sp == 41, "the context is aligned")
		}
		checkLine(rest, want)
	}
	// colors change nothing but the color codes
	cs := lineOf(log.TerminalFormat(true), lvls[l], msg, ctx...)
	var out []byte
	codes := 0
	for i := 0; i < len(cs); i++ {
		if cs[i] != 0x1b {
			out = append(out, cs[i])
			continue
		}
		j := i + 1
		zz.Assert(j < len(cs) && cs[j] == '[', "an escape starts a color code")
		for j++; j < len(cs) && cs[j] >= '0' && cs[j] <= '9'; j++ {
		}
		zz.Assert(j < len(cs) && cs[j] == 'm', "an escape starts a color code")
		i = j
		codes++
	}
	zz.Assert(zz.EqStr(string(out), s), "without the color codes the line is the plain one")
	zz.Assert(codes == 2+2*len(want), "level and keys are colored, nothing else")
	zz.Reach("end")
}

// Levels: names of levels.
func Levels() {
	n := zz.Choice("n", 0, zz.Param("n", 6))
	s := zz.Str("s", n)
	l, err := log.LvlFromString(s)
	names := []string{"trace", "trce", "debug", "dbug", "info", "warn", "error", "eror", "crit"}
	vals := []log.Lvl{log.LvlTrace, log.LvlTrace, log.LvlDebug, log.LvlDebug, log.LvlInfo, log.LvlWarn, log.LvlError, log.LvlError, log.LvlCrit}
	known := false
	for i, nm := range names {
		if nm == s {
			known = true
			zz.Assert(err == nil && l == vals[i], "a level name gives its level")
		}
	}
	if !known {
		zz.Assert(err != nil, "an unknown name is an error")
	}
	for i, v := range lvls {
		zz.Assert(v.String() == lvlNames[i] && v.AlignedString() == lvlAligned[i], "each level has its names")
		w, err := log.LvlFromString(v.String())
		zz.Assert(err == nil && w == v, "the name of a level gives the level back")
		zz.Assert(i == 0 || lvls[i-1] < v, "levels are ordered by verbosity")
	}
	zz.Reach("end")
}

// Align: values of the same key are aligned with earlier, longer ones, but only up to 40 columns.
func Align() {
	a, b := zz.Choice("first", 0, 42), zz.Choice("second", 0, zz.Param("second", 6))
	rep := func(n int) string {
		t := make([]byte, n)
		for i := range t {
			t[i] = 'x'
		}
		return string(t)
	}
	f := log.LogfmtFormat()
	if zz.Choice("term", 0, 1) == 1 {
		f = log.TerminalFormat(false)
	}
	lineOf(f, log.LvlInfo, "m", "align", rep(a))
	s := lineOf(f, log.LvlInfo, "m", "align", rep(b), "c", "d")
	at := 0
	for at+6 < len(s) && s[at:at+6] != "align=" {
		at++
	}
	s = s[at+6:]
	x, sp := 0, 0
	for x < len(s) && s[x] == 'x' {
		x++
	}
	for x+sp < len(s) && s[x+sp] == ' ' {
		sp++
	}
	zz.Assert(x == b, "the value is shown")
	zz.Assert(s[x+sp:] == "c=d\n", "the next pair follows")
	if a <= 40 && a > b {
		zz.Assert(x+sp-1 >= a, "a value is padded to the longest one seen for its key")
	}
	zz.Assert(sp == 1 || x+sp-1 <= 40, "padding goes to column 40 at most")
	zz.Reach("end")
}
