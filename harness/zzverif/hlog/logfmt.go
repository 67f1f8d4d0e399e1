package hlog

import (
	"errors"
	"fmt"

	"flychain/log"
	zz "flychain/zzverif"
)

// plain tells whether a byte may stand unquoted.
func plain(c byte) bool { return zz.And(c > ' ', c < 0x7f, c != '"', c != '=') }

// token reads a bare or quoted text from the start of s: its meaning and its length.
func token(s string) (v []byte, n int, ok bool) {
	if len(s) == 0 || s[0] != '"' {
		for n < len(s) && plain(s[n]) {
			v = append(v, s[n])
			n++
		}
		return v, n, true
	}
	hex := func(from, k int) (r rune, good bool) {
		if from+k > len(s) {
			return 0, false
		}
		for _, c := range []byte(s[from : from+k]) {
			switch {
			case c >= '0' && c <= '9':
				r = r<<4 | rune(c-'0')
			case c >= 'a' && c <= 'f':
				r = r<<4 | rune(c-'a'+10)
			default:
				return 0, false
			}
		}
		return r, true
	}
	for n = 1; n < len(s); n++ {
		c := s[n]
		if c == '"' {
			return v, n + 1, true
		}
		if c < ' ' || c == 0x7f {
			return nil, 0, false
		}
		if c != '\\' {
			v = append(v, c)
			continue
		}
		n++
		if n == len(s) {
			return nil, 0, false
		}
		switch c := s[n]; c {
		case 'a':
			v = append(v, 7)
		case 'b':
			v = append(v, 8)
		case 'f':
			v = append(v, 12)
		case 'n':
			v = append(v, 10)
		case 'r':
			v = append(v, 13)
		case 't':
			v = append(v, 9)
		case 'v':
			v = append(v, 11)
		case '\\', '"':
			v = append(v, c)
		case 'x', 'u', 'U':
			k := map[byte]int{'x': 2, 'u': 4, 'U': 8}[c]
			r, good := hex(n+1, k)
			if !good {
				return nil, 0, false
			}
			n += k
			if c == 'x' {
				v = append(v, byte(r))
			} else {
				v = append(v, string(r)...)
			}
		default:
			return nil, 0, false
		}
	}
	return nil, 0, false
}

type pair struct{ k, v string }

// parse reads the pairs of one line.
func parse(s string) (ps []pair, ok bool) {
	for len(s) > 0 {
		if s[0] == ' ' {
			s = s[1:]
			continue
		}
		k, n, ok := token(s)
		if !ok || n >= len(s) || s[n] != '=' {
			return nil, false
		}
		s = s[n+1:]
		v, n, ok := token(s)
		if !ok || n < len(s) && s[n] != ' ' {
			return nil, false
		}
		s = s[n:]
		ps = append(ps, pair{string(k), string(v)})
	}
	return ps, true
}

func textOf(label string, n int) string {
	s := zz.Str(label, zz.Choice(label+" length", 0, n))
	if zz.Param("ascii", 0) == 1 {
		for i := 0; i < len(s); i++ {
			zz.Assume(s[i] < 0x80)
		}
	}
	return s
}

// checkLine: one line whose pairs are the given ones.
func checkLine(line string, want []pair) {
	nl := 0
	for i := 0; i < len(line); i++ {
		if line[i] == '\n' {
			nl++
		}
		zz.Assert(zz.Or(line[i] == '\n', line[i] >= ' ') && line[i] != 0x7f, "a line has no control characters")
	}
	zz.Assert(nl == 1 && line[len(line)-1] == '\n', "a record is one line")
	if nl != 1 {
		return
	}
	ps, ok := parse(line[:len(line)-1])
	zz.Assert(ok && len(ps) == len(want), "a line splits into the record's pairs")
	if !ok || len(ps) != len(want) {
		return
	}
	for i := range ps {
		zz.Assert(zz.EqStr(ps[i].k, want[i].k), "each pair has the record's key")
		zz.Assert(zz.EqStr(ps[i].v, want[i].v), "each pair has the record's value")
	}
}

func head(lvl, msg string) []pair {
	return []pair{{"t", "2022-03-04T05:06:07+0000"}, {"lvl", lvl}, {"msg", msg}}
}

// Line: texts with any characters in the message, a key and a value.
func Line() {
	n := zz.Param("n", 2)
	var msg, key, val string = "m", "k", "v"
	switch zz.Choice("where", 0, 2) {
	case 0:
		msg = textOf("msg", n)
	case 1:
		key = textOf("key", n)
	case 2:
		val = textOf("val", n)
	}
	line := lineOf(log.LogfmtFormat(), log.LvlError, msg, "a", "b", key, val, "c", "d")
	checkLine(line, append(head("eror", msg), pair{"a", "b"}, pair{key, val}, pair{"c", "d"}))
	zz.Reach("end")
}

type strer struct{ s string }

func (s strer) String() string { return s.s }

type ptrStr struct{ s string }

func (s *ptrStr) String() string { return s.s }

type termer struct{ s string }

func (t termer) TerminalString() string { return "T" + t.s }
func (t termer) String() string         { return "S" + t.s }

type plainStruct struct{ A, B string }

// Values: values of the other kinds.
func Values() {
	n := zz.Param("n", 2)
	s := textOf("s", n)
	var v interface{}
	want := s
	wantTerm := ""
	switch zz.Choice("kind", 0, 12) {
	case 0:
		v = errors.New(s)
	case 1:
		v = strer{s}
	case 2:
		v = &ptrStr{s}
	case 3:
		v = termer{s}
		want, wantTerm = "S"+s, "T"+s
	case 4:
		v, want = nil, "nil"
	case 5:
		v, want = (*ptrStr)(nil), "nil"
	case 6:
		b := zz.Choice("bool", 0, 1) == 1
		v, want = b, "false"
		if b {
			want = "true"
		}
	case 7:
		v, want = plainStruct{s, "x"}, "{A:"+s+" B:x}"
	case 8:
		v, want = []string{s, "y"}, "["+s+" y]"
	case 9:
		v, want = log.LvlWarn, "warn"
	case 10:
		b := zz.Byte("u8")
		v, want = b, small(uint64(b))
	case 11:
		b := zz.I8("i8")
		v = b
		if b < 0 {
			want = "-" + small(uint64(-int64(b)))
		} else {
			want = small(uint64(b))
		}
	case 12:
		b := zz.U16("u16")
		v, want = b, small(uint64(b))
	}
	if wantTerm == "" {
		wantTerm = want
	}
	if zz.Choice("format", 0, 1) == 0 {
		line := lineOf(log.LogfmtFormat(), log.LvlDebug, "m", "k", v, "c", "d")
		checkLine(line, append(head("dbug", "m"), pair{"k", want}, pair{"c", "d"}))
	} else {
		line := lineOf(log.TerminalFormat(false), log.LvlDebug, "m", "k", v, "c", "d")
		const h = "DEBUG[03-04|05:06:07.000] m"
		zz.Assert(len(line) > len(h) && line[:len(h)] == h, "a terminal line starts with level, time and message")
		checkLine(line[len(h):], []pair{{"k", wantTerm}, {"c", "d"}})
	}
	zz.Reach("end")
}

func small(v uint64) string { return fmt.Sprint(v) }

// Keys: context pairs whose key is not a text.
func Keys() {
	s := textOf("s", zz.Param("n", 2))
	var bad interface{} = 7
	if zz.Choice("nil", 0, 1) == 1 {
		bad = nil
	}
	line := lineOf(log.LogfmtFormat(), log.LvlCrit, "m", "k", s, bad, "x", "c", "d")
	nl := 0
	for i := 0; i < len(line); i++ {
		if line[i] == '\n' {
			nl++
		}
	}
	zz.Assert(nl == 1, "a record is one line")
	ps, ok := parse(line[:len(line)-1])
	zz.Assert(ok && len(ps) == 6, "a line splits into the record's pairs")
	if ok && len(ps) == 6 {
		zz.Assert(zz.EqStr(ps[3].v, s) && ps[3].k == "k", "the pair before is intact")
		zz.Assert(ps[4].k == "LOG15_ERROR", "a key that is no text is flagged")
		zz.Assert(ps[5] == pair{"c", "d"}, "the pair after is intact")
	}
	zz.Reach("end")
}
