package hlog

import (
	"errors"
	"fmt"
	"strconv"
	"time"

	"flychain/log"
	zz "flychain/zzverif"
)

// ---- a reader of JSON texts (objects of texts, numbers and lists of texts) ----

type jval struct {
	kind byte // 's' text, 'n' number, 'l' list
	s    string
	l    []string
}

type jreader struct {
	s   string
	bad bool
	sp  int // whitespace seen outside of texts
}

func (r *jreader) ws() {
	for len(r.s) > 0 && (r.s[0] == ' ' || r.s[0] == '\n' || r.s[0] == '\t' || r.s[0] == '\r') {
		r.s = r.s[1:]
		r.sp++
	}
}

func (r *jreader) is(c byte) bool {
	r.ws()
	if len(r.s) > 0 && r.s[0] == c {
		r.s = r.s[1:]
		return true
	}
	return false
}

func (r *jreader) need(c byte) {
	if !r.is(c) {
		r.bad = true
	}
}

func (r *jreader) text() string {
	r.need('"')
	var v []byte
	s := r.s
	for n := 0; n < len(s); n++ {
		c := s[n]
		if c == '"' {
			r.s = s[n+1:]
			return string(v)
		}
		if c < ' ' {
			break
		}
		if c != '\\' {
			v = append(v, c)
			continue
		}
		n++
		if n == len(s) {
			break
		}
		switch c := s[n]; c {
		case 'b':
			v = append(v, 8)
		case 'f':
			v = append(v, 12)
		case 'n':
			v = append(v, 10)
		case 'r':
			v = append(v, 13)
		case 't':
			v = append(v, 9)
		case '\\', '"', '/':
			v = append(v, c)
		case 'u':
			x := rune(0)
			for k := 1; k <= 4; k++ {
				if n+k >= len(s) {
					r.bad = true
					return ""
				}
				switch c := s[n+k]; {
				case c >= '0' && c <= '9':
					x = x<<4 | rune(c-'0')
				case c >= 'a' && c <= 'f':
					x = x<<4 | rune(c-'a'+10)
				case c >= 'A' && c <= 'F':
					x = x<<4 | rune(c-'A'+10)
				default:
					r.bad = true
					return ""
				}
			}
			n += 4
			v = append(v, string(x)...)
		default:
			r.bad = true
			return ""
		}
	}
	r.bad = true
	return ""
}

func (r *jreader) val() jval {
	r.ws()
	if len(r.s) == 0 {
		r.bad = true
		return jval{}
	}
	switch c := r.s[0]; {
	case c == '"':
		return jval{kind: 's', s: r.text()}
	case c == '[':
		r.need('[')
		v := jval{kind: 'l'}
		if r.is(']') {
			return v
		}
		for !r.bad {
			r.ws()
			v.l = append(v.l, r.text())
			if !r.is(',') {
				break
			}
		}
		r.need(']')
		return v
	}
	n := 0
	for n < len(r.s) && (r.s[n] == '-' || r.s[n] >= '0' && r.s[n] <= '9') {
		n++
	}
	v := jval{kind: 'n', s: r.s[:n]}
	r.s = r.s[n:]
	if n == 0 {
		r.bad = true
	}
	return v
}

// object reads one object; a key that stands twice makes it bad.
func (r *jreader) object() map[string]jval {
	m := map[string]jval{}
	r.need('{')
	if r.is('}') {
		return m
	}
	for !r.bad {
		r.ws()
		k := r.text()
		r.need(':')
		v := r.val()
		if _, twice := m[k]; twice {
			r.bad = true
		}
		m[k] = v
		if !r.is(',') {
			break
		}
	}
	r.need('}')
	return m
}

// valueOf is a value of any loggable type and its JSON form.
func jsonValue(n int) (in interface{}, want jval) {
	num := func(v int64) jval { return jval{kind: 'n', s: strconv.FormatInt(v, 10)} }
	switch zz.Choice("kind", 0, 14) {
	case 0:
		s := textOf("text", n)
		return s, jval{kind: 's', s: s}
	case 1:
		v := int(int8(zz.Byte("v")))
		return v, num(int64(v))
	case 2:
		v := int8(zz.Byte("v"))
		return v, num(int64(v))
	case 3:
		v := zz.Byte("v")
		return v, num(int64(v))
	case 4:
		v := int16(int8(zz.Byte("v"))) << 8
		return v, num(int64(v))
	case 5:
		return int64(-1 << 63), num(-1 << 63)
	case 6:
		return uint64(1<<64 - 1), jval{kind: 'n', s: "18446744073709551615"}
	case 7:
		return errors.New("bad \"thing\""), jval{kind: 's', s: "bad \"thing\""}
	case 8:
		s := textOf("text", n)
		return strer{s}, jval{kind: 's', s: s}
	case 9:
		var p *ptrStr
		return p, jval{kind: 's', s: "nil"}
	case 10:
		return nil, jval{kind: 's', s: "<nil>"}
	case 11:
		b := zz.Choice("b", 0, 1) == 1
		return b, jval{kind: 's', s: fmt.Sprint(b)}
	case 12:
		return struct{ A, B int }{1, -2}, jval{kind: 's', s: "{A:1 B:-2}"}
	case 13:
		return time.Date(2022, 3, 4, 5, 6, 7, 0, time.UTC), jval{kind: 's', s: "2022-03-04T05:06:07+0000"}
	}
	v := zz.U16("v16")
	return v, num(int64(v))
}

// JSON: a record in its JSON form.
func JSON() {
	n := zz.Param("n", 2)
	r := &log.Record{Time: time.Date(2022, 3, 4, 5, 6, 7, 0, time.UTC), Lvl: log.LvlInfo, Msg: "m", KeyNames: log.RecordKeyNames{Time: "t", Msg: "msg", Lvl: "lvl", Ctx: "ctx"}}
	what := zz.Choice("what", 0, 3)
	if what == 3 {
		r.Lvl = log.Lvl(zz.Choice("lvl", 0, 5))
	}
	want := map[string]jval{"t": {kind: 's', s: "2022-03-04T05:06:07Z"}, "lvl": {kind: 's', s: []string{"crit", "eror", "warn", "info", "dbug", "trce"}[int(r.Lvl)]}}
	switch what {
	case 0:
		r.Msg = textOf("msg", n)
	case 1:
		in, w := jsonValue(n)
		r.Ctx = []interface{}{"k", in, "last", "x"}
		want["k"], want["last"] = w, jval{kind: 's', s: "x"}
	case 2:
		k := "k" + textOf("key", n)
		r.Ctx = []interface{}{"first", 1, k, 2}
		want["first"], want[k] = jval{kind: 'n', s: "1"}, jval{kind: 'n', s: "2"}
	case 3: // a key that is no text
		r.Ctx = []interface{}{"first", 1, 7, 2}
		want["first"], want[""], want["LOG15_ERROR"] = jval{kind: 'n', s: "1"}, jval{kind: 'n', s: "2"}, jval{kind: 's', s: "7 is not a string key"}
	}
	want["msg"] = jval{kind: 's', s: r.Msg}
	pretty, line := false, true
	f := log.JSONFormat()
	if zz.Choice("ex", 0, 1) == 1 {
		pretty = zz.Choice("pretty", 0, 1) == 1
		if what == 3 || pretty {
			line = zz.Choice("line", 0, 1) == 1
		}
		f = log.JSONFormatEx(pretty, line)
	}
	checkJSON(string(f.Format(r)), want, pretty, line)
}

func checkJSON(out string, want map[string]jval, pretty, line bool) {
	rd := &jreader{s: out}
	got := rd.object()
	zz.Assert(!rd.bad, "a record is one JSON object")
	if rd.bad {
		return
	}
	if line {
		zz.Assert(zz.EqStr(rd.s, "\n"), "a line ends the record when asked for")
	} else {
		zz.Assert(rd.s == "", "no line ends the record unless asked for")
	}
	zz.Assert(pretty == (rd.sp > 0), "the object is on one line unless pretty")
	zz.Assert(len(got) == len(want), "the object has the record's pairs and no others")
	for k, w := range want {
		g, ok := got[k]
		zz.Assert(ok && g.kind == w.kind && len(g.l) == len(w.l), "the object has each of the record's keys, with the right type")
		if !ok || g.kind != w.kind || len(g.l) != len(w.l) {
			continue
		}
		zz.Assert(zz.EqStr(g.s, w.s), "the object has the record's values")
		for i := range w.l {
			t := g.l[i]
			if i%2 == 1 { // values are written as on a plain log line: quoted where needed
				v, n, ok := token(t)
				zz.Assert(ok && n == len(t), "a value of the list is one token")
				t = string(v)
			}
			zz.Assert(zz.EqStr(t, w.l[i]), "the list has the record's keys and values in order")
		}
	}
	zz.Reach("end")
}

// JSONOrdered: a record in the JSON form that keeps the order of its context.
func JSONOrdered() {
	n := zz.Param("n", 2)
	r := &log.Record{Time: time.Date(2022, 3, 4, 5, 6, 7, 0, time.UTC), Lvl: log.LvlInfo, Msg: "m", KeyNames: log.RecordKeyNames{Time: "t", Msg: "msg", Lvl: "lvl", Ctx: "ctx"}}
	want := map[string]jval{"t": {kind: 's', s: "2022-03-04T05:06:07Z"}, "lvl": {kind: 's', s: "info"}}
	ctx := jval{kind: 'l'}
	for i := zz.Choice("pairs", 0, 2); i > 0; i-- {
		switch zz.Choice("what", 0, 3) {
		case 0:
			k := textOf("key", 1)
			r.Ctx = append(r.Ctx, k, int64(1234567))
			ctx.l = append(ctx.l, k, "1,234,567")
		case 1:
			s := textOf("text", n)
			r.Ctx = append(r.Ctx, "k", s)
			ctx.l = append(ctx.l, "k", s)
		case 2:
			r.Ctx = append(r.Ctx, "e", errors.New("oops"))
			ctx.l = append(ctx.l, "e", "oops")
		case 3:
			r.Ctx = append(r.Ctx, 7, true)
			ctx.l = append(ctx.l, "", "true")
			want["LOG15_ERROR"] = jval{kind: 's', s: "7 is not a string key,"}
		}
	}
	want["ctx"] = ctx
	r.Msg = textOf("msg", n-1)
	want["msg"] = jval{kind: 's', s: r.Msg}
	pretty, line := zz.Choice("pretty", 0, 1) == 1, zz.Choice("line", 0, 1) == 1
	checkJSON(string(log.JSONFormatOrderedEx(pretty, line).Format(r)), want, pretty, line)
}
