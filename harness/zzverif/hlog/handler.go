package hlog

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"strconv"
	"strings"
	"time"

	"flychain/log"
	zz "flychain/zzverif"

	"github.com/go-stack/stack"
)

// LvlFilter: a record passes exactly when its level is at most the maximum.
func LvlFilter() {
	l, max := zz.Int("lvl"), zz.Int("max")
	n := 0
	r := &log.Record{Lvl: log.Lvl(l), Msg: "m"}
	fail := errors.New("sink")
	var ret error
	if zz.Choice("fails", 0, 1) == 1 {
		ret = fail
	}
	h := log.LvlFilterHandler(log.Lvl(max), log.FuncHandler(func(x *log.Record) error {
		n++
		zz.Assert(x == r, "the record is passed on unchanged")
		return ret
	}))
	err := h.Log(r)
	if l <= max {
		zz.Assert(n == 1 && err == ret, "a record of at most the maximum level is passed on")
	} else {
		zz.Assert(n == 0 && err == nil, "a record above the maximum level is dropped")
	}
	zz.Reach("end")
}

// Match: filtering by a key of the record.
func Match() {
	n := zz.Param("n", 1)
	keys := []interface{}{"a", "b", "a", 7}
	k := zz.Choice("pairs", 0, zz.Param("pairs", 3))
	var ctx []interface{}
	vals := make([]int, k)
	which := make([]int, k)
	for i := 0; i < k; i++ {
		which[i] = zz.Choice("key", 0, 3)
		vals[i] = zz.Int("val")
		ctx = append(ctx, keys[which[i]], vals[i])
	}
	msg := zz.Str("msg", n)
	r := &log.Record{Lvl: lvls[zz.Choice("lvl", 0, 5)], Msg: msg, Ctx: ctx, KeyNames: log.RecordKeyNames{Time: "t", Msg: "msg", Lvl: "lvl", Ctx: "ctx"}}
	hits := 0
	count := log.FuncHandler(func(*log.Record) error { hits++; return nil })
	switch zz.Choice("by", 0, 5) {
	case 4:
		at, w := zz.IntIn("at", 0, 1<<40), zz.IntIn("want at", 0, 1<<40)
		r.Time = time.Unix(int64(at), 0)
		log.MatchFilterHandler("t", time.Unix(int64(w), 0), count).Log(r)
		zz.Assert((hits == 1) == (w == at) && hits <= 1, "a record passes exactly when its time matches")
	case 5:
		log.MatchFilterHandler("lvl", int(r.Lvl), count).Log(r)
		zz.Assert(hits == 0, "a number is not a level")
	case 0:
		w := zz.Int("want")
		log.MatchFilterHandler("a", w, count).Log(r)
		want := false
		for i := range vals {
			if which[i] == 0 || which[i] == 2 {
				want = vals[i] == w
				break
			}
		}
		zz.Assert((hits == 1) == want && hits <= 1, "a record passes exactly when the first value of the key matches")
	case 1:
		w := zz.Str("wants", n)
		log.MatchFilterHandler("msg", w, count).Log(r)
		zz.Assert((hits == 1) == (w == msg) && hits <= 1, "a record passes exactly when its message matches")
	case 2:
		w := lvls[zz.Choice("wlvl", 0, 5)]
		log.MatchFilterHandler("lvl", w, count).Log(r)
		zz.Assert((hits == 1) == (w == r.Lvl) && hits <= 1, "a record passes exactly when its level matches")
	case 3:
		log.MatchFilterHandler("zzz", 1, count).Log(r)
		zz.Assert(hits == 0, "a record without the key does not pass")
	}
	zz.Reach("end")
}

type sinkH struct {
	err  error
	recs int
	ctx  []interface{}
}

func (s *sinkH) Log(r *log.Record) error {
	s.recs++
	s.ctx = append([]interface{}(nil), r.Ctx...)
	return s.err
}

// Many: dispatch to several handlers, any of which may fail.
func Many() {
	n := zz.Choice("n", 0, zz.Param("n", 3))
	hs := make([]log.Handler, n)
	ss := make([]*sinkH, n)
	for i := range hs {
		ss[i] = &sinkH{}
		if zz.Choice("fails", 0, 1) == 1 {
			ss[i].err = errors.New("sink " + fmt.Sprint(i))
		}
		hs[i] = ss[i]
	}
	r := &log.Record{Msg: "m", Ctx: []interface{}{"k", 1}}
	if zz.Choice("kind", 0, 1) == 0 {
		zz.Assert(log.MultiHandler(hs...).Log(r) == nil, "writing to several handlers does not fail")
		for _, s := range ss {
			zz.Assert(s.recs == 1, "each of several handlers gets the record once")
			zz.Assert(len(s.ctx) == 2, "each of several handlers gets the record as it is")
		}
		zz.Reach("multi")
		return
	}
	err := log.FailoverHandler(hs...).Log(r)
	done := false
	var last error
	fails := 0
	for _, s := range ss {
		if done {
			zz.Assert(s.recs == 0, "no handler after the one that succeeded gets the record")
			continue
		}
		zz.Assert(s.recs == 1, "handlers are tried in order, once each")
		zz.Assert(len(s.ctx) == 2+2*fails && s.ctx[0] == "k" && s.ctx[1] == 1, "the context keeps the record's pairs")
		if len(s.ctx) == 2+2*fails {
			for j := 0; j < fails; j++ {
				zz.Assert(s.ctx[2+2*j] == "failover_err_"+fmt.Sprint(j) && s.ctx[3+2*j] == ss[j].err, "the context tells why the handlers before failed")
			}
		}
		if s.err == nil {
			done = true
		} else {
			fails++
			last = s.err
		}
	}
	if done {
		zz.Assert(err == nil, "the write succeeds when one handler does")
	} else {
		zz.Assert(err == last, "the write fails with the last error when all handlers do")
	}
	zz.Reach("failover")
}

// LazyVals: deferred values are computed when the record is written.
func LazyVals() {
	v := zz.Int("v")
	calls := 0
	n := zz.Choice("pairs", 1, zz.Param("pairs", 2))
	var ctx []interface{}
	kinds := make([]int, n)
	bad := false
	for i := range kinds {
		kinds[i] = zz.Choice("kind", 0, 6)
		var x interface{}
		switch kinds[i] {
		case 0:
			x = v
		case 1:
			x = log.Lazy{Fn: func() int { calls++; return v }}
		case 2:
			x = log.Lazy{Fn: func() (int, string) { calls++; return v, "s" }}
		case 3:
			x = log.Lazy{Fn: 5}
		case 4:
			x = log.Lazy{Fn: func(int) int { calls++; return 1 }}
		case 5:
			x = log.Lazy{Fn: func() { calls++ }}
		case 6:
			x = log.Lazy{Fn: func() error { calls++; return nil }}
		}
		ctx = append(ctx, "k", x)
		bad = bad || kinds[i] >= 3 && kinds[i] <= 5
	}
	s := &sinkH{}
	pass := zz.Choice("dropped", 0, 1) == 0
	h := log.FilterHandler(func(*log.Record) bool { return pass }, log.LazyHandler(s))
	h.Log(&log.Record{Msg: "m", Ctx: ctx})
	if !pass {
		zz.Assert(calls == 0 && s.recs == 0, "a dropped record computes nothing")
		return
	}
	want := 0
	for _, k := range kinds {
		if k == 1 || k == 2 || k == 6 {
			want++
		}
	}
	zz.Assert(calls == want, "each deferred value is computed once")
	wl := 2 * n
	if bad {
		wl += 2
	}
	zz.Assert(s.recs == 1 && len(s.ctx) == wl, "the record is written once with its pairs")
	if len(s.ctx) != wl {
		return
	}
	for i, k := range kinds {
		x := s.ctx[2*i+1]
		zz.Assert(s.ctx[2*i] == "k", "keys stay")
		switch k {
		case 0, 1:
			zz.Assert(x == v, "a deferred value is replaced by its result")
		case 2:
			l, ok := x.([]interface{})
			zz.Assert(ok && len(l) == 2 && l[0] == v && l[1] == "s", "several results become a list")
		case 6:
			zz.Assert(x == nil, "a deferred value is replaced by its result")
		default:
			_, ok := x.(error)
			zz.Assert(ok, "an unusable deferred value is replaced by an error")
		}
	}
	if bad {
		zz.Assert(s.ctx[wl-2] == "LOG15_ERROR", "an unusable deferred value is flagged")
	}
	zz.Reach("end")
}

// writer records what is written to it, in pieces.
type writer struct {
	mu   zz.Atomic
	in   int
	out  []string
	fail error
}

func (w *writer) Write(b []byte) (int, error) {
	w.mu.Lock()
	w.in++
	zz.Assert(w.in == 1, "writes do not overlap")
	w.mu.Unlock()
	zz.Yield()
	w.mu.Lock()
	w.out = append(w.out, string(b))
	w.in--
	w.mu.Unlock()
	return len(b), w.fail
}

// Stream: concurrent records to one stream.
func Stream() {
	n := zz.Param("threads", 2)
	w := &writer{}
	h := log.StreamHandler(w, log.FormatFunc(func(r *log.Record) []byte { return []byte(r.Msg) }))
	if zz.Choice("fails", 0, 1) == 1 {
		w.fail = errors.New("disk full")
	}
	msgs := []string{"one", "two", "three"}
	var mu zz.Atomic
	done := 0
	for i := 0; i < n; i++ {
		i := i
		go func() {
			err := h.Log(&log.Record{Msg: msgs[i]})
			zz.Assert(err == w.fail, "the stream's error is reported")
			mu.Lock()
			done++
			mu.Unlock()
		}()
	}
	zz.Quiesce()
	zz.Assert(done == n && len(w.out) == n, "every record is written")
	for i := 0; i < n; i++ {
		c := 0
		for _, s := range w.out {
			if s == msgs[i] {
				c++
			}
		}
		zz.Assert(c == 1, "every record is written once, in one piece")
	}
	zz.Reach("end")
}

// Buffered: records written in the background.
func Buffered() {
	size := zz.Choice("size", 0, zz.Param("size", 2))
	n := zz.Param("recs", 2)
	var mu zz.Atomic
	var got []*log.Record
	hold := make(chan struct{}, n)
	held := zz.Choice("held", 0, 1) == 1
	h := log.BufferedHandler(size, log.FuncHandler(func(r *log.Record) error {
		if held {
			<-hold
		}
		mu.Lock()
		got = append(got, r)
		mu.Unlock()
		return errors.New("ignored")
	}))
	recs := make([]*log.Record, n)
	logged := 0
	go func() {
		for i := range recs {
			recs[i] = &log.Record{Msg: "m"}
			zz.Assert(h.Log(recs[i]) == nil, "a buffered write does not fail")
			mu.Lock()
			logged++
			mu.Unlock()
		}
	}()
	zz.Quiesce()
	if held {
		want := size + 1 // one in the handler, the others buffered
		if want > n {
			want = n
		}
		zz.Assert(logged == want && len(got) == 0, "as many records as the buffer holds are accepted without waiting")
		for i := 0; i < n; i++ {
			hold <- struct{}{}
		}
		zz.Quiesce()
	}
	zz.Assert(logged == n && len(got) == n, "all records are written")
	for i := range got {
		zz.Assert(got[i] == recs[i], "records are written in order")
	}
	zz.Reach("end")
}

// Tree: contexts and handlers of derived loggers.
func Tree() {
	type node struct {
		l      log.Logger
		ctx    []interface{}
		own    int // index of its own handler, -1: that of its parent
		parent int
	}
	var last, lastH = (*log.Record)(nil), -1
	mk := func(i int) log.Handler {
		return log.FuncHandler(func(r *log.Record) error { last, lastH = r, i; return nil })
	}
	n := zz.Param("ops", 4)
	v := zz.Int("v")
	args := func(i int) (in, out []interface{}) {
		switch zz.Choice("args", 0, 3) {
		case 0:
			return nil, nil
		case 1:
			return []interface{}{"k", v}, []interface{}{"k", v}
		case 2:
			return []interface{}{log.Ctx{"x": v}}, []interface{}{"x", v}
		}
		in = append(make([]interface{}, 0, 8), "odd")
		return in, []interface{}{"odd", nil, "LOG15_ERROR", "Normalized odd number of arguments by adding nil"}
	}
	root := log.New()
	root.SetHandler(mk(100))
	nodes := []node{{root, nil, 100, -1}}
	for k := 0; k < n; k++ {
		at := zz.Choice("at", 0, len(nodes)-1)
		switch zz.Choice("op", 0, 2) {
		case 0:
			in, out := args(k)
			c := nodes[at].l.New(in...)
			if len(in) == 2 {
				in[1] = "changed later"
			}
			nodes = append(nodes, node{c, append(append([]interface{}(nil), nodes[at].ctx...), out...), -1, at})
		case 1:
			nodes[at].l.SetHandler(mk(k))
			nodes[at].own = k
		case 2:
			in, out := args(k)
			m := zz.Choice("method", 0, 4)
			last = nil
			l := nodes[at].l
			want := []log.Lvl{log.LvlTrace, log.LvlDebug, log.LvlInfo, log.LvlWarn, log.LvlError}[m]
			switch m {
			case 0:
				l.Trace("msg", in...)
			case 1:
				l.Debug("msg", in...)
			case 2:
				l.Info("msg", in...)
			case 3:
				l.Warn("msg", in...)
			case 4:
				l.Error("msg", in...)
			}
			h := at
			for nodes[h].own < 0 {
				h = nodes[h].parent
			}
			zz.Assert(last != nil && lastH == nodes[h].own, "a record goes to the nearest handler that was set")
			if last == nil {
				continue
			}
			zz.Assert(last.Msg == "msg" && last.Lvl == want, "a record has its message and level")
			zz.Assert(last.KeyNames == log.RecordKeyNames{Time: "t", Msg: "msg", Lvl: "lvl", Ctx: "ctx"}, "a record has the standard key names")
			exp := append(append([]interface{}(nil), nodes[at].ctx...), out...)
			zz.Assert(len(last.Ctx) == len(exp), "a record has the logger's context and its own")
			if len(last.Ctx) == len(exp) {
				for i := range exp {
					zz.Assert(last.Ctx[i] == exp[i], "a record has the logger's context and its own, in order")
				}
			}
			last.Ctx = append(last.Ctx[:0], "scribble", 1, "over", 2)
		}
	}
	zz.Reach("end")
}

// Fresh: logging before any handler was set.
func Fresh() {
	l := log.New("k", zz.Int("v"))
	if zz.Choice("root", 0, 1) == 1 {
		l = log.Root()
	}
	switch zz.Choice("how", 0, 6) {
	case 0:
		l.Trace("m")
	case 1:
		l.Debug("m")
	case 2:
		l.Info("m", "a")
	case 3:
		l.Warn("m")
	case 4:
		l.Error("m", "a", 1)
	case 5:
		log.Error("m")
	case 6:
		log.Output("m", log.LvlCrit, 0)
	}
	zz.Assert(log.Root().GetHandler().Log(&log.Record{Msg: "m"}) == nil, "records are dropped until a handler is set")
	zz.Reach("end")
}

func helper(msg string) string {
	log.Output(msg, log.LvlInfo, 1)
	return ""
}

// Site: every way to log reports its caller's position.
func Site() {
	var got *log.Record
	old := log.Root().GetHandler()
	log.Root().SetHandler(log.FuncHandler(func(r *log.Record) error { got = r; return nil }))
	l := log.New("k", 1).New("l", 2)
	var c stack.Call
	var want log.Lvl
	switch zz.Choice("how", 0, 11) {
	case 0:
		c, want = stack.Caller(0), log.LvlTrace; l.Trace("m")
	case 1:
		c, want = stack.Caller(0), log.LvlDebug; l.Debug("m")
	case 2:
		c, want = stack.Caller(0), log.LvlInfo; l.Info("m")
	case 3:
		c, want = stack.Caller(0), log.LvlWarn; l.Warn("m")
	case 4:
		c, want = stack.Caller(0), log.LvlError; l.Error("m")
	case 5:
		c, want = stack.Caller(0), log.LvlTrace; log.Trace("m")
	case 6:
		c, want = stack.Caller(0), log.LvlDebug; log.Debug("m")
	case 7:
		c, want = stack.Caller(0), log.LvlInfo; log.Info("m")
	case 8:
		c, want = stack.Caller(0), log.LvlWarn; log.Warn("m")
	case 9:
		c, want = stack.Caller(0), log.LvlError; log.Error("m")
	case 10:
		c, want = stack.Caller(0), log.LvlCrit; log.Output("m", log.LvlCrit, 0)
	case 11:
		c, want = stack.Caller(0), log.LvlInfo; helper("m")
	}
	log.Root().SetHandler(old)
	zz.Assert(got != nil, "a record is written")
	if got == nil {
		return
	}
	at := fmt.Sprintf("%+v", c)
	zz.Assert(got.Lvl == want, "a record has its level")
	zz.Assert(fmt.Sprintf("%+v", got.Call) == at, "a record tells where it was logged")
	s := &sinkH{}
	switch zz.Choice("show", 0, 3) {
	case 0:
		log.CallerFileHandler(s).Log(&log.Record{Ctx: []interface{}{"a", 1}, Call: got.Call})
		zz.Assert(len(s.ctx) == 4 && s.ctx[2] == "caller" && s.ctx[3] == fmt.Sprint(c), "the caller's file and line can be added")
	case 1:
		log.CallerFuncHandler(s).Log(&log.Record{Ctx: []interface{}{"a", 1}, Call: got.Call})
		zz.Assert(len(s.ctx) == 4 && s.ctx[2] == "fn" && s.ctx[3] == fmt.Sprintf("%+n", c), "the caller's function can be added")
	case 2, 3:
		color := zz.Choice("color", 0, 1) == 1
		log.PrintOrigins(true)
		b := log.TerminalFormat(color).Format(got)
		log.PrintOrigins(false)
		zz.Assert(bytes.Contains(b, []byte("|"+strings.TrimPrefix(at, "github.com/ethereum/go-ethereum/")+"]")), "a terminal line can tell where the record was logged")
		b = log.TerminalFormat(color).Format(got)
		zz.Assert(!bytes.Contains(b, []byte(at)), "and does not otherwise")
	}
	zz.Reach("end")
}

// ---- glog ----

func siteA(h log.Handler) *log.Record { return siteRec(1) }

func siteRec(k int) *log.Record { return &log.Record{Msg: "m", Call: stack.Caller(k)} }

// Verbosity: without overrides the level decides.
func Verbosity() {
	s := &sinkH{}
	g := log.NewGlogHandler(s)
	l := zz.IntIn("lvl", 0, 5)
	if zz.Choice("set", 0, 1) == 1 {
		v := zz.IntIn("verbosity", 0, math.MaxInt32)
		g.Verbosity(log.Lvl(v))
		g.Log(&log.Record{Lvl: log.Lvl(l)})
		zz.Assert((s.recs == 1) == (l <= v), "a record passes exactly when the verbosity covers its level")
		w := zz.IntIn("verbosity", 0, math.MaxInt32)
		g.Verbosity(log.Lvl(w))
		s.recs = 0
		g.Log(&log.Record{Lvl: log.Lvl(l)})
		zz.Assert((s.recs == 1) == (l <= w), "a record passes exactly when the verbosity covers its level")
	} else {
		g.Log(&log.Record{Lvl: log.Lvl(l)})
		zz.Assert((s.recs == 1) == (l == 0), "at first only critical records pass")
	}
	zz.Reach("end")
}

// rules of a module pattern, their meaning for this file
var rules = []struct {
	pat  string
	here bool
}{
	{"handler.go", true}, {"hlog", true}, {"hlog/*", true}, {"zzverif/*", true}, {"zzverif/hlog", true}, {"zzverif/hlog/handler.go", true},
	{"other.go", false}, {"andler.go", false}, {"log", false}, {"zzverif", false}, {"hlog/*/x", false}, {"handler", false}, {"handlerxgo", false}, {"*/hlog", true},
}

// Module: overrides by file and package.
func Module() {
	s := &sinkH{}
	g := log.NewGlogHandler(s)
	v := zz.IntIn("verbosity", 0, 5)
	g.Verbosity(log.Lvl(v))
	r := siteA(g)
	for round := 0; round < zz.Param("rounds", 2); round++ {
		k := zz.Choice("rules", 0, zz.Param("rules", 2))
		text, over, set := "", 0, false
		pad := ""
		if round == 1 && zz.Choice("pad", 0, 1) == 1 {
			pad = " "
		}
		for i := 0; i < k; i++ {
			ru := rules[zz.Choice("rule", 0, zz.Param("pats", len(rules))-1)]
			lv := zz.IntIn("level", 0, 5)
			if i > 0 {
				text += ","
			}
			text += pad + ru.pat + pad + "=" + pad + string(rune('0'+lv)) + pad
			if ru.here && !set && lv > 0 {
				over, set = lv, true // the first rule that matches counts
			}
		}
		zz.Assert(g.Vmodule(text) == nil, "a list of rules is accepted")
		for i := 0; i < 2; i++ {
			l := zz.IntIn("lvl", 0, 5)
			s.recs = 0
			r.Lvl = log.Lvl(l)
			g.Log(r)
			zz.Assert((s.recs == 1) == (l <= v || set && l <= over), "a record passes when the verbosity or the rule for its file covers its level")
		}
	}
	zz.Reach("end")
}

// RuleText: which rule lists are accepted.
func RuleText() {
	s := textOf("rules", zz.Param("n", 3))
	b, n := []byte(s), len(s)
	ok := true
	start := 0
	for i := 0; i <= n; i++ {
		if i < n && b[i] != ',' {
			continue
		}
		rule := b[start:i]
		start = i + 1
		if len(rule) == 0 {
			continue
		}
		eq := -1
		for j, c := range rule {
			if c == '=' {
				if eq >= 0 {
					ok = false
				}
				eq = j
			}
		}
		if eq < 0 || !ok {
			ok = false
			continue
		}
		l, r := bytes.TrimSpace(rule[:eq]), bytes.TrimSpace(rule[eq+1:])
		if len(l) == 0 {
			ok = false
		}
		if _, err := strconv.Atoi(string(r)); err != nil {
			ok = false
		}
	}
	g := log.NewGlogHandler(&sinkH{})
	zz.Assert((g.Vmodule(s) == nil) == ok, "a rule list is accepted exactly when every rule is pattern=number")
	zz.Reach("end")
}

// Trace: records at a given position pass and carry a stack dump.
func Backtrace() {
	s := &sinkH{}
	var msg string
	var lvl log.Lvl
	g := log.NewGlogHandler(log.FuncHandler(func(r *log.Record) error { msg, lvl = r.Msg, r.Lvl; return s.Log(r) }))
	v := zz.IntIn("verbosity", 0, 5)
	g.Verbosity(log.Lvl(v))
	r := siteA(g)
	at := fmt.Sprint(r.Call)
	switch zz.Choice("at", 0, 5) {
	case 0:
		zz.Assert(g.BacktraceAt(at) == nil, "a position is accepted")
		l := zz.IntIn("lvl", 0, 5)
		r.Lvl = log.Lvl(l)
		g.Log(r)
		zz.Assert((s.recs == 1) == (v >= 3), "a record at the position is raised to info")
		if s.recs == 1 {
			zz.Assert(lvl == log.LvlInfo && strings.HasPrefix(msg, "m\n\n"), "a record at the position has a stack dump")
		}
	case 1:
		zz.Assert(g.BacktraceAt("other.go:1") == nil, "a position is accepted")
		l := zz.IntIn("lvl", 0, 5)
		r.Lvl = log.Lvl(l)
		g.Log(r)
		zz.Assert((s.recs == 1) == (v >= l), "other records are filtered as before")
		zz.Assert(s.recs == 0 || msg == "m" && int(lvl) == l, "other records are unchanged")
	case 2:
		zz.Assert(g.BacktraceAt("file.go") != nil, "a position needs a line")
	case 3:
		zz.Assert(g.BacktraceAt("file:12") != nil, "a position needs a Go file")
	case 4:
		zz.Assert(g.BacktraceAt("file.go:x") != nil, "a position needs a line number")
	case 5:
		zz.Assert(g.BacktraceAt("a.go:1:2") != nil, "a position is a file and a line")
	}
	zz.Reach("end")
}

// CtxMap: a map as the context of a logger or of a message.
func CtxMap() {
	var got *log.Record
	h := log.FuncHandler(func(r *log.Record) error { got = r; return nil })
	n := zz.Choice("n", 0, zz.Param("n", 3))
	m := log.Ctx{}
	keys := []string{"a", "b", "c", "d"}[:n]
	vals := make([]interface{}, n)
	for i, k := range keys {
		switch zz.Choice("kind", 0, 3) {
		case 0:
			vals[i] = zz.Int("v")
		case 1: // nil
		case 2:
			vals[i] = zz.Str("s", 1)
		case 3:
			vals[i] = zz.Bool("b")
		}
		m[k] = vals[i]
	}
	var base []interface{}
	l := log.New()
	if zz.Choice("pre", 0, 1) == 1 {
		base = []interface{}{"p", 1}
		l = log.New("p", 1)
	}
	l.SetHandler(h)
	var tail []interface{}
	switch zz.Choice("use", 0, 2) {
	case 0:
		l.Info("m", m)
	case 1:
		l.New(m).Info("m")
	case 2:
		tail = []interface{}{"t", 2}
		l.New(m).Info("m", "t", 2)
	}
	zz.Assert(got != nil && len(got.Ctx) == len(base)+2*n+len(tail), "a record has every pair of the map")
	if got == nil || len(got.Ctx) != len(base)+2*n+len(tail) {
		return
	}
	c := got.Ctx
	for i := range base {
		zz.Assert(c[i] == base[i], "the context of the logger comes first")
	}
	for i := range tail {
		zz.Assert(c[len(base)+2*n+i] == tail[i], "the context of the message comes last")
	}
	for i, k := range keys {
		found := 0
		for j := 0; j < n; j++ {
			if c[len(base)+2*j] == interface{}(k) {
				found++
				zz.Assert(c[len(base)+2*j+1] == vals[i], "a key of the map keeps its value")
			}
		}
		zz.Assert(found == 1, "a record has every key of the map once")
	}
	zz.Reach("end")
}

// Crit: a critical record is handled before the process ends.
func Crit() {
	v := zz.Int("v")
	h := log.FuncHandler(func(r *log.Record) error {
		ok := r.Lvl == log.LvlCrit && r.Msg == "m" && len(r.Ctx) == 2 && r.Ctx[0] == interface{}("k") && r.Ctx[1] == interface{}(v)
		zz.Assert(ok, "a critical record has its level, message and context")
		if ok {
			zz.Reach("end")
			zz.ExpectExit(1)
		}
		return nil
	})
	if zz.Choice("root", 0, 1) == 1 {
		log.Root().SetHandler(h)
		log.Crit("m", "k", v)
	} else {
		l := log.New("k", v)
		l.SetHandler(h)
		l.Crit("m")
	}
	zz.Assert(false, "a critical message ends the process")
}
