package hlog

import (
	"time"

	log "flychain/log"
	zz "flychain/zzverif"

	"github.com/go-stack/stack"
)

// FormatConc: two goroutines format records of the same keys at the same time.
func FormatConc() {
	f := log.LogfmtFormat()
	if zz.Choice("form", 0, 1) == 1 {
		f = log.TerminalFormat(false)
	}
	if zz.Choice("origins", 0, 1) == 1 {
		log.PrintOrigins(true)
		defer log.PrintOrigins(false)
	}
	vals := []string{"short", "a longer value"}
	var mu zz.Atomic
	out := make([]string, 2)
	done := 0
	mk := func(i int) *log.Record {
		return &log.Record{Time: time.Unix(0, 0).UTC(), Lvl: log.LvlInfo, Msg: "m", Ctx: []interface{}{"padded", vals[i], "last", i}, KeyNames: log.RecordKeyNames{Time: "t", Msg: "msg", Lvl: "lvl"}, Call: stack.Caller(0)}
	}
	for i := 0; i < 2; i++ {
		i := i
		go func() {
			s := string(f.Format(mk(i)))
			mu.Lock()
			out[i] = s
			done++
			mu.Unlock()
		}()
	}
	zz.Quiesce()
	zz.Assert(done == 2, "formatting does not block")
	w := 0
	for i := 0; i < 2; i++ {
		s := out[i]
		zz.Assert(len(s) > 0 && s[len(s)-1] == '\n', "a record is one line")
		v := vals[i]
		if i == 1 {
			v = "\"" + v + "\""
		}
		tail := "padded=" + v
		k := -1
		for j := 0; j+len(tail) <= len(s); j++ {
			if s[j:j+len(tail)] == tail {
				k = j + len(tail)
				break
			}
		}
		zz.Assert(k >= 0, "every pair is written")
		if k < 0 {
			continue
		}
		n := 0
		for k < len(s) && s[k] == ' ' {
			k++
			n++
		}
		if len(v)+n-1 > w {
			w = len(v) + n - 1
		}
		want := "last=" + string(rune('0'+i)) + "\n"
		zz.Assert(s[k:] == want && n >= 1, "every pair is written")
	}
	zz.Assert(w <= 40, "padding never exceeds 40 columns")
	zz.Reach("end")
}

// GlogConc: records at one place, logged while the settings change.
func GlogConc() {
	var mu zz.Atomic
	passed := map[int]int{}
	g := log.NewGlogHandler(log.FuncHandler(func(r *log.Record) error {
		mu.Lock()
		passed[len(r.Ctx)]++
		mu.Unlock()
		return nil
	}))
	rules := []string{"", "hlog=5", "other.go=5", "hlog=2"}
	lvs := []log.Lvl{0, 5, 0, 2}
	first := zz.Choice("first", 0, 2)
	zz.Assert(g.Vmodule(rules[first]) == nil, "a list of rules is accepted")
	call := siteRec(1).Call
	rec := func(id int) *log.Record {
		return &log.Record{Lvl: log.LvlDebug, Msg: "m", Call: call, Ctx: make([]interface{}, id)}
	}
	n := zz.Param("loggers", 2)
	if zz.Choice("warm", 0, 1) == 1 {
		g.Log(rec(0))
		zz.Assert((passed[0] == 1) == (lvs[first] >= log.LvlDebug), "the rule decides")
	}
	done := 0
	for i := 1; i <= n; i++ {
		i := i
		go func() {
			g.Log(rec(i))
			mu.Lock()
			done++
			mu.Unlock()
		}()
	}
	now := lvs[first]
	verb := log.Lvl(0)
	act := zz.Choice("act", 0, 4)
	if act == 4 {
		zz.Assert(g.BacktraceAt("elsewhere.go:1") == nil, "a trace position is accepted")
	}
	second := 0
	if act == 1 {
		second = zz.Choice("second", 0, len(rules)-1)
		now = lvs[second]
	} else if act == 2 {
		verb = log.LvlTrace
	}
	go func() {
		switch act {
		case 1:
			g.Vmodule(rules[second])
		case 2:
			g.Verbosity(verb)
		case 3, 4:
			g.BacktraceAt("nowhere.go:1")
		}
		mu.Lock()
		done++
		mu.Unlock()
	}()
	zz.Quiesce()
	zz.Assert(done == n+1, "no operation blocks")
	can := lvs[first] >= log.LvlDebug || now >= log.LvlDebug || verb >= log.LvlDebug
	must := lvs[first] >= log.LvlDebug && (now >= log.LvlDebug || verb >= log.LvlDebug)
	for i := 1; i <= n; i++ {
		zz.Assert(passed[i] <= 1, "a record passes once at most")
		zz.Assert(passed[i] == 0 || can, "a record does not pass when neither the old nor the new settings cover it")
		zz.Assert(passed[i] == 1 || !must, "a record passes when the old and the new settings cover it")
	}
	g.Log(rec(n + 1))
	zz.Assert((passed[n+1] == 1) == (now >= log.LvlDebug || verb >= log.LvlDebug), "a change takes effect for the next record, also at places that logged before")
	zz.Reach("end")
}

// TreeConc: deriving, logging and replacing handlers at the same time.
func TreeConc() {
	var mu zz.Atomic
	type ev struct {
		h, lvl int
		msg    string
		ctx    []interface{}
	}
	var evs []ev
	mk := func(i int) log.Handler {
		return log.FuncHandler(func(r *log.Record) error {
			mu.Lock()
			evs = append(evs, ev{i, int(r.Lvl), r.Msg, append([]interface{}(nil), r.Ctx...)})
			mu.Unlock()
			return nil
		})
	}
	var parent log.Logger
	if zz.Choice("odd", 0, 1) == 1 {
		parent = log.New("a", 1, "b")
	} else {
		parent = log.New("a", 1)
	}
	parent.SetHandler(mk(0))
	np := 2
	base := parentCtx(parent, &evs, func(e ev) []interface{} { return e.ctx })
	evs = nil
	done := 0
	n := zz.Param("loggers", 2)
	for i := 0; i < n; i++ {
		i := i
		derive := zz.Choice("derive", 0, 1) == 1
		go func() {
			if derive {
				l := parent.New("who", i)
				l.Info("derived", "x", i)
			} else {
				parent.Warn("direct", "x", i)
			}
			mu.Lock()
			done++
			mu.Unlock()
		}()
		_ = derive
	}
	swap := zz.Choice("swap", 0, 1) == 1
	if swap {
		go func() {
			parent.SetHandler(mk(1))
			mu.Lock()
			done++
			mu.Unlock()
		}()
		n++
	}
	zz.Quiesce()
	zz.Assert(done == n, "no operation blocks")
	if swap {
		n--
	}
	zz.Assert(len(evs) == n, "every record is handled once")
	seen := map[int]bool{}
	for _, e := range evs {
		zz.Assert(e.h == 0 || swap, "a record goes to the handler that is set")
		k := len(base)
		ok := len(e.ctx) >= k+np
		for j := 0; ok && j < k; j++ {
			ok = e.ctx[j] == base[j]
		}
		zz.Assert(ok, "a record carries the contexts of the ancestors")
		if !ok {
			continue
		}
		rest := e.ctx[k:]
		if e.msg == "derived" {
			zz.Assert(len(rest) == 4 && rest[0] == "who" && rest[2] == "x" && rest[1] == rest[3] && e.lvl == int(log.LvlInfo), "loggers derived from one parent do not affect each other")
		} else {
			zz.Assert(len(rest) == 2 && rest[0] == "x" && e.lvl == int(log.LvlWarn), "a record carries its own context")
		}
		if len(rest) >= 2 {
			id, _ := rest[len(rest)-1].(int)
			zz.Assert(!seen[id], "every record is handled once")
			seen[id] = true
		}
	}
	zz.Reach("end")
}

func parentCtx[E any](l log.Logger, evs *[]E, ctx func(E) []interface{}) []interface{} {
	l.Info("probe")
	zz.Assert(len(*evs) == 1, "every record is handled once")
	return ctx((*evs)[0])
}
