id="vmodule-cache-kept"; prop="C40"; pkg="log"
needs="a second Vmodule call with as many rules as the one in force, after a call site was evaluated"
breaks="the cache of evaluated call sites survives a change of the rules"
edits=[("log/handler_glog.go","""	h.patterns = filter
	h.siteCache = make(map[uintptr]Lvl)
""","""	if len(filter) != len(h.patterns) || h.siteCache == nil {
		h.siteCache = make(map[uintptr]Lvl)
	}
	h.patterns = filter
""")]
demo='''package log
import "testing"
func TestZZDemo(t *testing.T) {
	n := 0
	g := NewGlogHandler(FuncHandler(func(r *Record) error { n++; return nil }))
	l := New()
	l.SetHandler(g)
	g.Verbosity(LvlCrit)
	for i, m := range []string{"log/*=5", "log/*=1"} {
		if err := g.Vmodule(m); err != nil { t.Fatal(err) }
		l.Debug("m")
		_ = i
	}
	if n != 1 { t.Fatal(n) }
}
'''
