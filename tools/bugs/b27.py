id="vmodule-error-half-applied"; prop="C40"; pkg="log"
needs="a rule set with a syntax error after a valid rule, while other rules are in force, and a call site not seen before"
breaks="a rejected rule set has already overwritten part of the rules in force"
edits=[("log/handler_glog.go","	var filter []pattern\n","	filter := h.patterns[:0]\n")]
demo='''package log
import "testing"
func TestZZDemo(t *testing.T) {
	n := 0
	g := NewGlogHandler(FuncHandler(func(r *Record) error { n++; return nil }))
	l := New()
	l.SetHandler(g)
	g.Verbosity(LvlCrit)
	if err := g.Vmodule("log/*=5"); err != nil { t.Fatal(err) }
	if err := g.Vmodule("nosuch=5,bad"); err == nil { t.Fatal("accepted") }
	l.Debug("m")
	if n != 1 { t.Fatal(n) }
}
'''
