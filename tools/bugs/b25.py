id="child-copies-handler"; prop="C39"; pkg="log"
needs="the parent's handler is replaced after the child was made"
breaks="a child keeps the handler its parent had when it was made"
edits=[("log/logger.go","child.SetHandler(l.h)","child.SetHandler(l.h.Get())")]
demo='''package log
import "testing"
func TestZZDemo(t *testing.T) {
	p := New()
	p.SetHandler(DiscardHandler())
	c := p.New("k", 1)
	n := 0
	p.SetHandler(FuncHandler(func(r *Record) error { n++; return nil }))
	c.Info("m")
	if n != 1 { t.Fatal(n) }
}
'''
