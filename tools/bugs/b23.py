id="multi-stops-at-error"; prop="C38"; pkg="log"
needs="a handler that fails, listed before another one"
breaks="a failing handler hides the record from those listed after it"
edits=[("log/handler.go","""			h.Log(r)
		}
		return nil""","""			if err := h.Log(r); err != nil {
				return err
			}
		}
		return nil""")]
demo='''package log
import ("testing";"errors")
func TestZZDemo(t *testing.T) {
	n := 0
	MultiHandler(FuncHandler(func(*Record) error { return errors.New("x") }), FuncHandler(func(*Record) error { n++; return nil })).Log(&Record{})
	if n != 1 { t.Fatal(n) }
}
'''
