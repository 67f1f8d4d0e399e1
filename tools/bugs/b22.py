id="buffered-drops-when-full"; prop="C38"; pkg="log"
needs="more records than the buffer holds before the slow handler takes one"
breaks="a record that does not fit the buffer is dropped silently"
edits=[("log/handler.go","""	return FuncHandler(func(r *Record) error {
		recs <- r
		return nil
	})
}""","""	return FuncHandler(func(r *Record) error {
		select {
		case recs <- r:
		default:
		}
		return nil
	})
}""")]
demo='''package log
import ("testing";"time")
func TestZZDemo(t *testing.T) {
	got := make(chan *Record, 10)
	h := BufferedHandler(1, FuncHandler(func(r *Record) error { time.Sleep(20*time.Millisecond); got <- r; return nil }))
	for i := 0; i < 6; i++ { h.Log(&Record{}) }
	for i := 0; i < 6; i++ { select { case <-got: case <-time.After(3*time.Second): t.Fatal("lost") } }
}
'''
