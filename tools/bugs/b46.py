id="simclock-reset-earlier"; prop="C20"; pkg="common/mclock"
needs="a pending timer reset to an earlier time than another pending one"
breaks="moving a timer forward in time does not move it in the queue: it fires late"
edits=[("common/mclock/simclock.go","""	ev.at = ev.s.now.Add(d)
	if ev.index < 0 {
		heap.Push(&ev.s.scheduled, ev)// already expired
	} else {
		heap.Fix""","""	later := ev.s.now.Add(d) > ev.at
	ev.at = ev.s.now.Add(d)
	if ev.index < 0 {
		heap.Push(&ev.s.scheduled, ev)// already expired
	} else if later {
		heap.Fix""")]
demo='''package mclock
import "testing"
func TestZZDemo(t *testing.T) {
	var c Simulated
	n := 0
	c.AfterFunc(10, func() { n++ })
	x := c.NewTimer(20)
	x.Reset(5)
	c.Run(7)
	select { case <-x.C(): default: t.Fatal("not fired") }
}
'''
