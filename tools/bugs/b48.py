id="simclock-reset-silent"; prop="C20"; pkg="common/mclock"
needs="WaitForTimers that is satisfied by an expired timer being reset"
breaks="re-arming an expired timer does not wake those who wait for it"
edits=[("common/mclock/simclock.go","""		heap.Fix(&ev.s.scheduled, ev.index)// hasn't fired yet, reschedule
	}
	ev.s.cond.Broadcast()""","""		heap.Fix(&ev.s.scheduled, ev.index)// hasn't fired yet, reschedule
		ev.s.cond.Broadcast()
	}""")]
demo='''package mclock
import ("testing";"time")
func TestZZDemo(t *testing.T) {
	var c Simulated
	x := c.NewTimer(1)
	c.Run(2)
	<-x.C()
	done := make(chan bool)
	go func() { c.WaitForTimers(1); close(done) }()
	time.Sleep(50*time.Millisecond)
	x.Reset(1)
	select { case <-done: case <-time.After(3*time.Second): t.Fatal("not woken") }
}
'''
