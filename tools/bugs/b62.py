id="sysclock-fire-unheard"; prop="C44"; pkg="common/mclock"
needs="a timer fires while nobody waits at its channel"
breaks="the firing is lost, later waiters wait forever"
edits=[("common/mclock/mclock.go","""	ch := make(chan AbsTime, 1)
	t := time""","""	ch := make(chan AbsTime)
	t := time""")]
demo='''package mclock
import ("testing";"time")
func TestZZDemo(t *testing.T) {
	tm := System{}.NewTimer(time.Millisecond)
	time.Sleep(100*time.Millisecond)
	select {
	case <-tm.C():
	case <-time.After(time.Second): t.Fatal()
	}
}
'''
