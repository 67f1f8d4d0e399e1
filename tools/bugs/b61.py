id="sysclock-reset-fired"; prop="C44"; pkg="common/mclock"
needs="a timer is reset after it fired"
breaks="only a timer that was still running is started again"
edits=[("common/mclock/mclock.go","	st.Timer.Reset(d)","	if st.Timer.Stop() {\n		st.Timer.Reset(d)\n	}")]
demo='''package mclock
import ("testing";"time")
func TestZZDemo(t *testing.T) {
	tm := System{}.NewTimer(time.Millisecond)
	<-tm.C()
	tm.Reset(time.Millisecond)
	select {
	case <-tm.C():
	case <-time.After(5*time.Second): t.Fatal()
	}
}
'''
