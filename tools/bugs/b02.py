id="simclock-reset-stale-time"; prop="C20"; pkg="common/mclock"
needs="a channel timer that is reset before it fires"
breaks="the due time delivered on the channel is fixed when the timer is created, so after a Reset the stale time is delivered"
edits=[("common/mclock/simclock.go","	var timer *simTimer\n	timer = s.schedule(d, func() { ch <- timer.at })","	at := s.now.Add(d)\n	timer := s.schedule(d, func() { ch <- at })")]
demo='''package mclock
import "testing"
func TestZZDemo(t *testing.T) {
	c := new(Simulated)
	tm := c.NewTimer(10)
	tm.Reset(30)
	c.Run(40)
	if got := <-tm.C(); got != 30 { t.Fatal(got) }
}
'''
