id="simclock-wait-once"; prop="C20"; pkg="common/mclock"
needs="WaitForTimers for several timers that are added one by one while it waits"
breaks="the waiter is satisfied by the first change of the timer set"
edits=[("common/mclock/simclock.go","""	for len(s.scheduled) < n {
		s.cond.Wait()""","""	if len(s.scheduled) < n {
		s.cond.Wait()""")]
demo='''package mclock
import ("testing";"time")
func TestZZDemo(t *testing.T) {
	var c Simulated
	done := make(chan bool)
	go func() { c.WaitForTimers(2); close(done) }()
	time.Sleep(50*time.Millisecond)
	c.AfterFunc(10, func() {})
	select { case <-done: t.Fatal("one timer is not two") ; case <-time.After(200*time.Millisecond): }
	c.AfterFunc(10, func() {})
	<-done
}
'''
