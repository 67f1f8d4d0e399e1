id="alarm-stop-keeps-deadline"; prop="C21"; pkg="common/mclock"
needs="Stop, then a Schedule for the stopped time or a later one before that time has come"
breaks="a stopped alarm is still taken as armed, so the new request is dropped"
edits=[("common/mclock/alarm.go","	e.deadline = 0\n\n","\n")]
demo='''package mclock
import "testing"
func TestZZDemo(t *testing.T) {
	var c Simulated
	a := NewAlarm(&c)
	a.Schedule(10)
	a.Stop()
	a.Schedule(12)
	c.Run(20)
	select { case <-a.C(): default: t.Fatal("no signal") }
}
'''
