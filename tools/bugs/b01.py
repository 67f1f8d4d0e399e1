id="alarm-deadline-now"; prop="C21"; pkg="common/mclock"
needs="a request made at the very instant the previous alarm was due, after it fired"
breaks="Alarm.schedule treats an alarm whose time is now as still pending, so the new request is dropped and never signals"
edits=[("common/mclock/alarm.go","if e.deadline > now && e.deadline <= newDeadline {","if e.deadline >= now && e.deadline <= newDeadline {")]
demo='''package mclock
import ("testing";"time")
func TestZZDemo(t *testing.T) {
	c := new(Simulated)
	a := NewAlarm(c)
	c.Run(time.Second)
	a.Schedule(c.Now().Add(5))
	c.Run(5)
	<-a.C()
	a.Schedule(c.Now().Add(7))
	c.Run(10)
	select {
	case <-a.C():
	default: t.Fatal("second request never signalled")
	}
}
'''
