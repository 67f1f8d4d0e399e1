package hclk

import (
	"time"

	"flychain/common/mclock"
	zz "flychain/zzverif"
)

// System: timers of the system clock, every moment of firing.
func System() {
	var c mclock.Clock = mclock.System{}
	var mu zz.Atomic
	t0 := c.Now()
	d := time.Duration(zz.IntIn("d", 1, 20)) * time.Millisecond
	asked := func(i int) {
		if zz.Symbolic() {
			zz.Assert(zz.TimerDuration(i) == int64(d), "a timer runs for the duration asked for")
		}
	}
	switch zz.Choice("kind", 0, 4) {
	case 0: // a function
		n := 0
		done := make(chan int, 4)
		t := c.AfterFunc(d, func() {
			mu.Lock()
			n++
			mu.Unlock()
			done <- 1
		})
		asked(0)
		stopped := false
		if zz.Choice("stop", 0, 1) == 1 {
			stopped = t.Stop()
			zz.Assert(!stopped || !t.Stop(), "a timer is stopped once")
		}
		if !stopped {
			<-done
			zz.Assert(!t.Stop(), "a timer that fired cannot be stopped")
		}
		zz.Quiesce()
		mu.Lock()
		defer mu.Unlock()
		zz.Assert(stopped == (n == 0) && n <= 1, "the function of a timer runs once, and never when Stop prevented it")
	case 1: // a channel
		v, ok := <-c.After(d)
		asked(0)
		zz.Assert(ok && v >= t0 && v <= c.Now(), "a timer's channel delivers the time it fired")
	case 2:
		c.Sleep(d)
		zz.Assert(c.Now() >= t0, "the clock does not run backwards")
	case 3:
		t := c.NewTimer(d)
		asked(0)
		runs := 1
		if zz.Choice("stop", 0, 1) == 1 && t.Stop() {
			runs = 0
			zz.Quiesce()
			select {
			case <-t.C():
				zz.Assert(false, "a stopped timer delivers nothing")
			default:
			}
		}
		if runs == 1 {
			v := <-t.C()
			zz.Assert(v >= t0 && v <= c.Now(), "a timer's channel delivers the time it fired")
		}
		for k := zz.Param("resets", 2); k > 0; k-- {
			t1 := c.Now()
			d += time.Millisecond
			t.Reset(d)
			v := <-t.C()
			zz.Assert(v >= t1 && v <= c.Now(), "a timer that was reset fires again")
		}
		zz.Assert(!t.Stop(), "a timer that fired cannot be stopped")
		zz.Quiesce()
		select {
		case <-t.C():
			zz.Assert(false, "a timer fires once")
		default:
		}
	case 4: // an alarm on the system clock
		a := mclock.NewAlarm(c)
		a.Schedule(c.Now().Add(d))
		if zz.Choice("earlier", 0, 1) == 1 {
			a.Schedule(c.Now().Add(time.Millisecond))
		}
		<-a.C()
	}
	zz.Reach("end")
}
