// Package hclk: harnesses for common/mclock.
package hclk

import (
	"time"

	"flychain/common/mclock"
	zz "flychain/zzverif"
)

type tm struct {
	at     int64
	active bool
	fires  int
	stop   mclock.Timer
	ct     mclock.ChanTimer
}

const day = int(86400e9)

// dur is an arbitrary duration; small ones make equal deadlines and zero delays likely in replays.
func dur(l string) time.Duration { return time.Duration(zz.IntIn(l, 0, zz.Param("max", day))) }

// History: any history of timer operations on the simulated clock.
func History() {
	var c mclock.Simulated
	var ts []*tm
	var order []*tm
	now := int64(0)
	start := c.Now()
	pre := zz.Param("pre", 0)
	n := zz.Param("ops", 4) + pre
	run := func(d time.Duration) {
		order = nil
		before := make([]int, len(ts))
		for i, t := range ts {
			before[i] = t.fires
		}
		c.Run(d)
		now += int64(d)
		zz.Assert(c.Now() == start+mclock.AbsTime(now), "the clock advances by exactly the given time")
		for _, t := range ts {
			if t.ct != nil {
				select {
				case at := <-t.ct.C():
					t.fires++
					zz.Assert(at == start+mclock.AbsTime(t.at), "a channel timer delivers its due time")
				default:
				}
			}
		}
		for i, t := range ts {
			due := zz.And(t.active, t.at <= now)
			zz.Assert(t.fires-before[i] == zz.IteInt(due, 1, 0), "exactly the active timers that are due fire, once each")
			t.active = zz.And(t.active, !due)
		}
		for i := 1; i < len(order); i++ {
			zz.Assert(order[i-1].at <= order[i].at, "timers fire in order of their due time")
		}
	}
	for k := 0; k < n; k++ {
		hi := 2
		if k < pre {
			hi = 1
		} else if len(ts) > 0 {
			hi = 4
		}
		if len(ts) >= zz.Param("timers", 3) && hi == 4 {
			// no further timers
			hi = 2
		}
		op := zz.Choice("op", 0, hi)
		if len(ts) >= zz.Param("timers", 3) {
			op += 2
		}
		if k < pre && op > 1 {
			zz.Assume(false)
		}
		switch op {
		case 0:
			d := dur("d")
			t := &tm{at: now + int64(d), active: true}
			t.stop = c.AfterFunc(d, func() { t.fires++; order = append(order, t) })
			ts = append(ts, t)
		case 1:
			d := dur("d")
			t := &tm{at: now + int64(d), active: true}
			t.ct = c.NewTimer(d)
			t.stop = t.ct
			ts = append(ts, t)
		case 2:
			run(dur("d"))
		case 3:
			t := ts[zz.Choice("which", 0, len(ts)-1)]
			was := t.stop.Stop()
			zz.Assert(was == t.active, "Stop reports whether it prevented the timer from firing")
			t.active = false
		case 4:
			t := ts[zz.Choice("which", 0, len(ts)-1)]
			zz.Assume(t.ct != nil)
			d := dur("d")
			t.ct.Reset(d)
			t.at, t.active = now+int64(d), true
		}
		cnt := 0
		for _, t := range ts {
			cnt += zz.IteInt(t.active, 1, 0)
		}
		zz.Assert(c.ActiveTimers() == cnt, "the number of active timers is right")
	}
	run(dur("last"))
	run(time.Duration(10 * day))
	for _, t := range ts {
		zz.Assert(!t.active, "every timer is done in the end")
	}
	zz.Assert(c.ActiveTimers() == 0, "no timer remains")
	zz.Reach("end")
}

// Nested: a callback may use the clock (start and stop timers) while it runs.
func Nested() {
	var c mclock.Simulated
	d1, d2, d3 := dur("d1"), dur("d2"), dur("d3")
	n1, n2 := 0, 0
	var victim mclock.Timer
	stopped := false
	c.AfterFunc(d1, func() {
		n1++
		c.AfterFunc(d2, func() { n2++ })
		stopped = victim.Stop()
	})
	n3 := 0
	victim = c.AfterFunc(d3, func() { n3++ })
	run := dur("run")
	c.Run(run)
	zz.Assert(n1 == zz.IteInt(d1 <= run, 1, 0), "exactly the due timers fire")
	zz.Assert(n2 == 0, "a timer started by a callback does not fire before its time")
	due3 := d3 <= run
	zz.Assert(zz.Implies(stopped, n3 == 0), "a timer that Stop prevented does not fire")
	zz.Assert(zz.Implies(zz.And(due3, !stopped), n3 == 1), "exactly the due timers fire")
	zz.Assert(zz.Implies(!due3, n3 == 0), "exactly the due timers fire")
	c.Run(d2)
	zz.Assert(zz.Implies(d1 <= run, n2 == 1), "a timer started by a callback fires its delay after the time the clock was run to")
	zz.Reach("end")
}

// Wait: WaitForTimers, Sleep and After between goroutines.
func Wait() {
	var c mclock.Simulated
	n := zz.Param("n", 2)
	woke := 0
	done := make(chan int, 4)
	for i := 0; i < n; i++ {
		i := i
		go func() {
			if i == 0 {
				c.Sleep(time.Duration(i+1) * time.Second)
			} else {
				<-c.After(time.Duration(i+1) * time.Second)
			}
			zz.Assert(c.Now() >= mclock.AbsTime(i+1)*1e9, "a sleeper wakes only when its time has come")
			done <- i
		}()
	}
	c.WaitForTimers(n)
	zz.Assert(c.ActiveTimers() == n, "WaitForTimers waits for the timers")
	for i := 0; i < n; i++ {
		c.Run(time.Second)
		k := <-done
		zz.Assert(k == i, "the sleeper whose time has come wakes")
		woke++
	}
	zz.Assert(c.ActiveTimers() == 0, "no timer remains")
	zz.Reach("end")
}

// Wake: a goroutine that waits for a number of timers wakes when that many are scheduled, by
// whatever operation, and not before.
func Wake() {
	var c mclock.Simulated
	var mu zz.Atomic
	old := c.NewTimer(0) // expired and read: a Reset starts it again
	c.Run(0)
	<-old.C()
	off := c.NewTimer(time.Second) // stopped: likewise
	off.Stop()
	n := zz.Choice("n", 0, zz.Param("max", 2))
	woke := false
	go func() {
		c.WaitForTimers(n)
		mu.Lock()
		woke = true
		mu.Unlock()
	}()
	if zz.Choice("early", 0, 1) == 1 {
		zz.Quiesce()
	}
	slept := false
	active, most := 0, 0
	var timers []mclock.Timer
	oldOn, offOn := false, false
	for k := zz.Param("ops", 3); k > 0; k-- {
		switch zz.Choice("op", 0, 6) {
		case 0:
			timers = append(timers, c.AfterFunc(time.Second, func() {}))
			active++
		case 1:
			timers = append(timers, c.NewTimer(time.Second))
			active++
		case 2:
			c.After(time.Second)
			active++
		case 3:
			old.Reset(time.Second)
			if !oldOn {
				active++
			}
			oldOn = true
		case 4:
			off.Reset(time.Second)
			if !offOn {
				active++
			}
			offOn = true
		case 5:
			if !slept {
				go c.Sleep(time.Second)
				slept = true
				active++
			}
		case 6:
			if len(timers) > 0 {
				// wait first: a timer that is gone again before the waiter looked is not missed by it
				zz.Quiesce()
				zz.Assert(timers[0].Stop(), "a pending timer can be stopped")
				timers = timers[1:]
				active--
			}
		}
		zz.Quiesce()
		if active > most {
			most = active
		}
		mu.Lock()
		w := woke
		mu.Unlock()
		zz.Assert(w == (most >= n), "a goroutine that waits for n timers wakes when there are n, and not before")
		zz.Assert(c.ActiveTimers() == active, "the number of active timers is right")
	}
	zz.Reach("end")
}

// AlarmHistory: any history of Schedule, Stop and clock runs keeps the documented promise.
func AlarmHistory() {
	var c mclock.Simulated
	a := mclock.NewAlarm(&c)
	set := false // an alarm is pending
	var at int64 // the earliest requested time
	sig := false // a signal is waiting
	now := int64(0)
	n := zz.Param("ops", 4)
	for k := 0; k < n; k++ {
		switch zz.Choice("op", 0, 3) {
		case 0:
			t := int64(zz.IntIn("t", 0, day))
			a.Schedule(mclock.AbsTime(t))
			eff := int64(zz.IteInt(t < now, int(now), int(t)))
			pend := zz.And(set, at > now) // still in the future: the earlier one wins
			at = int64(zz.IteInt(zz.And(pend, at <= eff), int(at), int(eff)))
			set = true
		case 1:
			a.Stop()
			set, sig = false, false
		case 2:
			d := dur("d")
			c.Run(d)
			now += int64(d)
			fired := zz.And(set, at <= now)
			sig = zz.Or(sig, fired)
			set = zz.And(set, !fired)
		case 3:
			got := false
			select {
			case <-a.C():
				got = true
			default:
			}
			zz.Assert(got == sig, "the alarm signals at the earliest requested time, and only then")
			sig = false
		}
	}
	c.Run(time.Duration(2 * day))
	got := false
	select {
	case <-a.C():
		got = true
	default:
	}
	zz.Assert(got == zz.Or(sig, set), "a scheduled alarm signals in the end unless it was stopped")
	zz.Reach("end")
}

// AbsTime arithmetic.
func Abs() {
	t := mclock.AbsTime(zz.I64("t"))
	d := time.Duration(zz.I64("d"))
	zz.Assert(t.Add(d).Sub(t) == d, "Sub inverts Add")
	zz.Assert(t.Add(d).Add(-d) == t, "Add of the negative duration returns to the start")
	zz.Reach("end")
}

// Conc: timers started, stopped and run from several goroutines.
func Conc() {
	var c mclock.Simulated
	var mu zz.Atomic
	fired := make([]int, 2)
	done, want := 0, 0
	start := func(f func()) {
		want++
		go func() {
			f()
			mu.Lock()
			done++
			mu.Unlock()
		}()
	}
	hit := func(i int) func() {
		return func() {
			mu.Lock()
			fired[i]++
			mu.Unlock()
		}
	}
	old := c.NewTimer(0) // expired and read: it may be started again
	c.Run(0)
	<-old.C()
	a := c.AfterFunc(time.Second, hit(0))
	var stopped int
	total := 0
	for i := zz.Choice("runs", 1, zz.Param("runs", 2)); i > 0; i-- {
		total++
		start(func() { c.Run(time.Second) })
	}
	stops := 0
	if zz.Choice("stop", 0, 1) == 1 {
		for ; stops < zz.Param("stops", 1); stops++ {
			start(func() {
				if a.Stop() {
					mu.Lock()
					stopped++
					mu.Unlock()
				}
			})
		}
	}
	var b mclock.ChanTimer
	add := zz.Choice("add", 0, 3)
	switch add {
	case 1:
		start(func() { c.AfterFunc(time.Second, hit(1)) })
	case 2:
		start(func() {
			b = c.NewTimer(time.Second)
		})
	case 3:
		b = old
		start(func() { old.Reset(time.Second) })
	}
	switch zz.Choice("watch", 0, 2) {
	case 1:
		start(func() {
			t0 := c.Now()
			t1 := c.Now()
			zz.Assert(t1 >= t0, "the time does not go back")
		})
	case 2:
		start(func() {
			n := c.ActiveTimers()
			zz.Assert(n >= 0 && n <= 2, "the number of active timers is right")
		})
	}
	zz.Quiesce()
	zz.Assert(done == want, "no operation blocks")
	zz.Assert(c.Now() == mclock.AbsTime(total)*mclock.AbsTime(time.Second), "the clock advances by the sum of the runs")
	zz.Assert(fired[0]+stopped == 1, "a timer fires once, or stopping it is reported once")
	rest := 0
	if b != nil {
		select {
		case at := <-b.C():
			zz.Assert(at >= mclock.AbsTime(time.Second) && at <= mclock.AbsTime(total)*mclock.AbsTime(time.Second), "a channel timer delivers its due time")
		default:
			rest++
		}
	} else if add == 1 {
		zz.Assert(fired[1] <= 1, "a timer fires once")
		rest += 1 - fired[1]
	}
	zz.Assert(c.ActiveTimers() == rest, "the number of active timers is right")
	c.Run(time.Second)
	zz.Assert(add != 1 || fired[1] == 1, "a timer fires when its time has come")
	zz.Assert(c.ActiveTimers() == 0, "no timer remains")
	zz.Reach("end")
}

// AlarmConc: one goroutine uses the alarm while another runs the clock.
func AlarmConc() {
	var c mclock.Simulated
	a := mclock.NewAlarm(&c)
	var mu zz.Atomic
	rounds := zz.Param("rounds", 2)
	got, steps := 0, 0
	later := zz.Choice("later", 0, 1) == 1 // a later request first; it may signal too if its time comes in between
	go func() {
		for i := 0; i < rounds; i++ {
			at := c.Now() + mclock.AbsTime(zz.Choice("in", 0, 2))*mclock.AbsTime(time.Second)
			if later {
				a.Schedule(at + mclock.AbsTime(time.Second))
			}
			a.Schedule(at)
			<-a.C()
			zz.Assert(later || c.Now() >= at, "the alarm does not signal early")
			mu.Lock()
			got++
			mu.Unlock()
		}
	}()
	go func() {
		for i := 0; i < rounds; i++ {
			c.Run(time.Second)
			mu.Lock()
			steps++
			mu.Unlock()
		}
	}()
	zz.Quiesce()
	zz.Assert(steps == rounds, "running the clock does not block")
	for i := 0; i < rounds; i++ {
		c.Run(3 * time.Second)
		zz.Quiesce()
	}
	zz.Assert(got == rounds, "a scheduled alarm signals in the end")
	zz.Reach("end")
}
