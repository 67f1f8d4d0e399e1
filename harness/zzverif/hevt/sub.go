package hevt

import (
	"context"
	"errors"
	"time"

	"flychain/common/mclock"
	"flychain/event"
	zz "flychain/zzverif"
)

var errProd = errors.New("producer failed")

// NewSub: a producer that ends by itself, on request, or in a race with cancellations.
func NewSub() {
	kind := zz.Choice("kind", 0, 4)
	us := zz.Choice("unsubs", 0, zz.Param("unsubs", 2))
	reader := zz.Choice("reader", 0, 1) == 1
	fails := kind == 1 || kind == 3 || kind == 4
	ext := make(chan struct{}, 1)
	var mu zz.Atomic
	var calls int
	var prodEnded, unsubStarted, endedBeforeUnsub, unsubEndedAll, viaExt bool
	ended := 0
	s := event.NewSubscription(func(quit <-chan struct{}) error {
		mu.Lock()
		calls++
		mu.Unlock()
		var err error
		switch kind {
		case 1:
			err = errProd
		case 2, 3:
			<-quit
			if kind == 3 {
				err = errProd
			}
		case 4:
			select {
			case <-quit:
			case <-ext:
				viaExt = true
				err = errProd
			}
		}
		mu.Lock()
		prodEnded = true
		mu.Unlock()
		return err
	})
	var got []error
	closed := false
	if reader {
		go func() {
			for e := range s.Err() {
				got = append(got, e)
			}
			closed = true
		}()
	}
	if kind == 4 {
		go func() { ext <- struct{}{} }()
	}
	for i := 0; i < us; i++ {
		go func() {
			mu.Lock()
			if !unsubStarted {
				endedBeforeUnsub = prodEnded
			}
			unsubStarted = true
			mu.Unlock()
			s.Unsubscribe()
			mu.Lock()
			if us == 1 {
				zz.Assert(prodEnded, "the producer has ended when Unsubscribe returns")
			}
			ended++
			unsubEndedAll = ended == us
			mu.Unlock()
		}()
	}
	zz.Quiesce()
	zz.Assert(calls == 1, "the producer runs once")
	zz.Assert(us == 0 || unsubEndedAll, "Unsubscribe does not block, however often it is called")
	if us == 0 && (kind == 2 || kind == 3) {
		zz.Assert(!prodEnded && !closed && len(got) == 0, "a subscription lasts until it ends or is cancelled")
		zz.Reach("active")
		return
	}
	zz.Assert(prodEnded, "the producer is told to stop")
	if !reader {
		for {
			e, ok := <-s.Err()
			if !ok {
				closed = true
				break
			}
			got = append(got, e)
		}
	}
	zz.Assert(closed, "the error channel is closed at the end")
	zz.Assert(len(got) <= 1, "at most one error is reported")
	if len(got) == 1 {
		zz.Assert(got[0] == errProd, "the producer's error is reported")
		zz.Assert(fails && kind != 3 && (kind != 4 || viaExt), "no error of a cancelled subscription is reported")
	}
	if us == 0 && fails {
		zz.Assert(len(got) == 1, "the producer's error is reported")
	}
	_ = endedBeforeUnsub
	zz.Reach("end")
}

// tsub is a subscription of the harness.
type tsub struct {
	err    chan error
	unsubs int
	ended  bool
	mu     zz.Atomic
}

func newTsub() *tsub { return &tsub{err: make(chan error, 1)} }

func (t *tsub) Err() <-chan error { return t.err }

func (t *tsub) Unsubscribe() {
	zz.Yield()
	t.mu.Lock()
	t.unsubs++
	first := t.unsubs == 1
	e := t.ended
	t.ended = true
	t.mu.Unlock()
	if first && !e {
		close(t.err)
	}
}

var subErrs = []error{errors.New("s0"), errors.New("s1"), errors.New("s2"), errors.New("s3")}
var fnErr = errors.New("no connection")

// Resub: attempts that fail, block or give subscriptions that end, fail or last; and cancellation at any time.
func Resub() {
	max := time.Duration(zz.Param("max", 1000))
	n := zz.Param("tries", 2)
	us := zz.Choice("unsubs", 0, zz.Param("unsubs", 1))
	viaErr := zz.Choice("api", zz.Param("api", 0), 1) == 1
	var mu zz.Atomic
	var made []*tsub
	var lastErr error
	var ctxs []context.Context
	calls, running, unsubEnded := 0, 0, 0
	finished := false // a subscription ended without error
	last := 0
	fn := func(ctx context.Context, e error) (event.Subscription, error) {
		mu.Lock()
		zz.Assert(running == 0, "attempts do not overlap")
		zz.Assert(unsubEnded == 0, "no attempt starts after the subscription was cancelled")
		zz.Assert(!finished, "no attempt follows a subscription that ended without error")
		running++
		for _, t := range made {
			zz.Assert(t.unsubs > 0, "the previous subscription is cancelled before the next attempt")
		}
		if viaErr {
			zz.Assert(e == lastErr, "an attempt is told the error of the previous subscription")
		}
		for _, c := range ctxs {
			zz.Assert(c.Err() != nil, "the context of a finished attempt is cancelled")
		}
		zz.Assert(ctx.Err() == nil || us > 0, "an attempt starts with a live context")
		ctxs = append(ctxs, ctx)
		k := calls
		calls++
		mu.Unlock()
		lo := 0
		if k >= n {
			lo = 2
		}
		kind := zz.Choice("outcome", lo, zz.Param("kinds", 5))
		last = kind
		defer func() { mu.Lock(); running--; mu.Unlock() }()
		switch kind {
		case 0: // the attempt fails
			return nil, fnErr
		case 5: // the attempt blocks until it is cancelled
			<-ctx.Done()
			return nil, ctx.Err()
		}
		t := newTsub()
		mu.Lock()
		made = append(made, t)
		mu.Unlock()
		switch kind {
		case 1: // fails later
			mu.Lock()
			lastErr = subErrs[k]
			mu.Unlock()
			t.err <- subErrs[k]
		case 2: // ends without error
			mu.Lock()
			finished = true
			t.ended = true
			mu.Unlock()
			close(t.err)
		case 3: // lasts
		case 4: // the producer reports a nil error
			mu.Lock()
			finished = true
			mu.Unlock()
			t.err <- nil
		}
		return t, nil
	}
	var s event.Subscription
	if viaErr {
		s = event.ResubscribeErr(max, fn)
	} else {
		s = event.Resubscribe(max, func(ctx context.Context) (event.Subscription, error) { return fn(ctx, nil) })
	}
	for i := 0; i < us; i++ {
		go func() {
			s.Unsubscribe()
			mu.Lock()
			unsubEnded++
			zz.Assert(running == 0, "no attempt is under way when Unsubscribe returns")
			for _, t := range made {
				zz.Assert(t.unsubs > 0, "no subscription is active when Unsubscribe returns")
			}
			mu.Unlock()
		}()
	}
	zz.Quiesce()
	zz.Assert(unsubEnded == us, "Unsubscribe does not block")
	over := false
	select {
	case e, ok := <-s.Err():
		zz.Assert(e == nil, "a resubscription reports no error")
		over = !ok
	default:
	}
	zz.Assert(over == (us > 0 || finished), "a resubscription ends when it is cancelled or a subscription ends without error, and only then")
	if us == 0 {
		zz.Assert(calls > 0 && (finished || last == 3 || last == 5), "it tries again after each failure")
	}
	if over {
		for _, t := range made {
			zz.Assert(t.unsubs > 0, "no subscription stays active after the end")
		}
		s.Unsubscribe()
		zz.Reach("cancelled again")
	}
	if zz.Symbolic() {
		prev := int64(max / 10)
		for i := 0; i < n; i++ {
			d := zz.Duration(i)
			if d < 0 {
				break
			}
			next := 2 * prev
			if next > int64(max) {
				next = int64(max)
			}
			zz.Assert(d <= int64(max), "the wait never exceeds the maximum")
			zz.Assert(zz.Or(d == next, d == int64(max/10)), "the wait doubles from a tenth of the maximum, or starts over")
			prev = d
		}
	}
	zz.Reach("end")
}

// Backoff: how long it waits after each of several failed attempts that take different times.
func Backoff() {
	max := 400 * time.Millisecond
	n := zz.Param("tries", 4)
	var begs, ends []mclock.AbsTime
	var durs []int
	calls := 0
	s := event.ResubscribeErr(max, func(ctx context.Context, e error) (event.Subscription, error) {
		begs = append(begs, mclock.Now())
		k := calls
		calls++
		if k >= n {
			return newTsub(), nil
		}
		d := zz.IntIn("eighths", 0, 12)
		zz.Assume(d != 8)
		durs = append(durs, d)
		zz.Advance(time.Duration(d) * max / 8)
		ends = append(ends, mclock.Now())
		return nil, fnErr
	})
	if !zz.Symbolic() {
		zz.Settle(time.Duration(n+1) * (max + max*12/8))
	}
	zz.Quiesce()
	zz.Assert(calls == n+1, "it tries again after every failure, and not after a success")
	w := max / 10
	for i := 0; i < n && i+1 < len(begs); i++ {
		// the wait doubles, up to the maximum; it starts over after an attempt longer than that
		w = time.Duration(zz.IteInt(durs[i] > 8, int(max/10), zz.IteInt(2*w > max, int(max), int(2*w))))
		if zz.Symbolic() {
			zz.Assert(zz.TimerDuration(i) == int64(w), "the wait follows the rate of failures")
		} else {
			gap := begs[i+1].Sub(ends[i])
			zz.Assert(gap >= w-time.Millisecond && gap <= w+w/2+5*time.Millisecond, "the wait follows the rate of failures")
		}
	}
	s.Unsubscribe()
	zz.Reach("end")
}

// ScopeHistory: operations on a subscription scope one after the other.
func ScopeHistory() {
	var sc event.SubscriptionScope
	type rec struct {
		t       *tsub
		w       event.Subscription
		tracked bool
	}
	var rs []*rec
	closed := false
	n := zz.Param("ops", 5)
	for k := 0; k < n; k++ {
		hi := 1
		if len(rs) > 0 {
			hi = 3
		}
		switch zz.Choice("op", 0, hi) {
		case 0:
			t := newTsub()
			w := sc.Track(t)
			zz.Assert((w == nil) == closed, "tracking is refused exactly when the scope is closed")
			if w == nil {
				zz.Assert(t.unsubs == 0, "a refused subscription is left alone")
				continue
			}
			rs = append(rs, &rec{t, w, true})
		case 1:
			sc.Close()
			for _, r := range rs {
				if r.tracked {
					zz.Assert(r.t.unsubs == 1, "closing cancels every tracked subscription once")
				}
				r.tracked = false
			}
			closed = true
		case 2:
			r := rs[zz.Choice("which", 0, len(rs)-1)]
			r.w.Unsubscribe()
			zz.Assert(r.t.unsubs > 0, "cancelling the wrapper cancels the subscription")
			r.tracked = false
		case 3: // the subscription fails by itself
			r := rs[zz.Choice("which", 0, len(rs)-1)]
			if !r.t.ended {
				r.t.ended = true
				r.t.err <- errProd
				zz.Assert(<-r.w.Err() == errProd, "the wrapper passes on the error")
				close(r.t.err)
			}
		}
		active := 0
		for _, r := range rs {
			if r.tracked {
				active++
				zz.Assert(r.t.unsubs == 0, "a tracked subscription is not cancelled")
			} else {
				zz.Assert(r.t.unsubs > 0, "an untracked subscription is cancelled")
			}
		}
		zz.Assert(sc.Count() == active, "the count is the number of tracked subscriptions")
	}
	zz.Reach("end")
}

// ScopeConc: closing, tracking and cancelling at the same time.
func ScopeConc() {
	var sc event.SubscriptionScope
	var mu zz.Atomic
	n := zz.Param("subs", 2)
	ts := make([]*tsub, n+1)
	ws := make([]event.Subscription, n+1)
	for i := 0; i < n; i++ {
		ts[i] = newTsub()
		ws[i] = sc.Track(ts[i])
	}
	var closeEnded, closeStarted, trackedBefore, trackedAfter, trackEnded bool
	ended := 0
	want := 0
	for c := 0; c < zz.Choice("closers", 0, 2); c++ {
		want++
		go func() {
			mu.Lock()
			if !closeStarted {
				trackedBefore = trackEnded
			}
			closeStarted = true
			mu.Unlock()
			sc.Close()
			mu.Lock()
			for i := 0; i < n; i++ {
				ts[i].mu.Lock()
				zz.Assert(ts[i].unsubs > 0, "what was tracked is cancelled when Close returns")
				ts[i].mu.Unlock()
			}
			closeEnded = true
			ended++
			mu.Unlock()
			zz.Assert(sc.Count() == 0, "a closed scope tracks nothing")
		}()
	}
	if zz.Choice("cancel", 0, 1) == 1 {
		want++
		go func() {
			ws[0].Unsubscribe()
			zz.Assert(ts[0].unsubs > 0, "cancelling the wrapper cancels the subscription")
			mu.Lock()
			ended++
			mu.Unlock()
		}()
	}
	if zz.Choice("track", 0, 1) == 1 {
		want++
		go func() {
			t := newTsub()
			mu.Lock()
			trackedAfter = closeEnded
			mu.Unlock()
			w := sc.Track(t)
			mu.Lock()
			ts[n], ws[n] = t, w
			trackEnded = true
			ended++
			mu.Unlock()
		}()
	}
	if zz.Choice("count", 0, 1) == 1 {
		want++
		go func() {
			k := sc.Count()
			mu.Lock()
			zz.Assert(k >= 0 && k <= n+1, "only what was tracked is counted")
			ended++
			mu.Unlock()
		}()
	}
	zz.Quiesce()
	zz.Assert(ended == want, "no operation blocks")
	if ts[n] != nil {
		zz.Assert(!(trackedAfter && ws[n] != nil), "a closed scope refuses to track")
		zz.Assert(!(trackedBefore && ws[n] == nil) && (closeStarted || ws[n] != nil), "an open scope tracks")
	}
	for i, t := range ts {
		if t == nil {
			continue
		}
		if ws[i] == nil {
			zz.Assert(t.unsubs == 0, "a refused subscription is left alone")
		} else if closeStarted {
			zz.Assert(t.unsubs > 0, "after closing no tracked subscription is active")
		}
	}
	zz.Reach("end")
}
