// Package hevt: harnesses for event.
package hevt

import (
	"flychain/event"
	zz "flychain/zzverif"
)

// feed is what Feed and FeedOf have in common.
type feed interface {
	sub(ch chan int) event.Subscription
	send(v int) int
}

type plainFeed struct{ f event.Feed }

func (p *plainFeed) sub(ch chan int) event.Subscription { return p.f.Subscribe(ch) }
func (p *plainFeed) send(v int) int                     { return p.f.Send(v) }

type ofFeed struct{ f event.FeedOf[int] }

func (p *ofFeed) sub(ch chan int) event.Subscription { return p.f.Subscribe(ch) }
func (p *ofFeed) send(v int) int                     { return p.f.Send(v) }

func newFeed() feed {
	if zz.Param("of", 0) != 0 {
		return &ofFeed{}
	}
	return &plainFeed{}
}

func isClosed(c <-chan error) bool {
	select {
	case e, ok := <-c:
		zz.Assert(e == nil, "a feed subscription has no error")
		return !ok
	default:
		return false
	}
}

// FeedHistory: any history of subscriptions, cancellations and sends, one after the other.
func FeedHistory() {
	f := newFeed()
	type s struct {
		sub event.Subscription
		ch  int
		on  bool
	}
	const nch = 3
	var chs [nch]chan int
	var want [nch][]int
	for i := range chs {
		chs[i] = make(chan int, 16)
	}
	var subs []*s
	n := zz.Param("ops", 4)
	for k := 0; k < n; k++ {
		hi := 1
		if len(subs) > 0 {
			hi = 2
		}
		switch zz.Choice("op", 0, hi) {
		case 0:
			c := zz.Choice("ch", 0, zz.Param("chs", nch)-1)
			subs = append(subs, &s{f.sub(chs[c]), c, true})
		case 1:
			v := zz.Int("v")
			cnt := 0
			for _, x := range subs {
				if x.on {
					want[x.ch] = append(want[x.ch], v)
					cnt++
				}
			}
			zz.Assert(f.send(v) == cnt, "send reports the number of subscriptions it reached")
		case 2:
			x := subs[zz.Choice("which", 0, len(subs)-1)]
			x.sub.Unsubscribe()
			x.on = false
		}
		for _, x := range subs {
			if !x.on {
				zz.Assert(isClosed(x.sub.Err()), "the error channel of a cancelled subscription is closed")
			} else {
				zz.Assert(!isClosed(x.sub.Err()), "the error channel of an active subscription is open")
			}
		}
		for i := range chs {
			zz.Assert(len(chs[i]) == len(want[i]), "each subscription receives each value once")
		}
	}
	for i := range chs {
		for _, v := range want[i] {
			if len(chs[i]) == 0 {
				break
			}
			zz.Assert(<-chs[i] == v, "values arrive unchanged and in the order of the sends")
		}
	}
	zz.Reach("end")
}

// FeedConc: concurrent sends, receivers, a cancellation and a late subscription, under every interleaving.
// What happened before what is recorded in flags rather than times, so that equal situations stay equal.
func FeedConc() {
	f := newFeed()
	n, ns := zz.Param("subs", 2), zz.Param("sends", 1)
	late := zz.Choice("late", 0, zz.Param("late", 1)) == 1 // the last channel subscribes concurrently
	un := zz.Choice("unsub", -1, zz.Param("unsub", n-1))   // the subscription that is cancelled concurrently
	deaf := un >= 0 && zz.Choice("deaf", 0, 1) == 1        // nobody receives on the cancelled channel
	chs := make([]chan int, n)
	subs := make([]event.Subscription, n)
	count := make([][]int, n) // deliveries per channel and send
	order := make([][][]bool, n)
	for i := range chs {
		chs[i] = make(chan int, zz.Choice("cap", 0, zz.Param("cap", 1)))
		count[i] = make([]int, ns)
		for k := 0; k < ns; k++ {
			order[i] = append(order[i], make([]bool, ns))
		}
		if i < n-1 || !late {
			subs[i] = f.sub(chs[i])
		}
	}
	vals := make([]int, ns) // any distinct values
	for k := range vals {
		vals[k] = zz.Int("v")
		for _, o := range vals[:k] {
			zz.Assume(o != vals[k])
		}
	}
	recv := func(i, v int) {
		k := 0
		for k < ns && vals[k] != v {
			k++
		}
		zz.Assert(k < ns, "only sent values arrive")
		if k == ns {
			return
		}
		for l := 0; l < ns; l++ {
			if l != k && count[i][l] > 0 {
				order[i][l][k] = true
			}
		}
		count[i][k]++
	}
	lateUn := late && un == n-1
	var mu zz.Atomic
	var subEnded, unsubEnded bool
	atUnsub := 0
	type sendRec struct {
		ended, endedBeforeUnsub, endedBeforeSub, startedAfterSub, startedAfterUnsub bool
		n                                                                           int
	}
	sends := make([]sendRec, ns)
	follows := make([][]bool, ns) // follows[l][k]: l started after k ended
	for k := range follows {
		follows[k] = make([]bool, ns)
	}
	unsubscribe := func(i int) {
		mu.Lock()
		for k := range sends {
			sends[k].endedBeforeUnsub = sends[k].ended
		}
		mu.Unlock()
		subs[i].Unsubscribe()
		mu.Lock()
		atUnsub = len(chs[i])
		unsubEnded = true
		mu.Unlock()
	}
	if late {
		go func() {
			i := n - 1
			mu.Lock()
			for k := range sends {
				sends[k].endedBeforeSub = sends[k].ended
			}
			mu.Unlock()
			subs[i] = f.sub(chs[i])
			mu.Lock()
			subEnded = true
			mu.Unlock()
			if lateUn {
				unsubscribe(i)
			}
		}()
	}
	for k := 0; k < ns; k++ {
		k := k
		go func() {
			mu.Lock()
			sends[k].startedAfterSub = subEnded
			sends[k].startedAfterUnsub = unsubEnded
			for l := range sends {
				follows[k][l] = sends[l].ended
			}
			mu.Unlock()
			c := f.send(vals[k])
			mu.Lock()
			sends[k].n = c
			sends[k].ended = true
			mu.Unlock()
		}()
	}
	if un >= 0 && !lateUn {
		go unsubscribe(un)
	}
	for i := range chs {
		i := i
		if deaf && i == un {
			continue
		}
		go func() {
			for v := range chs[i] {
				recv(i, v)
			}
		}()
	}
	zz.Quiesce()
	if un >= 0 {
		zz.Assert(unsubEnded, "cancelling a subscription does not block")
		zz.Assert(isClosed(subs[un].Err()), "the error channel of a cancelled subscription is closed")
		if deaf {
			zz.Assert(len(chs[un]) == atUnsub, "nothing is sent to a channel once its subscription is cancelled")
			for len(chs[un]) > 0 {
				recv(un, <-chs[un])
			}
		}
	}
	for k := range sends {
		s := &sends[k]
		zz.Assert(s.ended, "a send ends when every subscriber receives or cancels")
		if !s.ended {
			continue
		}
		total := 0
		for i := range chs {
			c := count[i][k]
			total += c
			isLate := late && i == n-1
			switch {
			case (!isLate || s.startedAfterSub) && (i != un || s.endedBeforeUnsub):
				zz.Assert(c == 1, "a value reaches every channel subscribed throughout the send, once")
			case i == un && s.startedAfterUnsub || isLate && s.endedBeforeSub:
				zz.Assert(c == 0, "a value reaches no channel that is not subscribed during the send")
			default:
				zz.Assert(c <= 1, "a value reaches a channel at most once")
			}
			for l := range sends {
				if follows[l][k] {
					zz.Assert(!order[i][l][k], "values arrive in the order of the sends")
				}
				for j := range chs[:i] {
					if l != k {
						zz.Assert(!(order[i][k][l] && order[j][l][k]), "all channels see concurrent sends in the same order")
					}
				}
			}
		}
		zz.Assert(total == s.n, "send reports the number of channels it reached")
	}
	zz.Reach("end")
}

// FeedTypes: a feed carries one type; anything else panics and leaves the feed as it was.
func FeedTypes() {
	var f event.Feed
	panics := func(fn func()) (p bool) {
		defer func() { p = recover() != nil }()
		fn()
		return
	}
	ints := make(chan int, 4)
	var recvOnly <-chan int = ints
	var sendOnly chan<- int = ints
	zz.Assert(panics(func() { f.Subscribe(recvOnly) }), "a receive-only channel cannot be subscribed")
	zz.Assert(panics(func() { f.Subscribe(7) }), "only channels can be subscribed")
	first := zz.Choice("first", 0, 2)
	switch first {
	case 0:
		f.Subscribe(sendOnly)
	case 1:
		f.Subscribe(ints)
	case 2:
		zz.Assert(f.Send(zz.Int("v")) == 0, "a send without subscribers reaches none")
		f.Subscribe(ints)
	}
	for k := 0; k < 2; k++ {
		switch zz.Choice("wrong", 0, 3) {
		case 0:
			zz.Assert(panics(func() { f.Send("text") }), "a value of another type panics")
		case 1:
			zz.Assert(panics(func() { f.Subscribe(make(chan string)) }), "a channel of another type panics")
		case 2:
			zz.Assert(panics(func() { f.Send(uint8(3)) }), "a value of another type panics")
		case 3:
			zz.Assert(panics(func() { f.Subscribe(make(chan interface{}, 1)) }), "a channel of another type panics")
		}
		v := zz.Int("w")
		zz.Assert(f.Send(v) == 1, "the feed works on after a refused operation")
		zz.Assert(len(ints) == 1 && <-ints == v, "the subscriber receives the value")
	}
	zz.Reach("end")
}
