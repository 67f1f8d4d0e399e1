package hevt

import (
	"flychain/event"
	zz "flychain/zzverif"
)

type evA int
type evB int

// Mux: posts, cancellations and a stop, under every interleaving.
func Mux() {
	var m event.TypeMux
	both := zz.Choice("both", 0, 1) == 1
	subs := []*event.TypeMuxSubscription{}
	if both {
		subs = append(subs, m.Subscribe(evA(0), evB(0)))
	} else {
		subs = append(subs, m.Subscribe(evA(0)))
	}
	late := zz.Choice("late", 0, zz.Param("late", 1)) == 1 // the second subscribes concurrently
	if zz.Param("subs", 2) > 1 {
		if late {
			subs = append(subs, nil)
		} else {
			subs = append(subs, m.Subscribe(evA(0)))
		}
	}
	act := zz.Choice("act", 0, zz.Param("act", 2)) // nothing, cancel the first, stop
	deaf := act != 0 && zz.Choice("deaf", 0, 1) == 1
	np := zz.Param("posts", 2)
	type post struct {
		ended, endedBeforeAct, startedAfterAct, endedBeforeSub, startedAfterSub bool
		err                                                                     error
	}
	posts := make([]post, np)
	got := make([][]interface{}, len(subs))
	ended := make([]bool, len(subs))
	var mu zz.Atomic
	var subEnded bool
	for i := range subs {
		i := i
		if deaf && i == 0 {
			continue
		}
		go func() {
			if subs[i] == nil {
				mu.Lock()
				for k := range posts {
					posts[k].endedBeforeSub = posts[k].ended
				}
				mu.Unlock()
				s := m.Subscribe(evA(0))
				mu.Lock()
				subs[i] = s
				subEnded = true
				mu.Unlock()
			}
			for ev := range subs[i].Chan() {
				got[i] = append(got[i], ev.Data)
			}
			ended[i] = true
		}()
	}
	var actEnded bool
	if act != 0 {
		go func() {
			mu.Lock()
			for k := range posts {
				posts[k].endedBeforeAct = posts[k].ended
			}
			mu.Unlock()
			if act == 1 {
				subs[0].Unsubscribe()
			} else {
				m.Stop()
			}
			mu.Lock()
			actEnded = true
			mu.Unlock()
		}()
	}
	x, y, z := zz.Int("a"), zz.Int("b"), zz.Int("c")
	zz.Assume(x != z)
	data := []interface{}{evA(x), evB(y), evA(z)}
	poster := func(lo, step int) {
		for k := lo; k < np; k += step {
			mu.Lock()
			posts[k].startedAfterAct = actEnded
			posts[k].startedAfterSub = subEnded
			mu.Unlock()
			err := m.Post(data[k])
			mu.Lock()
			posts[k].err, posts[k].ended = err, true
			mu.Unlock()
		}
	}
	if nposters := zz.Param("posters", 1); nposters == 1 {
		go poster(0, 1)
	} else {
		go poster(0, 2)
		go poster(1, 2)
	}
	zz.Quiesce()
	zz.Assert(act == 0 || actEnded, "cancelling and stopping do not block")
	for i := range subs {
		gone := act == 2 || act == 1 && i == 0
		if subs[i] == nil {
			zz.Assert(false, "subscribing does not block")
			continue
		}
		zz.Assert(subs[i].Closed() == gone, "a subscription is closed exactly when it was cancelled or the mux stopped")
		if gone {
			if deaf && i == 0 {
				_, ok := <-subs[i].Chan()
				zz.Assert(!ok, "the channel of a closed subscription is closed")
			} else {
				zz.Assert(ended[i], "the channel of a closed subscription is closed")
			}
		}
	}
	for k := range posts {
		p := &posts[k]
		zz.Assert(p.ended, "a post ends when every subscriber receives or goes away")
		if !p.ended {
			continue
		}
		before := act == 0 || p.endedBeforeAct
		if act == 2 && p.startedAfterAct {
			zz.Assert(p.err == event.ErrMuxClosed, "posting after the stop is refused")
		}
		if act != 2 || before {
			zz.Assert(p.err == nil, "posting works while the mux runs")
		}
		for i := range subs {
			c := 0
			for _, d := range got[i] {
				if d == data[k] {
					c++
				}
			}
			_, isA := data[k].(evA)
			wants := isA || both && i == 0
			switch {
			case !wants || p.err != nil:
				zz.Assert(c == 0, "only subscribers of its type receive an event")
			case late && i == 1 && p.endedBeforeSub:
				zz.Assert(c == 0, "a later subscriber receives nothing")
			case (before || act == 1 && i != 0) && (!late || i != 1 || p.startedAfterSub):
				zz.Assert(c == 1, "every subscriber of its type receives an event once")
			case p.startedAfterAct:
				zz.Assert(c == 0, "a closed subscription receives nothing")
			default:
				zz.Assert(c <= 1, "no event is delivered twice")
			}
		}
	}
	if zz.Param("posters", 1) == 1 {
		for i := range subs {
			last := -1
			for _, d := range got[i] {
				for k := range data {
					if d == data[k] {
						zz.Assert(k > last, "events of one poster arrive in order")
						last = k
					}
				}
			}
		}
	}
	zz.Reach("end")
}

// MuxHistory: operations one after the other.
func MuxHistory() {
	var m event.TypeMux
	stopped := false
	type s struct {
		sub    *event.TypeMuxSubscription
		a, b   bool
		closed bool
		got    []interface{}
		end    bool
	}
	var subs []*s
	n := zz.Param("ops", 4)
	for k := 0; k < n; k++ {
		hi := 2
		if len(subs) > 0 {
			hi = 3
		}
		switch zz.Choice("op", 0, hi) {
		case 0:
			x := &s{closed: stopped}
			switch zz.Choice("types", 0, 2) {
			case 0:
				x.sub, x.a = m.Subscribe(evA(0)), true
			case 1:
				x.sub, x.b = m.Subscribe(evB(9)), true
			case 2:
				x.sub, x.a, x.b = m.Subscribe(evB(0), evA(0)), true, true
			}
			subs = append(subs, x)
			go func() {
				for ev := range x.sub.Chan() {
					x.got = append(x.got, ev.Data)
				}
				x.end = true
			}()
		case 1:
			isA := zz.Choice("type", 0, 1) == 0
			var d interface{} = evB(zz.Int("v"))
			if isA {
				d = evA(zz.Int("v"))
			}
			before := make([]int, len(subs))
			for i, x := range subs {
				before[i] = len(x.got)
			}
			err := m.Post(d)
			zz.Quiesce()
			if stopped {
				zz.Assert(err == event.ErrMuxClosed, "posting after the stop is refused")
			} else {
				zz.Assert(err == nil, "posting works while the mux runs")
			}
			for i, x := range subs {
				if !stopped && !x.closed && (isA && x.a || !isA && x.b) {
					zz.Assert(len(x.got) == before[i]+1 && x.got[before[i]] == d, "every subscriber of its type receives the event")
				} else {
					zz.Assert(len(x.got) == before[i], "nobody else receives the event")
				}
			}
		case 2:
			m.Stop()
			stopped = true
			for _, x := range subs {
				x.closed = true
			}
		case 3:
			x := subs[zz.Choice("which", 0, len(subs)-1)]
			x.sub.Unsubscribe()
			x.closed = true
		}
		zz.Quiesce()
		for _, x := range subs {
			zz.Assert(x.sub.Closed() == x.closed, "a subscription is closed exactly when it was cancelled or the mux stopped")
			zz.Assert(x.end == x.closed, "the channel is closed with the subscription")
		}
	}
	zz.Reach("end")
}
