id="scope-close-window"; prop="C33"; pkg="event"
needs="Track while Close is cancelling the tracked subscriptions"
breaks="the scope is marked closed only after its lock was released and retaken: a subscription tracked in between is accepted and never cancelled"
edits=[("event/subscription.go","""	sc.closed = true
	for s := range sc.subs {
		s.s.Unsubscribe()
	}
	sc.subs = nil
""","""	subs := sc.subs
	sc.subs = nil
	sc.mu.Unlock()
	for s := range subs {
		s.s.Unsubscribe()
	}
	sc.mu.Lock()
	sc.closed = true
""")]
demo='''package event
import ("testing";"time")
type zzSub struct { in, out chan bool; n int }
func (s *zzSub) Unsubscribe() { s.n++; if s.in != nil { close(s.in); <-s.out } }
func (s *zzSub) Err() <-chan error { return nil }
func TestZZDemo(t *testing.T) {
	var sc SubscriptionScope
	a := &zzSub{make(chan bool), make(chan bool), 0}
	b := new(zzSub)
	sc.Track(a)
	done := make(chan bool)
	go func() { sc.Close(); close(done) }()
	<-a.in
	got := make(chan Subscription, 1)
	go func() { got <- sc.Track(b) }()
	time.Sleep(50*time.Millisecond)
	close(a.out)
	<-done
	if s := <-got; s != nil && b.n == 0 { t.Fatal("accepted by a closing scope, never cancelled") }
}
'''
