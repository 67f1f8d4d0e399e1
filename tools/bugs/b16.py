id="scope-sub-forgets-first"; prop="C33"; pkg="event"
needs="Close running between the two halves of a tracked subscription's Unsubscribe"
breaks="the subscription leaves the scope before it is cancelled: Close can return while it is still live"
edits=[("event/subscription.go","""	s.s.Unsubscribe()
	s.sc.mu.Lock()
	defer s.sc.mu.Unlock()
	delete(s.sc.subs, s)""","""	s.sc.mu.Lock()
	delete(s.sc.subs, s)
	s.sc.mu.Unlock()
	s.s.Unsubscribe()""")]
demo='''package event
import ("testing";"time")
type zzSlow struct { in, out chan bool; e chan error; did bool }
func (s *zzSlow) Unsubscribe() { if s.did { return }; close(s.in); <-s.out; s.did = true; close(s.e) }
func (s *zzSlow) Err() <-chan error { return s.e }
func TestZZDemo(t *testing.T) {
	var sc SubscriptionScope
	s := &zzSlow{make(chan bool), make(chan bool), make(chan error), false}
	x := sc.Track(s)
	go x.Unsubscribe()
	<-s.in // being cancelled, not yet cancelled
	if n := sc.Count(); n != 1 { t.Fatal("live subscription not counted: ", n) }
	close(s.out)
	time.Sleep(50*time.Millisecond)
	if n := sc.Count(); n != 0 { t.Fatal(n) }
}
'''
