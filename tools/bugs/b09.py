id="feedof-shrink-served"; prop="C29"; pkg="event"
needs="a channel already served in the Send in progress unsubscribes while another is still blocked"
breaks="the set of channels still to serve shrinks although the removed one had been served: the Send returns without delivering to the last blocked subscriber"
edits=[("event/feedof.go","index < len(cases) {","index <= len(cases) {")]
demo='''package event
import ("testing";"time")
func TestZZDemo(t *testing.T) {
	var f FeedOf[int]
	a, b := make(chan int), make(chan int, 1)
	f.Subscribe(a)
	sb := f.Subscribe(b)
	r := make(chan int, 1)
	go func() { r <- f.Send(7) }()
	if v := <-b; v != 7 { t.Fatal(v) }
	time.Sleep(50*time.Millisecond)
	sb.Unsubscribe()
	select {
	case n := <-r: t.Fatal("Send returned before the other subscriber received: ", n)
	case v := <-a: if v != 7 { t.Fatal(v) }
	case <-time.After(5*time.Second): t.Fatal("stuck")
	}
	if n := <-r; n != 2 { t.Fatal(n) }
}
'''
