id="feed-unsub-served"; prop="C28"; pkg="event"
needs="a subscriber still waiting unsubscribes while a Send is blocked, with another one waiting too"
breaks="the set of channels still to serve is not shrunk when a waiting one is removed, so the last one is dealt with twice"
edits=[("event/feed.go","				cases = f.sendCases[:len(cases)-1]","				cases = f.sendCases[:minCases(len(cases), len(f.sendCases))]"),
("event/feed.go","type feedSub struct {","func minCases(a, b int) int {\n	if a < b {\n		return a\n	}\n	return b\n}\n\ntype feedSub struct {")]
demo='''package event
import ("testing";"time")
func TestZZDemo(t *testing.T) {
	var f Feed
	a, b, c := make(chan int), make(chan int), make(chan int, 9)
	f.Subscribe(a)
	sb := f.Subscribe(b)
	f.Subscribe(c)
	r := make(chan int, 1)
	go func() { r <- f.Send(7) }()
	<-c
	time.Sleep(50*time.Millisecond)
	sb.Unsubscribe()
	<-a
	if n := <-r; n != 2 { t.Fatal(n) }
	select { case v := <-c: t.Fatal("delivered twice: ", v); default: }
}
'''
