id="mux-delete-in-place"; prop="C30"; pkg="event"
needs="a subscription is removed while a Post to the same type is part-way through the list of subscribers"
breaks="the list a Post in progress walks is shifted under it: a subscriber misses the event or gets it twice"
edits=[("event/event.go","""	news := make([]*TypeMuxSubscription, len(slice)-1)
	copy(news[:pos], slice[:pos])
	copy(news[pos:], slice[pos+1:])
	return news""","""	return append(slice[:pos], slice[pos+1:]...)""")]
demo='''package event
import ("testing";"time")
func TestZZDemo(t *testing.T) {
	var m TypeMux
	a, b, c := m.Subscribe(int(0)), m.Subscribe(int(0)), m.Subscribe(int(0))
	done := make(chan bool)
	go func() { m.Post(5); close(done) }()
	time.Sleep(50*time.Millisecond)
	// the Post waits for a
	a.Unsubscribe()
	for i, s := range []*TypeMuxSubscription{b, c} {
		select {
		case ev := <-s.Chan(): if ev.Data.(int) != 5 { t.Fatal(ev) }
		case <-time.After(3*time.Second): t.Fatal("subscriber missed the event: ", i)
		}
	}
	select { case <-done: case <-time.After(3*time.Second): t.Fatal("Post stuck: somebody gets it twice") }
}
'''
