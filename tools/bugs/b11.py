id="mux-close-behind-post"; prop="C30"; pkg="event"
needs="a subscription that nobody reads is cancelled while a Post is blocked on it"
breaks="the closing signal is given only after the lock the blocked Post holds: Unsubscribe and Post wait for each other forever"
edits=[("event/event.go","""	close(s.closing)
	s.closed = true

	s.postMu.Lock()
	defer s.postMu.Unlock()
""","""	s.closed = true

	s.postMu.Lock()
	defer s.postMu.Unlock()
	close(s.closing)
""")]
demo='''package event
import ("testing";"time")
func TestZZDemo(t *testing.T) {
	var m TypeMux
	a := m.Subscribe(int(0))
	done := make(chan bool)
	go func() { m.Post(5) }()
	time.Sleep(50*time.Millisecond)
	go func() { a.Unsubscribe(); close(done) }()
	select { case <-done: case <-time.After(3*time.Second): t.Fatal("Unsubscribe stuck") }
}
'''
