id="producer-error-unbuffered"; prop="C31"; pkg="event"
needs="a producer that fails while nobody reads the error channel, followed by Unsubscribe"
breaks="the producer's goroutine waits with the lock held for someone to read its error: Unsubscribe never returns"
edits=[("event/subscription.go","err: make(chan error, 1)}","err: make(chan error)}")]
demo='''package event
import ("testing";"time";"errors")
func TestZZDemo(t *testing.T) {
	s := NewSubscription(func(<-chan struct{}) error { return errors.New("x") })
	time.Sleep(50*time.Millisecond)
	done := make(chan bool)
	go func() { s.Unsubscribe(); close(done) }()
	select { case <-done: case <-time.After(3*time.Second): t.Fatal("Unsubscribe stuck") }
}
'''
