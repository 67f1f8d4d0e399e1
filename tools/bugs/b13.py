id="producer-error-after-unsubscribe"; prop="C31"; pkg="event"
needs="a producer that ends with an error because it was cancelled, with somebody listening on Err"
breaks="an error produced by the cancellation itself is delivered although the subscription had already ended without error"
edits=[("event/subscription.go","""		if !s.unsubscribed {
			if err != nil {
				s.err <- err
			}
			s.unsubscribed = true
		}""","""		if err != nil {
			s.err <- err
		}
		s.unsubscribed = true""")]
demo='''package event
import ("testing";"time";"errors")
func TestZZDemo(t *testing.T) {
	for i := 0; i < 2000; i++ {
		s := NewSubscription(func(q <-chan struct{}) error { <-q; return errors.New("x") })
		got := make(chan error, 1)
		go func() { got <- <-s.Err() }()
		if i%2 == 0 { time.Sleep(100*time.Microsecond) }
		s.Unsubscribe()
		if e := <-got; e != nil { t.Fatal("error after Unsubscribe: ", e) }
	}
}
'''
