id="resubscribe-backoff-reset"; prop="C32"; pkg="event"
needs="attempts that fail after a time between the current wait and the maximum backoff"
breaks="an attempt that lasts longer than the current wait resets the backoff, which then never grows"
edits=[("event/subscription.go","mclock.Now()-s.lastTry) > s.backoffMax {","mclock.Now()-s.lastTry) > s.waitTime {")]
demo='''package event
import ("testing";"time";"context";"errors")
func TestZZDemo(t *testing.T) {
	var at []time.Time
	max := 400*time.Millisecond
	s := ResubscribeErr(max, func(ctx context.Context, _ error) (Subscription, error) {
		time.Sleep(100*time.Millisecond)
		at = append(at, time.Now())
		if len(at) == 4 { return NewSubscription(func(q <-chan struct{}) error { <-q; return nil }), nil }
		return nil, errors.New("x")
	})
	time.Sleep(2500*time.Millisecond)
	s.Unsubscribe()
	if len(at) != 4 { t.Fatal(len(at)) }
	// waits 80, 160, 320 ms (+100 each)
	if d := at[3].Sub(at[2]); d < 400*time.Millisecond { t.Fatal("third wait too short: ", d) }
}
'''
