id="sum-finalizes-state"; prop="C26"; pkg="crypto/sha3"
needs="Sum followed by a further Write on the same hash"
breaks="taking the digest pads the running state, so a continued message has another digest"
edits=[("crypto/sha3/sha3.go","	dup := *d\n	dup.finalize()","	dup := d\n	dup.finalize()")]
demo='''package sha3
import ("testing";"bytes")
func TestZZDemo(t *testing.T) {
	a, b := NewKeccak256(), NewKeccak256()
	a.Write([]byte("ab")); a.Sum(nil); a.Write([]byte("cd"))
	b.Write([]byte("abcd"))
	if !bytes.Equal(a.Sum(nil), b.Sum(nil)) { t.Fatal() }
}
'''
