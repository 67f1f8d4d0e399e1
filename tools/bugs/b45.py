id="sponge-reset-offset"; prop="C26"; pkg="crypto/sha3"
needs="Reset after a message whose length is not a multiple of the rate"
breaks="Reset clears the lanes but not the position, so a reused hash absorbs at the wrong place"
edits=[("crypto/sha3/sha3.go","	d.absorbed = 0\n	for i := range d.a {","	for i := range d.a {")]
demo='''package sha3
import ("testing";"bytes")
func TestZZDemo(t *testing.T) {
	a, b := NewKeccak256(), NewKeccak256()
	a.Write([]byte("xyz")); a.Reset(); a.Write([]byte("abcd"))
	b.Write([]byte("abcd"))
	if !bytes.Equal(a.Sum(nil), b.Sum(nil)) { t.Fatal() }
}
'''
