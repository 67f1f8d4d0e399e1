id="entropy-short-read"; prop="C27"; pkg="crypto/randentropy"
needs="a system source that returns fewer bytes than asked for in one read"
breaks="the rest of the buffer stays zero"
edits=[("crypto/randentropy/rand_entropy.go","""	_, err := io.ReadFull(crand.Reader, mainBuff)
""","""	var src io.Reader = crand.Reader
	_, err := src.Read(mainBuff)
""")]
demo='''package randentropy
import ("testing";"testing/iotest";"bytes";crand "crypto/rand")
func TestZZDemo(t *testing.T) {
	old := crand.Reader
	defer func() { crand.Reader = old }()
	crand.Reader = iotest.OneByteReader(bytes.NewReader([]byte{1, 2, 3, 4}))
	if g := GetEntropyCSPRNG(4); !bytes.Equal(g, []byte{1, 2, 3, 4}) { t.Fatal(g) }
}
'''
