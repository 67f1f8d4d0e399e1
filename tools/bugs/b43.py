id="keccak384-capacity"; prop="C25"; pkg="crypto/sha3"
needs="the 384-bit variant"
breaks="Keccak-384 absorbs with another variant's capacity"
edits=[("crypto/sha3/sha3.go","outputSize: 384 / 8, capacity: 2 * 384 / 8","outputSize: 384 / 8, capacity: 2 * 512 / 8")]
demo='''package sha3
import ("testing";"encoding/hex")
func TestZZDemo(t *testing.T) {
	if s := hex.EncodeToString(NewKeccak384().Sum(nil)); s != "2c23146a63a29acf99e73b88f8c24eaa7dc60aa771780ccc006afbfa8fe2479b2dd2b21362337441ac12b515911957ff" { t.Fatal(s) }
}
'''
