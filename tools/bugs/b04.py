id="marshal-short-y"; prop="C24"; pkg="crypto"
needs="a point whose y coordinate has a leading zero byte"
breaks="the y coordinate is left- instead of right-aligned in the encoding"
edits=[("crypto/curve.go","copy(ret[1+2*byteLen-len(yBytes):], yBytes)","copy(ret[1+2*byteLen-len(xBytes):], yBytes)")]
demo='''package crypto
import ("testing";"math/big")
func TestZZDemo(t *testing.T) {
	c := S256()
	x := new(big.Int).Lsh(big.NewInt(1), 255)
	x2, y2 := c.Unmarshal(c.Marshal(x, big.NewInt(77)))
	if x2.Cmp(x) != 0 || y2.Cmp(big.NewInt(77)) != 0 { t.Fatal(x2, y2) }
}
'''
