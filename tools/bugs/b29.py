id="padded-bytes-truncate"; prop="C16"; pkg="common/math"
needs="a number whose bit length exceeds 8n by 1 to 7"
breaks="a number that takes a little more than n bytes loses its top byte"
edits=[("common/math/big.go","if bigint.BitLen()/8 >= n {","if bigint.BitLen()/8 > n {")]
demo='''package math
import ("testing";"math/big")
func TestZZDemo(t *testing.T) {
	if v := PaddedBigBytes(big.NewInt(0x1234), 1); len(v) != 2 { t.Fatal(v) }
}
'''
