id="s256-boundary"; prop="C15"; pkg="common/math"
needs="exactly 2^255"
breaks="the most negative signed value is read as a positive one"
edits=[("common/math/big.go","x.Cmp(tt255) < 0 {","x.Cmp(tt255) <= 0 {")]
demo='''package math
import ("testing";"math/big")
func TestZZDemo(t *testing.T) {
	if v := S256(new(big.Int).Lsh(big.NewInt(1), 255)); v.Sign() >= 0 { t.Fatal(v) }
}
'''
