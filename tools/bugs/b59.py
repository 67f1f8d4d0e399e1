id="bigmax-magnitude"; prop="C19"; pkg="common/math"
needs="negative arguments"
breaks="the larger magnitude wins, whatever the sign"
edits=[("common/math/big.go","	if x.Cmp(y) < 0 {","	if x.CmpAbs(y) < 0 {")]
demo='''package math
import ("testing";"math/big")
func TestZZDemo(t *testing.T) {
	if BigMax(big.NewInt(1), big.NewInt(-2)).Int64() != 1 { t.Fatal() }
}
'''
