id="parse-negative-range"; prop="C18"; pkg="common/math"
needs="a negative integer of more than 256 bits"
breaks="the range check compares signed values, so negative integers of any size are accepted"
edits=[("common/math/big.go","	if ok && bigint.BitLen() > 256 {","	if ok && bigint.Cmp(MaxBig256) > 0 {")]
demo='''package math
import ("testing";"strings")
func TestZZDemo(t *testing.T) {
	if v, ok := ParseBig256("-" + strings.Repeat("9", 90)); ok { t.Fatal(v) }
}
'''
