id="exp-skip-zero-word"; prop="C17"; pkg="common/math"
needs="an exponent of several words with a zero word below a non-zero one"
breaks="zero words of the exponent are skipped without squaring the base for them"
edits=[("common/math/big.go","	for _, word := range exponent.Bits() {\n","	for _, word := range exponent.Bits() {\n		if word == 0 {\n			continue\n		}\n")]
demo='''package math
import ("testing";"math/big")
func TestZZDemo(t *testing.T) {
	e := new(big.Int).Lsh(big.NewInt(1), 64)
	if v := Exp(big.NewInt(3), e); v.Cmp(new(big.Int).Exp(big.NewInt(3), e, tt256)) != 0 { t.Fatal(v) }
}
'''
