id="curve-add-opposite"; prop="C23"; pkg="crypto"
needs="a point and its opposite"
breaks="points with equal x are always doubled, so P + (-P) is 2P instead of infinity"
edits=[("crypto/curve.go","	z := new(big.Int).SetInt64(1)\n	return BitCurve.affineFromJacobian(BitCurve.addJacobian","	if x1.Cmp(x2) == 0 {\n		return BitCurve.Double(x1, y1)\n	}\n	z := new(big.Int).SetInt64(1)\n	return BitCurve.affineFromJacobian(BitCurve.addJacobian")]
demo='''package crypto
import ("testing";"math/big")
func TestZZDemo(t *testing.T) {
	c := S256()
	x, y := c.Add(c.Gx, c.Gy, c.Gx, new(big.Int).Sub(c.P, c.Gy))
	if x.Sign() != 0 || y.Sign() != 0 { t.Fatal(x, y) }
}
'''
