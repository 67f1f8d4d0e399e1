id="bigint-64bit-negative"; prop="C34"; pkg="log"
needs="a negative big integer whose magnitude takes exactly 64 bits"
breaks="the fast path chooses by bit length alone, so such a number loses its sign"
edits=[("log/format.go","""	if n.IsUint64() {
		return FormatLogfmtUint64(n.Uint64())
	}
	if n.IsInt64() {
		return FormatLogfmtInt64(n.Int64())
	}
""","""	switch bits := n.BitLen(); {
	case bits < 64:
		return FormatLogfmtInt64(n.Int64())
	case bits == 64:
		return FormatLogfmtUint64(n.Uint64())
	}
""")]
demo='''package log
import ("testing";"math/big")
func TestZZDemo(t *testing.T) {
	n, _ := new(big.Int).SetString("-18446744073709551615", 10)
	if s := formatLogfmtBigInt(n); s != "-18,446,744,073,709,551,615" { t.Fatal(s) }
}
'''
