id="float32-two-places"; prop="C34"; pkg="log"
needs="a float32 context value with a fraction that two decimals do not hold"
breaks="float32 values lose the third decimal"
edits=[("log/format.go","		return strconv.FormatFloat(float64(v), floatFormat, 3, 64)\n	case float64","		return strconv.FormatFloat(float64(v), floatFormat, 2, 64)\n	case float64")]
demo='''package log
import "testing"
func TestZZDemo(t *testing.T) {
	if s := formatLogfmtValue(float32(0.125), false); s != "0.125" { t.Fatal(s) }
}
'''
