id="mixedcase-upper-prefix"; prop="C11"; pkg="common"
needs="an original text written with the prefix 0X"
breaks="the JSON form of such an address carries two prefixes"
edits=[("common/types.go","""	if strings.HasPrefix(ma.original, "0x") || strings.HasPrefix(ma.original, "0X") {""","""	if strings.HasPrefix(ma.original, "0x") {""")]
demo='''package common
import "testing"
func TestZZDemo(t *testing.T) {
	m, err := NewMixedcaseAddressFromString("0X5aaeb6053f3e94c9b9a09f33669435e7ef1beaed")
	if err != nil { t.Fatal(err) }
	j, err := m.MarshalJSON()
	if err != nil || string(j) != `"0x5aaeb6053f3e94c9b9a09f33669435e7ef1beaed"` { t.Fatal(string(j), err) }
}
'''
