id="hash-crop-wrong-end"; prop="C08"; pkg="common"
needs="more than 32 bytes"
breaks="a hash made from too many bytes keeps the first instead of the last 32"
edits=[("common/types.go","b = b[len(b)-HashLength:]","b = b[:HashLength]")]
demo='''package common
import "testing"
func TestZZDemo(t *testing.T) {
	b := make([]byte, 33); b[32] = 9
	if h := BytesToHash(b); h[31] != 9 { t.Fatal(h) }
}
'''
