id="copybytes-empty-nil"; prop="C06"; pkg="common"
needs="an empty but non-nil slice"
breaks="the copy of an empty slice is nil"
edits=[("common/bytes.go","	if b == nil {\n","	if len(b) == 0 {\n")]
demo='''package common
import "testing"
func TestZZDemo(t *testing.T) {
	if CopyBytes([]byte{}) == nil { t.Fatal() }
}
'''
