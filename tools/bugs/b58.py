id="hash-list-zeros"; prop="C13"; pkg="common"
needs="a hash that starts with zero bytes, printed as a byte list"
breaks="the leading zero bytes are left out of the list"
edits=[("common/types.go","		fmt.Fprint(s, ([len(h)]byte(h)))","		fmt.Fprint(s, bytes.TrimLeft(h[:], \"\\x00\"))")]
demo='''package common
import ("testing";"fmt";"strings")
func TestZZDemo(t *testing.T) {
	if s := fmt.Sprintf("%d", Hash{1: 1}); !strings.HasPrefix(s, "[0 1 0") { t.Fatal(s) }
}
'''
