id="hexorstring-swallows-error"; prop="C07"; pkg="common"
needs="text with the 0x prefix and a bad digit"
breaks="malformed prefixed hex is taken as plain text"
edits=[("common/bytes.go","	if errors.Is(err, hexutil.ErrMissingPrefix) {","	if errors.Is(err, hexutil.ErrMissingPrefix) || errors.Is(err, hexutil.ErrSyntax) {")]
demo='''package common
import "testing"
func TestZZDemo(t *testing.T) {
	if b, err := ParseHexOrString("0xzz"); err == nil { t.Fatal(b) }
}
'''
