id="hexchar-case-fold"; prop="C12"; pkg="common"
needs="a control character 0x10 to 0x19 in the text"
breaks="the digits are recognised after setting the lower-case bit, which turns control characters into digits"
edits=[("common/bytes.go","	return ('0' <= c && c <= '9') || ('a' <= c && c <= 'f') || ('A' <= c && c <= 'F')","	c |= 0x20\n	return ('0' <= c && c <= '9') || ('a' <= c && c <= 'f')")]
demo='''package common
import ("testing";"strings")
func TestZZDemo(t *testing.T) {
	if IsHexAddress(strings.Repeat("a", 39) + "\\x11") { t.Fatal() }
}
'''
