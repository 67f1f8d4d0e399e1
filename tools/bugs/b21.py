id="terminal-pad-bytes"; prop="C36"; pkg="log"
needs="a message of fewer than 40 characters that takes more than 40 bytes, with context"
breaks="the padding is computed in bytes where the guard counts characters: a negative repeat count panics"
edits=[("log/format.go","bytes.Repeat([]byte{' '}, termMsgJust-length)","bytes.Repeat([]byte{' '}, termMsgJust-len(msg))")]
demo='''package log
import ("testing";"time";"strings")
func TestZZDemo(t *testing.T) {
	s := string(TerminalFormat(false).Format(&Record{Time: time.Unix(0,0), Msg: strings.Repeat("\\u4e16", 14), Ctx: []interface{}{"k", 1}}))
	if !strings.Contains(s, "k=1") { t.Fatal(s) }
}
'''
