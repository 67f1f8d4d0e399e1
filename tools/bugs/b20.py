id="quote-char-unquoted"; prop="C35"; pkg="log"
needs="a value that contains a double quote but nothing else that needs quoting"
breaks="a value with quotes is written bare, so it reads back as another value"
edits=[("log/format.go","""r <= '"' ||""","""r < '"' ||""")]
demo='''package log
import ("testing";"time";"strings")
func TestZZDemo(t *testing.T) {
	line := func(v string) string { return string(LogfmtFormat().Format(&Record{Time: time.Unix(0,0), Msg: "m", Ctx: []interface{}{"k", v}, KeyNames: RecordKeyNames{timeKey, msgKey, lvlKey, ctxKey}})) }
	if s := line(`"x"`); strings.Contains(s, ` k="x"`) { t.Fatal(s) }
}
'''
