id="json-uint16-text"; prop="C43"; pkg="log"
needs="a context value that is a uint16"
breaks="the number is written as a JSON text"
edits=[("log/format.go","	case int, int8, int16, int32, int64, float32, float64, uint, uint8, uint16, uint32, uint64, string:","	case int, int8, int16, int32, int64, float32, float64, uint, uint8, uint32, uint64, string:")]
demo='''package log
import ("testing";"strings")
func TestZZDemo(t *testing.T) {
	r := &Record{Ctx: []interface{}{"k", uint16(7)}, KeyNames: RecordKeyNames{Time: "t", Lvl: "l", Msg: "m", Ctx: "c"}}
	if s := string(JSONFormat().Format(r)); !strings.Contains(s, `"k":7`) { t.Fatal(s) }
}
'''
