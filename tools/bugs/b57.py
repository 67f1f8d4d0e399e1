id="hex-lone-quote"; prop="C01"; pkg="common/hexutil"
needs="the JSON form is asked to decode a lone quote"
breaks="the one quote is taken for both ends of a string, and the decoder panics instead of reporting an error"
edits=[("common/hexutil/json.go","	return len(input) >= 2 && input[0] == '\"' && (input[len(input)-1] == '\"')","	return len(input) > 0 && input[0] == '\"' && (input[len(input)-1] == '\"')")]
demo='''package hexutil
import "testing"
func TestZZDemo(t *testing.T) {
	var b Bytes
	if b.UnmarshalJSON([]byte{'"'}) == nil { t.Fatal() }
}
'''
