id="bytes-decode-in-place"; prop="C05"; pkg="common/hexutil"
needs="a value that already holds at least as many bytes, and a text whose bad digit is not the first"
breaks="the decoder reuses the buffer of the old value, so a failed decode changes it"
edits=[("common/hexutil/json.go","""	dec := make([]byte, len(raw)/2)
	if _, err = hex.Decode(dec, raw); err != nil {""","""	dec := (*b)[:0]
	if n := len(raw) / 2; cap(dec) >= n {
		dec = dec[:n]
	} else {
		dec = make([]byte, n)
	}
	if _, err = hex.Decode(dec, raw); err != nil {""")]
demo='''package hexutil
import "testing"
func TestZZDemo(t *testing.T) {
	b := Bytes{1, 2, 3}
	if err := b.UnmarshalText([]byte("0xaaaaxx")); err == nil { t.Fatal() }
	if b[0] != 1 || b[1] != 2 || b[2] != 3 { t.Fatal(b) }
}
'''
