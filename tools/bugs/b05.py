id="fixed-partial-write"; prop="C04"; pkg="common/hexutil"
needs="an unprefixed text of the right length with a bad digit after valid ones"
breaks="the destination is overwritten up to the bad digit although decoding fails"
edits=[("common/hexutil/json.go","""	raw, err := checkText(input, false)
	if err != nil {
		return err
	}
	if len(raw)/2 != len(out) {
		return fmt.Errorf("hex string has length %d, want %d for %s", len(raw), len(out)*2, typname)
	}
	// 在修改之前预先验证语法。
	for _, b := range raw {
		if decodeNibble(b) == badNibble {
			return ErrSyntax
		}
	}
	hex.Decode(out, raw)
	return nil
""","""	raw, err := checkText(input, false)
	if err != nil {
		return err
	}
	if len(raw)/2 != len(out) {
		return fmt.Errorf("hex string has length %d, want %d for %s", len(raw), len(out)*2, typname)
	}
	// 在修改之前预先验证语法。
	for i := 0; i < len(raw); i += 2 {
		if decodeNibble(raw[i]) == badNibble {
			return ErrSyntax
		}
	}
	if _, err := hex.Decode(out, raw); err != nil {
		return ErrSyntax
	}
	return nil
""")]
demo='''package hexutil
import "testing"
func TestZZDemo(t *testing.T) {
	out := []byte{1, 2}
	if err := UnmarshalFixedUnprefixedText("x", []byte("ff0g"), out); err == nil || out[0] != 1 { t.Fatal(err, out) }
}
'''
