id="mnemonic-short-group"; prop="C22"; pkg="crypto"
needs="a group of eight digits that begins with zero"
breaks="leading zeros of a decoded group are lost"
edits=[("crypto/mnemonic.go","%08x","%x")]
demo='''package crypto
import "testing"
func TestZZDemo(t *testing.T) {
	if d := MnemonicDecode(MnemonicEncode("0000000a")); d != "0000000a" { t.Fatal(d) }
}
'''
