id="checksum-skips-leading-zeros"; prop="C10"; pkg="common"
needs="an address whose first hex digit is zero"
breaks="the checksum is computed over the address without its leading zeros"
edits=[("common/types.go","	sha.Write(buf[2:])\n","	sha.Write(bytes.TrimLeft(buf[2:], \"0\"))\n")]
demo='''package common
import "testing"
func TestZZDemo(t *testing.T) {
	if s := HexToAddress("0x00000000219ab540356cbb839cbe05303d7705fa").Hex(); s != "0x00000000219ab540356cBB839Cbe05303d7705Fa" { t.Fatal(s) }
}
'''
