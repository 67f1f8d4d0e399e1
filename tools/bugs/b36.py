id="scan-copies-before-check"; prop="C09"; pkg="common"
needs="a database value of the wrong length scanned into a non-zero address"
breaks="a rejected value has already overwritten the address"
edits=[("common/types.go","""	if len(srcB) != AddressLength {
		return fmt.Errorf("can't scan []byte of len %d into Address, want %d", len(srcB), AddressLength)
	}
	copy(a[:], srcB)
	return nil""","""	if n := copy(a[:], srcB); n != AddressLength || len(srcB) > n {
		return fmt.Errorf("can't scan []byte of len %d into Address, want %d", len(srcB), AddressLength)
	}
	return nil""")]
demo='''package common
import "testing"
func TestZZDemo(t *testing.T) {
	a := Address{1, 2, 3}
	if err := a.Scan([]byte{9}); err == nil { t.Fatal() }
	if a[0] != 1 { t.Fatal(a) }
}
'''
