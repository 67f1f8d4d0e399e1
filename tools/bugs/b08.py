id="decode-big-word-boundary"; prop="C03"; pkg="common/hexutil"
needs="a bad digit in the lowest position of a word, in a number of more than one word"
breaks="only the last digit of every word but the first is checked late: a bad digit that ends a higher word decodes as garbage"
edits=[("common/hexutil/hexutil.go","""			if nib == badNibble {
				return nil, ErrSyntax
			}
			words[i] *= 16
			words[i] += big.Word(nib)
		}
		end = start
	} 
	dec""","""			if nib == badNibble && (ri+1 < end || i == 0) {
				return nil, ErrSyntax
			}
			words[i] *= 16
			words[i] += big.Word(nib)
		}
		end = start
	} 
	dec""")]
demo='''package hexutil
import "testing"
func TestZZDemo(t *testing.T) {
	if v, err := DecodeBig("0x1z0000000000000000"); err == nil { t.Fatal(v) }
}
'''
