id="uint64-wrap-undetected"; prop="C02"; pkg="common/hexutil"
needs="a number of more than 16 digits whose wrapped value is larger than the value before the last digit"
breaks="overflow is looked for only by a decrease of the value, which some overflows do not cause"
edits=[("common/hexutil/json.go","""	if len(raw) > 16 {
		return ErrUint64Range
	}
	var dec uint64""","""	var dec uint64"""),
("common/hexutil/json.go","""			return ErrSyntax
		}
		dec *= 16
		dec += nib
	}
	*b = Uint64(dec)""","""			return ErrSyntax
		}
		next := dec*16 + nib
		if dec != 0 && next <= dec {
			return ErrUint64Range
		}
		dec = next
	}
	*b = Uint64(dec)""")]
demo='''package hexutil
import "testing"
func TestZZDemo(t *testing.T) {
	var v Uint64
	if err := v.UnmarshalText([]byte("0x12345678123456780")); err == nil { t.Fatal(v) }
}
'''
