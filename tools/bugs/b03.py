id="sponge-unaligned-block-end"; prop="C26"; pkg="crypto/sha3"
needs="an unaligned write that ends exactly at the end of a block, with nothing after it in the same call"
breaks="the state is not permuted when a short write completes the block, so the next bytes are absorbed into the old block"
edits=[("crypto/sha3/sha3.go","""		if (d.absorbed)%d.rate() == 0 {
			keccakF1600(&d.a)
		}
	}
""","""		if (d.absorbed)%d.rate() == 0 && len(p) > 0 {
			keccakF1600(&d.a)
		}
	}
""")]
demo='''package sha3
import ("testing";"bytes")
func TestZZDemo(t *testing.T) {
	m := bytes.Repeat([]byte{7}, 140)
	a, b := NewKeccak256(), NewKeccak256()
	a.Write(m)
	b.Write(m[:133]); b.Write(m[133:136]); b.Write(m[136:])
	if !bytes.Equal(a.Sum(nil), b.Sum(nil)) { t.Fatal("digest depends on the chunks") }
}
'''
