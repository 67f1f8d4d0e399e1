id="ctx-map-nil-value"; prop="C39"; pkg="log"
needs="a map as context with a nil value"
breaks="the pair with the nil value is left out"
edits=[("log/logger.go","""		arr[i] = k
""","""		if v == nil {
			continue
		}
		arr[i] = k
"""),("log/logger.go","""		i += 2
	}

	return arr""","""		i += 2
	}

	return arr[:i]""")]
demo='''package log
import "testing"
func TestZZDemo(t *testing.T) {
	if a := (Ctx{"a": nil}).toArray(); len(a) != 2 { t.Fatal(a) }
}
'''
