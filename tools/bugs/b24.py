id="context-append-shared"; prop="C39"; pkg="log"
needs="two children (or records) made from one logger whose context slice has spare room, i.e. after several levels of New"
breaks="the second child's context overwrites the first one's"
edits=[("log/logger.go","""	newCtx := make([]interface{}, len(prefix)+len(normalizedSuffix))
	n := copy(newCtx, prefix)
	copy(newCtx[n:], normalizedSuffix)
	return newCtx""","""	return append(prefix, normalizedSuffix...)""")]
demo='''package log
import "testing"
func TestZZDemo(t *testing.T) {
	l := New("a", 1).New("b", 2).New("c", 3)
	x, y := l.New("d", 4), l.New("d", 5)
	var got []interface{}
	x.SetHandler(FuncHandler(func(r *Record) error { got = r.Ctx; return nil }))
	x.Info("m")
	_ = y
	if got[7] != 4 { t.Fatal(got) }
}
'''
