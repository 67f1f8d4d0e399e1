id="match-filter-any-pair"; prop="C37"; pkg="log"
needs="a record whose matching context key is the last pair, i.e. filters that look past the first pairs"
breaks="the search stops one pair early, so a match in the last pair of three or more is not found"
edits=[("log/handler.go","		for i := 0; i < len(r.Ctx); i += 2 {\n			if r.Ctx[i] == key {","		for i := 0; i < len(r.Ctx) && i < 4; i += 2 {\n			if r.Ctx[i] == key {")]
demo='''package log
import "testing"
func TestZZDemo(t *testing.T) {
	n := 0
	h := MatchFilterHandler("c", 3, FuncHandler(func(*Record) error { n++; return nil }))
	h.Log(&Record{Ctx: []interface{}{"a", 1, "b", 2, "c", 3}})
	if n != 1 { t.Fatal(n) }
}
'''
