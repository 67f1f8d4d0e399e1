id="duration-four-digits-kept"; prop="C46"; pkg="common"
needs="a duration whose fraction has exactly four digits"
breaks="a fraction of exactly four digits is left whole"
edits=[("common/format.go","len(match) > 4 {","len(match) > 5 {")]
demo='''package common
import ("testing"; "time")
func TestZZDemo(t *testing.T) {
	if s := PrettyDuration(1234500 * time.Nanosecond).String(); s != "1.234ms" { t.Fatal(s) }
}
'''
