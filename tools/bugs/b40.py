id="pretty-age-calendar-year"; prop="C14"; pkg="common"
needs="an age between 360 and 365 days, or a larger one near a boundary"
breaks="a year is no longer twelve of the months the same list uses: ages read as twelve months"
edits=[("common/format.go","{12 * 30 * 24 * time.Hour, \"y\"}","{365 * 24 * time.Hour, \"y\"}")]
demo='''package common
import ("testing";"time";"strings")
func TestZZDemo(t *testing.T) {
	s := PrettyAge(time.Now().Add(-362*24*time.Hour)).String()
	if !strings.HasPrefix(s, "1y") { t.Fatal(s) }
}
'''
