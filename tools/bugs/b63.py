id="size-terminal-million"; prop="C45"; pkg="common"
needs="the console form of a size between a million bytes and 1 MiB"
breaks="such sizes are shown as a fraction of a MiB"
edits=[("common/size.go","""		return fmt.Sprintf("%.2fGiB", s/1073741824)
	} else if s > 1048576 {""","""		return fmt.Sprintf("%.2fGiB", s/1073741824)
	} else if s > 1000000 {""")]
demo='''package common
import "testing"
func TestZZDemo(t *testing.T) {
	if s := StorageSize(1024*1000).TerminalString(); s != "1000.00KiB" { t.Fatal(s) }
}
'''
