package hcom

import (
	"time"

	"flychain/common"
	zz "flychain/zzverif"
)

// Duration: the standard form of a duration, its fraction cut after three digits.
func Duration() {
	k := zz.Choice("scale", 0, zz.Param("scales", 5))
	lo, hi := 0, 999
	switch k {
	case 1:
		lo, hi = 1000, 999999
	case 2:
		lo, hi = 1000000, 999999999
	case 3:
		lo, hi = 1000000000, 59999999999
	case 4:
		lo, hi = 60*1000000000, 3600*1000000000-1
	case 5:
		lo, hi = 3600*1000000000, 100*3600*1000000000-1
	}
	d := zz.IntIn("d"+string(rune('0'+k)), lo, hi)
	if zz.Choice("neg", 0, 1) == 1 {
		d = -d
	}
	s := time.Duration(d).String()
	dot := -1
	for i := 0; i < len(s); i++ {
		if s[i] == '.' {
			dot = i
		}
	}
	want := s
	if dot >= 0 {
		end := dot + 1
		for end < len(s) && zz.And(s[end] >= '0', s[end] <= '9') {
			end++
		}
		if end-dot-1 > 3 {
			want = s[:dot+4] + s[end:]
		}
	}
	zz.Assert(zz.EqStr(common.PrettyDuration(d).String(), want), "a duration keeps at most three digits of its fraction")
	zz.Reach("end")
}
