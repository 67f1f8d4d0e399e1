package hcom

import (
	"flychain/common"
	zz "flychain/zzverif"
)

// Size: a storage size (whole and fractional numbers of bytes) in its two printed forms.
func Size() {
	frac := zz.Choice("frac", 0, 1) * 3 // eighths of a byte
	k := zz.Choice("unit", 0, 4)
	unit := []string{"B", "KiB", "MiB", "GiB", "TiB"}[k]
	lo, hi := 0, 1024
	if k > 0 {
		lo, hi = 1<<uint(10*k)+1, 1<<uint(10*k+10)
	}
	if frac > 0 {
		lo, hi = lo*8-7, hi*8
		if k == 0 {
			lo = 0
		}
	}
	if k == 4 {
		hi = lo + 1<<52/(1+7*(frac/3))
		if max := 1 << 53; hi >= max {
			hi = max - 1
		}
	}
	n := zz.IntIn("n"+unit+[]string{"", ".8"}[frac/3], lo, hi)
	if zz.Choice("neg", 0, 1) == 1 { // never the size of anything, but printed in bytes
		if k > 0 || zz.Param("neg", 1) == 0 {
			return
		}
		zz.Assume(n > 0)
		n = -n
	}
	s := common.StorageSize(float64(n))
	if frac > 0 {
		s = common.StorageSize(float64(n) / 8)
	}
	out, tail := "", ""
	if zz.Choice("form", 0, 1) == 0 {
		out, tail = s.String(), " "+unit
	} else {
		out, tail = s.TerminalString(), unit
	}
	// n/scale to the nearest hundredth, of two equally near the even one
	scale := uint(10*k + frac)
	u := uint64(n)
	want := ""
	if n < 0 {
		want = "-"
		u = -u
	}
	u *= 100
	q := u >> scale
	if scale > 0 {
		rem, half := u&(1<<scale-1), uint64(1)<<(scale-1)
		if rem > half || rem == half && q&1 == 1 {
			q++
		}
	}
	want += zz.Hundredths(q) + tail
	zz.Assert(zz.EqStr(out, want), "a size is printed in its unit, to the nearest hundredth")
	zz.Reach("end")
}
