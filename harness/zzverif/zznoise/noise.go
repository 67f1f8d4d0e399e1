// Package zznoise perturbs the schedule of native replays: the replay build calls P before every
// statement of the code under test. It must not order goroutines itself (no locks, no atomics).
package zznoise

import (
	"runtime"
	"time"
)

const maxSites = 1 << 13

var (
	mode int
	seed uint32
	hot  [4]int32
	hotN int
	wait time.Duration
	seen [maxSites]uint8
	hits uint32
)

//go:norace
func rnd() uint32 {
	seed ^= seed << 13
	seed ^= seed >> 17
	seed ^= seed << 5
	if seed == 0 {
		seed = 2463534242
	}
	return seed
}

// Plan chooses the perturbation of one run.
//
//go:norace
func Plan(s int64) {
	seed = uint32(s)*2654435761 + 12345
	for i := 0; i < 8; i++ {
		rnd()
	}
	mode = 0
	if s == 0 {
		return
	}
	var sites []int32
	for i := range seen {
		if seen[i] != 0 {
			sites = append(sites, int32(i))
		}
	}
	switch {
	case len(sites) == 0 || s%8 == 0:
		mode = 1
	case s%8 == 1:
		mode = 0
	default:
		mode = 2
		hotN = 1 + int(rnd()%3)
		for i := 0; i < hotN; i++ {
			hot[i] = sites[rnd()%uint32(len(sites))]
		}
	}
	wait = []time.Duration{50 * time.Microsecond, 200 * time.Microsecond, time.Millisecond, 3 * time.Millisecond}[rnd()%4]
}

// P is a perturbation point.
//
//go:norace
func P(id int32) {
	hits++
	if id < maxSites {
		seen[id] = 1
	}
	switch mode {
	case 1:
		switch rnd() % 16 {
		case 0:
			nap(wait)
		case 1, 2, 3:
			runtime.Gosched()
		}
	case 2:
		for i := 0; i < hotN; i++ {
			if hot[i] == id && rnd()%3 != 0 {
				nap(wait)
				return
			}
		}
	}
}

//go:norace
func nap(d time.Duration) {
	time.Sleep(d)
	hits++
}

// Quiet waits until no point has been passed for longer than any nap lasts.
//
//go:norace
func Quiet() {
	n := 0
	for i := 0; i < 400 && n < 3; i++ {
		h := hits
		time.Sleep(2 * time.Millisecond)
		if h != hits {
			n = 0
		} else {
			n++
		}
	}
}
