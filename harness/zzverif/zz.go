// Package zzverif is the harness runtime. Under the symbolic engine these functions are
// intercepted; natively they read the values of a counterexample from a replay file.
package zzverif

import (
	"bufio"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"strings"
	"sync"
	"time"

	"flychain/zzverif/zznoise"

	"golang.org/x/crypto/sha3"
)

type Failure struct{ Msg string }
type assumeFalse struct{}

var (
	mu     sync.Mutex
	vals   map[string]*big.Int
	params map[string]int
	counts map[string]int
	rng    *rand.Rand // nil: missing values are zero
	fails  []string
	reach  map[string]bool
	dead   bool
)

// Start loads replay values ("name value" per line; "param:name value" for parameters).
func Start(path string) error {
	vals, params = map[string]*big.Int{}, map[string]int{}
	f, err := os.Open(path)
	if err != nil {
		return err
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<24)
	for sc.Scan() {
		line := strings.TrimSpace(sc.Text())
		i := strings.LastIndexByte(line, ' ')
		if i < 0 {
			continue
		}
		p := [2]string{strings.TrimSpace(line[:i]), line[i+1:]}
		v, ok := new(big.Int).SetString(p[1], 10)
		if !ok {
			return fmt.Errorf("bad value %q", sc.Text())
		}
		if strings.HasPrefix(p[0], "param:") {
			params[p[0][6:]] = int(v.Int64())
		} else {
			vals[p[0]] = v
		}
	}
	return sc.Err()
}

// Run executes one harness run; seed 0 uses zero for unknown values, other seeds randomise them,
// and "mutate" additionally replaces some known values.
func Run(fn func(), seed int64, mutate int) (failures []string, assumed bool, reached map[string]bool) {
	mu.Lock()
	counts = map[string]int{}
	fails = nil
	reach = map[string]bool{}
	rng = nil
	if seed != 0 {
		rng = rand.New(rand.NewSource(seed))
	}
	mut = mutate
	mu.Unlock()
	assumed = true
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(assumeFalse); ok {
					assumed = false
					return
				}
				mu.Lock()
				fails = append(fails, fmt.Sprintf("uncaught panic: %v", r))
				mu.Unlock()
			}
		}()
		fn()
	}()
	mu.Lock()
	defer mu.Unlock()
	return fails, assumed, reach
}

var mut int

func next(label string, w int) *big.Int {
	v, _ := nextV(label, w)
	return v
}

func nextV(label string, w int) (*big.Int, bool) {
	mu.Lock()
	defer mu.Unlock()
	n := counts[label]
	counts[label] = n + 1
	v, ok := vals[fmt.Sprintf("%s#%d", label, n)]
	if ok && rng != nil && mut > 0 && rng.Intn(100) < mut {
		ok = false
	}
	if ok {
		return v, true
	}
	if rng != nil {
		b := new(big.Int).Rand(rng, new(big.Int).Lsh(big.NewInt(1), uint(w)))
		switch rng.Intn(4) {
		case 0:
			b.Rsh(b, uint(rng.Intn(w+1)))
		case 1:
			if w == 8 {
				b.SetInt64(int64("0123456789abcdefABCDEF xX=\"\n"[rng.Intn(27)]))
			}
		}
		return b, false
	}
	return new(big.Int), false
}

func Byte(l string) byte  { return byte(next(l, 8).Uint64()) }
func U16(l string) uint16 { return uint16(next(l, 16).Uint64()) }
func U32(l string) uint32 { return uint32(next(l, 32).Uint64()) }
func U64(l string) uint64 { return next(l, 64).Uint64() }
func I64(l string) int64  { return int64(next(l, 64).Uint64()) }
func Int(l string) int    { return int(next(l, 64).Uint64()) }
func I8(l string) int8    { return int8(next(l, 8).Uint64()) }
func Bool(l string) bool  { return next(l, 1).Sign() != 0 }

// Bytes returns n arbitrary bytes.
func Bytes(l string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = Byte(l)
	}
	return b
}

// Str returns an arbitrary string of n bytes.
func Str(l string, n int) string { return string(Bytes(l, n)) }

// Choice returns an arbitrary integer in [lo,hi]; the engine explores each value separately.
func Choice(l string, lo, hi int) int {
	k := int(next(l, 16).Uint64())
	if hi < lo {
		return lo
	}
	return lo + k%(hi-lo+1)
}

// IntIn returns an arbitrary integer in [lo,hi], kept symbolic.
func IntIn(l string, lo, hi int) int {
	b, ok := nextV(l, 64)
	v := int(b.Uint64())
	if v < lo || v > hi {
		if !ok && rng == nil && lo > 0 && hi >= lo {
			return lo
		}
		if rng != nil && hi >= lo {
			d := uint64(hi-lo) + 1
			if d == 0 {
				return v
			}
			return lo + int(uint64(v)%d)
		}
		Assume(false)
	}
	return v
}

// Param is a bound chosen by the check.
func Param(name string, def int) int {
	if v, ok := params[name]; ok {
		return v
	}
	return def
}

func Assume(b bool) {
	if !b {
		panic(assumeFalse{})
	}
}

func Assert(b bool, msg string) {
	if !b {
		mu.Lock()
		fails = append(fails, "assertion failed: "+msg)
		mu.Unlock()
	}
}

func Reach(l string) {
	mu.Lock()
	reach[l] = true
	mu.Unlock()
}

func And(bs ...bool) bool {
	for _, b := range bs {
		if !b {
			return false
		}
	}
	return true
}
func Or(bs ...bool) bool {
	for _, b := range bs {
		if b {
			return true
		}
	}
	return false
}
func Implies(a, b bool) bool { return !a || b }
func IteU64(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}
func IteByte(c bool, a, b byte) byte {
	if c {
		return a
	}
	return b
}
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
func EqStr(a, b string) bool   { return a == b }
func EqBytes(a, b []byte) bool { return string(a) == string(b) }

// Quiesce waits until no other goroutine can make progress.
func Quiesce() {
	zznoise.Quiet()
}

// Yield is a scheduling point.
func Yield() {
	mu.Lock()
	r := rng
	k := 0
	if r != nil {
		k = r.Intn(4)
	}
	mu.Unlock()
	if k > 0 {
		time.Sleep(time.Duration(k*k*50) * time.Microsecond)
	}
}

// Atomic protects the harness's own bookkeeping; it is no scheduling point.
type Atomic struct{ m sync.Mutex }

func (a *Atomic) Lock()   { a.m.Lock() }
func (a *Atomic) Unlock() { a.m.Unlock() }

// Symbolic reports whether the harness runs under the engine.
func Symbolic() bool { return false }

func Unsupported(msg string) { Assume(false) }

// Keccak is the Keccak-256 hash: an uninterpreted function under the engine.
func Keccak(b []byte) [32]byte { return keccakUF(b) }

func keccakUF(b []byte) (r [32]byte) {
	h := sha3.NewLegacyKeccak256()
	h.Write(b)
	h.Sum(r[:0])
	return
}

// ExpectExit declares that from here on the process may end with the given status.
func ExpectExit(code int) { fmt.Printf("ZZ: EXPECT-EXIT %d\n", code) }

// Advance lets d pass on a clock that otherwise stands still (engine with frozenclock=1; really natively).
func Advance(d time.Duration) { time.Sleep(d) }

// Settle waits until nothing moves any more: at most d natively, where timers take real time.
func Settle(d time.Duration) { time.Sleep(d) }

// TimerDuration returns the duration passed to the i-th timer created (engine only).
func TimerDuration(i int) int64 { return Duration(i) }
func Duration(i int) int64      { return -1 }

// Main is the native replay driver.
func Main(fns map[string]func()) {
	fn := fns[os.Getenv("ZZ_FN")]
	if fn == nil {
		fmt.Println("ZZ: ERROR no harness", os.Getenv("ZZ_FN"))
		return
	}
	if err := Start(os.Getenv("ZZ_REPLAY")); err != nil {
		fmt.Println("ZZ: ERROR", err)
		return
	}
	tries, mutate, seed := 1, 0, 1
	fmt.Sscan(os.Getenv("ZZ_TRIES"), &tries)
	fmt.Sscan(os.Getenv("ZZ_MUT"), &mutate)
	fmt.Sscan(os.Getenv("ZZ_SEED"), &seed)
	start := time.Now()
	valid := 0
	for i := 0; i < tries && time.Since(start) < 60*time.Second; i++ {
		s := int64(0)
		if i > 0 || mutate > 0 {
			s = int64(seed)*1000003 + int64(i)
		}
		zznoise.Plan(s)
		type res struct {
			f []string
			a bool
		}
		ch := make(chan res, 1)
		go func() {
			f, a, _ := Run(fn, s, mutate)
			ch <- res{f, a}
		}()
		select {
		case r := <-ch:
			if len(r.f) > 0 {
				fmt.Printf("ZZ: FAIL %s (try %d)\n", strings.ReplaceAll(r.f[0], "\n", " "), i)
				return
			}
			if r.a {
				valid++
			}
		case <-time.After(8 * time.Second):
			mu.Lock()
			f := fails
			mu.Unlock()
			if len(f) > 0 {
				fmt.Printf("ZZ: FAIL %s\n", f[0])
			} else {
				fmt.Printf("ZZ: FAIL the harness does not terminate: operations block forever (try %d)\n", i)
			}
			return
		}
	}
	if valid == 0 {
		fmt.Println("ZZ: ASSUME-FALSE")
		return
	}
	fmt.Println("ZZ: OK")
}
