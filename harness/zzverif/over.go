package zzverif

import (
	"context"
	"fmt"
	"hash"
	"strconv"
	"strings"
	"time"
)

// Replacements for functions without interpretable Go source.

func xIndexByte(b []byte, c byte) int {
	for i, x := range b {
		if x == c {
			return i
		}
	}
	return -1
}

func xIndexByteString(b string, c byte) int {
	for i := 0; i < len(b); i++ {
		if b[i] == c {
			return i
		}
	}
	return -1
}

func xLastIndexByte(b []byte, c byte) int {
	for i := len(b) - 1; i >= 0; i-- {
		if b[i] == c {
			return i
		}
	}
	return -1
}

func xLastIndexByteString(b string, c byte) int {
	for i := len(b) - 1; i >= 0; i-- {
		if b[i] == c {
			return i
		}
	}
	return -1
}

func xCount(b []byte, c byte) int {
	n := 0
	for _, x := range b {
		if x == c {
			n++
		}
	}
	return n
}

func xCountString(b string, c byte) int {
	n := 0
	for i := 0; i < len(b); i++ {
		if b[i] == c {
			n++
		}
	}
	return n
}

func xCompare(a, b []byte) int { return xCompareString(string(a), string(b)) }

func xCompareString(a, b string) int {
	if a < b {
		return -1
	}
	if a > b {
		return 1
	}
	return 0
}

func xIndex(s, sep []byte) int { return xIndexString(string(s), string(sep)) }

func xIndexString(s, sep string) int {
	n := len(sep)
	for i := 0; i+n <= len(s); i++ {
		if s[i:i+n] == sep {
			return i
		}
	}
	return -1
}

func xMakeNoZero(n int) []byte { return make([]byte, n) }
func xClone(s string) string   { return s }

type xCtx struct {
	parent context.Context
	done   chan struct{}
	err    error
}

func (c *xCtx) Deadline() (t time.Time, ok bool) { return }
func (c *xCtx) Done() <-chan struct{}            { return c.done }
func (c *xCtx) Err() error                       { return c.err }
func (c *xCtx) Value(k interface{}) interface{}  { return nil }

type xErr struct{ s string }

func (e *xErr) Error() string { return e.s }

func xWithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	c := &xCtx{parent: parent, done: make(chan struct{})}
	return c, func() {
		if c.err == nil {
			c.err = &xErr{"context canceled"}
			close(c.done)
		}
	}
}

// xAfterFunc is time.AfterFunc: a timer whose firing starts f in its own goroutine.
func xAfterFunc(d time.Duration, f func()) *time.Timer {
	t := time.NewTimer(d)
	go func() {
		for {
			<-t.C
			go f()
		}
	}()
	return t
}

// xAppendDyadic is strconv.AppendFloat of n / 2^sh, rounded to even.
func xAppendDyadic(dst []byte, n int64, sh int, format byte, prec, bits int) []byte {
	if format != 'f' || prec < 0 || prec > 3 || bits != 64 {
		Unsupported("this form of a float")
	}
	u := uint64(n)
	if n < 0 {
		dst = append(dst, '-')
		u = -u
	}
	for i := 0; i < prec; i++ {
		u *= 10
	}
	q := u >> uint(sh)
	rem := u & (1<<uint(sh) - 1)
	if sh > 0 {
		half := uint64(1) << uint(sh-1)
		if rem > half || rem == half && q&1 == 1 {
			q++
		}
	}
	return append(dst, xDecimal(q, prec)...)
}

// Hundredths is q/100 in decimal, with two digits after the point.
func Hundredths(q uint64) string { return xDecimal(q, 2) }

// Thousandths is q/1000 in decimal, with three digits after the point.
func Thousandths(q uint64) string { return xDecimal(q, 3) }

func xDecimal(q uint64, prec int) string {
	k, p := 0, uint64(1) // q has more than k digits, p = 10^k
	for k < prec || k < 19 && q >= p*10 {
		k, p = k+1, p*10
	}
	var b []byte
	for ; k >= 0; k, p = k-1, p/10 {
		b = append(b, byte('0'+q/p%10))
		if k == prec && k > 0 {
			b = append(b, '.')
		}
	}
	return string(b)
}

func xFormatDyadic(n int64, sh int, format byte, prec, bits int) string {
	return string(xAppendDyadic(nil, n, sh, format, prec, bits))
}

func xLen(x interface{}) int        { return 0 }
func xSwap(x interface{}, i, j int) {}

func xSortSlice(x interface{}, less func(i, j int) bool) {
	n := xLen(x)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			xSwap(x, j, j-1)
		}
	}
}

// xErrorf builds the message only when it is asked for.
type xFmtErr struct {
	format string
	args   []interface{}
	wrap   error
}

func (e *xFmtErr) Error() string {
	return fmt.Sprintf(strings.ReplaceAll(e.format, "%w", "%v"), e.args...)
}
func (e *xFmtErr) Unwrap() error { return e.wrap }

func xErrorf(format string, args ...interface{}) error {
	e := &xFmtErr{format: format, args: args}
	if xIndexString(format, "%w") >= 0 {
		for _, a := range args {
			if w, ok := a.(error); ok {
				e.wrap = w
			}
		}
	}
	return e
}

// xKeccak is golang.org/x/crypto/sha3's legacy Keccak-256 with the permutation abstracted.
type xKeccak struct{ buf []byte }

func (k *xKeccak) Write(p []byte) (int, error) { k.buf = append(k.buf, p...); return len(p), nil }
func (k *xKeccak) Sum(b []byte) []byte {
	h := keccakUF(k.buf)
	return append(b, h[:]...)
}
func (k *xKeccak) Reset()         { k.buf = nil }
func (k *xKeccak) Size() int      { return 32 }
func (k *xKeccak) BlockSize() int { return 136 }
func (k *xKeccak) Read(p []byte) (int, error) {
	h := keccakUF(k.buf)
	return copy(p, h[:]), nil
}

func xNewLegacyKeccak256() hash.Hash { return &xKeccak{} }

var _ = fmt.Sprint

type xJSONMarshaler interface{ MarshalJSON() ([]byte, error) }

// xJSONMarshal models encoding/json.Marshal for texts, integers, lists of texts, maps by text and
// self-marshalling values.
func xJSONMarshal(v interface{}) ([]byte, error) { return xJSONEnc(v, "", "", false) }

func xJSONMarshalIndent(v interface{}, prefix, indent string) ([]byte, error) {
	return xJSONEnc(v, prefix, indent, true)
}

// xJSONList puts elements between brackets.
func xJSONList(es [][]byte, open, end byte, nl, indent string, pretty bool) []byte {
	out := []byte{open}
	for i, e := range es {
		if i > 0 {
			out = append(out, ',')
		}
		if pretty {
			out = append(append(out, nl...), indent...)
		}
		out = append(out, e...)
	}
	if pretty && len(es) > 0 {
		out = append(out, nl...)
	}
	return append(out, end)
}

func xJSONMap(keys []string, get func(string) interface{}, prefix, indent string, pretty bool) ([]byte, error) {
	for i := range keys {
		for j := i; j > 0 && keys[j] < keys[j-1]; j-- {
			keys[j], keys[j-1] = keys[j-1], keys[j]
		}
	}
	var es [][]byte
	for _, k := range keys {
		kb, err := xJSONEnc(k, "", "", false)
		if err != nil {
			return nil, err
		}
		kb = append(kb, ':')
		if pretty {
			kb = append(kb, ' ')
		}
		vb, err := xJSONEnc(get(k), prefix+indent, indent, pretty)
		if err != nil {
			return nil, err
		}
		es = append(es, append(kb, vb...))
	}
	return xJSONList(es, '{', '}', "\n"+prefix, indent, pretty), nil
}

func xJSONEnc(v interface{}, prefix, indent string, pretty bool) ([]byte, error) {
	switch x := v.(type) {
	case nil:
		return []byte("null"), nil
	case bool:
		return []byte(strconv.FormatBool(x)), nil
	case int:
		return []byte(strconv.FormatInt(int64(x), 10)), nil
	case int8:
		return []byte(strconv.FormatInt(int64(x), 10)), nil
	case int16:
		return []byte(strconv.FormatInt(int64(x), 10)), nil
	case int32:
		return []byte(strconv.FormatInt(int64(x), 10)), nil
	case int64:
		return []byte(strconv.FormatInt(x, 10)), nil
	case uint:
		return []byte(strconv.FormatUint(uint64(x), 10)), nil
	case uint8:
		return []byte(strconv.FormatUint(uint64(x), 10)), nil
	case uint16:
		return []byte(strconv.FormatUint(uint64(x), 10)), nil
	case uint32:
		return []byte(strconv.FormatUint(uint64(x), 10)), nil
	case uint64:
		return []byte(strconv.FormatUint(x, 10)), nil
	case []string:
		if x == nil {
			return []byte("null"), nil
		}
		var es [][]byte
		for _, e := range x {
			b, err := xJSONEnc(e, "", "", false)
			if err != nil {
				return nil, err
			}
			es = append(es, b)
		}
		return xJSONList(es, '[', ']', "\n"+prefix, indent, pretty), nil
	case map[string]string:
		var ks []string
		for k := range x {
			ks = append(ks, k)
		}
		return xJSONMap(ks, func(k string) interface{} { return x[k] }, prefix, indent, pretty)
	case map[string]interface{}:
		var ks []string
		for k := range x {
			ks = append(ks, k)
		}
		return xJSONMap(ks, func(k string) interface{} { return x[k] }, prefix, indent, pretty)
	case string:
		out := []byte{'"'}
		const hexd = "0123456789abcdef"
		for i := 0; i < len(x); i++ {
			c := x[i]
			switch {
			case c >= 0x80:
				Unsupported("json.Marshal of non-ASCII text")
			case c == '"' || c == '\\':
				out = append(out, '\\', c)
			case c == '\n':
				out = append(out, '\\', 'n')
			case c == '\r':
				out = append(out, '\\', 'r')
			case c == '\t':
				out = append(out, '\\', 't')
			case c == '\b':
				out = append(out, '\\', 'b')
			case c == '\f':
				out = append(out, '\\', 'f')
			case c < 0x20 || c == '<' || c == '>' || c == '&':
				out = append(out, '\\', 'u', '0', '0', hexd[c>>4], hexd[c&15])
			default:
				out = append(out, c)
			}
		}
		return append(out, '"'), nil
	case xJSONMarshaler:
		return x.MarshalJSON()
	}
	Unsupported("json.Marshal of this type")
	return nil, nil
}

// xJSONUnmarshal models encoding/json.Unmarshal of a string token into a *string.
func xJSONUnmarshal(data []byte, v interface{}) error {
	p, ok := v.(*string)
	if !ok {
		Unsupported("json.Unmarshal into this type")
	}
	if len(data) < 2 || data[0] != '"' || data[len(data)-1] != '"' {
		Unsupported("json.Unmarshal of a non-string token")
	}
	in := data[1 : len(data)-1]
	for _, c := range in {
		if c < 0x20 || c == '"' || c == '\\' || c >= 0x80 {
			Unsupported("json.Unmarshal of an escaped string")
		}
	}
	*p = string(in)
	return nil
}
