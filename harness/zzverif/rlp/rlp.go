// Package rlp is the encoding runtime that generated code is checked against. The repository holds
// the code generator but not the rlp package itself; this one is written from the definition of RLP
// and from the names the generator uses.
package rlp

import (
	"errors"
	"io"
	"math/big"
)

type Kind int8

const (
	Byte Kind = iota
	String
	List
)

type RawValue []byte

type Encoder interface{ EncodeRLP(io.Writer) error }

type Decoder interface{ DecodeRLP(*Stream) error }

var (
	EmptyString         = []byte{0x80}
	EmptyList           = []byte{0xC0}
	ErrNegativeBigInt   = errors.New("rlp: cannot encode negative big.Int")
	ErrExpectedString   = errors.New("rlp: expected String or Byte")
	ErrExpectedList     = errors.New("rlp: expected List")
	ErrCanonInt         = errors.New("rlp: non-canonical integer format")
	ErrCanonSize        = errors.New("rlp: non-canonical size information")
	ErrElemTooLarge     = errors.New("rlp: element is larger than containing list")
	ErrValueTooLarge    = errors.New("rlp: value size exceeds available input length")
	ErrMoreThanOneValue = errors.New("rlp: input contains more than one value")
	EOL                 = errors.New("rlp: end of list")
	errUintOverflow     = errors.New("rlp: uint overflow")
	errNotAtEOL         = errors.New("rlp: call of ListEnd not positioned at EOL")
	errNotInList        = errors.New("rlp: call of ListEnd outside of any list")
	errBool             = errors.New("rlp: invalid boolean value")
	errWrongSize        = errors.New("rlp: input string of wrong size")
	errUnbalanced       = errors.New("rlp: list markers do not match")
)

// Head appends the header of a string (base 0x80) or list (base 0xC0) of n bytes.
func Head(b []byte, base byte, n int) []byte {
	if n < 56 {
		return append(b, base+byte(n))
	}
	l := Num(uint64(n))
	return append(append(b, base+55+byte(len(l))), l...)
}

// Num is the shortest big-endian form of v.
func Num(v uint64) []byte {
	switch {
	case v == 0:
		return nil
	case v < 1<<8:
		return []byte{byte(v)}
	case v < 1<<16:
		return []byte{byte(v >> 8), byte(v)}
	case v < 1<<24:
		return []byte{byte(v >> 16), byte(v >> 8), byte(v)}
	case v < 1<<32:
		return []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}
	case v < 1<<40:
		return []byte{byte(v >> 32), byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}
	case v < 1<<48:
		return []byte{byte(v >> 40), byte(v >> 32), byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}
	case v < 1<<56:
		return []byte{byte(v >> 48), byte(v >> 40), byte(v >> 32), byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}
	}
	return []byte{byte(v >> 56), byte(v >> 48), byte(v >> 40), byte(v >> 32), byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}
}

// Str appends a string.
func Str(b, s []byte) []byte {
	if len(s) == 1 && s[0] < 0x80 {
		return append(b, s[0])
	}
	return append(Head(b, 0x80, len(s)), s...)
}

type encBuf struct {
	w     io.Writer
	stack [][]byte
	err   error
}

// EncoderBuffer collects an encoding.
type EncoderBuffer struct{ b *encBuf }

func NewEncoderBuffer(w io.Writer) EncoderBuffer {
	return EncoderBuffer{&encBuf{w: w, stack: [][]byte{nil}}}
}

func (e EncoderBuffer) top() *[]byte { return &e.b.stack[len(e.b.stack)-1] }

func (e EncoderBuffer) Write(p []byte) (int, error) {
	*e.top() = append(*e.top(), p...)
	return len(p), nil
}
func (e EncoderBuffer) WriteBytes(p []byte)  { *e.top() = Str(*e.top(), p) }
func (e EncoderBuffer) WriteString(s string) { e.WriteBytes([]byte(s)) }
func (e EncoderBuffer) WriteUint64(v uint64) { e.WriteBytes(Num(v)) }
func (e EncoderBuffer) WriteBool(b bool) {
	if b {
		e.Write([]byte{1})
	} else {
		e.Write([]byte{0x80})
	}
}
func (e EncoderBuffer) WriteBigInt(v *big.Int) { e.WriteBytes(v.Bytes()) }
func (e EncoderBuffer) List() int {
	e.b.stack = append(e.b.stack, nil)
	return len(e.b.stack) - 1
}
func (e EncoderBuffer) ListEnd(i int) {
	if i != len(e.b.stack)-1 || i == 0 {
		e.b.err = errUnbalanced
		return
	}
	c := e.b.stack[i]
	e.b.stack = e.b.stack[:i]
	*e.top() = append(Head(*e.top(), 0xC0, len(c)), c...)
}
func (e EncoderBuffer) Flush() error {
	if len(e.b.stack) != 1 && e.b.err == nil {
		e.b.err = errUnbalanced
	}
	if e.b.err != nil {
		return e.b.err
	}
	_, err := e.b.w.Write(e.b.stack[0])
	return err
}

// Stream reads an encoding. Kind reads the header of the next value and keeps it until a method
// takes the value.
type Stream struct {
	in    []byte
	pos   int
	ends  []int // bytes left in each open list
	have  bool  // a header was read
	kind  Kind
	size  int
	first byte
	err   error
}

func NewStream(in []byte) *Stream { return &Stream{in: in} }

// Rest is the number of bytes not yet read.
func (s *Stream) Rest() int { return len(s.in) - s.pos }

func (s *Stream) left() int {
	if len(s.ends) > 0 {
		return s.ends[len(s.ends)-1]
	}
	return len(s.in) - s.pos
}

func (s *Stream) take(n int) []byte {
	b := s.in[s.pos : s.pos+n]
	s.pos += n
	if len(s.ends) > 0 {
		s.ends[len(s.ends)-1] -= n
	}
	return b
}

func (s *Stream) readKind() (Kind, int, error) {
	if s.left() == 0 {
		return 0, 0, io.EOF
	}
	b := s.take(1)[0]
	s.first = 0
	switch {
	case b < 0x80:
		s.first = b
		return Byte, 0, nil
	case b < 0xB8:
		return String, int(b - 0x80), nil
	case b < 0xC0:
		n, err := s.length(int(b - 0xB7))
		return String, n, err
	case b < 0xF8:
		return List, int(b - 0xC0), nil
	}
	n, err := s.length(int(b - 0xF7))
	return List, n, err
}

func (s *Stream) length(l int) (int, error) {
	if l > s.left() {
		return 0, ErrValueTooLarge
	}
	b := s.take(l)
	if b[0] == 0 {
		return 0, ErrCanonSize
	}
	if l > 2 {
		return 0, ErrValueTooLarge // no input here is that long
	}
	n := 0
	for _, x := range b {
		n = n<<8 | int(x)
	}
	if n < 56 {
		return 0, ErrCanonSize
	}
	return n, nil
}

func (s *Stream) next() (Kind, int, error) {
	if s.have {
		return s.kind, s.size, s.err
	}
	if len(s.ends) > 0 && s.left() == 0 {
		return 0, 0, EOL
	}
	s.kind, s.size, s.err = s.readKind()
	s.have = true
	if s.err == nil && s.size > s.left() {
		s.err = ErrValueTooLarge
		if len(s.ends) > 0 {
			s.err = ErrElemTooLarge
		}
	}
	return s.kind, s.size, s.err
}

// Kind tells what comes next; the size of a single byte is zero.
func (s *Stream) Kind() (Kind, uint64, error) {
	k, n, err := s.next()
	return k, uint64(n), err
}

func (s *Stream) str() ([]byte, error) {
	k, n, err := s.next()
	if err != nil {
		return nil, err
	}
	switch k {
	case Byte:
		s.have = false
		return []byte{s.first}, nil
	case List:
		return nil, ErrExpectedString
	}
	b := s.take(n)
	s.have = false
	if n == 1 && b[0] < 0x80 {
		return nil, ErrCanonSize
	}
	return b, nil
}

func (s *Stream) Bytes() ([]byte, error) {
	b, err := s.str()
	if err != nil {
		return nil, err
	}
	return append([]byte{}, b...), nil
}

func (s *Stream) String() (string, error) {
	b, err := s.str()
	return string(b), err
}

func (s *Stream) ReadBytes(dst []byte) error {
	b, err := s.str()
	if err != nil {
		return err
	}
	if len(b) != len(dst) {
		return errWrongSize
	}
	copy(dst, b)
	return nil
}

func (s *Stream) Raw() ([]byte, error) {
	k, n, err := s.next()
	if err != nil {
		return nil, err
	}
	s.have = false
	switch k {
	case Byte:
		return []byte{s.first}, nil
	case String:
		return append(Head(nil, 0x80, n), s.take(n)...), nil
	}
	return append(Head(nil, 0xC0, n), s.take(n)...), nil
}

func (s *Stream) uint(max int) (uint64, error) {
	b, err := s.str()
	if err != nil {
		return 0, err
	}
	if len(b) > max {
		return 0, errUintOverflow
	}
	if len(b) > 0 && b[0] == 0 {
		return 0, ErrCanonInt
	}
	v := uint64(0)
	for _, x := range b {
		v = v<<8 | uint64(x)
	}
	return v, nil
}

func (s *Stream) Uint64() (uint64, error) { return s.uint(8) }
func (s *Stream) Uint32() (uint32, error) { v, err := s.uint(4); return uint32(v), err }
func (s *Stream) Uint16() (uint16, error) { v, err := s.uint(2); return uint16(v), err }
func (s *Stream) Uint8() (uint8, error)   { v, err := s.uint(1); return uint8(v), err }
func (s *Stream) Bool() (bool, error) {
	v, err := s.uint(1)
	if err != nil {
		return false, err
	}
	if v > 1 {
		return false, errBool
	}
	return v == 1, nil
}

func (s *Stream) BigInt() (*big.Int, error) {
	b, err := s.str()
	if err != nil {
		return nil, err
	}
	if len(b) > 0 && b[0] == 0 {
		return nil, ErrCanonInt
	}
	return new(big.Int).SetBytes(b), nil
}

func (s *Stream) List() (uint64, error) {
	k, n, err := s.next()
	if err != nil {
		return 0, err
	}
	if k != List {
		return 0, ErrExpectedList
	}
	if len(s.ends) > 0 {
		s.ends[len(s.ends)-1] -= n
	}
	s.ends = append(s.ends, n)
	s.have = false
	return uint64(n), nil
}

func (s *Stream) ListEnd() error {
	if len(s.ends) == 0 {
		return errNotInList
	}
	if s.left() > 0 {
		return errNotAtEOL
	}
	s.ends = s.ends[:len(s.ends)-1]
	s.have = false
	return nil
}

func (s *Stream) MoreDataInList() bool { return len(s.ends) > 0 && s.left() > 0 }
