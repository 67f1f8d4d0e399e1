// Package hrlp: harnesses for rlp/rlpgen. The methods of the types below are generated by the
// repository's generator on every run (zzgen_rlp.go, never stored).
package hrlp

import (
	"errors"
	"io"
	"math/big"

	rlp "flychain/zzverif/rlp"
)

type (
	Num3   [3]byte
	MyU16  uint16
	MyByte byte
	MyStr  string
	MyBool bool
	MyU64  uint64
	MyBlob []byte
	MyInts []MyU16
)

type Inner struct {
	A uint8
	B []byte
}

type Basic struct {
	B   bool
	U8  uint8
	U16 uint16
}

type Wide struct {
	U32 uint32
	U64 uint64
}

type Texts struct {
	S string
	D []byte
	A [2]byte
	N Num3
	Z [0]byte
}

type Named struct {
	M MyU16
	Y MyByte
	S MyStr
	B MyBlob
	F MyBool
	W MyU64
}

type Skips struct {
	A      uint8
	hidden uint8
	Skip   float64 `rlp:"-"`
	B      string  `json:"b"`
}

type Ptrs struct {
	U *uint8
	S *string
	A *[2]byte
	B *[]byte
	I *Inner
}

type Lists struct {
	U []uint8 // a byte string
	V []uint16
	W MyInts
	X [][]byte
}

type Structs struct {
	I Inner
	L []Inner
	P []*Inner
	N struct{ S string }
}

type Bigs struct {
	P *big.Int
	V big.Int
	L []*big.Int
}

type Raws struct {
	R rlp.RawValue
	L []rlp.RawValue
}

type (
	NilU8 struct {
		A *uint8 `rlp:"nil"`
	}
	NilU8L struct {
		A *uint8 `rlp:"nilList"`
	}
	NilStr struct {
		A *string `rlp:"nil"`
	}
	NilArr struct {
		A *[2]byte `rlp:"nil"`
	}
	NilBytes struct {
		A *[]byte `rlp:"nil"`
	}
	NilInner struct {
		A *Inner `rlp:"nil"`
	}
	NilInnS struct {
		A *Inner `rlp:"nilString"`
	}
	NilInts struct {
		A *[]uint16 `rlp:"nil"`
	}
)

// NilMid has something after a pointer that may be nil.
type NilMid struct {
	A *uint16 `rlp:"nil"`
	B uint8
}

type Opt struct {
	A uint8
	B uint16 `rlp:"optional"`
	C string `rlp:"optional"`
	D []byte `rlp:"optional"`
}

type OptPtr struct {
	A *uint8   `rlp:"optional"`
	B *big.Int `rlp:"optional"`
	C [2]byte  `rlp:"optional"`
	D *Inner   `rlp:"optional,nil"`
}

type Small struct {
	A uint8
	B bool
}

type OptStruct struct {
	A bool               `rlp:"optional"`
	B Small              `rlp:"optional"`
	C struct{ S string } `rlp:"optional"`
	D []uint16           `rlp:"optional"`
}

// Own is encoded by its own methods: as the string "x" followed by its byte.
type Own struct{ v byte }

var errOwn = errors.New("own")

func (o *Own) EncodeRLP(w io.Writer) error {
	if o.v == 0xFF {
		return errOwn
	}
	_, err := w.Write([]byte{0x82, 'x', o.v})
	return err
}

func (o *Own) DecodeRLP(s *rlp.Stream) error {
	b, err := s.Bytes()
	if err != nil {
		return err
	}
	if len(b) != 2 || b[0] != 'x' || b[1] == 0xFF {
		return errOwn
	}
	o.v = b[1]
	return nil
}

type Owns struct {
	A *Own
	B []*Own
}

// types the generator must refuse
type (
	BadInt   struct{ A int }
	BadUint  struct{ A uint }
	BadFloat struct{ A float64 }
	BadMap   struct{ A map[string]uint8 }
	BadChan  struct{ A chan uint8 }
	BadIface struct{ A interface{} }
	BadArr   struct{ A [2]uint16 }
	BadElem  struct{ A []int32 }
	BadPtr   struct{ A *int8 }
	BadSub   struct{ A struct{ B []complex64 } }
	BadTail  struct {
		A []uint16 `rlp:"tail"`
	}
	BadTag struct {
		A uint8 `rlp:"what"`
	}
	BadNil struct {
		A uint8 `rlp:"nil"`
	}
	BadOrder struct {
		A uint8 `rlp:"optional"`
		B uint8
	}
	BadEnc  struct{ A *encOnly }
	BadDec  struct{ A *decOnly }
	BadRecv struct{ A decVal }
)

type encOnly struct{}

func (*encOnly) EncodeRLP(io.Writer) error { return nil }

type decOnly struct{}

func (*decOnly) DecodeRLP(*rlp.Stream) error { return nil }

type decVal struct{}

func (decVal) DecodeRLP(*rlp.Stream) error { return nil }
