// Package zzverifrlp: harnesses for rlp/internal/rlpstruct.
package zzverifrlp

import (
	"reflect"

	"flychain/rlp/internal/rlpstruct"
	zz "flychain/zzverif"
)

// typ gives an arbitrary type of at most depth levels.
func typ(depth int) rlpstruct.Type {
	t := rlpstruct.Type{Name: "T", IsEncoder: zz.Bool("encoder"), IsDecoder: zz.Bool("decoder"), Kind: reflect.Kind(zz.IntIn("kind", int(reflect.Bool), int(reflect.UnsafePointer)))}
	if depth > 0 {
		e := typ(depth - 1)
		t.Elem = &e
	} else {
		zz.Assume(t.Kind != reflect.Slice && t.Kind != reflect.Array && t.Kind != reflect.Ptr)
	}
	return t
}

// nilOf tells how a nil pointer to t is written: texts, numbers and booleans are strings, the rest lists.
func nilOf(t *rlpstruct.Type) rlpstruct.NilKind {
	switch t.Kind {
	case reflect.Bool, reflect.String, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return rlpstruct.NilKindString
	case reflect.Slice, reflect.Array:
		if t.Elem.Kind == reflect.Uint8 && !t.Elem.IsEncoder {
			return rlpstruct.NilKindString
		}
	}
	return rlpstruct.NilKindList
}

// Nil: the value a nil pointer is written as.
func Nil() {
	t := typ(zz.Param("depth", 2))
	zz.Assert(t.DefaultNilValue() == nilOf(&t), "a nil pointer to a text, number, boolean or byte string is an empty string, to anything else an empty list")
	zz.Reach("end")
}

var words = []string{"", "-", "nil", "nilString", "nilList", "optional", "tail"}

// word gives an arbitrary word of a tag.
func word(n int) string {
	k := zz.Choice("word", 0, len(words)+1)
	switch {
	case k < len(words):
		return words[k]
	case k == len(words):
		return " " + words[zz.Choice("padded", 2, len(words)-1)] + "\t"
	}
	s := zz.Str("text", zz.Choice("length", 1, n))
	for i := 0; i < len(s); i++ {
		zz.Assume(zz.And(s[i] > ' ', s[i] < 0x7f, s[i] != '"', s[i] != '\\', s[i] != ','))
	}
	return s
}

func trim(s string) string {
	for len(s) > 0 && (s[0] == ' ' || s[0] == '\t') {
		s = s[1:]
	}
	for len(s) > 0 && (s[len(s)-1] == ' ' || s[len(s)-1] == '\t') {
		s = s[:len(s)-1]
	}
	return s
}

type field struct {
	exported bool
	typ      rlpstruct.Type
	words    []string
}

// Tags: which fields are encoded, and how.
func Tags() {
	n, nw, nt := zz.Choice("fields", 1, zz.Param("fields", 2)), zz.Param("words", 1), zz.Param("text", 4)
	fs := make([]field, n)
	in := make([]rlpstruct.Field, n)
	last := 0
	for i := range fs {
		f := &fs[i]
		f.exported = zz.Bool("exported")
		f.typ = typ(zz.Param("depth", 1))
		tag := ""
		switch zz.Choice("tag", 0, 2) {
		case 0:
		case 1:
			tag = `json:"rlp,omitempty"`
		case 2:
			tag = `json:"x" rlp:"`
			k := zz.Choice("words", 1, nw)
			for j := 0; j < k; j++ {
				w := word(nt)
				f.words = append(f.words, trim(w))
				if j > 0 {
					tag += ","
				}
				tag += w
			}
			tag += `"`
		}
		in[i] = rlpstruct.Field{Name: string(rune('A' + i)), Index: i, Exported: f.exported, Type: f.typ, Tag: tag}
		if f.exported {
			last = i
		}
	}
	// what is to come out
	var want []int
	var tags []rlpstruct.Tags
	bad, opt := "", false
	for i := range fs {
		f := &fs[i]
		if !f.exported {
			continue
		}
		var t rlpstruct.Tags
		for _, w := range f.words {
			switch w {
			case "":
			case "-":
				t.Ignored = true
			case "nil", "nilString", "nilList":
				if f.typ.Kind != reflect.Ptr {
					bad = "pointer"
					break
				}
				t.NilOK = true
				t.NilKind = rlpstruct.NilKindString
				if w == "nilList" || w == "nil" && nilOf(f.typ.Elem) == rlpstruct.NilKindList {
					t.NilKind = rlpstruct.NilKindList
				}
			case "optional":
				t.Optional = true
			case "tail":
				t.Tail = true
				if i != last || f.typ.Kind != reflect.Slice {
					bad = "tail"
				}
			default:
				bad = "unknown"
			}
		}
		if t.Optional && t.Tail {
			bad = "both"
		}
		if t.Ignored {
			continue
		}
		if t.Optional || t.Tail {
			opt = true
		} else if opt {
			bad = "order"
		}
		want = append(want, i)
		tags = append(tags, t)
	}
	out, ts, err := rlpstruct.ProcessFields(in)
	if bad != "" {
		zz.Assert(err != nil, "an invalid tag or order of fields is refused")
		te, ok := err.(rlpstruct.TagError)
		zz.Assert(ok && len(te.Field) == 1 && te.Field[0] >= 'A' && int(te.Field[0]-'A') < n && fs[te.Field[0]-'A'].exported, "the error names an exported field")
		zz.Assert(out == nil && ts == nil, "nothing is returned with an error")
		zz.Reach("refused")
		return
	}
	zz.Assert(err == nil, "valid tags are accepted")
	if err != nil {
		return
	}
	zz.Assert(len(out) == len(want) && len(ts) == len(want), "exactly the exported fields that are not ignored are encoded")
	if len(out) != len(want) || len(ts) != len(want) {
		return
	}
	for k, i := range want {
		zz.Assert(out[k].Index == i && out[k].Name == in[i].Name && out[k].Type.Kind == in[i].Type.Kind, "fields keep their order")
		zz.Assert(ts[k] == tags[k], "a field is encoded as its tag says")
	}
	zz.Reach("accepted")
}
