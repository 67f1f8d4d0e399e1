id="nil-kind-named-byte-array"; prop="C41"; pkg="rlp/internal/rlpstruct"
needs="a pointer to a byte array with the nil tag"
breaks="a nil pointer to a byte array stands for an empty list instead of an empty string"
edits=[("rlp/internal/rlpstruct/rlpstruct.go","k == reflect.Bool || isByteArray(t) {","k == reflect.Bool || (isByteArray(t) && k == reflect.Slice) {")]
demo='''package rlpstruct
import ("testing";"reflect")
func TestZZDemo(t *testing.T) {
	if k := (Type{Kind: reflect.Array, Elem: &Type{Kind: reflect.Uint8}}).DefaultNilValue(); k != NilKindString { t.Fatal(k) }
}
'''
