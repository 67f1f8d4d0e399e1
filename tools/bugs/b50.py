id="tag-tail-then-optional"; prop="C41"; pkg="rlp/internal/rlpstruct"
needs="a field with both tags, tail written first"
breaks="the contradiction of the two tags is noticed only in one order"
edits=[("rlp/internal/rlpstruct/rlpstruct.go","""			ts.Optional = true
			if ts.Tail {
				return ts, TagError{Field: name, Tag: t, Err: `also has "tail" tag`}
			}
""","""			ts.Optional = true
""")]
demo='''package rlpstruct
import ("testing";"reflect")
func TestZZDemo(t *testing.T) {
	_, tags, err := ProcessFields([]Field{{Name: "A", Exported: true, Type: Type{Kind: reflect.Slice, Elem: &Type{Kind: reflect.Uint}}, Tag: `rlp:"tail,optional"`}})
	if err == nil { t.Fatal(tags) }
}
'''
