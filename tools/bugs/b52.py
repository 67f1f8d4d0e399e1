id="gen-nil-bytearray-list"; prop="C42"; pkg="rlp/rlpgen"; drop=["gen_test.go"]
needs="a nil pointer to a byte array without a nil tag"
breaks="the generated encoder writes an empty list where the rules prescribe an empty string"
edits=[("rlp/rlpgen/gen.go","""		styp := bctx.typeToStructType(elemTyp)
		op.nilValue = styp.DefaultNilValue()
""","""		op.nilValue = rlpstruct.NilKindList
		if _, basic := elemTyp.Underlying().(*types.Basic); basic || elemTyp == types.Type(bctx.rawValueType) {
			op.nilValue = bctx.typeToStructType(elemTyp).DefaultNilValue()
		}
""")]
demo='''package main
import ("testing";"go/types";"strings")
func TestZZDemo(t *testing.T) {
	rlp := types.NewPackage("flychain/rlp", "rlp")
	sig := types.NewSignature(nil, nil, nil, false)
	for _, n := range []string{"Encoder", "Decoder"} {
		it := types.NewInterfaceType([]*types.Func{types.NewFunc(0, rlp, n+"X", sig)}, nil)
		rlp.Scope().Insert(types.NewNamed(types.NewTypeName(0, rlp, n, nil), it, nil).Obj())
	}
	rlp.Scope().Insert(types.NewNamed(types.NewTypeName(0, rlp, "RawValue", nil), types.NewSlice(types.Typ[types.Byte]), nil).Obj())
	p := types.NewPackage("x", "x")
	st := types.NewStruct([]*types.Var{types.NewField(0, p, "A", types.NewPointer(types.NewArray(types.Typ[types.Byte], 3)), false)}, []string{""})
	b, err := newBuildContext(rlp).generate(types.NewNamed(types.NewTypeName(0, p, "T", nil), st, nil), true, true)
	if err != nil { t.Fatal(err) }
	if !strings.Contains(string(b), "0x80") { t.Fatal(string(b)) }
}
'''
