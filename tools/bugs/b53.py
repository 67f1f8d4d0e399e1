id="gen-optional-own-flag"; prop="C42"; pkg="rlp/rlpgen"; drop=["gen_test.go"]
needs="two optional fields, the first zero and the second not"
breaks="an optional field is written only if it is itself non-zero, so a later one takes its place in the list"
edits=[("rlp/rlpgen/gen.go","""		for j := i; j < len(op.optionalFields); j++ {
			if j > i {""","""		for j := i; j < len(op.optionalFields) && j == i; j++ {
			if j > i {""")]
demo='''package main
import ("testing";"go/types";"strings")
func TestZZDemo(t *testing.T) {
	rlp := types.NewPackage("flychain/rlp", "rlp")
	sig := types.NewSignature(nil, nil, nil, false)
	for _, n := range []string{"Encoder", "Decoder"} {
		it := types.NewInterfaceType([]*types.Func{types.NewFunc(0, rlp, n+"X", sig)}, nil)
		rlp.Scope().Insert(types.NewNamed(types.NewTypeName(0, rlp, n, nil), it, nil).Obj())
	}
	rlp.Scope().Insert(types.NewNamed(types.NewTypeName(0, rlp, "RawValue", nil), types.NewSlice(types.Typ[types.Byte]), nil).Obj())
	p := types.NewPackage("x", "x")
	u := types.Typ[types.Uint64]
	st := types.NewStruct([]*types.Var{types.NewField(0, p, "A", u, false), types.NewField(0, p, "B", u, false)}, []string{"rlp:\\"optional\\"", "rlp:\\"optional\\""})
	b, err := newBuildContext(rlp).generate(types.NewNamed(types.NewTypeName(0, p, "T", nil), st, nil), true, true)
	if err != nil { t.Fatal(err) }
	// the first field must be written whenever the second is not zero
	if !strings.Contains(string(b), "||") { t.Fatal(string(b)) }
}
'''
