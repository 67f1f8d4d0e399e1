package main

import (
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func ptrTo(t types.Type) types.Type { return types.NewPointer(t) }

func (e *Eng) typeOf(v IfaceV) Value {
	if v.t == nil {
		return IfaceV{}
	}
	return e.mkRType(v.t)
}

func (e *Eng) mkRType(t types.Type) IfaceV {
	rt := e.ld.rtypeT
	if rt == nil {
		rt = e.ld.rtErrType
	}
	return IfaceV{rt, RTypeV{t}}
}

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Pointer:
		return reflect.Ptr
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Map:
		return reflect.Map
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	case *types.Struct:
		return reflect.Struct
	}
	return reflect.Invalid
}

func typeString(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	s = strings.ReplaceAll(s, "interface{}", "interface {}")
	s = strings.ReplaceAll(s, "struct{}", "struct {}")
	if s == "any" {
		s = "interface {}"
	}
	return s
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Chan:
		return u.Elem()
	}
	return nil
}

func chanDir(c *types.Chan) uint64 {
	switch c.Dir() {
	case types.SendOnly:
		return 2
	case types.RecvOnly:
		return 1
	}
	return 3
}

func (e *Eng) rtypeMethod(st *State, name string, r RTypeV, args []Value) Value {
	c := e.c
	switch name {
	case "Kind":
		return c.BV(64, uint64(kindOf(r.t)))
	case "String":
		return StrV{s: typeString(r.t)}
	case "Name":
		if n, ok := types.Unalias(r.t).(*types.Named); ok {
			return StrV{s: n.Obj().Name()}
		}
		if b, ok := r.t.(*types.Basic); ok {
			return StrV{s: b.Name()}
		}
		return StrV{}
	case "PkgPath":
		if n, ok := types.Unalias(r.t).(*types.Named); ok && n.Obj().Pkg() != nil {
			return StrV{s: n.Obj().Pkg().Path()}
		}
		return StrV{}
	case "Elem":
		t := elemType(r.t)
		if t == nil {
			panic(goPanic{e.rtErr("reflect: Elem of invalid type " + typeString(r.t))})
		}
		return e.mkRType(t)
	case "Comparable":
		return c.Bool(types.Comparable(r.t))
	case "ChanDir":
		ch, ok := r.t.Underlying().(*types.Chan)
		if !ok {
			panic(goPanic{e.rtErr("reflect: ChanDir of non-chan type " + typeString(r.t))})
		}
		return c.BV(64, chanDir(ch))
	case "NumIn":
		return c.BV(64, uint64(r.t.Underlying().(*types.Signature).Params().Len()))
	case "NumOut":
		return c.BV(64, uint64(r.t.Underlying().(*types.Signature).Results().Len()))
	case "NumField":
		return c.BV(64, uint64(r.t.Underlying().(*types.Struct).NumFields()))
	case "Len":
		return c.BV(64, uint64(r.t.Underlying().(*types.Array).Len()))
	case "AssignableTo":
		return c.Bool(types.AssignableTo(r.t, args[0].(IfaceV).v.(RTypeV).t))
	case "Implements":
		it, ok := args[0].(IfaceV).v.(RTypeV).t.Underlying().(*types.Interface)
		if !ok {
			panic(goPanic{e.rtErr("reflect: non-interface type passed to Type.Implements")})
		}
		return c.Bool(e.implements(r.t, it))
	case "Size":
		return c.BV(64, uint64(types.SizesFor("gc", "amd64").Sizeof(r.t)))
	case "Field":
		u := r.t.Underlying().(*types.Struct)
		i := e.needInt(st, args[0])
		if i < 0 || i >= u.NumFields() {
			panic(goPanic{e.rtErr("reflect: Field index out of bounds")})
		}
		sft := e.ld.pkgs["reflect"].Type("StructField").Type()
		su := sft.Underlying().(*types.Struct)
		nf := append([]Value(nil), e.zero(sft).(*StructV).f...)
		for k := 0; k < su.NumFields(); k++ {
			switch su.Field(k).Name() {
			case "Name":
				nf[k] = StrV{s: u.Field(i).Name()}
			case "PkgPath":
				if !u.Field(i).Exported() {
					nf[k] = StrV{s: u.Field(i).Pkg().Path()}
				}
			case "Type":
				nf[k] = e.mkRType(u.Field(i).Type())
			case "Tag":
				nf[k] = StrV{s: u.Tag(i)}
			case "Anonymous":
				nf[k] = c.Bool(u.Field(i).Embedded())
			}
		}
		return &StructV{nf}
	}
	unsupported("reflect.Type.%s", name)
	return nil
}

func (e *Eng) valueErr(m string, v RValueV) {
	k := "zero Value"
	if v.t != nil {
		k = kindOf(v.t).String() + " Value"
	}
	panic(goPanic{e.rtErr("reflect: call of reflect.Value." + m + " on " + k)})
}

// toIface boxes a reflect value.
func (v RValueV) iface() IfaceV {
	if iv, ok := v.v.(IfaceV); ok {
		return iv
	}
	return IfaceV{v.t, v.v}
}

func (e *Eng) rvLoad(st *State, v RValueV) Value {
	if v.addr.obj != 0 {
		return e.load(st, v.addr)
	}
	return v.v
}

func initReflect() {
	const R = "(reflect.Value)."
	arg := func(ic *ICall, i int) RValueV {
		v := ic.args[i].(RValueV)
		if v.addr.obj != 0 {
			v.v = ic.e.load(ic.st, v.addr)
		}
		return v
	}
	intrinsics["reflect.TypeOf"] = func(ic *ICall) Value { return ic.e.typeOf(ic.args[0].(IfaceV)) }
	intrinsics["reflect.ValueOf"] = func(ic *ICall) Value {
		iv := ic.args[0].(IfaceV)
		if iv.t == nil {
			return RValueV{}
		}
		return RValueV{t: iv.t, v: iv.v}
	}
	intrinsics["reflect.Indirect"] = func(ic *ICall) Value {
		v := arg(ic, 0)
		if v.t == nil || kindOf(v.t) != reflect.Ptr {
			return v
		}
		p := v.v.(PtrV)
		if p.isNil() {
			return RValueV{}
		}
		return RValueV{t: elemType(v.t), addr: p}
	}
	intrinsics["reflect.Zero"] = func(ic *ICall) Value {
		t := ic.args[0].(IfaceV).v.(RTypeV).t
		return RValueV{t: t, v: ic.e.zero(t)}
	}
	intrinsics["reflect.New"] = func(ic *ICall) Value {
		t := ic.args[0].(IfaceV).v.(RTypeV).t
		return RValueV{t: ptrTo(t), v: PtrV{obj: ic.st.newObj(ic.e.zero(t))}}
	}
	intrinsics["reflect.PtrTo"] = func(ic *ICall) Value {
		return ic.e.mkRType(ptrTo(ic.args[0].(IfaceV).v.(RTypeV).t))
	}
	intrinsics["reflect.PointerTo"] = intrinsics["reflect.PtrTo"]
	intrinsics["reflect.ChanOf"] = func(ic *ICall) Value {
		d := types.SendRecv
		switch ic.t(0).u {
		case 1:
			d = types.RecvOnly
		case 2:
			d = types.SendOnly
		}
		return ic.e.mkRType(types.NewChan(d, ic.args[1].(IfaceV).v.(RTypeV).t))
	}
	add := func(n string, f intrinsic) { intrinsics[R+n] = f }
	add("IsValid", func(ic *ICall) Value { return ic.e.c.Bool(ic.args[0].(RValueV).t != nil) })
	add("Kind", func(ic *ICall) Value {
		v := ic.args[0].(RValueV)
		if v.t == nil {
			return ic.e.c.BV(64, 0)
		}
		return ic.e.c.BV(64, uint64(kindOf(v.t)))
	})
	add("Type", func(ic *ICall) Value {
		v := ic.args[0].(RValueV)
		if v.t == nil {
			ic.e.valueErr("Type", v)
		}
		return ic.e.mkRType(v.t)
	})
	add("Interface", func(ic *ICall) Value {
		v := arg(ic, 0)
		if v.t == nil {
			ic.e.valueErr("Interface", v)
		}
		return v.iface()
	})
	add("CanInterface", func(ic *ICall) Value { return ic.e.c.True })
	add("CanAddr", func(ic *ICall) Value { return ic.e.c.Bool(ic.args[0].(RValueV).addr.obj != 0) })
	add("CanSet", func(ic *ICall) Value { return ic.e.c.Bool(ic.args[0].(RValueV).addr.obj != 0) })
	add("IsNil", func(ic *ICall) Value {
		v := arg(ic, 0)
		c := ic.e.c
		switch x := v.v.(type) {
		case PtrV:
			return c.Bool(x.isNil())
		case SliceV:
			return c.Bool(x.isNil())
		case MapRef:
			return c.Bool(x.obj == 0)
		case ChanRef:
			return c.Bool(x.obj == 0)
		case *FuncV:
			return c.Bool(x == nil)
		case IfaceV:
			return c.Bool(x.t == nil)
		}
		ic.e.valueErr("IsNil", v)
		return nil
	})
	add("Elem", func(ic *ICall) Value {
		v := arg(ic, 0)
		if v.t == nil {
			ic.e.valueErr("Elem", v)
		}
		switch kindOf(v.t) {
		case reflect.Ptr:
			p := v.v.(PtrV)
			if p.isNil() {
				return RValueV{}
			}
			return RValueV{t: elemType(v.t), v: nil, addr: p}
		case reflect.Interface:
			iv := v.v.(IfaceV)
			if iv.t == nil {
				return RValueV{}
			}
			return RValueV{t: iv.t, v: iv.v}
		}
		ic.e.valueErr("Elem", v)
		return nil
	})
	add("Len", func(ic *ICall) Value {
		v := arg(ic, 0)
		switch x := v.v.(type) {
		case SliceV:
			return ic.i64(x.n)
		case *ArrayV:
			return ic.i64(len(x.e))
		case StrV:
			return ic.i64(x.Len())
		case MapRef:
			if x.obj == 0 {
				return ic.i64(0)
			}
			return ic.i64(len(ic.e.mapObj(ic.st, x).keys))
		case ChanRef:
			return ic.i64(len(ic.e.chanObj(ic.st, x).buf))
		}
		ic.e.valueErr("Len", v)
		return nil
	})
	add("Index", func(ic *ICall) Value {
		v := arg(ic, 0)
		i := ic.cint(1)
		switch x := v.v.(type) {
		case SliceV:
			if i < 0 || i >= x.n {
				panic(goPanic{ic.e.rtErr("reflect: slice index out of range")})
			}
			return RValueV{t: elemType(v.t), addr: PtrV{x.base.obj, appendPath(x.base.path, PE{i: x.off + i})}}
		case *ArrayV:
			if i < 0 || i >= len(x.e) {
				panic(goPanic{ic.e.rtErr("reflect: array index out of range")})
			}
			return RValueV{t: elemType(v.t), v: x.e[i]}
		case StrV:
			return RValueV{t: types.Typ[types.Uint8], v: ic.e.strAt(x, i)}
		}
		ic.e.valueErr("Index", v)
		return nil
	})
	add("NumField", func(ic *ICall) Value { return ic.i64(ic.args[0].(RValueV).t.Underlying().(*types.Struct).NumFields()) })
	add("Field", func(ic *ICall) Value {
		v := arg(ic, 0)
		i := ic.cint(1)
		return RValueV{t: v.t.Underlying().(*types.Struct).Field(i).Type(), v: v.v.(*StructV).f[i]}
	})
	add("Int", func(ic *ICall) Value {
		t := arg(ic, 0).v.(*Term)
		return ic.e.c.Sext(64, t)
	})
	add("Uint", func(ic *ICall) Value {
		t := arg(ic, 0).v.(*Term)
		return ic.e.c.Zext(64, t)
	})
	add("Bool", func(ic *ICall) Value { return arg(ic, 0).v })
	add("Float", func(ic *ICall) Value {
		if d, ok := arg(ic, 0).v.(DyadicV); ok {
			return d
		}
		return FloatV{arg(ic, 0).v.(FloatV).f, 64}
	})
	add("String", func(ic *ICall) Value {
		v := arg(ic, 0)
		if v.t == nil {
			return StrV{s: "<invalid Value>"}
		}
		if kindOf(v.t) == reflect.String {
			return v.v
		}
		return StrV{s: "<" + typeString(v.t) + " Value>"}
	})
	add("Bytes", func(ic *ICall) Value {
		v := arg(ic, 0)
		if s, ok := v.v.(SliceV); ok {
			return s
		}
		if a, ok := v.v.(*ArrayV); ok && v.addr.obj != 0 {
			return SliceV{v.addr, 0, len(a.e), len(a.e)}
		}
		ic.e.valueErr("Bytes", v)
		return nil
	})
	add("Set", func(ic *ICall) Value {
		d := ic.args[0].(RValueV)
		s := arg(ic, 1)
		if d.addr.obj == 0 {
			panic(goPanic{ic.e.rtErr("reflect: reflect.Value.Set using unaddressable value")})
		}
		if _, ok := d.t.Underlying().(*types.Interface); ok {
			ic.e.store(ic.st, d.addr, s.iface())
		} else {
			ic.e.store(ic.st, d.addr, s.v)
		}
		return unit
	})
	add("Call", func(ic *ICall) Value {
		v := arg(ic, 0)
		fv, ok := v.v.(*FuncV)
		if !ok {
			ic.e.valueErr("Call", v)
		}
		var as []Value
		sig := v.t.Underlying().(*types.Signature)
		in := ic.e.sliceElems(ic.st, ic.args[1].(SliceV))
		if len(in) != sig.Params().Len() {
			panic(goPanic{ic.e.rtErr("reflect: Call with wrong number of input arguments")})
		}
		for i, a := range in {
			rv := a.(RValueV)
			if _, ok := sig.Params().At(i).Type().Underlying().(*types.Interface); ok {
				as = append(as, rv.iface())
			} else {
				as = append(as, rv.v)
			}
		}
		rk := rkReflect
		if ic.retKind != rkNormal {
			rk = ic.retKind
		}
		r, done := ic.e.callFn(ic.st, fv, as, rk, ic.site)
		if done {
			return ic.e.wrapResults(ic.st, sig, r)
		}
		ic.pushed = true
		return nil
	})
	// channel operations
	intrinsics["reflect.Select"] = func(ic *ICall) Value {
		e, st := ic.e, ic.st
		e.visible(st)
		gr := st.takeGrant()
		el := e.sliceElems(st, ic.args[0].(SliceV))
		if gr.alt < 0 {
			for i, x := range el {
				if x.(*StructV).f[0].(*Term).u == 3 {
					return TupleV{ic.i64(i), RValueV{}, e.c.False}
				}
			}
		}
		s := el[gr.alt].(*StructV)
		ch := s.f[1].(RValueV)
		if s.f[0].(*Term).u == 1 {
			e.doSend(st, gr, chanOf(ch.v), e.toElem(ch.t, s.f[2].(RValueV)))
			return TupleV{ic.i64(gr.alt), RValueV{}, e.c.False}
		}
		v, ok := e.doRecv(st, chanOf(ch.v), e.zero(chanElem(ch.t)))
		return TupleV{ic.i64(gr.alt), RValueV{t: chanElem(ch.t), v: v}, e.c.Bool(ok)}
	}
	add("TrySend", func(ic *ICall) Value {
		e, st := ic.e, ic.st
		ch := ic.args[0].(RValueV)
		if ch.t == nil || kindOf(ch.t) != reflect.Chan {
			e.valueErr("TrySend", ch)
		}
		v := e.toElem(ch.t, arg(ic, 1))
		e.visible(st)
		gr := st.takeGrant()
		if gr.alt < 0 {
			return e.c.False
		}
		e.doSend(st, gr, chanOf(ch.v), v)
		return e.c.True
	})
	add("Send", func(ic *ICall) Value {
		e, st := ic.e, ic.st
		ch := ic.args[0].(RValueV)
		v := e.toElem(ch.t, arg(ic, 1))
		e.visible(st)
		gr := st.takeGrant()
		e.doSend(st, gr, chanOf(ch.v), v)
		return unit
	})
	add("Recv", func(ic *ICall) Value {
		e, st := ic.e, ic.st
		ch := ic.args[0].(RValueV)
		e.visible(st)
		gr := st.takeGrant()
		_ = gr
		v, ok := e.doRecv(st, chanOf(ch.v), e.zero(chanElem(ch.t)))
		return TupleV{RValueV{t: chanElem(ch.t), v: v}, e.c.Bool(ok)}
	})
	add("Close", func(ic *ICall) Value {
		ic.e.closeChan(ic.st, ic.args[0].(RValueV).v.(ChanRef))
		return unit
	})
	intrinsics["(reflect.Kind).String"] = func(ic *ICall) Value {
		return StrV{s: reflect.Kind(ic.e.needConst(ic.st, ic.t(0))).String()}
	}
	intrinsics["(reflect.StructTag).Get"] = nil
	delete(intrinsics, "(reflect.StructTag).Get")
}

func (e *Eng) wrapResults(st *State, sig *types.Signature, r Value) Value {
	var out []Value
	switch sig.Results().Len() {
	case 0:
	case 1:
		out = append(out, RValueV{t: sig.Results().At(0).Type(), v: r})
	default:
		for i, x := range r.(TupleV) {
			out = append(out, RValueV{t: sig.Results().At(i).Type(), v: x})
		}
	}
	return e.newSlice(st, out, len(out), nil)
}

var _ ssa.Value
