package main

import (
	"go/types"
	"reflect"

	"golang.org/x/tools/go/ssa"
)

func kindOf(t types.Type) reflect.Kind {
	if t == nil {
		return reflect.Invalid
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return reflect.Bool
		case types.Int, types.UntypedInt:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32, types.UntypedRune:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64, types.UntypedFloat:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String, types.UntypedString:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Pointer:
		return reflect.Ptr
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Struct:
		return reflect.Struct
	case *types.Map:
		return reflect.Map
	case *types.Interface:
		return reflect.Interface
	case *types.Signature:
		return reflect.Func
	case *types.Chan:
		return reflect.Chan
	}
	return reflect.Invalid
}

func (st *State) rtypeIface(t types.Type) Iface {
	if t == nil {
		return Iface{}
	}
	return Iface{st.P.rtypeT, RType{t}}
}

// rval returns the value held by a reflect.Value.
func (st *State) rval(r RVal) Value {
	if r.addr {
		return st.load(r.ptr, r.t)
	}
	return r.v
}

func (st *State) rset(r RVal, v Value) {
	if !r.addr {
		st.goPanic("reflect: reflect.Value.Set using unaddressable value")
	}
	st.store(r.ptr, r.t, v)
}

func (st *State) rindex(r RVal, i *Term) RVal {
	T := st.T
	switch u := under(r.t).(type) {
	case *types.Slice:
		s := st.rval(r).(Slice)
		st.need(T.Ult(i, s.len), "reflect: slice index out of range")
		return RVal{t: u.Elem(), addr: true, ptr: Ptr{s.obj, T.Add(s.off, T.MulC(i, uint64(sizeof(u.Elem()))))}}
	case *types.Array:
		st.need(T.Ult(i, st.c64(uint64(u.Len()))), "reflect: array index out of range")
		if r.addr {
			return RVal{t: u.Elem(), addr: true, ptr: Ptr{r.ptr.obj, T.Add(r.ptr.off, T.MulC(i, uint64(sizeof(u.Elem()))))}}
		}
		return RVal{t: u.Elem(), v: st.selectAgg(r.v.(Agg), i)}
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return RVal{t: types.Typ[types.Uint8], v: st.strIndex(st.rval(r).(Str), i)}
		}
	}
	st.goPanic("reflect: call of reflect.Value.Index on " + kindOf(r.t).String() + " Value")
	return RVal{}
}

func (st *State) rfield(r RVal, i int) RVal {
	s, ok := under(r.t).(*types.Struct)
	if !ok {
		st.goPanic("reflect: call of reflect.Value.Field on non-struct")
	}
	l := structLayout(s)
	if r.addr {
		return RVal{t: l.typs[i], addr: true, ptr: Ptr{r.ptr.obj, st.T.Add(r.ptr.off, st.c64(uint64(l.offs[i])))}}
	}
	return RVal{t: l.typs[i], v: r.v.(Agg)[i]}
}

func (st *State) relem(r RVal) RVal {
	switch u := under(r.t).(type) {
	case *types.Pointer:
		p := st.rval(r).(Ptr)
		if p.obj == nil {
			return RVal{}
		}
		return RVal{t: u.Elem(), addr: true, ptr: p}
	case *types.Interface:
		i := st.rval(r).(Iface)
		if i.t == nil {
			return RVal{}
		}
		return RVal{t: i.t, v: i.v}
	}
	st.goPanic("reflect: call of reflect.Value.Elem on " + kindOf(r.t).String() + " Value")
	return RVal{}
}

func (st *State) rlen(r RVal) *Term {
	switch x := st.rval(r).(type) {
	case Slice:
		return x.len
	case Str:
		return st.ci(x.length())
	case *MapObj:
		return st.ci(st.mapR(x).count())
	case Agg:
		if at, ok := under(r.t).(*types.Array); ok {
			return st.c64(uint64(at.Len()))
		}
	}
	st.goPanic("reflect: call of reflect.Value.Len on " + kindOf(r.t).String() + " Value")
	return nil
}

func (st *State) isNilVal(v Value) (bool, bool) {
	switch x := v.(type) {
	case Ptr:
		return x.obj == nil, true
	case Slice:
		return x.obj == nil, true
	case *MapObj:
		return x == nil, true
	case Iface:
		return x.t == nil, true
	case *Closure:
		return x == nil, true
	}
	return false, false
}

// isZero builds a term for "v is the zero value of t".
func (st *State) isZeroTerm(v Value, t types.Type) *Term {
	switch x := v.(type) {
	case *Term:
		if x.sort.isFP() {
			return st.T.FEq(x, st.T.fpk(x.sort, 0))
		}
		return st.T.Eq(x, st.T.Const(x.sort, 0))
	case Str:
		return st.T.Bool(x.length() == 0)
	case Agg:
		r := st.T.tt
		switch u := under(t).(type) {
		case *types.Struct:
			for i := range x {
				r = st.T.And(r, st.isZeroTerm(x[i], u.Field(i).Type()))
			}
		case *types.Array:
			for i := range x {
				r = st.T.And(r, st.isZeroTerm(x[i], u.Elem()))
			}
		}
		return r
	}
	n, ok := st.isNilVal(v)
	if !ok {
		unsup("isZero of %T", v)
	}
	return st.T.Bool(n)
}

func (st *State) rtypeMethod(name string, r RType, args []Value) Value {
	T := st.T
	switch name {
	case "Kind":
		return T.Const(64, uint64(kindOf(r.t)))
	case "Elem":
		switch u := under(r.t).(type) {
		case *types.Pointer:
			return st.rtypeIface(u.Elem())
		case *types.Slice:
			return st.rtypeIface(u.Elem())
		case *types.Array:
			return st.rtypeIface(u.Elem())
		case *types.Map:
			return st.rtypeIface(u.Elem())
		}
		st.goPanic("reflect: Elem of invalid type " + r.t.String())
	case "Key":
		return st.rtypeIface(under(r.t).(*types.Map).Key())
	case "Len":
		if u, ok := under(r.t).(*types.Array); ok {
			return st.c64(uint64(u.Len()))
		}
		st.goPanic("reflect: Len of non-array type")
	case "Size":
		return st.c64(uint64(sizeof(r.t)))
	case "Align", "FieldAlign":
		return st.c64(uint64(sizes.Alignof(r.t)))
	case "Bits":
		return st.c64(uint64(sizeof(r.t) * 8))
	case "String":
		return Str{s: types.TypeString(r.t, func(p *types.Package) string { return p.Name() })}
	case "Name":
		if n, ok := r.t.(*types.Named); ok {
			return Str{s: n.Obj().Name()}
		}
		if b, ok := r.t.(*types.Basic); ok {
			return Str{s: b.Name()}
		}
		return Str{}
	case "PkgPath":
		if n, ok := r.t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return Str{s: n.Obj().Pkg().Path()}
		}
		return Str{}
	case "Comparable":
		return T.Bool(types.Comparable(r.t))
	case "NumField":
		return st.ci(under(r.t).(*types.Struct).NumFields())
	case "NumMethod":
		return st.ci(st.P.prog.MethodSets.MethodSet(r.t).Len())
	case "Implements":
		o := args[0].(Iface).v.(RType)
		return T.Bool(types.Implements(r.t, under(o.t).(*types.Interface)))
	case "AssignableTo":
		o := args[0].(Iface).v.(RType)
		return T.Bool(types.AssignableTo(r.t, o.t))
	case "ConvertibleTo":
		o := args[0].(Iface).v.(RType)
		return T.Bool(types.ConvertibleTo(r.t, o.t))
	}
	unsup("reflect.Type.%s", name)
	return nil
}

func initReflect(m map[string]modelFn) {
	R := func(n string, f func(st *State, r RVal, a []Value) Value) {
		m["(reflect.Value)."+n] = func(st *State, fn *ssa.Function, a []Value) Value {
			return f(st, a[0].(RVal), a[1:])
		}
	}
	m["reflect.ValueOf"] = func(st *State, fn *ssa.Function, a []Value) Value {
		i := a[0].(Iface)
		if i.t == nil {
			return RVal{}
		}
		return RVal{t: i.t, v: i.v}
	}
	typeOf := func(st *State, fn *ssa.Function, a []Value) Value {
		return st.rtypeIface(a[0].(Iface).t)
	}
	m["reflect.TypeOf"] = typeOf
	m["internal/reflectlite.TypeOf"] = typeOf
	m["reflect.SliceOf"] = func(st *State, fn *ssa.Function, a []Value) Value {
		return st.rtypeIface(canonType(types.NewSlice(a[0].(Iface).v.(RType).t)))
	}
	pto := func(st *State, fn *ssa.Function, a []Value) Value {
		return st.rtypeIface(canonType(types.NewPointer(a[0].(Iface).v.(RType).t)))
	}
	m["reflect.PointerTo"] = pto
	m["reflect.PtrTo"] = pto
	m["reflect.ArrayOf"] = func(st *State, fn *ssa.Function, a []Value) Value {
		n := int64(st.concretize(a[0].(*Term), "array length"))
		if n < 0 {
			st.goPanic("reflect: negative length passed to ArrayOf")
		}
		return st.rtypeIface(canonType(types.NewArray(a[1].(Iface).v.(RType).t, n)))
	}
	m["reflect.MapOf"] = func(st *State, fn *ssa.Function, a []Value) Value {
		return st.rtypeIface(canonType(types.NewMap(a[0].(Iface).v.(RType).t, a[1].(Iface).v.(RType).t)))
	}
	m["reflect.MakeSlice"] = func(st *State, fn *ssa.Function, a []Value) Value {
		t := a[0].(Iface).v.(RType).t
		l, c := a[1].(*Term), a[2].(*Term)
		st.need(st.T.Sle(st.zero64, l), "reflect.MakeSlice: negative len")
		st.need(st.T.Sle(st.zero64, c), "reflect.MakeSlice: negative cap")
		st.need(st.T.Sle(l, c), "reflect.MakeSlice: len > cap")
		return RVal{t: t, v: st.makeSlice(under(t).(*types.Slice).Elem(), l, c)}
	}
	m["reflect.MakeMap"] = func(st *State, fn *ssa.Function, a []Value) Value {
		t := a[0].(Iface).v.(RType).t
		return RVal{t: t, v: st.newMap(t)}
	}
	m["reflect.New"] = func(st *State, fn *ssa.Function, a []Value) Value {
		t := a[0].(Iface).v.(RType).t
		return RVal{t: ptrTo(t), v: Ptr{st.newObj(sizeof(t), "reflect.New"), st.zero64}}
	}
	m["reflect.Zero"] = func(st *State, fn *ssa.Function, a []Value) Value {
		t := a[0].(Iface).v.(RType).t
		return RVal{t: t, v: st.zero(t)}
	}
	m["reflect.Indirect"] = func(st *State, fn *ssa.Function, a []Value) Value {
		r := a[0].(RVal)
		if kindOf(r.t) == reflect.Ptr {
			return st.relem(r)
		}
		return r
	}
	m["reflect.DeepEqual"] = func(st *State, fn *ssa.Function, a []Value) Value {
		return st.deepEqual(a[0], a[1], nil, true, 0)
	}
	m["reflect.Copy"] = func(st *State, fn *ssa.Function, a []Value) Value {
		d, s := a[0].(RVal), a[1].(RVal)
		ds, ss := st.rval(d).(Slice), st.rval(s).(Slice)
		n := st.T.Ite(st.T.Ult(ds.len, ss.len), ds.len, ss.len)
		if ds.obj != nil && ss.obj != nil {
			st.copyTyped(ds, ss, n, under(d.t).(*types.Slice).Elem())
		}
		return n
	}
	m["reflect.Append"] = func(st *State, fn *ssa.Function, a []Value) Value {
		d := a[0].(RVal)
		et := under(d.t).(*types.Slice).Elem()
		s := st.rval(d).(Slice)
		xs := a[1].(Slice)
		n := int(st.concretize(xs.len, "reflect.Append arguments"))
		for i := 0; i < n; i++ {
			x := st.load(Ptr{xs.obj, st.T.Add(xs.off, st.ci(24*i))}, tRValue).(RVal)
			o := st.newObj(sizeof(et), "elem")
			st.storeAt(o, 0, et, st.rval(x))
			s = st.appendSlice(s, Slice{o, st.zero64, st.ci(1), st.ci(1)}, et).(Slice)
		}
		return RVal{t: d.t, v: s}
	}
	m["(reflect.Kind).String"] = func(st *State, fn *ssa.Function, a []Value) Value {
		return Str{s: reflect.Kind(st.concretize(a[0].(*Term), "kind")).String()}
	}
	R("Kind", func(st *State, r RVal, a []Value) Value { return st.T.Const(64, uint64(kindOf(r.t))) })
	R("Type", func(st *State, r RVal, a []Value) Value {
		if r.t == nil {
			st.goPanic("reflect: call of reflect.Value.Type on zero Value")
		}
		return st.rtypeIface(r.t)
	})
	R("IsValid", func(st *State, r RVal, a []Value) Value { return st.T.Bool(r.t != nil) })
	R("Len", func(st *State, r RVal, a []Value) Value { return st.rlen(r) })
	R("Cap", func(st *State, r RVal, a []Value) Value {
		if s, ok := st.rval(r).(Slice); ok {
			return s.cap
		}
		return st.rlen(r)
	})
	R("IsNil", func(st *State, r RVal, a []Value) Value {
		if r.t == nil {
			st.goPanic("reflect: call of reflect.Value.IsNil on zero Value")
		}
		n, ok := st.isNilVal(st.rval(r))
		if !ok {
			st.goPanic("reflect: call of reflect.Value.IsNil on " + kindOf(r.t).String() + " Value")
		}
		return st.T.Bool(n)
	})
	R("IsZero", func(st *State, r RVal, a []Value) Value { return st.isZeroTerm(st.rval(r), r.t) })
	R("Interface", func(st *State, r RVal, a []Value) Value {
		if r.t == nil {
			st.goPanic("reflect: call of reflect.Value.Interface on zero Value")
		}
		v := st.rval(r)
		if i, ok := v.(Iface); ok && kindOf(r.t) == reflect.Interface {
			return i
		}
		return Iface{r.t, v}
	})
	R("CanInterface", func(st *State, r RVal, a []Value) Value { return st.T.tt })
	R("CanSet", func(st *State, r RVal, a []Value) Value { return st.T.Bool(r.addr) })
	R("CanAddr", func(st *State, r RVal, a []Value) Value { return st.T.Bool(r.addr) })
	R("Addr", func(st *State, r RVal, a []Value) Value {
		if !r.addr {
			st.goPanic("reflect.Value.Addr of unaddressable value")
		}
		return RVal{t: ptrTo(r.t), v: r.ptr}
	})
	R("Index", func(st *State, r RVal, a []Value) Value { return st.rindex(r, a[0].(*Term)) })
	R("Field", func(st *State, r RVal, a []Value) Value {
		return st.rfield(r, int(st.concretize(a[0].(*Term), "field index")))
	})
	R("NumField", func(st *State, r RVal, a []Value) Value {
		s, ok := under(r.t).(*types.Struct)
		if !ok {
			st.goPanic("reflect: call of reflect.Value.NumField on non-struct")
		}
		return st.ci(s.NumFields())
	})
	R("Elem", func(st *State, r RVal, a []Value) Value { return st.relem(r) })
	R("Set", func(st *State, r RVal, a []Value) Value {
		x := a[0].(RVal)
		v := st.rval(x)
		if kindOf(r.t) == reflect.Interface && kindOf(x.t) != reflect.Interface {
			v = Iface{x.t, v}
		} else if !types.AssignableTo(x.t, r.t) {
			st.goPanic("reflect.Set: value of type " + x.t.String() + " is not assignable to type " + r.t.String())
		}
		st.rset(r, v)
		return nil
	})
	R("SetLen", func(st *State, r RVal, a []Value) Value {
		s := st.rval(r).(Slice)
		n := a[0].(*Term)
		st.need(st.T.Ule(n, s.cap), "reflect: slice length out of range in SetLen")
		s.len = n
		st.rset(r, s)
		return nil
	})
	R("SetZero", func(st *State, r RVal, a []Value) Value { st.rset(r, st.zero(r.t)); return nil })
	for _, n := range []string{"SetInt", "SetUint", "SetFloat", "SetBool", "SetString", "SetBytes"} {
		R(n, func(st *State, r RVal, a []Value) Value {
			v := a[0]
			if t, ok := v.(*Term); ok {
				s, _ := scalarSort(r.t)
				switch {
				case s.isFP():
					v = st.T.FConv(t, s)
				case s.isBV():
					v = st.T.ZExt(t, s)
				}
			}
			st.rset(r, v)
			return nil
		})
	}
	R("Int", func(st *State, r RVal, a []Value) Value { return st.T.SExt(st.rval(r).(*Term), 64) })
	R("Uint", func(st *State, r RVal, a []Value) Value { return st.T.ZExt(st.rval(r).(*Term), 64) })
	R("Float", func(st *State, r RVal, a []Value) Value { return st.T.FConv(st.rval(r).(*Term), SFP64) })
	R("Bool", func(st *State, r RVal, a []Value) Value { return st.rval(r) })
	R("Bytes", func(st *State, r RVal, a []Value) Value { return st.rval(r) })
	R("String", func(st *State, r RVal, a []Value) Value {
		if s, ok := st.rval(r).(Str); ok {
			return s
		}
		return Str{s: "<" + r.t.String() + " Value>"}
	})
	R("Pointer", func(st *State, r RVal, a []Value) Value {
		switch x := st.rval(r).(type) {
		case Ptr:
			return st.ptrToInt(x)
		case Slice:
			return st.ptrToInt(Ptr{x.obj, x.off})
		}
		unsup("reflect.Value.Pointer")
		return nil
	})
	R("UnsafePointer", func(st *State, r RVal, a []Value) Value {
		switch x := st.rval(r).(type) {
		case Ptr:
			return x
		case Slice:
			if x.obj == nil {
				return Ptr{}
			}
			return Ptr{x.obj, x.off}
		}
		unsup("reflect.Value.UnsafePointer")
		return nil
	})
	R("Slice", func(st *State, r RVal, a []Value) Value {
		lo, hi := a[0].(*Term), a[1].(*Term)
		T := st.T
		s, ok := st.rval(r).(Slice)
		if !ok {
			unsup("reflect.Value.Slice of %s", r.t)
		}
		st.need(T.And(T.Ule(lo, hi), T.Ule(hi, s.cap)), "reflect.Value.Slice: slice index out of bounds")
		if s.obj == nil {
			return RVal{t: r.t, v: s}
		}
		es := uint64(sizeof(under(r.t).(*types.Slice).Elem()))
		return RVal{t: r.t, v: Slice{s.obj, T.Add(s.off, T.MulC(lo, es)), T.Sub(hi, lo), T.Sub(s.cap, lo)}}
	})
	R("MapIndex", func(st *State, r RVal, a []Value) Value {
		mt := under(r.t).(*types.Map)
		k := st.rval(a[0].(RVal))
		t := st.mapLookup(st.rval(r).(*MapObj), k, mt, true).(Tuple)
		if !st.branch(t[1].(*Term)) {
			return RVal{}
		}
		return RVal{t: mt.Elem(), v: t[0]}
	})
	R("SetMapIndex", func(st *State, r RVal, a []Value) Value {
		x := a[1].(RVal)
		if x.t == nil {
			st.mapDelete(st.rval(r).(*MapObj), st.rval(a[0].(RVal)))
			return nil
		}
		st.mapSet(st.rval(r).(*MapObj), st.rval(a[0].(RVal)), st.rval(x))
		return nil
	})
	R("MapKeys", func(st *State, r RVal, a []Value) Value {
		mo := st.mapR(st.rval(r).(*MapObj))
		kt := under(r.t).(*types.Map).Key()
		var ks []Value
		if mo != nil {
			for _, e := range mo.entries {
				if !e.del {
					ks = append(ks, RVal{t: kt, v: e.k})
				}
			}
		}
		o := st.newObj(int64(len(ks))*24, "MapKeys")
		for i, k := range ks {
			o.put(int64(i)*24, cell{k, 24})
		}
		n := st.ci(len(ks))
		return Slice{o, st.zero64, n, n}
	})
	R("NumMethod", func(st *State, r RVal, a []Value) Value {
		return st.ci(st.P.prog.MethodSets.MethodSet(r.t).Len())
	})
	R("Convert", func(st *State, r RVal, a []Value) Value {
		t := a[0].(Iface).v.(RType).t
		return RVal{t: t, v: st.convert(st.rval(r), r.t, t)}
	})
	R("Comparable", func(st *State, r RVal, a []Value) Value { return st.T.Bool(types.Comparable(r.t)) })
	R("Equal", func(st *State, r RVal, a []Value) Value {
		x := a[0].(RVal)
		if r.t == nil || x.t == nil {
			return st.T.Bool(r.t == nil && x.t == nil)
		}
		return st.equal(st.rval(r), st.rval(x), r.t)
	})
}

var canonTypes = newSyncMap[string, []types.Type]()

// canonType returns one representative per identical composite type.
func canonType(t types.Type) types.Type {
	k := t.String()
	l, _ := canonTypes.get(k)
	for _, x := range l {
		if types.Identical(x, t) {
			return x
		}
	}
	canonTypes.set(k, append(l[:len(l):len(l)], t))
	return t
}

// deepEqual builds the term for structural equality. strict follows reflect.DeepEqual; otherwise nil and
// empty slices/maps are equal and floats are compared by their bits.
func (st *State) deepEqual(a, b Value, t types.Type, strict bool, depth int) *Term {
	T := st.T
	if depth > 60 {
		unsup("deep equality recursion")
	}
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok || x.sort != y.sort {
			return T.ff
		}
		if x.sort.isFP() && strict {
			return T.FEq(x, y)
		}
		if x.sort.isFP() {
			return T.Eq(T.ToBits(x), T.ToBits(y))
		}
		return T.Eq(x, y)
	case Str:
		return st.strEq(x, b.(Str))
	case Agg:
		y := b.(Agg)
		r := T.tt
		for i := range x {
			var et types.Type
			switch u := under(t).(type) {
			case *types.Struct:
				et = u.Field(i).Type()
			case *types.Array:
				et = u.Elem()
			}
			r = T.And(r, st.deepEqual(x[i], y[i], et, strict, depth+1))
			if r.isFalse() {
				break
			}
		}
		return r
	case Ptr:
		y := b.(Ptr)
		if x.obj == nil || y.obj == nil {
			return T.Bool(x.obj == nil && y.obj == nil)
		}
		if x.obj == y.obj && x.off == y.off {
			return T.tt
		}
		et := under(t).(*types.Pointer).Elem()
		return st.deepEqual(st.load(x, et), st.load(y, et), et, strict, depth+1)
	case Slice:
		y := b.(Slice)
		if strict && (x.obj == nil) != (y.obj == nil) {
			return T.ff
		}
		le := T.Eq(x.len, y.len)
		if le.isFalse() {
			return le
		}
		if x.obj == nil || y.obj == nil {
			return le
		}
		et := under(t).(*types.Slice).Elem()
		es := uint64(sizeof(et))
		n := x.len
		if !n.isConst() {
			n = y.len
		}
		if !n.isConst() {
			if x.obj == y.obj && x.off == y.off {
				return le
			}
			n = st.c64(st.concretize(n, "slice length in a comparison"))
			le = T.Eq(x.len, y.len)
		}
		r := le
		for i := uint64(0); i < n.k && !r.isFalse(); i++ {
			p := Ptr{x.obj, T.Add(x.off, st.c64(i*es))}
			q := Ptr{y.obj, T.Add(y.off, st.c64(i*es))}
			r = T.And(r, st.deepEqual(st.load(p, et), st.load(q, et), et, strict, depth+1))
		}
		return r
	case *MapObj:
		y := b.(*MapObj)
		xm, ym := st.mapR(x), st.mapR(y)
		if strict && (x == nil) != (y == nil) {
			return T.ff
		}
		if xm.count() != ym.count() {
			return T.ff
		}
		if xm == nil || ym == nil {
			return T.tt
		}
		r := T.tt
		for _, e := range xm.entries {
			if e.del {
				continue
			}
			i := st.mapFind(ym, e.k)
			if i < 0 {
				return T.ff
			}
			r = T.And(r, st.deepEqual(e.v, ym.entries[i].v, xm.vt, strict, depth+1))
		}
		return r
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return T.ff
		}
		if x.t == nil || y.t == nil {
			return T.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return T.ff
		}
		return st.deepEqual(x.v, y.v, x.t, strict, depth+1)
	case *Closure:
		return T.Bool(x == nil && b.(*Closure) == nil)
	case nil:
		return T.Bool(b == nil)
	}
	unsup("deep equality of %T", a)
	return nil
}
