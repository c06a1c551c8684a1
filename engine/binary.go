package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Models of encoding/binary's reflection based entry points (Read, Write, Size, Append, Encode, Decode). The byte
// order methods themselves (binary.LittleEndian.PutUint32 ...) are interpreted from the standard library's source.

// fixedSize is the encoded size of a type, -1 if it is not fixed-size.
func fixedSize(t types.Type) int64 {
	switch u := under(t).(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.Int8, types.Uint8:
			return 1
		case types.Int16, types.Uint16:
			return 2
		case types.Int32, types.Uint32, types.Float32:
			return 4
		case types.Int64, types.Uint64, types.Float64:
			return 8
		}
	case *types.Array:
		if s := fixedSize(u.Elem()); s >= 0 {
			return s * u.Len()
		}
	case *types.Struct:
		n := int64(0)
		for i := 0; i < u.NumFields(); i++ {
			s := fixedSize(u.Field(i).Type())
			if s < 0 {
				return -1
			}
			n += s
		}
		return n
	}
	return -1
}

func (st *State) bigEndian(order Iface) bool {
	if order.t == nil {
		st.goPanic("runtime error: invalid memory address or nil pointer dereference")
	}
	switch types.TypeString(order.t, nil) {
	case "encoding/binary.littleEndian", "encoding/binary.nativeEndian":
		return false
	case "encoding/binary.bigEndian":
		return true
	}
	unsup("byte order %s", order.t)
	return false
}

func (st *State) binEnc(out []*Term, v Value, t types.Type, big bool) []*Term {
	switch u := under(t).(type) {
	case *types.Basic:
		x := v.(*Term)
		if x.sort == SBool {
			return append(out, st.T.Ite(x, st.T.Const(8, 1), st.T.Const(8, 0)))
		}
		x = st.toBV(x)
		n := int(x.sort) / 8
		for i := 0; i < n; i++ {
			k := i
			if big {
				k = n - 1 - i
			}
			out = append(out, st.T.Extract(x, 8*k+7, 8*k))
		}
	case *types.Array:
		for _, e := range v.(Agg) {
			out = st.binEnc(out, e, u.Elem(), big)
		}
	case *types.Struct:
		for i, e := range v.(Agg) {
			f := u.Field(i)
			if f.Name() == "_" {
				for k := fixedSize(f.Type()); k > 0; k-- {
					out = append(out, st.T.Const(8, 0))
				}
				continue
			}
			out = st.binEnc(out, e, f.Type(), big)
		}
	default:
		unsup("binary encoding of %s", t)
	}
	return out
}

func (st *State) binDec(in []*Term, old Value, t types.Type, big bool) ([]*Term, Value) {
	switch u := under(t).(type) {
	case *types.Basic:
		s, _ := scalarSort(t)
		if s == SBool {
			return in[1:], st.T.Not(st.T.Eq(in[0], st.T.Const(8, 0)))
		}
		n := s.bits() / 8
		var x *Term
		for i := 0; i < n; i++ {
			k := i
			if big {
				k = n - 1 - i
			}
			if x == nil {
				x = in[k]
			} else {
				x = st.T.Concat(in[k], x)
			}
		}
		return in[n:], st.fromBV(x, s)
	case *types.Array:
		a := append(Agg(nil), old.(Agg)...)
		for i := range a {
			in, a[i] = st.binDec(in, a[i], u.Elem(), big)
		}
		return in, a
	case *types.Struct:
		a := append(Agg(nil), old.(Agg)...)
		for i := range a {
			f := u.Field(i)
			if f.Name() == "_" {
				in = in[fixedSize(f.Type()):]
				continue
			}
			in, a[i] = st.binDec(in, a[i], f.Type(), big)
		}
		return in, a
	}
	unsup("binary decoding of %s", t)
	return nil, nil
}

// binTarget resolves what Read/Write operate on: a run of n elements of type t at a location, or a value.
func (st *State) binTarget(d Iface, write bool) (p Ptr, v Value, t types.Type, n int64, ok bool) {
	if d.t == nil {
		return Ptr{}, nil, nil, 0, false
	}
	t, v = d.t, d.v
	isPtr := false
	if pt, okp := under(t).(*types.Pointer); okp {
		p = v.(Ptr)
		if p.obj == nil {
			return Ptr{}, nil, nil, 0, false
		}
		t, isPtr = pt.Elem(), true
	}
	if s, oks := under(t).(*types.Slice); oks {
		var sl Slice
		if isPtr {
			sl = st.load(p, t).(Slice)
		} else {
			sl = v.(Slice)
		}
		c := int64(st.concretize(sl.len, "binary slice length"))
		return Ptr{sl.obj, sl.off}, nil, s.Elem(), c, fixedSize(s.Elem()) >= 0
	}
	if !isPtr && !write {
		return Ptr{}, nil, nil, 0, false
	}
	if isPtr {
		return p, nil, t, 1, fixedSize(t) >= 0
	}
	return Ptr{}, v, t, 1, fixedSize(t) >= 0
}

func (st *State) binBytes(d Iface, big bool) ([]*Term, bool) {
	p, v, t, n, ok := st.binTarget(d, true)
	if !ok {
		return nil, false
	}
	var out []*Term
	if p.obj == nil {
		if n == 0 {
			return nil, true
		}
		return st.binEnc(out, v, t, big), true
	}
	for i := int64(0); i < n; i++ {
		e := st.load(Ptr{p.obj, st.T.Add(p.off, st.c64(uint64(i*sizeof(t))))}, t)
		out = st.binEnc(out, e, t, big)
	}
	return out, true
}

func (st *State) binStore(d Iface, in []*Term, big bool) {
	p, _, t, n, _ := st.binTarget(d, false)
	for i := int64(0); i < n; i++ {
		q := Ptr{p.obj, st.T.Add(p.off, st.c64(uint64(i*sizeof(t))))}
		var v Value
		in, v = st.binDec(in, st.load(q, t), t, big)
		st.store(q, t, v)
	}
}

// callMethod calls a method of an interface value by name.
func (st *State) callMethod(i Iface, name string, args ...Value) Value {
	if i.t == nil {
		st.goPanic("runtime error: invalid memory address or nil pointer dereference")
	}
	f := st.methodByName(i.t, name)
	if f == nil {
		unsup("method %s of %s", name, i.t)
	}
	return st.callFn(f, append([]Value{i.v}, args...), nil)
}

func initBinary(m map[string]modelFn) {
	errMsg := func(st *State, op string, d Iface) Iface {
		n := "<nil>"
		if d.t != nil {
			n = types.TypeString(d.t, func(p *types.Package) string { return p.Name() })
		}
		return st.newError("binary." + op + ": invalid type " + n)
	}
	m["encoding/binary.Write"] = func(st *State, fn *ssa.Function, a []Value) Value {
		d := a[2].(Iface)
		bs, ok := st.binBytes(d, st.bigEndian(a[1].(Iface)))
		if !ok {
			return errMsg(st, "Write", d)
		}
		r := st.callMethod(a[0].(Iface), "Write", st.newBytes(bs, "binary.Write"))
		return r.(Tuple)[1]
	}
	m["encoding/binary.Read"] = func(st *State, fn *ssa.Function, a []Value) Value {
		d := a[2].(Iface)
		_, _, t, n, ok := st.binTarget(d, false)
		if !ok {
			return errMsg(st, "Read", d)
		}
		buf := st.makeSlice(types.Typ[types.Uint8], st.c64(uint64(fixedSize(t)*n)), st.c64(uint64(fixedSize(t)*n)))
		r := st.callFn(st.pkgFunc("io", "ReadFull"), []Value{a[0], buf}, nil).(Tuple)
		if e := r[1].(Iface); e.t != nil {
			return e
		}
		st.binStore(d, st.sliceBytes(buf, "binary.Read"), st.bigEndian(a[1].(Iface)))
		return Iface{}
	}
	m["encoding/binary.Size"] = func(st *State, fn *ssa.Function, a []Value) Value {
		_, _, t, n, ok := st.binTarget(a[0].(Iface), true)
		if !ok {
			return st.c64(^uint64(0))
		}
		return st.c64(uint64(fixedSize(t) * n))
	}
	m["encoding/binary.Append"] = func(st *State, fn *ssa.Function, a []Value) Value {
		d := a[2].(Iface)
		bs, ok := st.binBytes(d, st.bigEndian(a[1].(Iface)))
		if !ok {
			return tup(Slice{nil, st.zero64, st.zero64, st.zero64}, errMsg(st, "Append", d))
		}
		return tup(st.appendSlice(a[0].(Slice), st.newBytes(bs, "binary.Append"), types.Typ[types.Uint8]), Iface{})
	}
	m["encoding/binary.Encode"] = func(st *State, fn *ssa.Function, a []Value) Value {
		d, buf := a[2].(Iface), a[0].(Slice)
		bs, ok := st.binBytes(d, st.bigEndian(a[1].(Iface)))
		if !ok {
			return tup(st.zero64, errMsg(st, "Encode", d))
		}
		if st.branch(st.T.Ult(buf.len, st.ci(len(bs)))) {
			return tup(st.zero64, st.newError("buffer too small"))
		}
		for i, b := range bs {
			st.store(Ptr{buf.obj, st.T.Add(buf.off, st.ci(i))}, types.Typ[types.Uint8], b)
		}
		return tup(st.ci(len(bs)), Iface{})
	}
	m["encoding/binary.Decode"] = func(st *State, fn *ssa.Function, a []Value) Value {
		d, buf := a[2].(Iface), a[0].(Slice)
		_, _, t, n, ok := st.binTarget(d, false)
		if !ok {
			return tup(st.zero64, errMsg(st, "Decode", d))
		}
		sz := fixedSize(t) * n
		if st.branch(st.T.Ult(buf.len, st.c64(uint64(sz)))) {
			return tup(st.zero64, st.newError("buffer too small"))
		}
		in := make([]*Term, sz)
		for i := range in {
			in[i] = st.load(Ptr{buf.obj, st.T.Add(buf.off, st.ci(i))}, types.Typ[types.Uint8]).(*Term)
		}
		st.binStore(d, in, st.bigEndian(a[1].(Iface)))
		return tup(st.c64(uint64(sz)), Iface{})
	}
}
