package main

import (
	"go/types"
	"math"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

// Models that only changed versions of the code may need.
func initMore(m map[string]modelFn) {
	initSyncMap(m)
	spaced := func(st *State, args Slice, ln bool) []*Term {
		var out []*Term
		prevStr := true
		for i, x := range st.ifaces(args) {
			_, isStr := x.v.(Str)
			if i > 0 && (ln || !isStr && !prevStr) {
				out = st.lit(out, " ")
			}
			out = st.formatArg(out, 'v', x)
			prevStr = isStr
		}
		if ln {
			out = st.lit(out, "\n")
		}
		return out
	}
	m["fmt.Sprint"] = func(st *State, fn *ssa.Function, a []Value) Value {
		return st.mkStr(spaced(st, a[0].(Slice), false))
	}
	m["fmt.Sprintln"] = func(st *State, fn *ssa.Function, a []Value) Value {
		return st.mkStr(spaced(st, a[0].(Slice), true))
	}
	out := func(st *State, w Value, b []*Term) Value {
		return st.callMethod(w.(Iface), "Write", st.newBytes(b, "fmt"))
	}
	m["fmt.Fprintf"] = func(st *State, fn *ssa.Function, a []Value) Value {
		return out(st, a[0], st.format(a[1].(Str), a[2].(Slice), nil))
	}
	m["fmt.Fprint"] = func(st *State, fn *ssa.Function, a []Value) Value {
		return out(st, a[0], spaced(st, a[1].(Slice), false))
	}
	m["fmt.Fprintln"] = func(st *State, fn *ssa.Function, a []Value) Value {
		return out(st, a[0], spaced(st, a[1].(Slice), true))
	}
	app := func(st *State, s Value, b []*Term) Value {
		return st.newBytes(append(append([]*Term(nil), st.sliceBytes(s.(Slice), "fmt.Append")...), b...), "fmt.Append")
	}
	m["fmt.Appendf"] = func(st *State, fn *ssa.Function, a []Value) Value {
		return app(st, a[0], st.format(a[1].(Str), a[2].(Slice), nil))
	}
	m["fmt.Append"] = func(st *State, fn *ssa.Function, a []Value) Value {
		return app(st, a[0], spaced(st, a[1].(Slice), false))
	}
	number := func(st *State, x *Term, base Value, signed bool) []*Term {
		if !x.isConst() {
			if b := base.(*Term); !b.isConst() || b.k != 10 {
				unsup("symbolic number in another base")
			}
			return []*Term{st.tok(x, signed)}
		}
		b := int(st.concretize(base.(*Term), "base"))
		if b < 2 || b > 36 {
			st.goPanic("strconv: illegal AppendInt/FormatInt base")
		}
		if signed {
			return st.lit(nil, strconv.FormatInt(int64(x.k), b))
		}
		return st.lit(nil, strconv.FormatUint(x.k, b))
	}
	for _, signed := range []bool{true, false} {
		signed, n := signed, "Int"
		if !signed {
			n = "Uint"
		}
		m["strconv.Format"+n] = func(st *State, fn *ssa.Function, a []Value) Value {
			return st.mkStr(number(st, a[0].(*Term), a[1], signed))
		}
		m["strconv.Append"+n] = func(st *State, fn *ssa.Function, a []Value) Value {
			return app(st, a[0], number(st, a[1].(*Term), a[2], signed))
		}
	}
	m["errors.As"] = func(st *State, fn *ssa.Function, a []Value) Value {
		t := a[1].(Iface)
		p, ok := t.v.(Ptr)
		if t.t == nil || !ok || p.obj == nil {
			st.goPanic("errors: target must be a non-nil pointer")
		}
		et := under(t.t).(*types.Pointer).Elem()
		return st.T.Bool(st.errorsAs(a[0].(Iface), p, et, t, 0))
	}
	sortSlice := func(st *State, fn *ssa.Function, a []Value) Value {
		x := a[0].(Iface)
		s, ok := x.v.(Slice)
		if !ok {
			st.goPanic("reflect: call of Swapper on non-slice value")
		}
		n := int(st.concretize(s.len, "sorted slice"))
		et := under(x.t).(*types.Slice).Elem()
		es := int(sizeof(et))
		at := func(i int) Ptr { return Ptr{s.obj, st.T.Add(s.off, st.ci(i*es))} }
		for i := 1; i < n; i++ {
			for j := i; j > 0; j-- {
				if !st.branch(st.callClosure(a[1].(*Closure), []Value{st.ci(j), st.ci(j - 1)}).(*Term)) {
					break
				}
				u, v := st.load(at(j), et), st.load(at(j-1), et)
				st.store(at(j), et, v)
				st.store(at(j-1), et, u)
			}
		}
		return nil
	}
	m["sort.Slice"] = sortSlice
	m["sort.SliceStable"] = sortSlice
	m["math.Mod"] = func(st *State, fn *ssa.Function, a []Value) Value {
		x, y := a[0].(*Term), a[1].(*Term)
		if x.isConst() && y.isConst() {
			return st.T.fpk(SFP64, math.Mod(fpConst(SFP64, x.k), fpConst(SFP64, y.k)))
		}
		return st.T.UF("mod", SFP64, x, y)
	}
}

func (st *State) errorsAs(e Iface, p Ptr, et types.Type, target Iface, depth int) bool {
	for e.t != nil {
		if depth++; depth > 20 {
			return false
		}
		if it, ok := under(et).(*types.Interface); ok {
			if st.implements(e.t, it) {
				st.store(p, et, e)
				return true
			}
		} else if types.Identical(e.t, et) {
			st.store(p, et, e.v)
			return true
		}
		if f := st.methodByName(e.t, "As"); f != nil && f.Signature.Params().Len() == 1 {
			if st.branch(st.callFn(f, []Value{e.v, target}, nil).(*Term)) {
				return true
			}
		}
		f := st.methodByName(e.t, "Unwrap")
		if f == nil {
			return false
		}
		switch u := st.callFn(f, []Value{e.v}, nil).(type) {
		case Iface:
			e = u
		case Slice:
			for _, x := range st.ifaces(u) {
				if st.errorsAs(x, p, et, target, depth) {
					return true
				}
			}
			return false
		}
	}
	return false
}

// syncMap is the content of a sync.Map.
func (st *State) syncMap(v Value) *MapObj {
	k := st.lockOf(v)
	if o := st.smaps[k]; o != nil {
		return o
	}
	if st.boot != nil {
		if o := st.boot.smaps[k]; o != nil {
			return o
		}
	}
	any := types.NewInterfaceType(nil, nil)
	o := st.newMap(types.NewMap(any, any))
	if st.smaps == nil {
		st.smaps = map[lockKey]*MapObj{}
	}
	st.smaps[k] = o
	return o
}

func initSyncMap(m map[string]modelFn) {
	any := types.NewInterfaceType(nil, nil)
	mt := types.NewMap(any, any)
	load := func(st *State, o *MapObj, k Value) Tuple { return st.mapLookup(o, k, mt, true).(Tuple) }
	f := func(n string, g func(st *State, o *MapObj, a []Value) Value) {
		m["(*sync.Map)."+n] = func(st *State, fn *ssa.Function, a []Value) Value {
			return g(st, st.syncMap(a[0]), a)
		}
	}
	f("Load", func(st *State, o *MapObj, a []Value) Value { return load(st, o, a[1]) })
	f("Store", func(st *State, o *MapObj, a []Value) Value { st.mapSet(o, a[1], a[2]); return nil })
	f("Swap", func(st *State, o *MapObj, a []Value) Value {
		v := load(st, o, a[1])
		st.mapSet(o, a[1], a[2])
		return v
	})
	f("LoadOrStore", func(st *State, o *MapObj, a []Value) Value {
		v := load(st, o, a[1])
		if st.branch(v[1].(*Term)) {
			return Tuple{v[0], st.T.tt}
		}
		st.mapSet(o, a[1], a[2])
		return Tuple{a[2], st.T.ff}
	})
	f("Delete", func(st *State, o *MapObj, a []Value) Value { st.mapDelete(o, a[1]); return nil })
	f("LoadAndDelete", func(st *State, o *MapObj, a []Value) Value {
		v := load(st, o, a[1])
		st.mapDelete(o, a[1])
		return v
	})
	f("Range", func(st *State, o *MapObj, a []Value) Value {
		es := append([]*MapEntry{}, st.mapR(o).entries...)
		for _, e := range es {
			if e.del {
				continue
			}
			if !st.branch(st.callClosure(a[1].(*Closure), []Value{e.k, e.v}).(*Term)) {
				break
			}
		}
		return nil
	})
	f("Clear", func(st *State, o *MapObj, a []Value) Value {
		for _, e := range append([]*MapEntry{}, st.mapW(o).entries...) {
			if !e.del {
				st.mapDelete(o, e.k)
			}
		}
		return nil
	})
}
