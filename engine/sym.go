package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

const symPath = "github.com/qmuntal/gltf/zzverif/sym"

func (st *State) inputName(v Value) string {
	n := st.strConcrete(v.(Str))
	k := st.inNames[n]
	st.inNames[n] = k + 1
	if k > 0 {
		n = fmt.Sprintf("%s#%d", n, k)
	}
	return n
}

func (st *State) addInput(in *Input) { st.inputs = append(st.inputs, in) }

func (st *State) scalarInput(v Value, w Sort, kind string) *Term {
	n := st.inputName(v)
	t := st.newVar(n, w)
	st.addInput(&Input{name: n, kind: kind, ts: []*Term{t}})
	return t
}

func (st *State) bytesInput(v Value, n int, kind string) []*Term {
	name := st.inputName(v)
	ts := make([]*Term, n)
	for i := range ts {
		ts[i] = st.newVar(fmt.Sprintf("%s[%d]", name, i), 8)
	}
	st.addInput(&Input{name: name, kind: kind, ts: ts})
	return ts
}

func initSym(m map[string]modelFn) {
	S := func(name string, f func(st *State, a []Value) Value) {
		m[symPath+"."+name] = func(st *State, fn *ssa.Function, a []Value) Value { return f(st, a) }
	}
	for _, x := range []struct {
		n string
		w Sort
	}{{"U8", 8}, {"U16", 16}, {"U32", 32}, {"U64", 64}, {"I8", 8}, {"I16", 16}, {"I32", 32}, {"I64", 64}, {"Int", 64}} {
		x := x
		S(x.n, func(st *State, a []Value) Value { return st.scalarInput(a[0], x.w, "int") })
	}
	S("Bool", func(st *State, a []Value) Value {
		t := st.scalarInput(a[0], 8, "int")
		st.assume(st.T.Ult(t, st.T.Const(8, 2)))
		return st.T.Eq(t, st.T.Const(8, 1))
	})
	S("F32", func(st *State, a []Value) Value { return st.T.FromBits(st.scalarInput(a[0], 32, "int")) })
	S("F64", func(st *State, a []Value) Value { return st.T.FromBits(st.scalarInput(a[0], 64, "int")) })
	S("Choose", func(st *State, a []Value) Value {
		t := st.scalarInput(a[0], 64, "int")
		st.assume(st.T.Ult(t, a[1].(*Term)))
		return st.c64(st.concretize(t, "choice"))
	})
	S("Concrete", func(st *State, a []Value) Value { return st.c64(st.concretize(a[0].(*Term), "sym.Concrete")) })
	S("Bytes", func(st *State, a []Value) Value {
		n := int(st.concretize(a[1].(*Term), "sym.Bytes length"))
		return st.newBytes(st.bytesInput(a[0], n, "bytes"), "sym.Bytes")
	})
	S("BytesCap", func(st *State, a []Value) Value {
		n := int(st.concretize(a[1].(*Term), "sym.Bytes length"))
		c := int(st.concretize(a[2].(*Term), "sym.Bytes cap"))
		s := st.newBytes(st.bytesInput(a[0], c, "bytes"), "sym.Bytes")
		s.len = st.ci(n)
		return s
	})
	S("Str", func(st *State, a []Value) Value {
		n := int(st.concretize(a[1].(*Term), "sym.Str length"))
		return st.mkStr(st.bytesInput(a[0], n, "bytes"))
	})
	S("StrAlphabet", func(st *State, a []Value) Value {
		n := int(st.concretize(a[1].(*Term), "sym.Str length"))
		var set byteSet
		for _, y := range st.strBytes(a[2].(Str)) {
			if !y.isConst() {
				unsup("symbolic alphabet")
			}
			set.add(y.k)
		}
		name := st.inputName(a[0])
		b := make([]*Term, n)
		for i := range b {
			b[i] = st.T.VarSet(fmt.Sprintf("%s[%d]/%x", name, i, set), &set)
			st.varsSeen = append(st.varsSeen, b[i])
			c := st.T.ff
			for v := uint64(0); v < 256; v++ {
				if set.has(v) {
					// not Eq, which knows the set
					c = st.T.Or(c, st.T.mk(OEq, SBool, 0, "", st.T.Const(8, v), b[i]))
				}
			}
			st.assume(c)
		}
		st.addInput(&Input{name: name, kind: "bytes", ts: b})
		return st.mkStr(b)
	})
	S("BigBytes", func(st *State, a []Value) Value {
		name := st.inputName(a[0])
		max := a[1].(*Term)
		n := st.newVar(name+".len", 64)
		st.assume(st.T.Ule(n, max))
		o := st.newObj(-1, "sym.BigBytes")
		o.arr = &Arr{kind: 1, name: name}
		o.symLen = n
		st.addInput(&Input{name: name, kind: "big", ts: []*Term{n}, arr: name})
		return Slice{o, st.zero64, n, n}
	})
	S("Assume", func(st *State, a []Value) Value { st.assume(a[0].(*Term)); return nil })
	S("Assert", func(st *State, a []Value) Value {
		st.assert(a[0].(*Term), st.strConcrete(a[1].(Str)))
		return nil
	})
	S("Known", func(st *State, a []Value) Value {
		st.assert(a[0].(*Term), "known:"+st.strConcrete(a[1].(Str)))
		return nil
	})
	S("Reach", func(st *State, a []Value) Value { st.reached[st.strConcrete(a[0].(Str))] = true; return nil })
	S("Tier", func(st *State, a []Value) Value { return st.ci(st.P.tier) })
	S("Observe", func(st *State, a []Value) Value {
		name := st.strConcrete(a[0].(Str))
		v := a[1].(Iface)
		switch x := v.v.(type) {
		case *Term:
			st.observes = append(st.observes, Observed{name: name, ts: []*Term{st.toBV(x)}, s: "int"})
		case Str:
			st.observes = append(st.observes, Observed{name: name, ts: st.strBytes(x), s: "bytes"})
		case Slice:
			if x.len.isConst() && x.len.k <= 4096 {
				if sl, ok := under(v.t).(*types.Slice); ok {
					if s, ok := scalarSort(sl.Elem()); ok && s == 8 {
						st.observes = append(st.observes, Observed{name: name, ts: st.sliceBytes(x, ""), s: "bytes"})
					}
				}
			}
		}
		return nil
	})
	S("And", func(st *State, a []Value) Value {
		s := a[0].(Slice)
		r := st.T.tt
		n := int(st.concretize(s.len, "args"))
		for i := 0; i < n; i++ {
			r = st.T.And(r, st.load(Ptr{s.obj, st.T.Add(s.off, st.ci(i))}, types.Typ[types.Bool]).(*Term))
		}
		return r
	})
	S("Or", func(st *State, a []Value) Value {
		s := a[0].(Slice)
		r := st.T.ff
		n := int(st.concretize(s.len, "args"))
		for i := 0; i < n; i++ {
			r = st.T.Or(r, st.load(Ptr{s.obj, st.T.Add(s.off, st.ci(i))}, types.Typ[types.Bool]).(*Term))
		}
		return r
	})
	S("Not", func(st *State, a []Value) Value { return st.T.Not(a[0].(*Term)) })
	S("IteInt", func(st *State, a []Value) Value { return st.T.Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term)) })
	S("BytesEq", func(st *State, a []Value) Value {
		return st.deepEqual(a[0], a[1], types.NewSlice(types.Typ[types.Uint8]), false, 0)
	})
	S("StrEq", func(st *State, a []Value) Value { return st.strEq(a[0].(Str), a[1].(Str)) })
	S("DeepEqual", func(st *State, a []Value) Value { return st.deepEqual(a[0], a[1], nil, false, 0) })
	S("AllocLimit", func(st *State, a []Value) Value {
		st.allocLim = a[0].(*Term)
		st.allocUsed = st.zero64
		return nil
	})
	S("AllocEnd", func(st *State, a []Value) Value {
		st.allocLim = nil
		return nil
	})
}
