package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/bits"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// ---------- strings ----------

func (st *State) strBytes(s Str) []*Term {
	if s.sym != nil {
		return s.sym
	}
	if b, ok := st.strCache[s.s]; ok {
		return b
	}
	b := make([]*Term, len(s.s))
	for i := 0; i < len(s.s); i++ {
		b[i] = st.T.Const(8, uint64(s.s[i]))
	}
	if len(s.s) < 256 {
		st.strCache[s.s] = b
	}
	return b
}

func (st *State) mkStr(b []*Term) Str {
	for _, x := range b {
		if !x.isConst() {
			c := make([]*Term, len(b))
			copy(c, b)
			return Str{sym: c}
		}
	}
	buf := make([]byte, len(b))
	for i, x := range b {
		buf[i] = byte(x.k)
	}
	return Str{s: string(buf)}
}

// strConcrete renders a string for messages; symbolic bytes show as '?'.
func (st *State) strConcrete(s Str) string {
	if s.sym == nil {
		return s.s
	}
	var b strings.Builder
	for _, x := range s.sym {
		if x.isConst() {
			b.WriteByte(byte(x.k))
		} else {
			b.WriteByte('?')
		}
	}
	return b.String()
}

func (st *State) strEq(a, b Str) *Term {
	if a.sym == nil && b.sym == nil {
		return st.T.Bool(a.s == b.s)
	}
	x, y := st.strBytes(a), st.strBytes(b)
	if hasTokBytes(x) || hasTokBytes(y) {
		if r, ok := st.tokEq(x, y); ok {
			return r
		}
		unsup("comparing text that contains symbolic numbers")
	}
	if len(x) != len(y) {
		return st.T.ff
	}
	r := st.T.tt
	for i := range x {
		r = st.T.And(r, st.T.Eq(x[i], y[i]))
		if r.isFalse() {
			return r
		}
	}
	return r
}

func hasTokBytes(x []*Term) bool {
	for _, b := range x {
		if b.op == OTok {
			return true
		}
	}
	return false
}

// tokEq compares texts in which symbolic numbers occur: a number is compared with another number or
// with the literal it faces.
func (st *State) tokEq(x, y []*Term) (*Term, bool) {
	r := st.T.tt
	for len(x) > 0 && len(y) > 0 {
		xt, yt := x[0].op == OTok, y[0].op == OTok
		switch {
		case xt == yt:
			if xt && (x[0].k != y[0].k || x[0].a[0].sort != y[0].a[0].sort) {
				return nil, false
			}
			r = st.T.And(r, st.T.Eq(x[0], y[0]))
			x, y = x[1:], y[1:]
		default:
			if yt {
				x, y = y, x
			}
			n := x[0].a[0]
			if n.sort != 64 {
				return nil, false
			}
			i := 0
			for i < len(y) && y[i].op != OTok && y[i].isConst() && (y[i].k >= '0' && y[i].k <= '9' || i == 0 && y[i].k == '-') {
				i++
			}
			if i < len(y) && (y[i].op == OTok || !y[i].isConst()) {
				return nil, false
			}
			if len(x) > 1 && (x[1].op == OTok || !x[1].isConst() || x[1].k >= '0' && x[1].k <= '9') {
				return nil, false
			}
			lit := make([]byte, i)
			for j := range lit {
				lit[j] = byte(y[j].k)
			}
			var v uint64
			if x[0].k == 1 {
				k, err := strconv.ParseInt(string(lit), 10, 64)
				if err != nil || strconv.FormatInt(k, 10) != string(lit) {
					return st.T.ff, true
				}
				v = uint64(k)
			} else {
				k, err := strconv.ParseUint(string(lit), 10, 64)
				if err != nil || strconv.FormatUint(k, 10) != string(lit) {
					return st.T.ff, true
				}
				v = k
			}
			r = st.T.And(r, st.T.Eq(n, st.c64(v)))
			x, y = x[1:], y[i:]
		}
		if r.isFalse() {
			return r, true
		}
	}
	if len(x)+len(y) > 0 {
		return st.T.ff, true
	}
	return r, true
}

func (st *State) strLess(a, b Str) *Term {
	if a.sym == nil && b.sym == nil {
		return st.T.Bool(a.s < b.s)
	}
	x, y := st.strBytes(a), st.strBytes(b)
	n := len(x)
	if len(y) < n {
		n = len(y)
	}
	r := st.T.Bool(len(x) < len(y))
	for i := n - 1; i >= 0; i-- {
		r = st.T.Or(st.T.Ult(x[i], y[i]), st.T.And(st.T.Eq(x[i], y[i]), r))
	}
	return r
}

func (st *State) strCat(a, b Str) Str {
	if a.sym == nil && b.sym == nil {
		return Str{s: a.s + b.s}
	}
	if a.length() == 0 {
		return b
	}
	if b.length() == 0 {
		return a
	}
	x, y := st.strBytes(a), st.strBytes(b)
	r := make([]*Term, 0, len(x)+len(y))
	r = append(r, x...)
	r = append(r, y...)
	return Str{sym: r}
}

func (st *State) strSlice(s Str, lo, hi int) Str {
	if s.sym == nil {
		return Str{s: s.s[lo:hi]}
	}
	return st.mkStr(s.sym[lo:hi])
}

// sliceBytes returns the bytes of a byte slice (concrete length).
func (st *State) sliceBytes(s Slice, why string) []*Term {
	n := int(st.concretize(s.len, why))
	out := make([]*Term, n)
	if n == 0 {
		return out
	}
	if st.race != nil {
		st.raceMem(Ptr{s.obj, s.off}, s.len, false)
	}
	o := st.resolve(s.obj)
	for i := range out {
		out[i] = st.loadByteSym(o, st.T.Add(s.off, st.ci(i)))
	}
	return out
}

func (st *State) newBytes(b []*Term, label string) Slice {
	o := st.newObj(int64(len(b)), label)
	for i, x := range b {
		if x.isConst() && x.k == 0 {
			continue
		}
		o.put(int64(i), cell{x, 1})
	}
	n := st.ci(len(b))
	return Slice{o, st.zero64, n, n}
}

func (st *State) newStrSlice(ss []string) Slice {
	o := st.newObj(int64(len(ss))*16, "strings")
	for i, s := range ss {
		o.put(int64(i)*16, cell{Str{s: s}, 16})
	}
	n := st.ci(len(ss))
	return Slice{o, st.zero64, n, n}
}

// ---------- equality ----------

func (st *State) nilPtr(p Ptr) bool {
	return p.obj == nil && (p.off == nil || p.off.isConst() && p.off.k == 0)
}

func (st *State) equal(a, b Value, t types.Type) *Term {
	switch x := a.(type) {
	case *Term:
		y := b.(*Term)
		if x.sort.isFP() {
			return st.T.FEq(x, y)
		}
		return st.T.Eq(x, y)
	case Str:
		return st.strEq(x, b.(Str))
	case Ptr:
		y := b.(Ptr)
		if x.obj != y.obj {
			return st.T.ff
		}
		if x.obj == nil {
			return st.T.tt
		}
		return st.T.Eq(x.off, y.off)
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			unsup("iface compared with %T", b)
		}
		if x.t == nil || y.t == nil {
			return st.T.Bool(x.t == nil && y.t == nil)
		}
		if rx, ok := x.v.(RType); ok {
			ry, ok := y.v.(RType)
			return st.T.Bool(ok && types.Identical(rx.t, ry.t))
		}
		if !types.Identical(x.t, y.t) {
			return st.T.ff
		}
		if !types.Comparable(x.t) {
			st.goPanic("runtime error: comparing uncomparable type " + x.t.String())
		}
		return st.equal(x.v, y.v, x.t)
	case Agg:
		y := b.(Agg)
		r := st.T.tt
		switch u := under(t).(type) {
		case *types.Struct:
			for i := range x {
				if u.Field(i).Name() == "_" {
					continue
				}
				r = st.T.And(r, st.equal(x[i], y[i], u.Field(i).Type()))
			}
		case *types.Array:
			for i := range x {
				r = st.T.And(r, st.equal(x[i], y[i], u.Elem()))
			}
		default: // complex
			for i := range x {
				r = st.T.And(r, st.equal(x[i], y[i], types.Typ[types.Float64]))
			}
		}
		return r
	case *MapObj:
		return st.T.Bool(x == b.(*MapObj))
	case *Closure:
		y := b.(*Closure)
		if x != nil && y != nil {
			unsup("func comparison")
		}
		return st.T.Bool(x == y)
	case Slice:
		y := b.(Slice)
		// only comparison with nil is legal
		if x.obj == nil && y.obj == nil {
			return st.T.tt
		}
		if x.obj != nil && y.obj != nil {
			unsup("slice comparison")
		}
		return st.T.ff
	case RType:
		y, ok := b.(RType)
		return st.T.Bool(ok && types.Identical(x.t, y.t))
	case nil:
		return st.T.Bool(b == nil)
	}
	unsup("equality of %T", a)
	return nil
}

// ---------- maps ----------

func (st *State) newMap(t types.Type) *MapObj {
	m := under(t).(*types.Map)
	st.nobj++
	return &MapObj{id: st.nobj, kt: m.Key(), vt: m.Elem(), idx: map[string]int{}, frozen: st.initMode}
}

func (st *State) mapR(m *MapObj) *MapObj {
	st.raceMap(m, false)
	if m != nil && m.frozen {
		if s, ok := st.mshadow[m]; ok {
			return s
		}
	}
	return m
}

func (st *State) mapW(m *MapObj) *MapObj {
	if m == nil {
		st.goPanic("assignment to entry in nil map")
	}
	st.raceMap(m, true)
	if !m.frozen || st.initMode {
		return m
	}
	if s, ok := st.mshadow[m]; ok {
		return s
	}
	n := &MapObj{id: m.id, kt: m.kt, vt: m.vt, symKeys: m.symKeys, idx: map[string]int{}}
	for _, e := range m.entries {
		c := *e
		n.entries = append(n.entries, &c)
	}
	for k, v := range m.idx {
		n.idx[k] = v
	}
	st.mshadow[m] = n
	return n
}

// constKey returns a canonical string for fully concrete keys.
func constKey(k Value) (string, bool) {
	switch x := k.(type) {
	case *Term:
		if x.isConst() && !x.sort.isFP() {
			return fmt.Sprintf("i%d:%d", x.sort, x.k), true
		}
	case Str:
		if x.sym == nil {
			return "s" + x.s, true
		}
	case Ptr:
		if x.obj == nil {
			return "p0", true
		}
		if x.off.isConst() {
			return fmt.Sprintf("p%p+%d", x.obj, x.off.k), true
		}
	case Agg:
		var sb strings.Builder
		sb.WriteString("a")
		for _, e := range x {
			s, ok := constKey(e)
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%d:%s;", len(s), s)
		}
		return sb.String(), true
	case Iface:
		if x.t == nil {
			return "n", true
		}
		if r, ok := x.v.(RType); ok {
			return "t" + r.t.String(), true
		}
		if s, ok := constKey(x.v); ok {
			return "f" + x.t.String() + "|" + s, true
		}
	case RType:
		return "t" + x.t.String(), true
	}
	return "", false
}

// mapFind returns the index of the entry with key k, forking if needed; -1 if absent.
func (st *State) mapFind(m *MapObj, k Value) int {
	if m == nil {
		return -1
	}
	if s, ok := constKey(k); ok {
		if i, ok := m.idx[s]; ok {
			return i
		}
		if !m.symKeys {
			return -1
		}
	}
	for i, e := range m.entries {
		if e.del {
			continue
		}
		c := st.equal(e.k, k, m.kt)
		if c.isFalse() {
			continue
		}
		if st.branch(c) {
			return i
		}
	}
	return -1
}

func (st *State) mapLookup(m0 *MapObj, k Value, mt *types.Map, commaOk bool) Value {
	m := st.mapR(m0)
	if i, ok := k.(Iface); ok && i.t != nil && !types.Comparable(i.t) {
		st.goPanic("runtime error: hash of unhashable type " + i.t.String())
	}
	zero := st.zero(mt.Elem())
	ret := func(v Value, ok *Term) Value {
		if commaOk {
			return Tuple{v, ok}
		}
		return v
	}
	if m == nil {
		return ret(zero, st.T.ff)
	}
	if _, ok := constKey(k); !ok || m.symKeys {
		// try to build an ite chain
		v := zero
		found := st.T.ff
		good := true
		for i := len(m.entries) - 1; i >= 0; i-- {
			e := m.entries[i]
			if e.del {
				continue
			}
			c := st.equal(e.k, k, m.kt)
			if c.isFalse() {
				continue
			}
			nv, ok := st.mergeVal(c, e.v, v)
			if !ok {
				good = false
				break
			}
			v = nv
			found = st.T.Or(c, found)
		}
		if good {
			return ret(v, found)
		}
	}
	i := st.mapFind(m, k)
	if i < 0 {
		return ret(zero, st.T.ff)
	}
	return ret(m.entries[i].v, st.T.tt)
}

func (st *State) mapSet(m0 *MapObj, k, v Value) {
	m := st.mapW(m0)
	if i, ok := k.(Iface); ok && i.t != nil && !types.Comparable(i.t) {
		st.goPanic("runtime error: hash of unhashable type " + i.t.String())
	}
	if i := st.mapFind(m, k); i >= 0 {
		m.entries[i].v = v
		return
	}
	s, ok := constKey(k)
	if ok {
		m.idx[s] = len(m.entries)
	} else {
		m.symKeys = true
	}
	m.entries = append(m.entries, &MapEntry{k: k, v: v})
}

func (st *State) mapDelete(m0 *MapObj, k Value) {
	if m0 == nil {
		return
	}
	m := st.mapW(m0)
	i := st.mapFind(m, k)
	if i < 0 {
		return
	}
	m.entries[i].del = true
	if s, ok := constKey(m.entries[i].k); ok {
		delete(m.idx, s)
	}
}

func (m *MapObj) count() int {
	if m == nil {
		return 0
	}
	n := 0
	for _, e := range m.entries {
		if !e.del {
			n++
		}
	}
	return n
}

type rangeIter struct {
	str  Str
	ents []*MapEntry
	pos  int
	isS  bool
}

// ---------- instruction execution ----------

func (st *State) idx64(v *Term, t types.Type) *Term {
	if v.sort == 64 {
		return v
	}
	if isSigned(t) {
		return st.T.SExt(v, 64)
	}
	return st.T.ZExt(v, 64)
}

// need branches on cond; if it can be false the panic path is explored.
// small16 tells whether the path condition implies that the 64-bit x is in [0, 2^16).
func (st *State) small16(x *Term) bool {
	return st.decide(st.T.Ult(x, st.T.Const(64, 1<<16))) == 1
}

func (st *State) need(c *Term, msg string) {
	if c.isTrue() {
		return
	}
	if st.spec > 0 {
		if c.isFalse() || st.decide(c) != 1 {
			panic(specAbort{})
		}
		return
	}
	if !st.branch(c) {
		st.goPanic(msg)
	}
}

func (st *State) exec(fr *Frame, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Phi, *ssa.DebugRef:
	case *ssa.Alloc:
		et := x.Type().Underlying().(*types.Pointer).Elem()
		o := st.newObj(sizeof(et), x.Comment)
		fr.set(x, Ptr{o, st.zero64})
	case *ssa.BinOp:
		fr.set(x, st.binop(x.Op, fr.get(st, x.X), fr.get(st, x.Y), x.X.Type(), x.Y.Type()))
	case *ssa.UnOp:
		fr.set(x, st.unop(fr, x))
	case *ssa.ChangeType:
		fr.set(x, fr.get(st, x.X))
	case *ssa.Convert:
		fr.set(x, st.convert(fr.get(st, x.X), x.X.Type(), x.Type()))
	case *ssa.MultiConvert:
		fr.set(x, st.convert(fr.get(st, x.X), x.X.Type(), x.Type()))
	case *ssa.ChangeInterface:
		fr.set(x, fr.get(st, x.X))
	case *ssa.MakeInterface:
		fr.set(x, Iface{x.X.Type(), fr.get(st, x.X)})
	case *ssa.TypeAssert:
		fr.set(x, st.typeAssert(x, fr.get(st, x.X).(Iface)))
	case *ssa.Extract:
		fr.set(x, fr.get(st, x.Tuple).(Tuple)[x.Index])
	case *ssa.Field:
		v := fr.get(st, x.X)
		a, ok := v.(Agg)
		if !ok {
			unsup("Field of %T", v)
		}
		fr.set(x, a[x.Field])
	case *ssa.FieldAddr:
		p := fr.get(st, x.X).(Ptr)
		if p.obj == nil {
			st.goPanic("runtime error: invalid memory address or nil pointer dereference")
		}
		s := under(x.X.Type().Underlying().(*types.Pointer).Elem()).(*types.Struct)
		off := structLayout(s).offs[x.Field]
		fr.set(x, Ptr{p.obj, st.T.Add(p.off, st.c64(uint64(off)))})
	case *ssa.Index:
		v := fr.get(st, x.X)
		i := st.idx64(fr.term(st, x.Index), x.Index.Type())
		switch a := v.(type) {
		case Agg:
			st.need(st.T.Ult(i, st.ci(len(a))), "runtime error: index out of range")
			fr.set(x, st.selectAgg(a, i))
		case Str:
			fr.set(x, st.strIndex(a, i))
		default:
			unsup("Index of %T", v)
		}
	case *ssa.IndexAddr:
		i := st.idx64(fr.term(st, x.Index), x.Index.Type())
		switch a := fr.get(st, x.X).(type) {
		case Slice:
			st.need(st.T.Ult(i, a.len), "runtime error: index out of range")
			es := sizeof(x.Type().Underlying().(*types.Pointer).Elem())
			fr.set(x, Ptr{a.obj, st.T.Add(a.off, st.T.MulC(i, uint64(es)))})
		case Ptr:
			at := under(x.X.Type().Underlying().(*types.Pointer).Elem()).(*types.Array)
			if a.obj == nil {
				st.goPanic("runtime error: invalid memory address or nil pointer dereference")
			}
			st.need(st.T.Ult(i, st.c64(uint64(at.Len()))), "runtime error: index out of range")
			fr.set(x, Ptr{a.obj, st.T.Add(a.off, st.T.MulC(i, uint64(sizeof(at.Elem()))))})
		default:
			unsup("IndexAddr of %T", a)
		}
	case *ssa.Lookup:
		switch m := fr.get(st, x.X).(type) {
		case *MapObj:
			fr.set(x, st.mapLookup(m, fr.get(st, x.Index), under(x.X.Type()).(*types.Map), x.CommaOk))
		case Str:
			fr.set(x, st.strIndex(m, st.idx64(fr.term(st, x.Index), x.Index.Type())))
		default:
			unsup("Lookup of %T", m)
		}
	case *ssa.Slice:
		fr.set(x, st.sliceOp(fr, x))
	case *ssa.SliceToArrayPointer:
		s := fr.get(st, x.X).(Slice)
		at := under(x.Type().Underlying().(*types.Pointer).Elem()).(*types.Array)
		st.need(st.T.Ule(st.c64(uint64(at.Len())), s.len), "runtime error: cannot convert slice to array pointer: length too short")
		if s.obj == nil {
			fr.set(x, Ptr{})
		} else {
			fr.set(x, Ptr{s.obj, s.off})
		}
	case *ssa.MakeSlice:
		et := under(x.Type()).(*types.Slice).Elem()
		l := st.idx64(fr.term(st, x.Len), x.Len.Type())
		c := st.idx64(fr.term(st, x.Cap), x.Cap.Type())
		fr.set(x, st.makeSlice(et, l, c))
	case *ssa.MakeMap:
		fr.set(x, st.newMap(x.Type()))
	case *ssa.MakeChan:
		fr.set(x, Ptr{st.newObj(8, "chan"), st.zero64})
	case *ssa.MakeClosure:
		c := &Closure{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			c.bind = append(c.bind, fr.get(st, b))
		}
		fr.set(x, c)
	case *ssa.MapUpdate:
		st.mapSet(fr.get(st, x.Map).(*MapObj), fr.get(st, x.Key), fr.get(st, x.Value))
	case *ssa.Range:
		switch m := fr.get(st, x.X).(type) {
		case *MapObj:
			mm := st.mapR(m)
			it := &rangeIter{}
			if mm != nil {
				it.ents = append(it.ents, mm.entries...)
			}
			fr.set(x, it)
		case Str:
			fr.set(x, &rangeIter{str: m, isS: true})
		}
	case *ssa.Next:
		fr.set(x, st.next(fr.get(st, x.Iter).(*rangeIter), x))
	case *ssa.Store:
		if st.spec > 0 {
			st.specStore(fr.get(st, x.Addr).(Ptr), x.Val.Type(), fr.get(st, x.Val))
			return
		}
		st.store(fr.get(st, x.Addr).(Ptr), x.Val.Type(), fr.get(st, x.Val))
	case *ssa.Call:
		v := st.call(fr, &x.Call, x)
		fr.set(x, v)
	case *ssa.Defer:
		st.deferCall(fr, &x.Call)
	case *ssa.Go:
		unsup("go statement in %s", fr.fn)
	case *ssa.Send, *ssa.Select:
		unsup("channel operation in %s", fr.fn)
	default:
		unsup("instruction %T", in)
	}
}

func (st *State) selectAgg(a Agg, i *Term) Value {
	if i.isConst() {
		return a[i.k]
	}
	v := a[len(a)-1]
	for k := len(a) - 2; k >= 0; k-- {
		nv, ok := st.mergeVal(st.T.Eq(i, st.ci(k)), a[k], v)
		if !ok {
			return a[st.concretize(i, "array index")]
		}
		v = nv
	}
	return v
}

func (st *State) strIndex(s Str, i *Term) Value {
	n := s.length()
	st.need(st.T.Ult(i, st.ci(n)), "runtime error: index out of range")
	if i.isConst() {
		if s.sym == nil {
			return st.T.Const(8, uint64(s.s[i.k]))
		}
		return s.sym[i.k]
	}
	if n > 2048 {
		k := st.concretize(i, "string index")
		return st.strIndex(s, st.c64(k))
	}
	b := st.strBytes(s)
	v := b[n-1]
	for k := n - 2; k >= 0; k-- {
		v = st.T.Ite(st.T.Eq(i, st.ci(k)), b[k], v)
	}
	return v
}

func (st *State) binop(op token.Token, a, b Value, ta, tb types.Type) Value {
	T := st.T
	switch op {
	case token.EQL:
		return st.equalMixed(a, b, ta, tb)
	case token.NEQ:
		return T.Not(st.equalMixed(a, b, ta, tb))
	}
	if s, ok := a.(Str); ok {
		y := b.(Str)
		switch op {
		case token.ADD:
			return st.strCat(s, y)
		case token.LSS:
			return st.strLess(s, y)
		case token.GTR:
			return st.strLess(y, s)
		case token.LEQ:
			return T.Not(st.strLess(y, s))
		case token.GEQ:
			return T.Not(st.strLess(s, y))
		}
	}
	x, ok := a.(*Term)
	if !ok {
		unsup("binop %s on %T", op, a)
	}
	y := b.(*Term)
	if x.sort.isFP() {
		switch op {
		case token.ADD:
			return T.FBin(OFAdd, x, y)
		case token.SUB:
			return T.FBin(OFSub, x, y)
		case token.MUL:
			return T.FBin(OFMul, x, y)
		case token.QUO:
			return T.FBin(OFDiv, x, y)
		case token.LSS:
			return T.FLt(x, y)
		case token.LEQ:
			return T.FLe(x, y)
		case token.GTR:
			return T.FLt(y, x)
		case token.GEQ:
			return T.FLe(y, x)
		}
		unsup("float op %s", op)
	}
	if x.sort == SBool {
		switch op {
		case token.AND, token.LAND:
			return T.And(x, y)
		case token.OR, token.LOR:
			return T.Or(x, y)
		case token.XOR:
			return T.Not(T.Eq(x, y))
		}
		unsup("bool op %s", op)
	}
	signed := isSigned(ta)
	switch op {
	case token.ADD:
		return T.Add(x, y)
	case token.SUB:
		return T.Sub(x, y)
	case token.MUL:
		if x.sort == 64 && !x.isConst() && !y.isConst() && st.small16(x) && st.small16(y) {
			return T.ZExt(T.Mul(T.ZExt(T.Extract(x, 15, 0), 32), T.ZExt(T.Extract(y, 15, 0), 32)), 64)
		}
		return T.Mul(x, y)
	case token.QUO, token.REM:
		st.need(T.Not(T.Eq(y, T.Const(y.sort, 0))), "runtime error: integer divide by zero")
		if x.sort == 64 && !x.isConst() && !y.isConst() && st.small16(x) &&
			(!signed || st.decide(T.Not(T.Slt(y, T.Const(64, 0)))) == 1) {
			// a small non-negative dividend and a positive divisor: 16 bits are enough
			x16, y16 := T.Extract(x, 15, 0), T.Extract(y, 15, 0)
			big := T.Not(T.Ult(y, T.Const(64, 1<<16)))
			if op == token.QUO {
				return T.Ite(big, T.Const(64, 0), T.ZExt(T.UDiv(x16, y16), 64))
			}
			return T.Ite(big, x, T.ZExt(T.URem(x16, y16), 64))
		}
		switch {
		case op == token.QUO && signed:
			return T.SDiv(x, y)
		case op == token.QUO:
			return T.UDiv(x, y)
		case signed:
			return T.SRem(x, y)
		}
		return T.URem(x, y)
	case token.AND:
		return T.BAnd(x, y)
	case token.OR:
		return T.BOr(x, y)
	case token.XOR:
		return T.BXor(x, y)
	case token.AND_NOT:
		return T.BAnd(x, T.BNot(y))
	case token.SHL, token.SHR:
		if isSigned(tb) {
			st.need(T.Not(T.Slt(y, T.Const(y.sort, 0))), "runtime error: negative shift amount")
		}
		w := x.sort
		var sh *Term
		if y.sort == w {
			sh = y
		} else if y.sort < w {
			sh = T.ZExt(y, w)
		} else {
			sh = T.Ite(T.Ult(y, T.Const(y.sort, uint64(w))), T.Extract(y, int(w)-1, 0), T.Const(w, uint64(w)))
		}
		if op == token.SHL {
			return T.Shl(x, sh)
		}
		if signed {
			return T.AShr(x, sh)
		}
		return T.LShr(x, sh)
	case token.LSS:
		if signed {
			return T.Slt(x, y)
		}
		return T.Ult(x, y)
	case token.LEQ:
		if signed {
			return T.Sle(x, y)
		}
		return T.Ule(x, y)
	case token.GTR:
		if signed {
			return T.Slt(y, x)
		}
		return T.Ult(y, x)
	case token.GEQ:
		if signed {
			return T.Sle(y, x)
		}
		return T.Ule(y, x)
	}
	unsup("op %s", op)
	return nil
}

func (st *State) equalMixed(a, b Value, ta, tb types.Type) *Term {
	// interface compared with concrete
	_, ia := under(ta).(*types.Interface)
	_, ib := under(tb).(*types.Interface)
	if ia && !ib {
		if _, ok := b.(Iface); !ok {
			b = Iface{tb, b}
		}
	}
	if ib && !ia {
		if _, ok := a.(Iface); !ok {
			a = Iface{ta, a}
		}
	}
	return st.equal(a, b, ta)
}

func (st *State) unop(fr *Frame, x *ssa.UnOp) Value {
	v := fr.get(st, x.X)
	switch x.Op {
	case token.MUL:
		p, ok := v.(Ptr)
		if !ok {
			unsup("load through %T", v)
		}
		r := st.load(p, x.X.Type().Underlying().(*types.Pointer).Elem())
		if x.CommaOk {
			unsup("commaok load")
		}
		return r
	case token.NOT:
		return st.T.Not(v.(*Term))
	case token.SUB:
		t := v.(*Term)
		if t.sort.isFP() {
			return st.T.FNeg(t)
		}
		return st.T.Neg(t)
	case token.XOR:
		return st.T.BNot(v.(*Term))
	}
	unsup("unop %s", x.Op)
	return nil
}

func (st *State) convert(v Value, from, to types.Type) Value {
	T := st.T
	uf, ut := under(from), under(to)
	if ts, ok := scalarSort(to); ok {
		if p, ok := v.(Ptr); ok {
			return st.ptrToInt(p)
		}
		x, ok := v.(*Term)
		if !ok {
			unsup("convert %T to %s", v, to)
		}
		switch {
		case x.sort == SBool:
			return x
		case x.sort.isFP() && ts.isFP():
			return T.FConv(x, ts)
		case x.sort.isFP():
			return T.FToI(x, ts, isSigned(to))
		case ts.isFP():
			return T.IToF(x, isSigned(from), ts)
		}
		if isSigned(from) {
			return T.SExt(x, ts)
		}
		return T.ZExt(x, ts)
	}
	switch u := ut.(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UnsafePointer:
			if t, ok := v.(*Term); ok {
				return st.intToPtr(t)
			}
			return v
		case u.Info()&types.IsString != 0:
			switch x := v.(type) {
			case Str:
				return x
			case Slice:
				es := under(uf.(*types.Slice).Elem()).(*types.Basic)
				if es.Kind() == types.Uint8 {
					return st.mkStr(st.sliceBytes(x, "length of a byte slice converted to string"))
				}
				n := int(st.concretize(x.len, "rune slice length"))
				var sb strings.Builder
				for i := 0; i < n; i++ {
					r := st.load(Ptr{x.obj, T.Add(x.off, st.ci(4*i))}, types.Typ[types.Int32]).(*Term)
					sb.WriteRune(rune(int32(st.concretize(r, "rune"))))
				}
				return Str{s: sb.String()}
			case *Term:
				x64 := x
				if isSigned(from) {
					x64 = T.SExt(x, 64)
				} else {
					x64 = T.ZExt(x, 64)
				}
				r := int64(st.concretize(x64, "rune to string"))
				if r < 0 || r > 0x10ffff {
					r = 0xfffd
				}
				return Str{s: string(rune(r))}
			}
		case u.Info()&types.IsComplex != 0:
			return v
		}
	case *types.Slice:
		if s, ok := v.(Str); ok {
			es := under(u.Elem()).(*types.Basic)
			if es.Kind() == types.Uint8 {
				b := st.strBytes(s)
				r := st.newBytes(b, "[]byte(string)")
				return r
			}
			if s.sym != nil {
				s = Str{s: st.concretizeStr(s)}
			}
			rs := []rune(s.s)
			o := st.newObj(int64(len(rs))*4, "[]rune")
			for i, r := range rs {
				o.put(int64(i)*4, cell{T.Const(32, uint64(uint32(r))), 4})
			}
			n := st.ci(len(rs))
			return Slice{o, st.zero64, n, n}
		}
		return v
	case *types.Pointer:
		if t, ok := v.(*Term); ok {
			return st.intToPtr(t)
		}
		return v
	}
	return v
}

func (st *State) concretizeStr(s Str) string {
	if s.sym == nil {
		return s.s
	}
	b := make([]byte, len(s.sym))
	for i, t := range s.sym {
		b[i] = byte(st.concretize(t, "string byte"))
	}
	return string(b)
}

func (st *State) implements(t types.Type, it *types.Interface) bool {
	if it.NumMethods() == 0 {
		return true
	}
	k := implKey{t, it}
	if v, ok := implCache.get(k); ok {
		return v
	}
	v := types.Implements(t, it)
	implCache.set(k, v)
	return v
}

type implKey struct {
	t  types.Type
	it *types.Interface
}

var implCache = newSyncMap[implKey, bool]()

func (st *State) typeAssert(x *ssa.TypeAssert, v Iface) Value {
	ok := false
	var r Value
	at := x.AssertedType
	if it, isI := under(at).(*types.Interface); isI {
		if v.t != nil && st.implements(v.t, it) {
			ok = true
			r = v
		} else {
			r = Iface{}
		}
	} else {
		if v.t != nil && types.Identical(v.t, at) {
			ok = true
			r = v.v
		} else {
			r = st.zero(at)
		}
	}
	if x.CommaOk {
		return Tuple{r, st.T.Bool(ok)}
	}
	if !ok {
		n := "nil"
		if v.t != nil {
			n = v.t.String()
		}
		st.goPanic(fmt.Sprintf("interface conversion: interface is %s, not %s", n, at))
	}
	return r
}

const maxAlloc = 1 << 47

func (st *State) noteAlloc(n *Term) {
	if st.allocLim == nil {
		return
	}
	st.allocUsed = st.T.Add(st.allocUsed, n)
	// each allocation individually and the sum must stay within the limit
	c := st.T.And(st.T.Ule(n, st.allocLim), st.T.Ule(st.allocUsed, st.allocLim))
	if c.isTrue() {
		return
	}
	if st.spec > 0 {
		panic(specAbort{})
	}
	st.assert(c, "allocation bounded by the data that is present")
}

func (st *State) makeSlice(et types.Type, l, c *Term) Slice {
	T := st.T
	es := uint64(sizeof(et))
	lim := uint64(maxAlloc)
	if es > 0 {
		lim = maxAlloc / es
	}
	st.need(T.Ule(l, st.c64(lim)), "runtime error: makeslice: len out of range")
	if c != l {
		st.need(T.And(T.Ule(l, c), T.Ule(c, st.c64(lim))), "runtime error: makeslice: cap out of range")
	}
	st.noteAlloc(T.MulC(c, es))
	size := T.MulC(c, es)
	if size.isConst() {
		if size.k > 1<<24 {
			o := st.newObj(int64(size.k), "make")
			o.arr = arrZero
			o.symLen = size
			return Slice{o, st.zero64, l, c}
		}
		return Slice{st.newObj(int64(size.k), "make"), st.zero64, l, c}
	}
	if !scalarOnly(et) || es == 0 {
		cc := st.concretize(c, "make length")
		return Slice{st.newObj(int64(cc*es), "make"), st.zero64, l, st.c64(cc)}
	}
	o := st.newObj(-1, "make")
	o.arr = arrZero
	o.symLen = size
	return Slice{o, st.zero64, l, c}
}

func scalarOnly(t types.Type) bool {
	if _, ok := scalarSort(t); ok {
		return true
	}
	switch u := under(t).(type) {
	case *types.Array:
		return scalarOnly(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !scalarOnly(u.Field(i).Type()) {
				return false
			}
		}
		return true
	}
	return false
}

func (st *State) sliceOp(fr *Frame, x *ssa.Slice) Value {
	T := st.T
	opt := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return st.idx64(fr.term(st, v), v.Type())
	}
	lo, hi, mx := opt(x.Low), opt(x.High), opt(x.Max)
	v := fr.get(st, x.X)
	switch a := v.(type) {
	case Str:
		n := a.length()
		if lo == nil {
			lo = st.zero64
		}
		if hi == nil {
			hi = st.ci(n)
		}
		st.need(T.And(T.Ule(lo, hi), T.Ule(hi, st.ci(n))), "runtime error: slice bounds out of range")
		h := int(st.concretize(hi, "string slice bound"))
		l := int(st.concretize(lo, "string slice bound"))
		return st.strSlice(a, l, h)
	case Slice:
		es := uint64(sizeof(under(x.X.Type()).(*types.Slice).Elem()))
		if lo == nil {
			lo = st.zero64
		}
		if hi == nil {
			hi = a.len
		}
		cp := a.cap
		if mx != nil {
			st.need(T.Ule(mx, a.cap), "runtime error: slice bounds out of range")
			cp = mx
		}
		st.need(T.Ule(hi, cp), "runtime error: slice bounds out of range")
		st.need(T.Ule(lo, hi), "runtime error: slice bounds out of range")
		if a.obj == nil {
			return a
		}
		nc := T.Sub(cp, lo)
		off := T.Add(a.off, T.MulC(lo, es))
		return Slice{a.obj, off, T.Sub(hi, lo), nc}
	case Ptr:
		at := under(x.X.Type().Underlying().(*types.Pointer).Elem()).(*types.Array)
		if a.obj == nil {
			st.goPanic("runtime error: invalid memory address or nil pointer dereference")
		}
		es := uint64(sizeof(at.Elem()))
		n := st.c64(uint64(at.Len()))
		if lo == nil {
			lo = st.zero64
		}
		if hi == nil {
			hi = n
		}
		cp := n
		if mx != nil {
			st.need(T.Ule(mx, n), "runtime error: slice bounds out of range")
			cp = mx
		}
		st.need(T.And(T.Ule(hi, cp), T.Ule(lo, hi)), "runtime error: slice bounds out of range")
		return Slice{a.obj, T.Add(a.off, T.MulC(lo, es)), T.Sub(hi, lo), T.Sub(cp, lo)}
	}
	unsup("slice of %T", v)
	return nil
}

func (st *State) next(it *rangeIter, x *ssa.Next) Value {
	T := st.T
	if it.isS {
		n := it.str.length()
		if it.pos >= n {
			return Tuple{T.ff, st.zero64, T.Const(32, 0)}
		}
		p := it.pos
		if it.str.sym == nil {
			r, w := utf8.DecodeRuneInString(it.str.s[p:])
			it.pos += w
			return Tuple{T.tt, st.ci(p), T.Const(32, uint64(uint32(r)))}
		}
		r, w := st.decodeRune(it.str.sym[p:])
		it.pos += w
		return Tuple{T.tt, st.ci(p), r}
	}
	for it.pos < len(it.ents) {
		e := it.ents[it.pos]
		it.pos++
		if e.del {
			continue
		}
		return Tuple{T.tt, e.k, e.v}
	}
	tt := x.Type().(*types.Tuple)
	z := func(i int) Value {
		t := tt.At(i).Type()
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return nil
		}
		return st.zero(t)
	}
	return Tuple{T.ff, z(1), z(2)}
}

func (st *State) decodeRune(b []*Term) (*Term, int) {
	T := st.T
	if !b[0].isConst() {
		if st.branch(T.Ult(b[0], T.Const(8, 0x80))) {
			return T.ZExt(b[0], 32), 1
		}
	}
	var buf [4]byte
	n := 0
	for n < 4 && n < len(b) {
		if n > 0 && utf8.FullRune(buf[:n]) {
			break
		}
		buf[n] = byte(st.concretize(b[n], "utf-8 byte"))
		n++
	}
	r, w := utf8.DecodeRune(buf[:n])
	return T.Const(32, uint64(uint32(r))), w
}

// ---------- calls ----------

func (st *State) findMethod(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m.Id()}
	if f, ok := methCache.get(k); ok {
		return f
	}
	sel := st.P.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	var f *ssa.Function
	if sel != nil {
		f = st.P.prog.MethodValue(sel)
	}
	methCache.set(k, f)
	return f
}

type methKey struct {
	t  types.Type
	id string
}

var methCache = newSyncMap[methKey, *ssa.Function]()

// methodByName finds a method of t by name, or nil.
func (st *State) methodByName(t types.Type, name string) *ssa.Function {
	k := methKey{t, "#" + name}
	if f, ok := methCache.get(k); ok {
		return f
	}
	ms := st.P.prog.MethodSets.MethodSet(t)
	var f *ssa.Function
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			f = st.P.prog.MethodValue(ms.At(i))
		}
	}
	methCache.set(k, f)
	return f
}

func (st *State) prepCall(fr *Frame, c *ssa.CallCommon) (*Closure, []Value, func() Value) {
	args := make([]Value, 0, len(c.Args)+1)
	if c.IsInvoke() {
		i, ok := fr.get(st, c.Value).(Iface)
		if !ok {
			unsup("invoke on %T", fr.get(st, c.Value))
		}
		if i.t == nil {
			st.goPanic("runtime error: invalid memory address or nil pointer dereference")
		}
		for _, a := range c.Args {
			args = append(args, fr.get(st, a))
		}
		if rt, ok := i.v.(RType); ok {
			name := c.Method.Name()
			return nil, nil, func() Value { return st.rtypeMethod(name, rt, args) }
		}
		f := st.findMethod(i.t, c.Method)
		if f == nil {
			unsup("method %s of %s", c.Method.Name(), i.t)
		}
		return &Closure{fn: f}, append([]Value{i.v}, args...), nil
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		for _, a := range c.Args {
			args = append(args, fr.get(st, a))
		}
		return nil, nil, func() Value { return st.builtin(b.Name(), c, args) }
	}
	cl := fr.get(st, c.Value).(*Closure)
	for _, a := range c.Args {
		args = append(args, fr.get(st, a))
	}
	return cl, args, nil
}

func (st *State) call(fr *Frame, c *ssa.CallCommon, in ssa.Instruction) Value {
	cl, args, f := st.prepCall(fr, c)
	var v Value
	if f != nil {
		v = f()
	} else {
		v = st.callClosure(cl, args)
	}
	st.curInstr = in
	return v
}

func (st *State) deferCall(fr *Frame, c *ssa.CallCommon) {
	cl, args, f := st.prepCall(fr, c)
	if f != nil {
		fr.defers = append(fr.defers, deferred{inv: func() { f() }})
		return
	}
	fr.defers = append(fr.defers, deferred{fn: cl, args: args})
}

func (st *State) builtin(name string, c *ssa.CallCommon, args []Value) Value {
	T := st.T
	switch name {
	case "len":
		switch x := args[0].(type) {
		case Slice:
			return x.len
		case Str:
			return st.ci(x.length())
		case *MapObj:
			return st.ci(st.mapR(x).count())
		case Agg:
			return st.ci(len(x))
		case Ptr:
			if at, ok := under(c.Args[0].Type()).(*types.Pointer); ok {
				return st.c64(uint64(under(at.Elem()).(*types.Array).Len()))
			}
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return x.cap
		case Agg:
			return st.ci(len(x))
		case Ptr:
			if at, ok := under(c.Args[0].Type()).(*types.Pointer); ok {
				return st.c64(uint64(under(at.Elem()).(*types.Array).Len()))
			}
		}
	case "append":
		et := under(c.Args[0].Type()).(*types.Slice).Elem()
		s := args[0].(Slice)
		if len(args) == 1 {
			return s
		}
		switch y := args[1].(type) {
		case Slice:
			return st.appendSlice(s, y, et)
		case Str:
			return st.appendSlice(s, st.newBytes(st.strBytes(y), "str"), et)
		}
	case "copy":
		d := args[0].(Slice)
		var s Slice
		switch y := args[1].(type) {
		case Slice:
			s = y
		case Str:
			s = st.newBytes(st.strBytes(y), "str")
		}
		et := under(c.Args[0].Type()).(*types.Slice).Elem()
		n := T.Ite(T.Ult(d.len, s.len), d.len, s.len)
		if !n.isConst() {
			switch st.decide(T.Ult(d.len, s.len)) {
			case 1:
				n = d.len
			case 0:
				n = s.len
			}
		}
		if d.obj == nil || s.obj == nil {
			return st.zero64
		}
		st.copyTyped(d, s, n, et)
		return n
	case "delete":
		st.mapDelete(args[0].(*MapObj), args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapObj:
			if x != nil {
				m := st.mapW(x)
				for _, e := range m.entries {
					e.del = true
				}
				m.entries = nil
				m.idx = map[string]int{}
				m.symKeys = false
			}
			return nil
		case Slice:
			if x.obj == nil {
				return nil
			}
			es := sizeof(under(c.Args[0].Type()).(*types.Slice).Elem())
			st.zeroRange(x, es)
			return nil
		}
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			r = st.minmax(name == "min", r, a, c.Args[0].Type())
		}
		return r
	case "panic":
		panic(&goPanic{val: args[0], msg: "panic: " + st.describe(args[0]), where: st.where()})
	case "recover":
		return st.doRecover()
	case "print", "println":
		return nil
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p.obj == nil {
			st.goPanic("value method called using nil pointer")
		}
		return args[0]
	case "String": // unsafe.String
		p := args[0].(Ptr)
		n := int(st.concretize(st.idx64(args[1].(*Term), c.Args[1].Type()), "unsafe.String length"))
		if n == 0 {
			return Str{}
		}
		return st.mkStr(st.sliceBytes(Slice{p.obj, p.off, st.ci(n), st.ci(n)}, ""))
	case "StringData":
		s := args[0].(Str)
		if s.length() == 0 {
			return Ptr{}
		}
		b := st.newBytes(st.strBytes(s), "StringData")
		return Ptr{b.obj, st.zero64}
	case "Slice": // unsafe.Slice
		p := args[0].(Ptr)
		n := st.idx64(args[1].(*Term), c.Args[1].Type())
		es := uint64(sizeof(under(c.Args[0].Type()).(*types.Pointer).Elem()))
		if p.obj == nil {
			st.need(T.Eq(n, st.zero64), "runtime error: unsafe.Slice: ptr is nil and len is not zero")
			return Slice{off: st.zero64, len: st.zero64, cap: st.zero64}
		}
		lim := uint64(maxAlloc)
		if es > 0 {
			lim /= es
		}
		st.need(T.Ule(n, st.c64(lim)), "runtime error: unsafe.Slice: len out of range")
		// memory safety: the slice must stay within the object
		o := st.resolve(p.obj)
		size := st.c64(uint64(o.size))
		if o.size < 0 {
			size = o.symLen
		}
		end := T.Add(p.off, T.MulC(n, es))
		if c := T.Ule(end, size); !c.isTrue() && st.spec == 0 {
			st.assert(c, "unsafe.Slice stays within the backing memory")
		}
		return Slice{p.obj, p.off, n, n}
	case "SliceData":
		s := args[0].(Slice)
		if s.obj == nil {
			return Ptr{}
		}
		return Ptr{s.obj, s.off}
	case "Add":
		p := args[0].(Ptr)
		return Ptr{p.obj, T.Add(p.off, st.idx64(args[1].(*Term), c.Args[1].Type()))}
	case "close":
		return nil
	case "real":
		return args[0].(Agg)[0]
	case "imag":
		return args[0].(Agg)[1]
	case "complex":
		return Agg{args[0], args[1]}
	}
	unsup("builtin %s", name)
	return nil
}

func (st *State) minmax(min bool, a, b Value, t types.Type) Value {
	if x, ok := a.(Str); ok {
		y := b.(Str)
		if st.branch(st.strLess(y, x)) == min {
			return y
		}
		return x
	}
	x, y := a.(*Term), b.(*Term)
	if x.sort.isFP() {
		return st.fminmax(min, x, y)
	}
	var c *Term
	if isSigned(t) {
		c = st.T.Slt(x, y)
	} else {
		c = st.T.Ult(x, y)
	}
	if min {
		return st.T.Ite(c, x, y)
	}
	return st.T.Ite(c, y, x)
}

// fminmax: math.Min / math.Max semantics.
func (st *State) fminmax(min bool, x, y *Term) *Term {
	T := st.T
	w := bvOf(x.sort)
	signbit := func(t *Term) *Term {
		return T.Eq(T.Extract(T.ToBits(t), int(w)-1, int(w)-1), T.Const(1, 1))
	}
	nan := T.fpk(x.sort, 0)
	if x.sort == SFP32 {
		nan = T.Const(x.sort, 0x7fc00000)
	} else {
		nan = T.Const(x.sort, 0x7ff8000000000001)
	}
	isnan := T.Or(T.FIsNaN(x), T.FIsNaN(y))
	zero := T.fpk(x.sort, 0)
	bothz := T.And(T.FEq(x, zero), T.FEq(y, zero))
	if x.isConst() && !(fpConst(x.sort, x.k) == 0) || y.isConst() && !(fpConst(y.sort, y.k) == 0) {
		bothz = T.ff
	}
	var r, z *Term
	if min {
		r = T.Ite(T.FLt(x, y), x, y)
		if !bothz.isFalse() {
			z = T.Ite(signbit(x), x, y)
		}
	} else {
		r = T.Ite(T.FLt(y, x), x, y)
		if !bothz.isFalse() {
			z = T.Ite(signbit(x), y, x)
		}
	}
	if z != nil {
		r = T.Ite(bothz, z, r)
	}
	// infinities: Min(x,-Inf) = -Inf even if the other is NaN
	inf := -1.0
	if !min {
		inf = 1.0
	}
	infT := T.fpk(x.sort, inf/zeroF)
	hasInf := T.Or(T.FEq(x, infT), T.FEq(y, infT))
	return T.Ite(hasInf, infT, T.Ite(isnan, nan, r))
}

var zeroF = 0.0

func (st *State) zeroRange(s Slice, es int64) {
	nb := st.T.MulC(s.len, uint64(es))
	if st.race != nil {
		st.raceMem(Ptr{s.obj, s.off}, nb, true)
	}
	o := st.writable(s.obj)
	if o.arr == nil && s.off.isConst() && nb.isConst() {
		st.clear(o, int64(s.off.k), int64(nb.k))
		return
	}
	st.toArr(o)
	o.arr = &Arr{kind: 3, prev: o.arr, dst: s.off, src: arrZero, soff: st.zero64, cnt: nb}
}

var sizeClasses = []uint64{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundupsize(n uint64, noscan bool) uint64 {
	req := n
	if !noscan && n > 512 {
		req += 8
		if req <= 32768 {
			i := sort.Search(len(sizeClasses), func(i int) bool { return sizeClasses[i] >= req })
			return sizeClasses[i] - 8
		}
		req -= 8
	} else if req <= 32768 {
		i := sort.Search(len(sizeClasses), func(i int) bool { return sizeClasses[i] >= req })
		return sizeClasses[i]
	}
	return (req + 8191) &^ 8191
}

func growCap(oldCap, newLen, es uint64, noscan bool) uint64 {
	nc := oldCap
	dbl := nc + nc
	if newLen > dbl {
		nc = newLen
	} else if oldCap < 256 {
		nc = dbl
	} else {
		for nc < newLen {
			nc += (nc + 3*256) >> 2
		}
	}
	if es == 0 {
		return nc
	}
	return roundupsize(nc*es, noscan) / es
}

func (st *State) appendSlice(s, y Slice, et types.Type) Value {
	T := st.T
	es := sizeof(et)
	if y.len.isConst() && y.len.k == 0 {
		return s
	}
	nl := T.Add(s.len, y.len)
	fits := T.Ule(nl, s.cap)
	if s.obj == nil {
		fits = T.Eq(nl, st.zero64)
	}
	if !fits.isConst() && st.spec > 0 {
		panic(specAbort{})
	}
	if st.branch(fits) {
		if s.obj == nil {
			return s
		}
		if y.obj != nil {
			st.copyElems(s.obj, T.Add(s.off, T.MulC(s.len, uint64(es))), y.obj, y.off, y.len, es)
		}
		return Slice{s.obj, s.off, nl, s.cap}
	}
	noscan := scalarOnly(et)
	if !nl.isConst() && !noscan {
		nl = st.c64(st.concretize(nl, "append length"))
	}
	var o *Obj
	var nc *Term
	if nl.isConst() && s.cap.isConst() {
		c := growCap(s.cap.k, nl.k, uint64(es), noscan)
		st.noteAlloc(st.c64(c * uint64(es)))
		nc = st.c64(c)
		o = st.newObj(int64(c)*es, "append")
		if c*uint64(es) > 1<<24 {
			o.arr = arrZero
			o.symLen = st.c64(c * uint64(es))
		}
	} else {
		st.need(T.Ule(nl, st.c64(maxAlloc/uint64(bits.Len64(uint64(es))+int(es)))), "runtime error: growslice: len out of range")
		st.noteAlloc(T.MulC(nl, uint64(es)))
		// capacity: any value in [nl, 2*nl+64]
		nc = st.freshVar("cap", 64)
		st.assume(T.And(T.Ule(nl, nc), T.Ule(nc, T.Add(T.MulC(nl, 2), st.c64(64)))))
		o = st.newObj(-1, "append")
		o.arr = arrZero
		o.symLen = T.MulC(nc, uint64(es))
	}
	if s.obj != nil {
		st.copyElems(o, st.zero64, s.obj, s.off, s.len, es)
	}
	if y.obj != nil {
		st.copyElems(o, T.MulC(s.len, uint64(es)), y.obj, y.off, y.len, es)
	}
	return Slice{o, st.zero64, nl, nc}
}

func (st *State) freshVar(base string, s Sort) *Term {
	st.fresh++
	return st.newVar(fmt.Sprintf("!%s%d", base, st.fresh), s)
}

func (st *State) newVar(name string, s Sort) *Term {
	t := st.T.Var(name, s)
	st.varsSeen = append(st.varsSeen, t)
	return t
}
