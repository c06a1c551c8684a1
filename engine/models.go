package main

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var models map[string]modelFn

type lockKey struct {
	o   *Obj
	off uint64
}

type poolState struct {
	items []Value
}

func (st *State) pkgType(path, name string) types.Type {
	p := st.P.prog.ImportedPackage(path)
	if p == nil {
		unsup("package %s is not loaded", path)
	}
	m := p.Type(name)
	if m == nil {
		unsup("type %s.%s not found", path, name)
	}
	return m.Object().Type()
}

func (st *State) pkgFunc(path, name string) *ssa.Function {
	p := st.P.prog.ImportedPackage(path)
	if p == nil {
		unsup("package %s is not loaded", path)
	}
	f := p.Func(name)
	if f == nil {
		unsup("function %s.%s not found", path, name)
	}
	return f
}

// newError builds an *errors.errorString.
func (st *State) newError(msg string) Iface {
	return st.newErrorStr(Str{s: msg})
}
func (st *State) newErrorStr(s Str) Iface {
	t := st.pkgType("errors", "errorString")
	o := st.newObj(16, "error")
	st.storeAt(o, 0, t, Agg{s})
	return Iface{types.NewPointer(t), Ptr{o, st.zero64}}
}

var ptrTypes = newSyncMap[types.Type, types.Type]()

func ptrTo(t types.Type) types.Type {
	if p, ok := ptrTypes.get(t); ok {
		return p
	}
	p := types.NewPointer(t)
	ptrTypes.set(t, p)
	return p
}

func tup(vs ...Value) Value { return Tuple(vs) }

func (st *State) lockOf(v Value) lockKey {
	p := v.(Ptr)
	if p.obj == nil {
		st.goPanic("runtime error: invalid memory address or nil pointer dereference")
	}
	return lockKey{p.obj, st.concretize(p.off, "lock address")}
}

func (st *State) lock(k lockKey, w bool) {
	if st.initMode {
		return
	}
	if st.locks == nil {
		st.locks = map[lockKey]int{}
	}
	n := st.locks[k]
	if n < 0 || w && n > 0 {
		st.goPanic("fatal error: all goroutines are asleep - deadlock!")
	}
	if w {
		st.locks[k] = -1
	} else {
		st.locks[k] = n + 1
	}
	st.raceLocked(k, true)
}
func (st *State) unlock(k lockKey, w bool) {
	if st.initMode {
		return
	}
	n := st.locks[k]
	if w && n >= 0 || !w && n <= 0 {
		st.goPanic("fatal error: sync: unlock of unlocked mutex")
	}
	if w {
		st.locks[k] = 0
	} else {
		st.locks[k] = n - 1
	}
	st.raceLocked(k, false)
}

func init() {
	m := map[string]modelFn{}
	models = m
	nop := func(st *State, fn *ssa.Function, a []Value) Value { return nil }
	// ---- sync ----
	lockM := func(w, l bool) modelFn {
		return func(st *State, fn *ssa.Function, a []Value) Value {
			if l {
				st.lock(st.lockOf(a[0]), w)
			} else {
				st.unlock(st.lockOf(a[0]), w)
			}
			return nil
		}
	}
	m["(*sync.Mutex).Lock"] = lockM(true, true)
	m["(*sync.Mutex).Unlock"] = lockM(true, false)
	m["(*sync.RWMutex).Lock"] = lockM(true, true)
	m["(*sync.RWMutex).Unlock"] = lockM(true, false)
	m["(*sync.RWMutex).RLock"] = lockM(false, true)
	m["(*sync.RWMutex).RUnlock"] = lockM(false, false)
	m["(*sync.Mutex).TryLock"] = func(st *State, fn *ssa.Function, a []Value) Value {
		k := st.lockOf(a[0])
		if st.locks[k] != 0 {
			return st.T.ff
		}
		st.lock(k, true)
		return st.T.tt
	}
	m["(*sync.Pool).Put"] = func(st *State, fn *ssa.Function, a []Value) Value {
		k := st.lockOf(a[0])
		i := a[1].(Iface)
		if i.t == nil || st.initMode {
			return nil
		}
		ps := st.pools[k]
		if ps == nil {
			ps = &poolState{}
			st.pools[k] = ps
		}
		ps.items = append(ps.items, i)
		return nil
	}
	m["(*sync.Pool).Get"] = func(st *State, fn *ssa.Function, a []Value) Value {
		k := st.lockOf(a[0])
		if ps := st.pools[k]; ps != nil && len(ps.items) > 0 {
			v := ps.items[len(ps.items)-1]
			ps.items = ps.items[:len(ps.items)-1]
			return v
		}
		pt := st.pkgType("sync", "Pool")
		s := under(pt).(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == "New" {
				p := a[0].(Ptr)
				off := structLayout(s).offs[i]
				f := st.load(Ptr{p.obj, st.T.Add(p.off, st.c64(uint64(off)))}, s.Field(i).Type()).(*Closure)
				if f == nil {
					return Iface{}
				}
				return st.callClosure(f, nil)
			}
		}
		return Iface{}
	}
	m["(*sync.Once).Do"] = func(st *State, fn *ssa.Function, a []Value) Value {
		k := st.lockOf(a[0])
		if st.onces == nil {
			st.onces = map[lockKey]bool{}
		}
		if st.onces[k] || st.boot != nil && st.boot.onces[k] {
			return nil
		}
		st.onces[k] = true
		return st.callClosure(a[1].(*Closure), nil)
	}
	// ---- atomics ----
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		for _, pk := range []string{"sync/atomic.", "internal/runtime/atomic."} {
			m[pk+"Load"+t] = func(st *State, fn *ssa.Function, a []Value) Value {
				return st.load(a[0].(Ptr), fn.Signature.Results().At(0).Type())
			}
			m[pk+"Store"+t] = func(st *State, fn *ssa.Function, a []Value) Value {
				st.store(a[0].(Ptr), fn.Signature.Params().At(1).Type(), a[1])
				return nil
			}
			m[pk+"Swap"+t] = func(st *State, fn *ssa.Function, a []Value) Value {
				et := fn.Signature.Params().At(1).Type()
				v := st.load(a[0].(Ptr), et)
				st.store(a[0].(Ptr), et, a[1])
				return v
			}
			m[pk+"Add"+t] = func(st *State, fn *ssa.Function, a []Value) Value {
				et := fn.Signature.Params().At(1).Type()
				v := st.T.Add(st.load(a[0].(Ptr), et).(*Term), a[1].(*Term))
				st.store(a[0].(Ptr), et, v)
				return v
			}
			m[pk+"CompareAndSwap"+t] = func(st *State, fn *ssa.Function, a []Value) Value {
				et := fn.Signature.Params().At(1).Type()
				v := st.load(a[0].(Ptr), et)
				if st.branch(st.equal(v, a[1], et)) {
					st.store(a[0].(Ptr), et, a[2])
					return st.T.tt
				}
				return st.T.ff
			}
		}
	}
	m["(*sync/atomic.Value).Load"] = func(st *State, fn *ssa.Function, a []Value) Value {
		k := st.lockOf(a[0])
		if v, ok := st.atomics[k]; ok {
			return v
		}
		if st.boot != nil {
			if v, ok := st.boot.atomics[k]; ok {
				return v
			}
		}
		return Iface{}
	}
	m["(*sync/atomic.Value).Store"] = func(st *State, fn *ssa.Function, a []Value) Value {
		st.atomics[st.lockOf(a[0])] = a[1]
		return nil
	}
	// ---- runtime odds and ends ----
	for _, n := range []string{"runtime.KeepAlive", "runtime.GC", "runtime.Gosched", "runtime.SetFinalizer", "internal/race.Acquire", "internal/race.Release", "internal/race.ReleaseMerge", "internal/race.Disable", "internal/race.Enable", "internal/race.Read", "internal/race.Write", "internal/race.ReadRange", "internal/race.WriteRange", "internal/race.Errors", "(*internal/godebug.Setting).IncNonDefault", "internal/godebug.registerMetric", "sync.runtime_registerPoolCleanup", "internal/asan.Read", "internal/asan.Write", "internal/msan.Read", "internal/msan.Write", "runtime.SetBlockProfileRate", "testing.Init"} {
		m[n] = nop
	}
	m["(*internal/godebug.Setting).Value"] = func(st *State, fn *ssa.Function, a []Value) Value { return Str{} }
	m["internal/godebug.New"] = func(st *State, fn *ssa.Function, a []Value) Value {
		o := st.newObj(64, "godebug")
		return Ptr{o, st.zero64}
	}
	id := func(st *State, fn *ssa.Function, a []Value) Value { return a[0] }
	m["internal/abi.NoEscape"] = id
	m["internal/abi.Escape"] = id
	m["internal/bytealg.MakeNoZero"] = func(st *State, fn *ssa.Function, a []Value) Value {
		return st.makeSlice(types.Typ[types.Uint8], a[0].(*Term), a[0].(*Term))
	}
	// ---- bytealg ----
	bytesOf := func(st *State, v Value) []*Term {
		switch x := v.(type) {
		case Str:
			return st.strBytes(x)
		case Slice:
			return st.sliceBytes(x, "byte slice length")
		}
		unsup("bytes of %T", v)
		return nil
	}
	indexByte := func(st *State, fn *ssa.Function, a []Value) Value {
		if s, ok := a[0].(Str); ok && s.sym == nil {
			if c := a[1].(*Term); c.isConst() {
				return st.T.Const(64, uint64(strings.IndexByte(s.s, byte(c.k))))
			}
		}
		for i, b := range bytesOf(st, a[0]) {
			c := st.T.Eq(b, a[1].(*Term))
			if st.branch(c) {
				return st.ci(i)
			}
		}
		return st.c64(^uint64(0))
	}
	m["internal/bytealg.IndexByte"] = indexByte
	m["internal/bytealg.IndexByteString"] = indexByte
	lastIndexByte := func(st *State, fn *ssa.Function, a []Value) Value {
		bs := bytesOf(st, a[0])
		for i := len(bs) - 1; i >= 0; i-- {
			if st.branch(st.T.Eq(bs[i], a[1].(*Term))) {
				return st.ci(i)
			}
		}
		return st.c64(^uint64(0))
	}
	m["internal/bytealg.LastIndexByte"] = lastIndexByte
	m["internal/bytealg.LastIndexByteString"] = lastIndexByte
	index := func(st *State, fn *ssa.Function, a []Value) Value {
		x, ok1 := a[0].(Str)
		y, ok2 := a[1].(Str)
		if ok1 && ok2 && x.sym == nil && y.sym == nil {
			return st.T.Const(64, uint64(strings.Index(x.s, y.s)))
		}
		h, n := bytesOf(st, a[0]), bytesOf(st, a[1])
		for i := 0; i+len(n) <= len(h); i++ {
			c := st.T.tt
			for k := range n {
				c = st.T.And(c, st.T.Eq(h[i+k], n[k]))
				if c.isFalse() {
					break
				}
			}
			if st.branch(c) {
				return st.ci(i)
			}
		}
		return st.c64(^uint64(0))
	}
	m["internal/bytealg.Index"] = index
	m["internal/bytealg.IndexString"] = index
	m["strings.Index"] = index
	m["bytes.Index"] = index
	m["internal/stringslite.Index"] = index
	m["strings.IndexByte"] = indexByte
	m["internal/stringslite.IndexByte"] = indexByte
	m["bytes.IndexByte"] = indexByte
	count := func(st *State, fn *ssa.Function, a []Value) Value {
		n := st.zero64
		for _, b := range bytesOf(st, a[0]) {
			n = st.T.Add(n, st.T.Ite(st.T.Eq(b, a[1].(*Term)), st.c64(1), st.zero64))
		}
		return st.c64(st.concretize(n, "byte count"))
	}
	m["internal/bytealg.Count"] = count
	m["internal/bytealg.CountString"] = count
	equalB := func(st *State, fn *ssa.Function, a []Value) Value {
		x, y := a[0].(Slice), a[1].(Slice)
		if !x.len.isConst() || !y.len.isConst() {
			if !st.branch(st.T.Eq(x.len, y.len)) {
				return st.T.ff
			}
		}
		return st.strEq(st.mkStr(bytesOf(st, a[0])), st.mkStr(bytesOf(st, a[1])))
	}
	m["internal/bytealg.Equal"] = equalB
	m["bytes.Equal"] = equalB
	compare := func(st *State, fn *ssa.Function, a []Value) Value {
		x, y := st.mkStr(bytesOf(st, a[0])), st.mkStr(bytesOf(st, a[1]))
		return st.T.Ite(st.strLess(x, y), st.c64(^uint64(0)), st.T.Ite(st.strLess(y, x), st.c64(1), st.zero64))
	}
	m["internal/bytealg.Compare"] = compare
	m["internal/bytealg.CompareString"] = compare
	m["strings.Compare"] = compare
	m["bytes.Compare"] = compare
	// ---- math ----
	f1 := func(f func(st *State, x *Term) *Term) modelFn {
		return func(st *State, fn *ssa.Function, a []Value) Value { return f(st, a[0].(*Term)) }
	}
	for i, n := range []string{"RoundToEven", "Round", "Trunc", "Ceil", "Floor"} {
		mode := uint64(i)
		m["math."+n] = f1(func(st *State, x *Term) *Term { return st.T.FRound(mode, x) })
		m["math."+strings.ToLower(n[:1])+n[1:]] = m["math."+n]
	}
	m["math.Sqrt"] = f1(func(st *State, x *Term) *Term { return st.T.FSqrt(x) })
	m["math.Abs"] = f1(func(st *State, x *Term) *Term { return st.T.FAbs(x) })
	m["math.Float32bits"] = f1(func(st *State, x *Term) *Term { return st.T.ToBits(x) })
	m["math.Float64bits"] = m["math.Float32bits"]
	m["math.Float32frombits"] = f1(func(st *State, x *Term) *Term { return st.T.FromBits(x) })
	m["math.Float64frombits"] = m["math.Float32frombits"]
	m["math.IsNaN"] = f1(func(st *State, x *Term) *Term { return st.T.FIsNaN(x) })
	m["math.IsInf"] = func(st *State, fn *ssa.Function, a []Value) Value {
		T := st.T
		x, sg := a[0].(*Term), a[1].(*Term)
		zero := T.fpk(x.sort, 0)
		inf := T.FIsInf(x)
		pos := T.And(inf, T.FLt(zero, x))
		neg := T.And(inf, T.FLt(x, zero))
		gt := T.Slt(st.zero64, sg)
		lt := T.Slt(sg, st.zero64)
		return T.Ite(gt, pos, T.Ite(lt, neg, inf))
	}
	m["math.Signbit"] = f1(func(st *State, x *Term) *Term {
		return st.T.Eq(st.T.Extract(st.T.ToBits(x), 63, 63), st.T.Const(1, 1))
	})
	m["math.Max"] = func(st *State, fn *ssa.Function, a []Value) Value {
		return st.fminmax(false, a[0].(*Term), a[1].(*Term))
	}
	m["math.Min"] = func(st *State, fn *ssa.Function, a []Value) Value {
		return st.fminmax(true, a[0].(*Term), a[1].(*Term))
	}
	m["math.Pow"] = func(st *State, fn *ssa.Function, a []Value) Value {
		x, y := a[0].(*Term), a[1].(*Term)
		if x.isConst() && y.isConst() {
			return st.T.fpk(SFP64, math.Pow(fpConst(SFP64, x.k), fpConst(SFP64, y.k)))
		}
		r := st.T.UF("pow", SFP64, x, y)
		st.powFacts(r, x, y)
		return r
	}
	m["math.archExp"] = nil
	delete(m, "math.archExp")
	for _, n := range []string{"Exp", "Log", "Exp2", "Log2", "Log10", "Cbrt", "Sin", "Cos", "Tan"} {
		name := n
		m["math."+n] = f1(func(st *State, x *Term) *Term {
			if x.isConst() {
				f := fpConst(SFP64, x.k)
				switch name {
				case "Exp":
					f = math.Exp(f)
				case "Log":
					f = math.Log(f)
				case "Exp2":
					f = math.Exp2(f)
				case "Log2":
					f = math.Log2(f)
				case "Log10":
					f = math.Log10(f)
				case "Cbrt":
					f = math.Cbrt(f)
				case "Sin":
					f = math.Sin(f)
				case "Cos":
					f = math.Cos(f)
				case "Tan":
					f = math.Tan(f)
				}
				return st.T.fpk(SFP64, f)
			}
			return st.T.UF(name, SFP64, x)
		})
	}
	m["math.FMA"] = func(st *State, fn *ssa.Function, a []Value) Value {
		x, y, z := a[0].(*Term), a[1].(*Term), a[2].(*Term)
		if x.isConst() && y.isConst() && z.isConst() {
			return st.T.fpk(SFP64, math.FMA(fpConst(SFP64, x.k), fpConst(SFP64, y.k), fpConst(SFP64, z.k)))
		}
		return st.T.UF("fma", SFP64, x, y, z)
	}
	// ---- errors ----
	m["errors.Is"] = func(st *State, fn *ssa.Function, a []Value) Value {
		e, t := a[0].(Iface), a[1].(Iface)
		if e.t == nil || t.t == nil {
			return st.T.Bool(e.t == nil && t.t == nil)
		}
		return st.T.Bool(st.errorsIs(e, t, 0))
	}
	// ---- fmt ----
	m["fmt.Sprintf"] = func(st *State, fn *ssa.Function, a []Value) Value {
		return st.mkStr(st.format(a[0].(Str), a[1].(Slice), nil))
	}
	m["fmt.Sprint"] = func(st *State, fn *ssa.Function, a []Value) Value {
		var out []*Term
		for _, x := range st.ifaces(a[0].(Slice)) {
			out = st.formatArg(out, 'v', x)
		}
		return st.mkStr(out)
	}
	m["fmt.Errorf"] = func(st *State, fn *ssa.Function, a []Value) Value {
		var wrapped []Iface
		msg := st.mkStr(st.format(a[0].(Str), a[1].(Slice), &wrapped))
		if len(wrapped) == 0 {
			return st.newErrorStr(msg)
		}
		if len(wrapped) > 1 {
			t := st.pkgType("fmt", "wrapErrors")
			et := under(t).(*types.Struct).Field(1).Type().(*types.Slice).Elem()
			errs := st.makeSlice(et, st.ci(len(wrapped)), st.ci(len(wrapped)))
			for i, e := range wrapped {
				st.storeAt(errs.obj, int64(16*i), et, e)
			}
			o := st.newObj(sizeof(t), "wrapErrors")
			st.storeAt(o, 0, t, Agg{msg, errs})
			return Iface{ptrTo(t), Ptr{o, st.zero64}}
		}
		t := st.pkgType("fmt", "wrapError")
		o := st.newObj(sizeof(t), "wrapError")
		st.storeAt(o, 0, t, Agg{msg, wrapped[0]})
		return Iface{ptrTo(t), Ptr{o, st.zero64}}
	}
	for _, n := range []string{"fmt.Println", "fmt.Printf", "fmt.Print"} {
		m[n] = func(st *State, fn *ssa.Function, a []Value) Value { return tup(st.zero64, Iface{}) }
	}
	// ---- strconv (concrete fast paths) ----
	m["strconv.Itoa"] = func(st *State, fn *ssa.Function, a []Value) Value {
		x := a[0].(*Term)
		if x.isConst() {
			return Str{s: strconv.Itoa(int(int64(x.k)))}
		}
		return Str{sym: []*Term{st.tok(x, true)}}
	}
	initReflect(m)
	initJSON(m)
	initBinary(m)
	initSym(m)
	initOS(m)
	initMore(m)
	initRace(m)
}

// tok is the text of a symbolic number as one opaque byte.
func (st *State) tok(x *Term, signed bool) *Term {
	k := uint64(0)
	if x.sort.isBV() {
		// canonical form: the 64-bit value; k = 1 unless it may exceed the int64 range
		w := x.sort
		x = st.T.extTo(x, signed, 64)
		signed = signed || w < 64 || x.ub < 1<<63
	}
	if signed {
		k = 1
	}
	return st.T.mk(OTok, 8, k, "", x)
}

// powFacts adds sound facts about math.Pow for positive arguments to the path condition.
func (st *State) powFacts(r, x, y *Term) {
	if st.initMode || st.spec > 0 {
		return
	}
	T := st.T
	z, one := T.fpk(SFP64, 0), T.fpk(SFP64, 1)
	if !y.isConst() || fpConst(SFP64, y.k) <= 0 {
		return
	}
	fact := T.And(
		T.Implies(T.And(T.FLe(z, x), T.FLe(x, one)), T.And(T.FLe(z, r), T.FLe(r, one))),
		T.And(T.Implies(T.FEq(x, one), T.FEq(r, one)), T.Implies(T.FEq(x, z), T.FEq(r, z))))
	if _, ok := st.known[fact.id]; !ok {
		st.assumeTerm(fact)
	}
}

func (st *State) errorsIs(e, t Iface, depth int) bool {
	for e.t != nil {
		if depth++; depth > 20 {
			return false
		}
		if types.Comparable(t.t) && types.Identical(e.t, t.t) && st.branch(st.equal(e, t, e.t)) {
			return true
		}
		if f := st.methodByName(e.t, "Is"); f != nil && f.Signature.Params().Len() == 1 {
			if st.branch(st.callFn(f, []Value{e.v, t}, nil).(*Term)) {
				return true
			}
		}
		f := st.methodByName(e.t, "Unwrap")
		if f == nil {
			return false
		}
		r := st.callFn(f, []Value{e.v}, nil)
		switch u := r.(type) {
		case Iface:
			e = u
		case Slice:
			for _, x := range st.ifaces(u) {
				if st.errorsIs(x, t, depth) {
					return true
				}
			}
			return false
		}
	}
	return false
}

func (st *State) ifaces(s Slice) []Iface {
	if s.obj == nil {
		return nil
	}
	n := int(st.concretize(s.len, "argument count"))
	out := make([]Iface, n)
	anyT := types.NewInterfaceType(nil, nil)
	for i := range out {
		out[i] = st.load(Ptr{s.obj, st.T.Add(s.off, st.ci(16*i))}, anyT).(Iface)
	}
	return out
}

func (st *State) lit(out []*Term, s string) []*Term {
	for i := 0; i < len(s); i++ {
		out = append(out, st.T.Const(8, uint64(s[i])))
	}
	return out
}

func (st *State) format(f Str, args Slice, wrapped *[]Iface) []*Term {
	as := st.ifaces(args)
	fs := f.s
	if f.sym != nil {
		fs = st.strConcrete(f)
	}
	var out []*Term
	ai := 0
	for i := 0; i < len(fs); i++ {
		if fs[i] != '%' {
			out = st.lit(out, fs[i:i+1])
			continue
		}
		j := i + 1
		for j < len(fs) && strings.IndexByte("+-# 0123456789.", fs[j]) >= 0 {
			j++
		}
		if j >= len(fs) {
			return st.lit(out, "%!(NOVERB)")
		}
		verb := fs[j]
		spec := fs[i : j+1]
		i = j
		if verb == '%' {
			out = st.lit(out, "%")
			continue
		}
		if ai >= len(as) {
			out = st.lit(out, "%!"+string(verb)+"(MISSING)")
			continue
		}
		a := as[ai]
		ai++
		if verb == 'w' {
			if wrapped != nil && a.t != nil {
				*wrapped = append(*wrapped, a)
			}
			verb = 'v'
		}
		if verb == 'T' {
			if a.t == nil {
				out = st.lit(out, "<nil>")
			} else {
				out = st.lit(out, types.TypeString(a.t, func(p *types.Package) string { return p.Name() }))
			}
			continue
		}
		if t, ok := a.v.(*Term); ok && t.isConst() && len(spec) > 2 && !t.sort.isFP() && t.sort != SBool {
			if isSigned(a.t) {
				out = st.lit(out, fmt.Sprintf(spec, t.sval()))
			} else {
				out = st.lit(out, fmt.Sprintf(spec, t.k))
			}
			continue
		}
		out = st.formatArg(out, verb, a)
	}
	return out
}

func (st *State) formatArg(out []*Term, verb byte, a Iface) []*Term {
	if a.t == nil {
		return st.lit(out, "<nil>")
	}
	if _, ok := a.v.(RType); ok {
		return st.lit(out, a.v.(RType).t.String())
	}
	if verb == 'v' || verb == 's' || verb == 'q' {
		for _, mn := range []string{"Error", "String"} {
			if f := st.methodByName(a.t, mn); f != nil && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 1 {
				if _, ok := scalarSort(a.t); ok {
					if t := a.v.(*Term); !t.isConst() {
						return st.lit(out, "<"+mn+">")
					}
				}
				if p, ok := a.v.(Ptr); ok && p.obj == nil {
					return st.lit(out, "<nil>")
				}
				if s, ok := st.callFn(f, []Value{a.v}, nil).(Str); ok {
					return append(out, st.strBytes(s)...)
				}
			}
		}
	}
	switch x := a.v.(type) {
	case Slice:
		if sl, ok := under(a.t).(*types.Slice); ok && (verb == 's' || verb == 'q') {
			if w, ok := scalarSort(sl.Elem()); ok && w == 8 && x.len.isConst() {
				return append(out, st.sliceBytes(x, "fmt")...)
			}
		}
	case Str:
		if verb == 'q' && x.sym == nil {
			return st.lit(out, strconv.Quote(x.s))
		}
		return append(out, st.strBytes(x)...)
	case *Term:
		if !x.isConst() {
			if x.sort == SBool {
				return st.lit(out, "<bool>")
			}
			return append(out, st.tok(x, isSigned(a.t)))
		}
		switch {
		case x.sort == SBool:
			return st.lit(out, strconv.FormatBool(x.k == 1))
		case x.sort.isFP():
			return st.lit(out, fmt.Sprintf("%"+string(verb), fpConst(x.sort, x.k)))
		case isSigned(a.t):
			return st.lit(out, fmt.Sprintf("%"+string(verb), x.sval()))
		}
		return st.lit(out, fmt.Sprintf("%"+string(verb), x.k))
	}
	return st.lit(out, fmt.Sprintf("<%s>", a.t))
}
