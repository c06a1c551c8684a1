package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type Value any

type Ptr struct {
	obj *Obj
	off *Term
}

type Str struct {
	s   string
	sym []*Term // if non-nil, the bytes
}

func (s Str) length() int {
	if s.sym != nil {
		return len(s.sym)
	}
	return len(s.s)
}

type Slice struct {
	obj      *Obj
	off      *Term
	len, cap *Term
}

type Iface struct {
	t types.Type
	v Value
}

type MapEntry struct {
	k, v Value
	del  bool
}
type MapObj struct {
	id      int
	kt, vt  types.Type
	entries []*MapEntry
	idx     map[string]int // concrete string/int keys
	symKeys bool
	frozen  bool
}

type Closure struct {
	fn   *ssa.Function
	bind []Value
	bi   *ssa.Builtin
}

type Agg []Value
type Tuple []Value

// RVal models reflect.Value.
type RVal struct {
	t    types.Type // nil: zero Value
	v    Value      // when not addressable
	ptr  Ptr        // when addressable
	addr bool
}

// RType models reflect.Type dynamic values (*reflect.rtype).
type RType struct {
	t types.Type
}

var sizes = types.SizesFor("gc", "amd64")

func sizeof(t types.Type) int64 {
	switch t {
	case tRValue:
		return 24
	}
	return sizes.Sizeof(t)
}

var tRValue types.Type // reflect.Value named type (opaque leaf)

func isRValue(t types.Type) bool { return tRValue != nil && types.Identical(t, tRValue) }

// leafKind classification
func under(t types.Type) types.Type { return t.Underlying() }

func scalarSort(t types.Type) (Sort, bool) {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return 0, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return SBool, true
	case types.Int8, types.Uint8:
		return 8, true
	case types.Int16, types.Uint16:
		return 16, true
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32, true
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.UntypedInt:
		return 64, true
	case types.Float32:
		return SFP32, true
	case types.Float64, types.UntypedFloat:
		return SFP64, true
	}
	return 0, false
}

func isSigned(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsUnsigned == 0 && b.Info()&types.IsInteger != 0
}

func isFloat(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

type cell struct {
	v Value
	n uint8
}

const pageBits = 7
const pageSize = 1 << pageBits

// Obj is a memory object, byte addressed.
type Obj struct {
	id     int
	size   int64 // concrete size; -1: symbolic (array mode)
	symLen *Term
	pages  map[int64]*[pageSize]cell
	arr    *Arr // array mode if non-nil
	frozen bool
	label  string
	freed  bool
}

// Arr is a functional byte array.
type Arr struct {
	kind           uint8 // 0 zero, 1 base(name), 2 store, 3 copy
	name           string
	prev           *Arr
	idx            *Term
	val            *Term
	src            *Arr
	dst, soff, cnt *Term
	memo           map[uint32]*Term
}

type unsupported struct{ msg string }

func unsup(f string, a ...any) { panic(unsupported{fmt.Sprintf(f, a...)}) }

func (st *State) newObj(size int64, label string) *Obj {
	st.nobj++
	return &Obj{id: st.nobj, size: size, label: label, frozen: st.initMode}
}

func (st *State) resolve(o *Obj) *Obj {
	if o.frozen {
		if s, ok := st.shadow[o]; ok {
			return s
		}
	}
	return o
}

func (st *State) writable(o *Obj) *Obj {
	if !o.frozen || st.initMode {
		return o
	}
	if s, ok := st.shadow[o]; ok {
		return s
	}
	n := &Obj{id: o.id, size: o.size, symLen: o.symLen, arr: o.arr, label: o.label}
	if o.pages != nil {
		n.pages = make(map[int64]*[pageSize]cell, len(o.pages))
		for k, p := range o.pages {
			q := *p
			n.pages[k] = &q
		}
	}
	st.shadow[o] = n
	return n
}

func (o *Obj) get(off int64) cell {
	if p := o.pages[off>>pageBits]; p != nil {
		return p[off&(pageSize-1)]
	}
	return cell{}
}

func (o *Obj) put(off int64, c cell) {
	if o.pages == nil {
		o.pages = map[int64]*[pageSize]cell{}
	}
	p := o.pages[off>>pageBits]
	if p == nil {
		p = new([pageSize]cell)
		o.pages[off>>pageBits] = p
	}
	p[off&(pageSize-1)] = c
}

// covering returns the start offset of the cell covering off, or -1.
func (o *Obj) covering(off int64) (int64, cell) {
	for d := int64(0); d < 24 && off-d >= 0; d++ {
		c := o.get(off - d)
		if c.n != 0 {
			if int64(c.n) > d {
				return off - d, c
			}
			return -1, cell{}
		}
	}
	return -1, cell{}
}

// toBV converts a scalar term to its BV representation.
func (st *State) toBV(t *Term) *Term {
	T := st.T
	switch {
	case t.sort == SBool:
		return T.Ite(t, T.Const(8, 1), T.Const(8, 0))
	case t.sort.isFP():
		return T.ToBits(t)
	}
	return t
}

func (st *State) fromBV(t *Term, s Sort) *Term {
	T := st.T
	switch {
	case s == SBool:
		return T.Not(T.Eq(t, T.Const(t.sort, 0)))
	case s.isFP():
		return T.FromBits(t)
	}
	return t
}

func (st *State) loadByte(o *Obj, off int64) *Term {
	if o.arr != nil {
		return st.arrRead(o.arr, st.c64(uint64(off)))
	}
	s, c := o.covering(off)
	if s < 0 {
		return st.T.Const(8, 0)
	}
	t, ok := c.v.(*Term)
	if !ok {
		unsup("byte access into a %T cell of %s", c.v, o.label)
	}
	b := st.toBV(t)
	d := int(off - s)
	return st.T.Extract(b, d*8+7, d*8)
}

func (st *State) loadScalar(o *Obj, off int64, s Sort) *Term {
	n := (s.bits() + 7) / 8
	if o.arr == nil {
		c := o.get(off)
		if int(c.n) == n {
			t, ok := c.v.(*Term)
			if !ok {
				if p, ok := c.v.(Ptr); ok && s == 64 {
					return st.ptrToInt(p)
				}
				unsup("scalar load of %T cell in %s", c.v, o.label)
			}
			if t.sort == s {
				return t
			}
			return st.fromBV(st.toBV(t), s)
		}
	}
	var r *Term
	for i := 0; i < n; i++ {
		b := st.loadByte(o, off+int64(i))
		if r == nil {
			r = b
		} else {
			r = st.T.Concat(b, r)
		}
	}
	return st.fromBV(r, s)
}

func (st *State) clear(o *Obj, off int64, n int64) {
	// split a cell straddling the start
	for _, edge := range []int64{off, off + n} {
		if edge >= o.size && o.size >= 0 {
			continue
		}
		s, c := o.covering(edge)
		if s >= 0 && s < edge && int64(c.n) > edge-s {
			t, ok := c.v.(*Term)
			if !ok {
				unsup("partial overwrite of a %T cell", c.v)
			}
			b := st.toBV(t)
			o.put(s, cell{})
			for i := 0; i < int(c.n); i++ {
				o.put(s+int64(i), cell{st.T.Extract(b, i*8+7, i*8), 1})
			}
		}
	}
	for i := int64(0); i < n; i++ {
		if p := o.pages[(off+i)>>pageBits]; p != nil {
			p[(off+i)&(pageSize-1)] = cell{}
		}
	}
}

func (st *State) storeLeaf(o *Obj, off int64, v Value, n int64) {
	if o.arr != nil {
		t, ok := v.(*Term)
		if !ok {
			unsup("storing %T into a byte array object", v)
		}
		st.arrStoreScalar(o, st.c64(uint64(off)), t)
		return
	}
	c := o.get(off)
	if int64(c.n) == n {
		o.put(off, cell{v, uint8(n)})
		return
	}
	st.clear(o, off, n)
	o.put(off, cell{v, uint8(n)})
}

func (st *State) arrStoreScalar(o *Obj, off *Term, t *Term) {
	b := st.toBV(t)
	n := int(b.sort) / 8
	for i := 0; i < n; i++ {
		idx := st.T.Add(off, st.c64(uint64(i)))
		o.arr = &Arr{kind: 2, prev: o.arr, idx: idx, val: st.T.Extract(b, i*8+7, i*8)}
	}
}

// zeroValue of a leaf type
func (st *State) zero(t types.Type) Value {
	if isRValue(t) {
		return RVal{}
	}
	if s, ok := scalarSort(t); ok {
		return st.T.Const(s, 0)
	}
	switch u := under(t).(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.String, types.UntypedString:
			return Str{}
		case types.UnsafePointer, types.UntypedNil:
			return Ptr{}
		case types.Complex64, types.Complex128:
			return Agg{st.T.Const(SFP64, 0), st.T.Const(SFP64, 0)}
		}
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return Slice{off: st.zero64, len: st.zero64, cap: st.zero64}
	case *types.Interface:
		return Iface{}
	case *types.Map:
		return (*MapObj)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Chan:
		return Ptr{}
	case *types.Struct:
		a := make(Agg, u.NumFields())
		for i := range a {
			a[i] = st.zero(u.Field(i).Type())
		}
		return a
	case *types.Array:
		n := u.Len()
		a := make(Agg, n)
		if n > 0 {
			z := st.zero(u.Elem())
			for i := range a {
				a[i] = z
			}
		}
		return a
	case *types.Tuple:
		a := make(Tuple, u.Len())
		for i := range a {
			a[i] = st.zero(u.At(i).Type())
		}
		return a
	}
	panic(fmt.Sprintf("zero of %s", t))
}

func isAgg(t types.Type) bool {
	if isRValue(t) {
		return false
	}
	switch under(t).(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

type layout struct {
	offs []int64
	typs []types.Type
}

var layoutCache = newSyncMap[*types.Struct, *layout]()

func structLayout(s *types.Struct) *layout {
	if l, ok := layoutCache.get(s); ok {
		return l
	}
	n := s.NumFields()
	fs := make([]*types.Var, n)
	l := &layout{typs: make([]types.Type, n)}
	for i := 0; i < n; i++ {
		fs[i] = s.Field(i)
		l.typs[i] = s.Field(i).Type()
	}
	l.offs = sizes.Offsetsof(fs)
	layoutCache.set(s, l)
	return l
}

// loadAt loads a value of type t at a concrete offset.
func (st *State) loadAt(o *Obj, off int64, t types.Type) Value {
	if isRValue(t) {
		if c := o.get(off); c.n != 0 {
			return c.v
		}
		return RVal{}
	}
	if s, ok := scalarSort(t); ok {
		return st.loadScalar(o, off, s)
	}
	switch u := under(t).(type) {
	case *types.Struct:
		l := structLayout(u)
		a := make(Agg, len(l.offs))
		for i := range a {
			a[i] = st.loadAt(o, off+l.offs[i], l.typs[i])
		}
		return a
	case *types.Array:
		n := u.Len()
		a := make(Agg, n)
		es := sizeof(u.Elem())
		for i := range a {
			a[i] = st.loadAt(o, off+int64(i)*es, u.Elem())
		}
		return a
	}
	if o.arr != nil {
		unsup("loading %s from a byte array object", t)
	}
	c := o.get(off)
	if c.n == 0 {
		if s, _ := o.covering(off); s >= 0 {
			unsup("misaligned load of %s", t)
		}
		return st.zero(t)
	}
	if tm, ok := c.v.(*Term); ok {
		if tm.isConst() && tm.k == 0 {
			return st.zero(t)
		}
		if _, ok := under(t).(*types.Pointer); ok {
			return st.intToPtr(tm)
		}
		unsup("loading %s from a scalar cell", t)
	}
	return c.v
}

func (st *State) storeAt(o *Obj, off int64, t types.Type, v Value) {
	if isRValue(t) {
		st.storeLeaf(o, off, v, 24)
		return
	}
	switch u := under(t).(type) {
	case *types.Struct:
		l := structLayout(u)
		a := v.(Agg)
		for i := range a {
			st.storeAt(o, off+l.offs[i], l.typs[i], a[i])
		}
		return
	case *types.Array:
		a := v.(Agg)
		es := sizeof(u.Elem())
		for i := range a {
			st.storeAt(o, off+int64(i)*es, u.Elem(), a[i])
		}
		return
	}
	n := sizeof(t)
	if n == 0 {
		return
	}
	st.storeLeaf(o, off, v, n)
}

func (st *State) ptrToInt(p Ptr) *Term {
	if p.obj == nil {
		if p.off == nil {
			return st.zero64
		}
		return p.off
	}
	// a fake but stable address
	st.intPtrs[p.obj.id] = p.obj
	return st.T.Add(st.c64(uint64(p.obj.id)<<32), p.off)
}

func (st *State) intToPtr(t *Term) Ptr {
	if t.isConst() {
		if t.k == 0 {
			return Ptr{}
		}
		if o, ok := st.intPtrs[int(t.k>>32)]; ok {
			return Ptr{o, st.c64(t.k & 0xffffffff)}
		}
	}
	unsup("integer to pointer conversion")
	return Ptr{}
}

// ---------- symbolic offsets ----------

func (st *State) checkLive(p Ptr) {
	if p.obj == nil {
		st.goPanic("runtime error: invalid memory address or nil pointer dereference")
	}
}

func (st *State) load(p Ptr, t types.Type) Value {
	st.checkLive(p)
	if st.race != nil {
		st.raceMem(p, st.c64(uint64(sizeof(t))), false)
	}
	o := st.resolve(p.obj)
	if p.off.isConst() {
		return st.loadAt(o, int64(p.off.k), t)
	}
	return st.loadSym(o, p.off, t)
}

func (st *State) loadSym(o *Obj, off *Term, t types.Type) Value {
	if o.arr != nil {
		return st.loadArr(o.arr, off, t)
	}
	if isAgg(t) {
		switch u := under(t).(type) {
		case *types.Struct:
			l := structLayout(u)
			a := make(Agg, len(l.offs))
			for i := range a {
				a[i] = st.loadSym(o, st.T.Add(off, st.c64(uint64(l.offs[i]))), l.typs[i])
			}
			return a
		case *types.Array:
			a := make(Agg, u.Len())
			es := sizeof(u.Elem())
			for i := range a {
				a[i] = st.loadSym(o, st.T.Add(off, st.c64(uint64(i)*uint64(es))), u.Elem())
			}
			return a
		}
	}
	s, ok := scalarSort(t)
	if ok {
		cands := st.candidates(o, off, int64((s.bits()+7)/8))
		if len(cands) > 0 && len(cands) <= 1200 {
			r := st.loadScalar(o, cands[len(cands)-1], s)
			for i := len(cands) - 2; i >= 0; i-- {
				v := st.loadScalar(o, cands[i], s)
				r = st.T.Ite(st.T.Eq(off, st.c64(uint64(cands[i]))), v, r)
			}
			return r
		}
	}
	k := st.concretize(off, "load offset")
	return st.loadAt(o, int64(k), t)
}

// candidates lists the possible concrete values of off within o for an access of n bytes.
func (st *State) candidates(o *Obj, off *Term, n int64) []int64 {
	var acc []linTerm
	var c uint64
	if !st.T.linearize(off, 1, &acc, &c, 0) {
		return nil
	}
	g := uint64(0)
	for _, l := range acc {
		g = gcd(g, l.c)
		if int64(l.c) < 0 {
			g = gcd(g, -l.c)
		}
	}
	// ignore power-of-two wrap subtleties unless g is a power of two or small offsets
	if g == 0 {
		return nil
	}
	if g > uint64(o.size) {
		g = 1
	}
	var out []int64
	start := int64(c % g)
	if int64(c) < 0 {
		start = int64(g-(-c)%g) % int64(g)
	}
	for x := start; x+n <= o.size; x += int64(g) {
		if off.ub < uint64(x) {
			break
		}
		out = append(out, x)
		if len(out) > 1200 {
			break
		}
	}
	return out
}

func gcd(a, b uint64) uint64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func (st *State) store(p Ptr, t types.Type, v Value) {
	st.checkLive(p)
	if st.race != nil {
		st.raceMem(p, st.c64(uint64(sizeof(t))), true)
	}
	o := st.writable(p.obj)
	if p.off.isConst() {
		st.storeAt(o, int64(p.off.k), t, v)
		return
	}
	st.storeSym(o, p.off, t, v)
}

func (st *State) storeSym(o *Obj, off *Term, t types.Type, v Value) {
	if isAgg(t) {
		switch u := under(t).(type) {
		case *types.Struct:
			l := structLayout(u)
			for i, x := range v.(Agg) {
				st.storeSym(o, st.T.Add(off, st.c64(uint64(l.offs[i]))), l.typs[i], x)
			}
		case *types.Array:
			es := sizeof(u.Elem())
			for i, x := range v.(Agg) {
				st.storeSym(o, st.T.Add(off, st.c64(uint64(i)*uint64(es))), u.Elem(), x)
			}
		}
		return
	}
	if tm, ok := v.(*Term); ok {
		if o.arr != nil {
			st.arrStoreScalar(o, off, tm)
			return
		}
		n := int64((tm.sort.bits() + 7) / 8)
		cands := st.candidates(o, off, n)
		if len(cands) > 0 && len(cands) <= 300 {
			for _, x := range cands {
				old := st.loadScalar(o, x, tm.sort)
				st.storeLeaf(o, x, st.T.Ite(st.T.Eq(off, st.c64(uint64(x))), tm, old), n)
			}
			return
		}
	}
	k := st.concretize(off, "store offset")
	st.storeAt(o, int64(k), t, v)
}

// ---------- functional arrays ----------

var arrZero = &Arr{kind: 0}

func (st *State) arrRead(a *Arr, i *Term) *Term {
	for {
		if a.kind == 0 {
			return st.T.Const(8, 0)
		}
		if a.kind == 1 {
			return st.T.Select(a.name, i)
		}
		if a.kind == 2 {
			e := st.T.Eq(i, a.idx)
			if e.isFalse() {
				a = a.prev
				continue
			}
			if e.isTrue() {
				return a.val
			}
			break
		}
		break
	}
	if a.memo != nil {
		if t, ok := a.memo[i.id]; ok {
			return t
		}
	}
	var r *Term
	if a.kind == 2 {
		e := st.T.Eq(i, a.idx)
		switch st.decide(e) {
		case 1:
			r = a.val
		case 0:
			return st.arrRead(a.prev, i)
		default:
			r = st.T.Ite(e, a.val, st.arrRead(a.prev, i))
		}
	} else {
		d := st.T.Sub(i, a.dst)
		in := st.T.Ult(d, a.cnt)
		switch st.decide(in) {
		case 1:
			r = st.arrRead(a.src, st.T.Add(d, a.soff))
		case 0:
			r = st.arrRead(a.prev, i)
		default:
			r = st.T.Ite(in, st.arrRead(a.src, st.T.Add(d, a.soff)), st.arrRead(a.prev, i))
		}
	}
	if !st.decideCtx {
		if a.memo == nil {
			a.memo = map[uint32]*Term{}
		}
		a.memo[i.id] = r
	}
	return r
}

func (st *State) loadArr(a *Arr, off *Term, t types.Type) Value {
	switch u := under(t).(type) {
	case *types.Struct:
		l := structLayout(u)
		g := make(Agg, len(l.offs))
		for i := range g {
			g[i] = st.loadArr(a, st.T.Add(off, st.c64(uint64(l.offs[i]))), l.typs[i])
		}
		return g
	case *types.Array:
		g := make(Agg, u.Len())
		es := sizeof(u.Elem())
		for i := range g {
			g[i] = st.loadArr(a, st.T.Add(off, st.c64(uint64(i)*uint64(es))), u.Elem())
		}
		return g
	}
	s, ok := scalarSort(t)
	if !ok {
		unsup("loading %s from a byte array object", t)
	}
	n := (s.bits() + 7) / 8
	var r *Term
	for i := 0; i < n; i++ {
		b := st.arrRead(a, st.T.Add(off, st.c64(uint64(i))))
		if r == nil {
			r = b
		} else {
			r = st.T.Concat(b, r)
		}
	}
	return st.fromBV(r, s)
}

// toArr converts a leaf-mode object into array mode.
func (st *State) toArr(o *Obj) {
	if o.arr != nil {
		return
	}
	a := arrZero
	for off := int64(0); off < o.size; off++ {
		p := o.pages[off>>pageBits]
		if p == nil {
			off |= pageSize - 1
			continue
		}
		c := p[off&(pageSize-1)]
		if c.n == 0 {
			continue
		}
		t, ok := c.v.(*Term)
		if !ok {
			unsup("converting object with %T cells to a byte array", c.v)
		}
		b := st.toBV(t)
		for i := 0; i < int(c.n); i++ {
			x := st.T.Extract(b, i*8+7, i*8)
			if x.isConst() && x.k == 0 && a.kind == 0 {
				continue
			}
			a = &Arr{kind: 2, prev: a, idx: st.c64(uint64(off + int64(i))), val: x}
		}
	}
	o.arr = a
	o.pages = nil
	o.symLen = st.c64(uint64(o.size))
}

// copyBytes copies n elements of size es between objects (memmove semantics).
func scalarsOnly(t types.Type) bool {
	if _, ok := scalarSort(t); ok {
		return true
	}
	switch u := under(t).(type) {
	case *types.Array:
		return scalarsOnly(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !scalarsOnly(u.Field(i).Type()) {
				return false
			}
		}
		return true
	}
	return false
}

// copyTyped copies n elements of type et; a few elements at a symbolic position are assigned one by
// one, which keeps the destination out of the theory of arrays.
func (st *State) copyTyped(d, s Slice, n *Term, et types.Type) {
	es := sizeof(et)
	if n.isConst() && n.k > 0 && int64(n.k)*es <= 64 && !d.off.isConst() && scalarsOnly(et) && st.resolve(d.obj).arr == nil {
		vs := make([]Value, n.k)
		for i := range vs {
			vs[i] = st.load(Ptr{s.obj, st.T.Add(s.off, st.c64(uint64(i)*uint64(es)))}, et)
		}
		for i, v := range vs {
			st.store(Ptr{d.obj, st.T.Add(d.off, st.c64(uint64(i)*uint64(es)))}, et, v)
		}
		return
	}
	st.copyElems(d.obj, d.off, s.obj, s.off, n, es)
}

func (st *State) copyElems(dst *Obj, doff *Term, src *Obj, soff *Term, n *Term, es int64) {
	if n.isConst() && n.k == 0 {
		return
	}
	nb := st.T.MulC(n, uint64(es))
	if st.race != nil {
		st.raceMem(Ptr{src, soff}, nb, false)
		st.raceMem(Ptr{dst, doff}, nb, true)
	}
	dst = st.writable(dst)
	src = st.resolve(src)
	if dst.arr == nil && src.arr == nil && doff.isConst() && soff.isConst() && nb.isConst() {
		st.copyConcrete(dst, int64(doff.k), src, int64(soff.k), int64(nb.k))
		return
	}
	if nb.isConst() && nb.k <= 4096 && (dst.arr == nil && doff.isConst()) {
		// source is symbolic array or symbolic offset: byte-wise
		tmp := make([]*Term, nb.k)
		for i := range tmp {
			tmp[i] = st.loadByteSym(src, st.T.Add(soff, st.c64(uint64(i))))
		}
		for i, b := range tmp {
			st.storeLeaf(dst, int64(doff.k)+int64(i), b, 1)
		}
		return
	}
	if nb.isConst() && nb.k <= 64 {
		tmp := make([]*Term, nb.k)
		for i := range tmp {
			tmp[i] = st.loadByteSym(src, st.T.Add(soff, st.c64(uint64(i))))
		}
		st.toArr(dst)
		for i, b := range tmp {
			dst.arr = &Arr{kind: 2, prev: dst.arr, idx: st.T.Add(doff, st.c64(uint64(i))), val: b}
		}
		return
	}
	// general: array copy
	var sa *Arr
	if src.arr != nil {
		sa = src.arr
	} else {
		if src == dst {
			st.toArr(src)
			sa = src.arr
		} else {
			tmp := &Obj{size: src.size, pages: src.pages}
			st.toArr(tmp)
			sa = tmp.arr
		}
	}
	st.toArr(dst)
	dst.arr = &Arr{kind: 3, prev: dst.arr, dst: doff, src: sa, soff: soff, cnt: nb}
}

func (st *State) loadByteSym(o *Obj, off *Term) *Term {
	if o.arr != nil {
		return st.arrRead(o.arr, off)
	}
	if off.isConst() {
		return st.loadByte(o, int64(off.k))
	}
	return st.loadSym(o, off, types.Typ[types.Uint8]).(*Term)
}

func (st *State) copyConcrete(dst *Obj, doff int64, src *Obj, soff, n int64) {
	type ent struct {
		off int64
		c   cell
	}
	var es []ent
	for i := int64(0); i < n; {
		p := src.pages[(soff+i)>>pageBits]
		if p == nil {
			i += pageSize - ((soff + i) & (pageSize - 1))
			continue
		}
		c := p[(soff+i)&(pageSize-1)]
		if c.n == 0 {
			// possibly inside a cell straddling the start
			if i == 0 {
				if s, cc := src.covering(soff); s >= 0 && s < soff {
					t, ok := cc.v.(*Term)
					if !ok {
						unsup("partial copy of %T", cc.v)
					}
					b := st.toBV(t)
					for k := soff - s; k < int64(cc.n) && i < n; k++ {
						es = append(es, ent{i, cell{st.T.Extract(b, int(k)*8+7, int(k)*8), 1}})
						i++
					}
					continue
				}
			}
			i++
			continue
		}
		if i+int64(c.n) > n {
			t, ok := c.v.(*Term)
			if !ok {
				unsup("partial copy of %T", c.v)
			}
			b := st.toBV(t)
			for k := 0; i < n; k++ {
				es = append(es, ent{i, cell{st.T.Extract(b, k*8+7, k*8), 1}})
				i++
			}
			break
		}
		es = append(es, ent{i, c})
		i += int64(c.n)
	}
	if doff != 0 || n < dst.size || dst.pages != nil {
		st.clear(dst, doff, n)
	}
	for _, e := range es {
		dst.put(doff+e.off, e.c)
	}
}
