package main

import (
	"fmt"
	"math"
	"math/bits"
	"sort"
)

// Sort of a term: 0 = Bool, 1..64 = bit-vector width, FP32/FP64.
type Sort uint8

const (
	SBool Sort = 0
	SFP32 Sort = 200
	SFP64 Sort = 201
)

func (s Sort) isBV() bool { return s >= 1 && s <= 64 }
func (s Sort) isFP() bool { return s == SFP32 || s == SFP64 }
func (s Sort) bits() int {
	switch s {
	case SBool:
		return 1
	case SFP32:
		return 32
	case SFP64:
		return 64
	}
	return int(s)
}

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OAdd
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OShl
	OLShr
	OAShr
	OBAnd
	OBOr
	OBXor
	OBNot
	OUlt
	OUle
	OSlt
	OSle
	OExtract // k = hi<<8|lo
	OConcat
	OZExt
	OSExt
	OSelect // name = array, arg0 = index
	OTok    // arg0 = number term, k = position: byte of the decimal text of a symbolic number
	// floating point
	OFromBits
	OToBits
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFAbs
	OFSqrt
	OFRound // k = mode: 0 RNE 1 RNA 2 RTZ 3 RTP 4 RTN
	OFLt
	OFLe
	OFEq
	OFIsNaN
	OFIsInf
	OFConv // FP -> other FP
	OSToF
	OUToF
	OFToS // FP -> signed BV of sort (RTZ, caller guards range)
	OFToU
	OUF // uninterpreted FP function, name
)

var opNames = map[Op]string{OAnd: "and", OOr: "or", ONot: "not", OEq: "=", OIte: "ite", OAdd: "bvadd", OMul: "bvmul", OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OConcat: "concat"}

type Term struct {
	op      Op
	sort    Sort
	n       uint8
	k       uint64
	a       [3]*Term
	name    string
	id      uint32
	vs      *varSet
	ub      uint64   // unsigned upper bound for BV terms
	set     *byteSet // possible values of an 8-bit term, nil if not known
	tab     *tabT    // see table
	tabDone bool
}

// byteSet is a set of byte values.
type byteSet [4]uint64

func (s *byteSet) has(b uint64) bool { return b < 256 && s[b>>6]>>(b&63)&1 == 1 }
func (s *byteSet) add(b uint64)      { s[b>>6&3] |= 1 << (b & 63) }

// below reports whether all, and whether any, of the values are less than k.
func (s *byteSet) below(k uint64) (all, any bool) {
	all = true
	for b := uint64(0); b < 256; b++ {
		if s.has(b) {
			if b < k {
				any = true
			} else {
				all = false
			}
		}
	}
	return
}

// bytes gives the possible values of an 8-bit term, nil if they are not known.
func (t *Term) bytes() *byteSet {
	if t.sort != 8 {
		return nil
	}
	if t.isConst() {
		var s byteSet
		s.add(t.k)
		return &s
	}
	return t.set
}

func (T *TermTable) setOf(t *Term) *byteSet {
	switch t.op {
	case OIte:
		a, b := t.a[1].bytes(), t.a[2].bytes()
		if a == nil || b == nil {
			return nil
		}
		var s byteSet
		for i := range s {
			s[i] = a[i] | b[i]
		}
		if s == *a {
			return a
		}
		if s == *b {
			return b
		}
		return &s
	}
	return nil
}

// VarSet is a variable that only takes the given values; the name must identify the set.
func (T *TermTable) VarSet(name string, set *byteSet) *Term {
	t := T.Var(name, 8)
	t.set = set
	return t
}

type tkey struct {
	op         Op
	sort       Sort
	k          uint64
	a0, a1, a2 uint32
	name       string
}

// varSet is a sorted list of variable ids a term depends on.
type varSet struct {
	ids []uint32
}

type TermTable struct {
	m      map[tkey]*Term
	next   uint32
	tt, ff *Term
	consts map[ckey]*Term
	vsm    map[[2]*varSet]*varSet
	arrIDs map[string]uint32
}
type ckey struct {
	s Sort
	k uint64
}

func newTermTable() *TermTable {
	T := &TermTable{m: map[tkey]*Term{}, consts: map[ckey]*Term{}, vsm: map[[2]*varSet]*varSet{}, arrIDs: map[string]uint32{}}
	T.next = 1
	T.tt = T.Const(SBool, 1)
	T.ff = T.Const(SBool, 0)
	return T
}

func mask(w Sort) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func (T *TermTable) Const(s Sort, k uint64) *Term {
	if s.isBV() {
		k &= mask(s)
	}
	c := ckey{s, k}
	if t, ok := T.consts[c]; ok {
		return t
	}
	t := &Term{op: OConst, sort: s, k: k, id: T.next, vs: emptyVS, ub: k}
	T.next++
	T.consts[c] = t
	return t
}

var emptyVS = &varSet{}

func (T *TermTable) Bool(b bool) *Term {
	if b {
		return T.tt
	}
	return T.ff
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OConst && t.sort == SBool && t.k == 1 }
func (t *Term) isFalse() bool { return t.op == OConst && t.sort == SBool && t.k == 0 }
func (t *Term) sval() int64 {
	w := uint(t.sort.bits())
	return int64(t.k<<(64-w)) >> (64 - w)
}

func (T *TermTable) mk(op Op, s Sort, k uint64, name string, args ...*Term) *Term {
	key := tkey{op: op, sort: s, k: k, name: name}
	switch len(args) {
	case 3:
		key.a2 = args[2].id
		fallthrough
	case 2:
		key.a1 = args[1].id
		fallthrough
	case 1:
		key.a0 = args[0].id
	}
	if t, ok := T.m[key]; ok {
		return t
	}
	t := &Term{op: op, sort: s, k: k, name: name, n: uint8(len(args)), id: T.next}
	T.next++
	copy(t.a[:], args)
	switch op {
	case OVar:
		t.vs = &varSet{ids: []uint32{t.id}}
	default:
		vs := emptyVS
		for _, a := range args {
			vs = T.unionVS(vs, a.vs)
		}
		if op == OSelect {
			id, ok := T.arrIDs[name]
			if !ok {
				id = T.next
				T.next++
				T.arrIDs[name] = id
			}
			vs = T.unionVS(vs, &varSet{ids: []uint32{id}})
		}
		if op == OTok {
			vs = T.unionVS(vs, &varSet{ids: []uint32{t.id}})
		}
		t.vs = vs
	}
	if s.isBV() {
		t.ub = T.bound(t)
	}
	if s == 8 {
		t.set = T.setOf(t)
	}
	T.m[key] = t
	return t
}

func (T *TermTable) bound(t *Term) uint64 {
	m := mask(t.sort)
	switch t.op {
	case OZExt:
		return t.a[0].ub
	case OIte:
		if t.a[1].ub > t.a[2].ub {
			return t.a[1].ub
		}
		return t.a[2].ub
	case OAdd:
		s, c := bits.Add64(t.a[0].ub, t.a[1].ub, 0)
		if c == 0 && s <= m {
			return s
		}
	case OMul:
		h, l := bits.Mul64(t.a[0].ub, t.a[1].ub)
		if h == 0 && l <= m {
			return l
		}
	case OBAnd:
		if t.a[0].ub < t.a[1].ub {
			return t.a[0].ub
		}
		return t.a[1].ub
	case OBOr, OBXor:
		u := t.a[0].ub | t.a[1].ub
		n := bits.Len64(u)
		if n >= 64 {
			return m
		}
		return (uint64(1)<<n - 1)
	case OConcat:
		return t.a[0].ub<<t.a[1].sort | mask(t.a[1].sort)
	case OLShr:
		if t.a[1].isConst() && t.a[1].k < 64 {
			return t.a[0].ub >> t.a[1].k
		}
		return t.a[0].ub
	case OUDiv:
		if t.a[1].isConst() && t.a[1].k > 0 {
			return t.a[0].ub / t.a[1].k
		}
	case OURem:
		if t.a[1].isConst() && t.a[1].k > 0 {
			if t.a[1].k-1 < t.a[0].ub {
				return t.a[1].k - 1
			}
			return t.a[0].ub
		}
	case OShl:
		if t.a[1].isConst() && t.a[1].k < 64 {
			if bits.Len64(t.a[0].ub)+int(t.a[1].k) <= int(t.sort) {
				return t.a[0].ub << t.a[1].k
			}
		}
	case OExtract:
		lo := t.k & 0xff
		if v := t.a[0].ub >> lo; v < m {
			return v
		}
	}
	return m
}

func (T *TermTable) unionVS(a, b *varSet) *varSet {
	if len(b.ids) == 0 || a == b {
		return a
	}
	if len(a.ids) == 0 {
		return b
	}
	k := [2]*varSet{a, b}
	if r, ok := T.vsm[k]; ok {
		return r
	}
	out := make([]uint32, 0, len(a.ids)+len(b.ids))
	i, j := 0, 0
	for i < len(a.ids) && j < len(b.ids) {
		switch {
		case a.ids[i] < b.ids[j]:
			out = append(out, a.ids[i])
			i++
		case a.ids[i] > b.ids[j]:
			out = append(out, b.ids[j])
			j++
		default:
			out = append(out, a.ids[i])
			i++
			j++
		}
	}
	out = append(out, a.ids[i:]...)
	out = append(out, b.ids[j:]...)
	var r *varSet
	if len(out) == len(a.ids) {
		r = a
	} else if len(out) == len(b.ids) {
		r = b
	} else {
		r = &varSet{ids: out}
	}
	T.vsm[k] = r
	return r
}

func (T *TermTable) Var(name string, s Sort) *Term {
	t := T.mk(OVar, s, 0, name)
	return t
}

// ---------- booleans ----------

func (T *TermTable) Not(a *Term) *Term {
	if a.isConst() {
		return T.Bool(a.k == 0)
	}
	if a.op == ONot {
		return a.a[0]
	}
	return T.mk(ONot, SBool, 0, "", a)
}

func (T *TermTable) And(a, b *Term) *Term {
	if a.isFalse() || b.isFalse() {
		return T.ff
	}
	if a.isTrue() {
		return b
	}
	if b.isTrue() || a == b {
		return a
	}
	if (a.op == ONot && a.a[0] == b) || (b.op == ONot && b.a[0] == a) {
		return T.ff
	}
	if a.id > b.id {
		a, b = b, a
	}
	return T.mk(OAnd, SBool, 0, "", a, b)
}

func (T *TermTable) Or(a, b *Term) *Term {
	return T.Not(T.And(T.Not(a), T.Not(b)))
}

func (T *TermTable) Implies(a, b *Term) *Term { return T.Or(T.Not(a), b) }

var numTok = func() (m [256]bool) {
	for _, c := range "0123456789+-.eE" {
		m[c] = true
	}
	return
}()

func (T *TermTable) Eq(a, b *Term) *Term {
	if a == b {
		return T.tt
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sort mismatch %d %d (%s) (%s)", a.sort, b.sort, a, b))
	}
	if a.isConst() && b.isConst() {
		return T.Bool(a.k == b.k)
	}
	if a.op == OTok && b.op == OTok && a.k == b.k && a.a[0].sort == b.a[0].sort {
		x, y := a.a[0], b.a[0]
		if x.sort.isFP() {
			x, y = T.ToBits(x), T.ToBits(y)
		}
		return T.Eq(x, y)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.sort == 8 {
		if x, y := a.bytes(), b.bytes(); x != nil && y != nil && x[0]&y[0]|x[1]&y[1]|x[2]&y[2]|x[3]&y[3] == 0 {
			return T.ff
		}
	}
	if b.isConst() {
		if a.sort == SBool {
			if b.k == 1 {
				return a
			}
			return T.Not(a)
		}
		switch a.op {
		case OTok:
			if !numTok[byte(b.k)] {
				return T.ff
			}
		case OIte:
			if a.sort.isBV() && a.sort <= 8 {
				if r := T.eqTable(a, b.k); r != nil {
					return r
				}
			}
			if a.a[1].isConst() && a.a[2].isConst() {
				if a.a[1].k == b.k && a.a[2].k != b.k {
					return a.a[0]
				}
				if a.a[2].k == b.k && a.a[1].k != b.k {
					return T.Not(a.a[0])
				}
				if a.a[1].k != b.k && a.a[2].k != b.k {
					return T.ff
				}
			}
			if a.a[1].isConst() {
				if a.a[1].k != b.k {
					return T.And(T.Not(a.a[0]), T.Eq(a.a[2], b))
				}
				return T.Or(a.a[0], T.Eq(a.a[2], b))
			}
			if a.a[2].isConst() && a.a[2].k != b.k {
				return T.And(a.a[0], T.Eq(a.a[1], b))
			}
		case OZExt:
			w := a.a[0].sort
			if b.k > mask(w) {
				return T.ff
			}
			return T.Eq(a.a[0], T.Const(w, b.k))
		case OConcat:
			lw := a.a[1].sort
			return T.And(T.Eq(a.a[0], T.Const(a.a[0].sort, b.k>>lw)), T.Eq(a.a[1], T.Const(lw, b.k)))
		case OAdd:
			if a.a[1].isConst() {
				return T.Eq(a.a[0], T.Const(a.sort, b.k-a.a[1].k))
			}
		case OBNot:
			return T.Eq(a.a[0], T.Const(a.sort, ^b.k))
		}
		if a.sort.isBV() && b.k > a.ub {
			return T.ff
		}
	} else if a.sort.isBV() {
		if a.op == OConcat && b.op == OConcat && a.a[1].sort == b.a[1].sort {
			return T.And(T.Eq(a.a[0], b.a[0]), T.Eq(a.a[1], b.a[1]))
		}
		if a.op == OZExt && b.op == OZExt && a.a[0].sort == b.a[0].sort {
			return T.Eq(a.a[0], b.a[0])
		}
		if a.op == OAdd || b.op == OAdd || a.op == OMul || b.op == OMul {
			d := T.Sub(a, b)
			if d.isConst() {
				return T.Bool(d.k == 0)
			}
		}
	} else if a.sort.isFP() {
		if a.op == OFromBits && b.op == OFromBits {
			// structural (bit) equality is what callers of Eq on FP want
			return T.Eq(a.a[0], b.a[0])
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return T.mk(OEq, SBool, 0, "", a, b)
}

func (T *TermTable) Ite(c, a, b *Term) *Term {
	if c.isTrue() || a == b {
		return a
	}
	if c.isFalse() {
		return b
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Ite sort mismatch %d %d", a.sort, b.sort))
	}
	if c.op == ONot {
		return T.Ite(c.a[0], b, a)
	}
	if a.sort == SBool {
		if a.isTrue() {
			return T.Or(c, b)
		}
		if a.isFalse() {
			return T.And(T.Not(c), b)
		}
		if b.isTrue() {
			return T.Or(T.Not(c), a)
		}
		if b.isFalse() {
			return T.And(c, a)
		}
	}
	if a.op == OIte && a.a[0] == c {
		a = a.a[1]
	}
	if b.op == OIte && b.a[0] == c {
		b = b.a[2]
	}
	if a == b {
		return a
	}
	t := T.mk(OIte, a.sort, 0, "", c, a, b)
	if a.sort.isBV() && a.sort <= 8 {
		return T.fromTable(t)
	}
	return t
}

// ---------- bit-vectors ----------

type linTerm struct {
	t *Term
	c uint64
}

func (T *TermTable) linearize(t *Term, coef uint64, acc *[]linTerm, c *uint64, depth int) bool {
	if t.isConst() {
		*c += t.k * coef
		return true
	}
	if t.op == OAdd && depth < 40 {
		return T.linearize(t.a[0], coef, acc, c, depth+1) && T.linearize(t.a[1], coef, acc, c, depth+1)
	}
	if t.op == OMul && t.a[1].isConst() {
		return T.linearize(t.a[0], coef*t.a[1].k, acc, c, depth+1)
	}
	for i := range *acc {
		if (*acc)[i].t == t {
			(*acc)[i].c += coef
			return true
		}
	}
	*acc = append(*acc, linTerm{t, coef})
	return len(*acc) <= 12
}

func (T *TermTable) fromLin(s Sort, acc []linTerm, c uint64) *Term {
	m := mask(s)
	sort.Slice(acc, func(i, j int) bool { return acc[i].t.id < acc[j].t.id })
	var r *Term
	for _, l := range acc {
		k := l.c & m
		if k == 0 {
			continue
		}
		x := l.t
		if k != 1 {
			x = T.mk(OMul, s, 0, "", l.t, T.Const(s, k))
		}
		if r == nil {
			r = x
		} else {
			r = T.mk(OAdd, s, 0, "", r, x)
		}
	}
	c &= m
	if r == nil {
		return T.Const(s, c)
	}
	if c != 0 {
		r = T.mk(OAdd, s, 0, "", r, T.Const(s, c))
	}
	return r
}

func (T *TermTable) Add(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return T.Const(a.sort, a.k+b.k)
	}
	if a.isConst() && a.k == 0 {
		return b
	}
	if b.isConst() && b.k == 0 {
		return a
	}
	var acc []linTerm
	var c uint64
	if T.linearize(a, 1, &acc, &c, 0) && T.linearize(b, 1, &acc, &c, 0) {
		return T.fromLin(a.sort, acc, c)
	}
	return T.mk(OAdd, a.sort, 0, "", a, b)
}

func (T *TermTable) Neg(a *Term) *Term { return T.MulC(a, ^uint64(0)) }

func (T *TermTable) Sub(a, b *Term) *Term {
	if a == b {
		return T.Const(a.sort, 0)
	}
	return T.Add(a, T.Neg(b))
}

func (T *TermTable) MulC(a *Term, k uint64) *Term {
	if a.isConst() {
		return T.Const(a.sort, a.k*k)
	}
	var acc []linTerm
	var c uint64
	if T.linearize(a, k, &acc, &c, 0) {
		return T.fromLin(a.sort, acc, c)
	}
	return T.mk(OMul, a.sort, 0, "", a, T.Const(a.sort, k))
}

func (T *TermTable) Mul(a, b *Term) *Term {
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		return T.MulC(a, b.k)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return T.mk(OMul, a.sort, 0, "", a, b)
}

func pow2(k uint64) (int, bool) {
	if k != 0 && k&(k-1) == 0 {
		return bits.TrailingZeros64(k), true
	}
	return 0, false
}

func (T *TermTable) UDiv(a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.k != 0 {
		return T.Const(a.sort, a.k/b.k)
	}
	if b.isConst() {
		if n, ok := pow2(b.k); ok {
			return T.LShr(a, T.Const(a.sort, uint64(n)))
		}
	}
	return T.mk(OUDiv, a.sort, 0, "", a, b)
}

func (T *TermTable) URem(a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.k != 0 {
		return T.Const(a.sort, a.k%b.k)
	}
	if b.isConst() {
		if _, ok := pow2(b.k); ok {
			return T.BAnd(a, T.Const(a.sort, b.k-1))
		}
	}
	return T.mk(OURem, a.sort, 0, "", a, b)
}

func (T *TermTable) SDiv(a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.k != 0 {
		if b.sval() == -1 {
			return T.Neg(a)
		}
		return T.Const(a.sort, uint64(a.sval()/b.sval()))
	}
	half := mask(a.sort) >> 1
	if a.ub <= half && b.ub <= half {
		return T.UDiv(a, b)
	}
	return T.mk(OSDiv, a.sort, 0, "", a, b)
}

func (T *TermTable) SRem(a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.k != 0 {
		if b.sval() == -1 {
			return T.Const(a.sort, 0)
		}
		return T.Const(a.sort, uint64(a.sval()%b.sval()))
	}
	half := mask(a.sort) >> 1
	if a.ub <= half && b.ub <= half {
		return T.URem(a, b)
	}
	return T.mk(OSRem, a.sort, 0, "", a, b)
}

// shifts: the shift amount has the same sort as a; amounts >= width give 0 / sign.
func (T *TermTable) Shl(a, b *Term) *Term {
	w := uint64(a.sort)
	if b.isConst() {
		if b.k == 0 {
			return a
		}
		if b.k >= w {
			return T.Const(a.sort, 0)
		}
		if a.isConst() {
			return T.Const(a.sort, a.k<<b.k)
		}
		// (x << k) = concat(extract(w-k-1..0), 0_k)
		return T.Concat(T.Extract(a, int(w-b.k)-1, 0), T.Const(Sort(b.k), 0))
	}
	return T.mk(OShl, a.sort, 0, "", a, b)
}

func (T *TermTable) LShr(a, b *Term) *Term {
	w := uint64(a.sort)
	if b.isConst() {
		if b.k == 0 {
			return a
		}
		if b.k >= w {
			return T.Const(a.sort, 0)
		}
		if a.isConst() {
			return T.Const(a.sort, a.k>>b.k)
		}
		return T.ZExt(T.Extract(a, int(w)-1, int(b.k)), a.sort)
	}
	return T.mk(OLShr, a.sort, 0, "", a, b)
}

func (T *TermTable) AShr(a, b *Term) *Term {
	w := uint64(a.sort)
	if b.isConst() {
		if b.k == 0 {
			return a
		}
		k := b.k
		if k >= w {
			k = w - 1
		}
		if a.isConst() {
			return T.Const(a.sort, uint64(a.sval()>>k))
		}
		if a.ub <= mask(a.sort)>>1 {
			return T.LShr(a, T.Const(a.sort, k))
		}
		return T.SExt(T.Extract(a, int(w)-1, int(k)), a.sort)
	}
	return T.mk(OAShr, a.sort, 0, "", a, b)
}

func (T *TermTable) BAnd(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return T.Const(a.sort, a.k&b.k)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a == b {
		return a
	}
	if b.isConst() {
		m := mask(a.sort)
		if b.k == 0 {
			return b
		}
		if b.k == m {
			return a
		}
		// low mask
		if b.k&(b.k+1) == 0 {
			n := bits.Len64(b.k)
			if a.ub <= b.k {
				return a
			}
			return T.ZExt(T.Extract(a, n-1, 0), a.sort)
		}
		// contiguous mask
		lo := bits.TrailingZeros64(b.k)
		kk := b.k >> lo
		if kk&(kk+1) == 0 {
			n := bits.Len64(kk)
			x := T.ZExt(T.Extract(a, lo+n-1, lo), a.sort)
			return T.Shl(x, T.Const(a.sort, uint64(lo)))
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return T.mk(OBAnd, a.sort, 0, "", a, b)
}

// zero-known masks: returns a mask of bits which may be non-zero.
func maybeOnes(t *Term, d int) uint64 {
	m := mask(t.sort)
	if t.isConst() {
		return t.k
	}
	if d > 6 {
		return m
	}
	switch t.op {
	case OZExt:
		return maybeOnes(t.a[0], d+1)
	case OConcat:
		return maybeOnes(t.a[0], d+1)<<t.a[1].sort | maybeOnes(t.a[1], d+1)
	case OBOr, OBXor:
		return maybeOnes(t.a[0], d+1) | maybeOnes(t.a[1], d+1)
	case OBAnd:
		return maybeOnes(t.a[0], d+1) & maybeOnes(t.a[1], d+1)
	case OIte:
		return maybeOnes(t.a[1], d+1) | maybeOnes(t.a[2], d+1)
	}
	n := bits.Len64(t.ub)
	if n < 64 {
		return m & (uint64(1)<<n - 1)
	}
	return m
}

type piece struct {
	t *Term // nil: zero
	w int
}

// pieces splits a BV into concatenation pieces, low first.
func (T *TermTable) pieces(t *Term, out []piece) []piece {
	switch t.op {
	case OConcat:
		out = T.pieces(t.a[1], out)
		return T.pieces(t.a[0], out)
	case OZExt:
		out = T.pieces(t.a[0], out)
		return append(out, piece{T.Const(t.sort-t.a[0].sort, 0), int(t.sort - t.a[0].sort)})
	}
	return append(out, piece{t, int(t.sort)})
}

func (T *TermTable) BOr(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return T.Const(a.sort, a.k|b.k)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a == b {
		return a
	}
	if b.isConst() {
		if b.k == 0 {
			return a
		}
		if b.k == mask(a.sort) {
			return b
		}
	}
	ma, mb := maybeOnes(a, 0), maybeOnes(b, 0)
	if ma&mb == 0 {
		// disjoint: build by concatenation
		pa := T.pieces(a, nil)
		pb := T.pieces(b, nil)
		if len(pa) > 1 || len(pb) > 1 {
			if r := T.mergePieces(a, b, pa, pb); r != nil {
				return r
			}
		}
	}
	if a.id > b.id && !b.isConst() {
		a, b = b, a
	}
	return T.mk(OBOr, a.sort, 0, "", a, b)
}

func (T *TermTable) mergePieces(a, b *Term, pa, pb []piece) *Term {
	// cut points
	cuts := map[int]bool{}
	p := 0
	for _, x := range pa {
		p += x.w
		cuts[p] = true
	}
	p = 0
	for _, x := range pb {
		p += x.w
		cuts[p] = true
	}
	var cs []int
	for c := range cuts {
		cs = append(cs, c)
	}
	sort.Ints(cs)
	lo := 0
	var r *Term
	for _, hi := range cs {
		x := T.Extract(a, hi-1, lo)
		y := T.Extract(b, hi-1, lo)
		var z *Term
		if x.isConst() && x.k == 0 {
			z = y
		} else if y.isConst() && y.k == 0 {
			z = x
		} else if x.isConst() && y.isConst() {
			z = T.Const(x.sort, x.k|y.k)
		} else {
			return nil
		}
		if r == nil {
			r = z
		} else {
			r = T.Concat(z, r)
		}
		lo = hi
	}
	return r
}

func (T *TermTable) BXor(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return T.Const(a.sort, a.k^b.k)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a == b {
		return T.Const(a.sort, 0)
	}
	if b.isConst() {
		if b.k == 0 {
			return a
		}
		if b.k == mask(a.sort) {
			return T.BNot(a)
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return T.mk(OBXor, a.sort, 0, "", a, b)
}

func (T *TermTable) BNot(a *Term) *Term {
	if a.isConst() {
		return T.Const(a.sort, ^a.k)
	}
	if a.op == OBNot {
		return a.a[0]
	}
	return T.mk(OBNot, a.sort, 0, "", a)
}

func (T *TermTable) Ult(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return T.Bool(a.k < b.k)
	}
	if a == b {
		return T.ff
	}
	if b.isConst() && b.k == 0 {
		return T.ff
	}
	if b.isConst() && a.ub < b.k {
		return T.tt
	}
	if a.isConst() && a.k >= b.ub {
		return T.ff
	}
	if b.isConst() && a.set != nil {
		if all, any := a.set.below(b.k); all {
			return T.tt
		} else if !any {
			return T.ff
		}
	}
	if a.isConst() && b.set != nil {
		if all, any := b.set.below(a.k + 1); all {
			return T.ff
		} else if !any {
			return T.tt
		}
	}
	if b.isConst() && b.k == 1 {
		return T.Eq(a, T.Const(a.sort, 0))
	}
	if a.op == OZExt && b.op == OZExt && a.a[0].sort == b.a[0].sort {
		return T.Ult(a.a[0], b.a[0])
	}
	if a.op == OZExt && b.isConst() {
		return T.Ult(a.a[0], T.Const(a.a[0].sort, b.k))
	}
	return T.mk(OUlt, SBool, 0, "", a, b)
}

func (T *TermTable) Ule(a, b *Term) *Term { return T.Not(T.Ult(b, a)) }

func (T *TermTable) Slt(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return T.Bool(a.sval() < b.sval())
	}
	if a == b {
		return T.ff
	}
	half := mask(a.sort) >> 1
	if a.ub <= half && b.ub <= half {
		return T.Ult(a, b)
	}
	if b.isConst() && b.k == 0 && a.ub <= half {
		return T.ff
	}
	if a.isConst() && a.sval() < 0 && b.ub <= half {
		return T.tt
	}
	if b.isConst() && b.sval() < 0 && a.ub <= half {
		return T.ff
	}
	return T.mk(OSlt, SBool, 0, "", a, b)
}

func (T *TermTable) Sle(a, b *Term) *Term { return T.Not(T.Slt(b, a)) }

func (T *TermTable) Extract(a *Term, hi, lo int) *Term {
	w := Sort(hi - lo + 1)
	if lo == 0 && w == a.sort {
		return a
	}
	if hi < lo || hi >= int(a.sort) || lo < 0 {
		panic(fmt.Sprintf("bad extract %d %d of %d", hi, lo, a.sort))
	}
	switch a.op {
	case OConst:
		return T.Const(w, a.k>>uint(lo))
	case OExtract:
		l0 := int(a.k & 0xff)
		return T.Extract(a.a[0], hi+l0, lo+l0)
	case OConcat:
		lw := int(a.a[1].sort)
		if hi < lw {
			return T.Extract(a.a[1], hi, lo)
		}
		if lo >= lw {
			return T.Extract(a.a[0], hi-lw, lo-lw)
		}
		return T.Concat(T.Extract(a.a[0], hi-lw, 0), T.Extract(a.a[1], lw-1, lo))
	case OZExt:
		iw := int(a.a[0].sort)
		if lo >= iw {
			return T.Const(w, 0)
		}
		if hi < iw {
			return T.Extract(a.a[0], hi, lo)
		}
		return T.ZExt(T.Extract(a.a[0], iw-1, lo), w)
	case OSExt:
		iw := int(a.a[0].sort)
		if hi < iw {
			return T.Extract(a.a[0], hi, lo)
		}
		if lo < iw {
			return T.SExt(T.Extract(a.a[0], iw-1, lo), w)
		}
	case OIte:
		if (a.a[1].isConst() && a.a[2].isConst()) || (a.a[1].isConst() && a.a[1].k == 0) || (a.a[2].isConst() && a.a[2].k == 0) {
			return T.Ite(a.a[0], T.Extract(a.a[1], hi, lo), T.Extract(a.a[2], hi, lo))
		}
		return T.Ite(a.a[0], T.Extract(a.a[1], hi, lo), T.Extract(a.a[2], hi, lo))
	case OBAnd:
		return T.BAnd(T.Extract(a.a[0], hi, lo), T.Extract(a.a[1], hi, lo))
	case OBOr:
		return T.BOr(T.Extract(a.a[0], hi, lo), T.Extract(a.a[1], hi, lo))
	case OBXor:
		return T.BXor(T.Extract(a.a[0], hi, lo), T.Extract(a.a[1], hi, lo))
	case OBNot:
		return T.BNot(T.Extract(a.a[0], hi, lo))
	case OAdd:
		if lo == 0 {
			return T.Add(T.Extract(a.a[0], hi, 0), T.Extract(a.a[1], hi, 0))
		}
	case OMul:
		if lo == 0 {
			return T.Mul(T.Extract(a.a[0], hi, 0), T.Extract(a.a[1], hi, 0))
		}
	}
	return T.mk(OExtract, w, uint64(hi)<<8|uint64(lo), "", a)
}

func (T *TermTable) Concat(a, b *Term) *Term {
	w := a.sort + b.sort
	if a.isConst() && b.isConst() {
		return T.Const(w, a.k<<b.sort|b.k)
	}
	if a.isConst() && a.k == 0 {
		return T.ZExt(b, w)
	}
	// adjacent extracts
	if a.op == OExtract && b.op == OExtract && a.a[0] == b.a[0] {
		ah, al := int(a.k>>8), int(a.k&0xff)
		bh, bl := int(b.k>>8), int(b.k&0xff)
		if al == bh+1 {
			return T.Extract(a.a[0], ah, bl)
		}
	}
	// concat(concat(x,y), b) -> concat(x, concat(y,b)): right-assoc with merge
	if a.op == OConcat {
		return T.Concat(a.a[0], T.Concat(a.a[1], b))
	}
	if a.op == OExtract && b.op == OConcat && b.a[0].op == OExtract && b.a[0].a[0] == a.a[0] {
		al := int(a.k & 0xff)
		bh, bl := int(b.a[0].k>>8), int(b.a[0].k&0xff)
		if al == bh+1 {
			return T.Concat(T.Extract(a.a[0], int(a.k>>8), bl), b.a[1])
		}
	}
	if a.isConst() && b.op == OConcat && b.a[0].isConst() {
		return T.Concat(T.Concat(a, b.a[0]), b.a[1])
	}
	if a.op == OIte && b.op == OIte && a.a[0] == b.a[0] {
		return T.Ite(a.a[0], T.Concat(a.a[1], b.a[1]), T.Concat(a.a[2], b.a[2]))
	}
	if a.op == OZExt {
		iw := a.a[0].sort
		inner := T.Concat(a.a[0], b)
		_ = iw
		return T.ZExt(inner, w)
	}
	return T.mk(OConcat, w, 0, "", a, b)
}

func (T *TermTable) ZExt(a *Term, w Sort) *Term {
	if a.sort == w {
		return a
	}
	if a.sort > w {
		return T.Extract(a, int(w)-1, 0)
	}
	if a.isConst() {
		return T.Const(w, a.k)
	}
	if a.op == OZExt {
		return T.ZExt(a.a[0], w)
	}
	if a.op == OIte && a.a[1].isConst() && a.a[2].isConst() {
		return T.Ite(a.a[0], T.ZExt(a.a[1], w), T.ZExt(a.a[2], w))
	}
	return T.mk(OZExt, w, 0, "", a)
}

func (T *TermTable) SExt(a *Term, w Sort) *Term {
	if a.sort == w {
		return a
	}
	if a.sort > w {
		return T.Extract(a, int(w)-1, 0)
	}
	if a.isConst() {
		return T.Const(w, uint64(a.sval()))
	}
	if a.op == OSExt {
		return T.SExt(a.a[0], w)
	}
	if a.ub <= mask(a.sort)>>1 {
		return T.ZExt(a, w)
	}
	if a.op == OIte && a.a[1].isConst() && a.a[2].isConst() {
		return T.Ite(a.a[0], T.SExt(a.a[1], w), T.SExt(a.a[2], w))
	}
	return T.mk(OSExt, w, 0, "", a)
}

func (T *TermTable) Select(arr string, idx *Term) *Term {
	return T.mk(OSelect, 8, 0, arr, idx)
}

// ---------- floating point ----------

func fpConst(s Sort, k uint64) float64 {
	if s == SFP32 {
		return float64(math.Float32frombits(uint32(k)))
	}
	return math.Float64frombits(k)
}

func (T *TermTable) fpk(s Sort, f float64) *Term {
	if s == SFP32 {
		return T.Const(s, uint64(math.Float32bits(float32(f))))
	}
	return T.Const(s, math.Float64bits(f))
}

func bvOf(s Sort) Sort {
	if s == SFP32 {
		return 32
	}
	return 64
}

func (T *TermTable) FromBits(b *Term) *Term {
	s := SFP64
	if b.sort == 32 {
		s = SFP32
	}
	if b.isConst() {
		return T.Const(s, b.k)
	}
	if b.op == OToBits {
		return b.a[0]
	}
	if b.op == OIte {
		return T.Ite(b.a[0], T.FromBits(b.a[1]), T.FromBits(b.a[2]))
	}
	return T.mk(OFromBits, s, 0, "", b)
}

func (T *TermTable) ToBits(f *Term) *Term {
	if f.isConst() {
		return T.Const(bvOf(f.sort), f.k)
	}
	if f.op == OFromBits {
		return f.a[0]
	}
	if f.op == OIte {
		return T.Ite(f.a[0], T.ToBits(f.a[1]), T.ToBits(f.a[2]))
	}
	return T.mk(OToBits, bvOf(f.sort), 0, "", f)
}

func (T *TermTable) FBin(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return T.Const(a.sort, evalFBin(op, a.sort, a.k, b.k))
	}
	return T.mk(op, a.sort, 0, "", a, b)
}

func evalFBin(op Op, s Sort, x, y uint64) uint64 {
	if s == SFP32 {
		a, b := math.Float32frombits(uint32(x)), math.Float32frombits(uint32(y))
		var r float32
		switch op {
		case OFAdd:
			r = a + b
		case OFSub:
			r = a - b
		case OFMul:
			r = a * b
		case OFDiv:
			r = a / b
		}
		return uint64(math.Float32bits(r))
	}
	a, b := math.Float64frombits(x), math.Float64frombits(y)
	var r float64
	switch op {
	case OFAdd:
		r = a + b
	case OFSub:
		r = a - b
	case OFMul:
		r = a * b
	case OFDiv:
		r = a / b
	}
	return math.Float64bits(r)
}

func (T *TermTable) FNeg(a *Term) *Term {
	w := bvOf(a.sort)
	b := T.ToBits(a)
	if b.op != OToBits || a.isConst() {
		return T.FromBits(T.BXor(b, T.Const(w, uint64(1)<<(w-1))))
	}
	return T.mk(OFNeg, a.sort, 0, "", a)
}

func (T *TermTable) FAbs(a *Term) *Term {
	w := bvOf(a.sort)
	b := T.ToBits(a)
	if b.op != OToBits || a.isConst() {
		return T.FromBits(T.BAnd(b, T.Const(w, uint64(1)<<(w-1)-1)))
	}
	return T.mk(OFAbs, a.sort, 0, "", a)
}

func evalRound(mode uint64, f float64) float64 {
	switch mode {
	case 0:
		return math.RoundToEven(f)
	case 1:
		return math.Round(f)
	case 2:
		return math.Trunc(f)
	case 3:
		return math.Ceil(f)
	}
	return math.Floor(f)
}

func (T *TermTable) FRound(mode uint64, a *Term) *Term {
	if a.isConst() {
		return T.fpk(a.sort, evalRound(mode, fpConst(a.sort, a.k)))
	}
	return T.mk(OFRound, a.sort, mode, "", a)
}

func (T *TermTable) FSqrt(a *Term) *Term {
	if a.isConst() {
		return T.fpk(a.sort, math.Sqrt(fpConst(a.sort, a.k)))
	}
	return T.mk(OFSqrt, a.sort, 0, "", a)
}

func (T *TermTable) FLt(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return T.Bool(fpConst(a.sort, a.k) < fpConst(b.sort, b.k))
	}
	if a == b {
		return T.ff
	}
	if x, y, ok := T.convPair(a, b); ok {
		return T.FLt(x, y)
	}
	return T.mk(OFLt, SBool, 0, "", a, b)
}
func (T *TermTable) FLe(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return T.Bool(fpConst(a.sort, a.k) <= fpConst(b.sort, b.k))
	}
	if x, y, ok := T.convPair(a, b); ok {
		return T.FLe(x, y)
	}
	// Rounding is monotone: x-k <= x <= x+k for k >= 0 unless x is NaN.
	if x, k := T.plusConst(a); x == b && k <= 0 {
		return T.FEq(b, b)
	}
	if x, k := T.plusConst(b); x == a && k >= 0 {
		return T.FEq(a, a)
	}
	return T.mk(OFLe, SBool, 0, "", a, b)
}

// plusConst splits x+k and x-k for a constant k.
func (T *TermTable) plusConst(t *Term) (*Term, float64) {
	if t.op == OFAdd || t.op == OFSub {
		for i := 0; i < 2; i++ {
			if k := t.a[i]; k.isConst() && (t.op == OFAdd || i == 1) {
				v := fpConst(k.sort, k.k)
				if t.op == OFSub {
					v = -v
				}
				if v-v == 0 {
					return t.a[1-i], v
				}
			}
		}
		return nil, 0
	}
	return t, 0
}

func (T *TermTable) FEq(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return T.Bool(fpConst(a.sort, a.k) == fpConst(b.sort, b.k))
	}
	if x, y, ok := T.convPair(a, b); ok {
		return T.FEq(x, y)
	}
	if a.isConst() {
		a, b = b, a
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return T.mk(OFEq, SBool, 0, "", a, b)
}

// convPair reduces comparisons of widened float32 values to float32 (widening is exact).
func (T *TermTable) convPair(a, b *Term) (*Term, *Term, bool) {
	if a.sort != SFP64 {
		return nil, nil, false
	}
	in := func(x *Term) *Term {
		if x.op == OFConv && x.a[0].sort == SFP32 {
			return x.a[0]
		}
		if x.isConst() {
			f := math.Float64frombits(x.k)
			if float64(float32(f)) == f {
				return T.Const(SFP32, uint64(math.Float32bits(float32(f))))
			}
		}
		return nil
	}
	x, y := in(a), in(b)
	if x != nil && y != nil && !(a.isConst() && b.isConst()) {
		return x, y, true
	}
	return nil, nil, false
}

func (T *TermTable) FIsNaN(a *Term) *Term {
	if a.isConst() {
		return T.Bool(math.IsNaN(fpConst(a.sort, a.k)))
	}
	if a.op == OFConv {
		return T.FIsNaN(a.a[0])
	}
	if a.op == OSToF || a.op == OUToF {
		return T.ff
	}
	return T.mk(OFIsNaN, SBool, 0, "", a)
}
func (T *TermTable) FIsInf(a *Term) *Term {
	if a.isConst() {
		return T.Bool(math.IsInf(fpConst(a.sort, a.k), 0))
	}
	if a.op == OFConv && a.sort == SFP64 {
		return T.FIsInf(a.a[0])
	}
	if a.op == OSToF || a.op == OUToF {
		return T.ff
	}
	return T.mk(OFIsInf, SBool, 0, "", a)
}

func (T *TermTable) FConv(a *Term, s Sort) *Term {
	if a.sort == s {
		return a
	}
	if a.isConst() {
		return T.fpk(s, fpConst(a.sort, a.k))
	}
	if a.op == OFConv && a.a[0].sort == s && s == SFP32 {
		return a.a[0] // narrowing undoes widening (NaN payload may change; treated as preserved)
	}
	if a.op == OIte {
		return T.Ite(a.a[0], T.FConv(a.a[1], s), T.FConv(a.a[2], s))
	}
	return T.mk(OFConv, s, 0, "", a)
}

func (T *TermTable) IToF(a *Term, signed bool, s Sort) *Term {
	if a.isConst() {
		if signed {
			if s == SFP32 {
				return T.Const(s, uint64(math.Float32bits(float32(a.sval()))))
			}
			return T.fpk(s, float64(a.sval()))
		}
		if s == SFP32 {
			return T.Const(s, uint64(math.Float32bits(float32(a.k))))
		}
		return T.fpk(s, float64(a.k))
	}
	if signed {
		if a.op == OZExt && a.a[0].sort < a.sort {
			return T.mk(OUToF, s, 0, "", a.a[0])
		}
		if a.op == OSExt {
			return T.mk(OSToF, s, 0, "", a.a[0])
		}
		return T.mk(OSToF, s, 0, "", a)
	}
	if a.op == OZExt {
		a = a.a[0]
	}
	return T.mk(OUToF, s, 0, "", a)
}

// FToI converts with Go/amd64 semantics for in-range values (64-bit truncating conversion,
// then truncation to the target width); out of int64 range gives 0x8000000000000000.
func (T *TermTable) FToI(a *Term, w Sort, signed bool) *Term {
	if a.isConst() {
		f := fpConst(a.sort, a.k)
		var v uint64
		if f != f || f >= 9223372036854775808.0 || f < -9223372036854775808.0 {
			if !signed && w == 64 && f >= 9223372036854775808.0 && f < 18446744073709551616.0 {
				v = uint64(f)
			} else {
				v = 1 << 63
			}
		} else {
			v = uint64(int64(f))
		}
		return T.Const(w, v)
	}
	lo := T.fpk(a.sort, -9223372036854775808.0)
	hi := T.fpk(a.sort, 9223372036854775808.0)
	in := T.And(T.FLe(lo, a), T.FLt(a, hi))
	c := T.mk(OFToS, 64, 0, "", a)
	r := T.Ite(in, c, T.Const(64, 1<<63))
	return T.ZExt(r, w)
}

func (T *TermTable) UF(name string, s Sort, args ...*Term) *Term {
	return T.mk(OUF, s, 0, name, args...)
}

func (t *Term) String() string { return t.str(0) }
func (t *Term) str(d int) string {
	switch t.op {
	case OConst:
		if t.sort == SBool {
			return fmt.Sprint(t.k == 1)
		}
		if t.sort.isFP() {
			return fmt.Sprint(fpConst(t.sort, t.k))
		}
		return fmt.Sprintf("%d", t.k)
	case OVar:
		return t.name
	}
	if d > 5 {
		return "..."
	}
	s := fmt.Sprintf("(%s", opNames[t.op])
	if opNames[t.op] == "" {
		s = fmt.Sprintf("(op%d[%s%d]", t.op, t.name, t.k)
	}
	for i := 0; i < int(t.n); i++ {
		s += " " + t.a[i].str(d+1)
	}
	return s + ")"
}
