package main

import "math"

// Interval lemmas: bounds of floating-point subterms that follow from the asserted constraints because every
// rounded operation is monotone in each operand. They are added to queries as redundant facts: bit-blasted
// floating-point arithmetic alone makes the solver rediscover them.

type ival struct{ lo, hi float64 }

type intervals struct {
	T    *TermTable
	fact map[uint32]ival // from the constraints; infinite ends are unknown
	weak map[uint32]ival // likewise, but only if the term is not NaN
	memo map[uint32]*ival
}

func meet(a, b ival) ival { return ival{math.Max(a.lo, b.lo), math.Min(a.hi, b.hi)} }

func (I *intervals) learn(m map[uint32]ival, t *Term, v ival) {
	if o, ok := m[t.id]; ok {
		v = meet(o, v)
	}
	m[t.id] = v
}

var inf = math.Inf(1)

// learnC takes bounds from a constraint that is asserted (pos) or refuted.
func (I *intervals) learnC(c *Term, pos bool) {
	switch c.op {
	case ONot:
		I.learnC(c.a[0], !pos)
	case OAnd:
		if pos {
			I.learnC(c.a[0], true)
			I.learnC(c.a[1], true)
		}
	case OOr:
		if !pos {
			I.learnC(c.a[0], false)
			I.learnC(c.a[1], false)
		}
	case OFLe, OFLt, OFEq:
		a, b := c.a[0], c.a[1]
		m := I.fact
		if !pos {
			m = I.weak
		}
		if a.isConst() == b.isConst() {
			return
		}
		x, k, flip := a, b, false // x op k
		if a.isConst() {
			x, k, flip = b, a, true
		}
		v := fpConst(k.sort, k.k)
		if v != v {
			return
		}
		switch {
		case c.op == OFEq:
			if pos {
				I.learn(m, x, ival{v, v})
			}
		case pos != flip:
			I.learn(m, x, ival{-inf, v})
		default:
			I.learn(m, x, ival{v, inf})
		}
	case OUlt, OUle:
		a, b := c.a[0], c.a[1]
		if a.isConst() == b.isConst() {
			return
		}
		x, k, flip := a, b, false
		if a.isConst() {
			x, k, flip = b, a, true
		}
		if pos != flip {
			I.learn(I.fact, x, ival{0, float64(k.k)})
		} else {
			I.learn(I.fact, x, ival{float64(k.k), inf})
		}
	case OEq:
		if !pos || c.a[0].isConst() == c.a[1].isConst() {
			return
		}
		x, k := c.a[0], c.a[1]
		if x.isConst() {
			x, k = k, x
		}
		if !x.sort.isBV() {
			return
		}
		v, w := k.k, uint64(0)
		for {
			I.learn(I.fact, x, ival{float64(v), float64(v + w)})
			switch {
			case x.op == OExtract && int(x.k>>8) == x.a[0].sort.bits()-1 && v+w < 1<<40:
				lo := x.k & 0xff
				v, w = v<<lo, w<<lo|(1<<lo-1)
			case x.op == OZExt:
			case x.op == OLShr && x.a[1].isConst() && x.a[1].k < 32 && v+w < 1<<20:
				lo := x.a[1].k
				v, w = v<<lo, w<<lo|(1<<lo-1)
			case x.op == OConcat && x.a[0].isConst() && v>>uint(x.a[1].sort) == x.a[0].k && (v+w)>>uint(x.a[1].sort) == x.a[0].k:
				v &= mask(x.a[1].sort)
				x = x.a[1]
				continue
			default:
				return
			}
			x = x.a[0]
		}
	}
}

// of gives finite bounds of a term (which then is not NaN), unsigned for bit vectors.
func (I *intervals) of(t *Term) (ival, bool) {
	if r, ok := I.memo[t.id]; ok {
		if r == nil {
			return ival{}, false
		}
		return *r, true
	}
	r, ok := I.calc(t)
	if f, is := I.fact[t.id]; is {
		if !ok {
			r, ok = f, true
		} else {
			r = meet(r, f)
		}
	}
	if f, is := I.weak[t.id]; ok && is {
		r = meet(r, f)
	}
	if ok && !(r.lo > -inf && r.hi < inf && r.lo <= r.hi) {
		ok = false
	}
	if !ok {
		I.memo[t.id] = nil
		return ival{}, false
	}
	I.memo[t.id] = &r
	return r, true
}

func rnd(s Sort, f float64) float64 {
	if s == SFP32 {
		return float64(float32(f))
	}
	return f
}

func (I *intervals) calc(t *Term) (ival, bool) {
	no := ival{}
	if t.sort.isBV() {
		b := ival{0, float64(t.ub)}
		switch t.op {
		case OConst:
			if t.k < 1<<53 {
				return ival{float64(t.k), float64(t.k)}, true
			}
		case OZExt:
			if v, ok := I.of(t.a[0]); ok {
				return v, true
			}
		case OFToU:
			if v, ok := I.of(t.a[0]); ok && v.lo > -1 && v.hi < 1<<52 && math.Trunc(v.hi) <= float64(mask(t.sort)) {
				return ival{math.Max(0, math.Trunc(v.lo)), math.Max(0, math.Trunc(v.hi))}, true
			}
		case OFToS:
			if v, ok := I.of(t.a[0]); ok && v.lo > -1 && v.hi < 1<<52 && math.Trunc(v.hi) <= float64(mask(t.sort)>>1) {
				return ival{math.Max(0, math.Trunc(v.lo)), math.Max(0, math.Trunc(v.hi))}, true
			}
		}
		if t.ub >= 1<<53 {
			return no, false
		}
		return b, true
	}
	if !t.sort.isFP() {
		return no, false
	}
	var a, b ival
	if t.a[0] != nil && t.op != OIte && t.op != OFromBits && t.op != OSToF {
		var ok bool
		if a, ok = I.of(t.a[0]); !ok {
			return no, false
		}
		if t.a[1] != nil {
			if b, ok = I.of(t.a[1]); !ok {
				return no, false
			}
		}
	}
	r := func(x ...float64) (ival, bool) {
		lo, hi := inf, -inf
		for _, f := range x {
			if f != f {
				return no, false
			}
			f = rnd(t.sort, f)
			lo, hi = math.Min(lo, f), math.Max(hi, f)
		}
		return ival{lo, hi}, true
	}
	switch t.op {
	case OConst:
		return r(fpConst(t.sort, t.k))
	case OFAdd:
		return r(a.lo+b.lo, a.hi+b.hi)
	case OFSub:
		return r(a.lo-b.hi, a.hi-b.lo)
	case OFMul:
		return r(a.lo*b.lo, a.lo*b.hi, a.hi*b.lo, a.hi*b.hi)
	case OFDiv:
		if b.lo <= 0 && b.hi >= 0 {
			return no, false
		}
		return r(a.lo/b.lo, a.lo/b.hi, a.hi/b.lo, a.hi/b.hi)
	case OFNeg:
		return r(-a.lo, -a.hi)
	case OFAbs:
		if a.lo <= 0 && a.hi >= 0 {
			return r(0, a.lo, a.hi, -a.lo, -a.hi)
		}
		return r(math.Abs(a.lo), math.Abs(a.hi))
	case OFSqrt:
		if a.lo < 0 {
			return no, false
		}
		return r(math.Sqrt(a.lo), math.Sqrt(a.hi))
	case OFRound:
		return r(evalRound(t.k, a.lo), evalRound(t.k, a.hi))
	case OFConv, OUToF:
		return r(a.lo, a.hi)
	case OSToF:
		// only for values whose sign bit is known to be clear
		if v, ok := I.of(t.a[0]); ok && v.hi <= float64(mask(t.a[0].sort)>>1) {
			return r(v.lo, v.hi)
		}
	case OIte:
		x, ok1 := I.of(t.a[1])
		y, ok2 := I.of(t.a[2])
		if ok1 && ok2 {
			return ival{math.Min(x.lo, y.lo), math.Max(x.hi, y.hi)}, true
		}
	case OUF:
		if t.name == "pow" && a.lo >= 0 && b.lo == b.hi && b.lo > 0 {
			// increasing; the margin covers the error of math.Pow
			v := ival{math.Pow(a.lo, b.lo) * (1 - 1e-9), math.Pow(a.hi, b.lo) * (1 + 1e-9)}
			if a.hi <= 1 {
				v.hi = math.Min(v.hi, 1)
			}
			return v, true
		}
	}
	return no, false
}

// lemmas gives bounds for the floating-point arithmetic in cs.
func (st *State) lemmas(cs []*Term) []*Term {
	hard := false
	seen := map[uint32]bool{}
	var order []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		for _, a := range t.a {
			if a != nil {
				walk(a)
			}
		}
		switch t.op {
		case OFAdd, OFSub, OFMul, OFDiv, OFSqrt, OUF:
			hard = true
		}
		order = append(order, t)
	}
	for _, c := range cs {
		walk(c)
	}
	if !hard {
		return nil
	}
	I := &intervals{st.T, map[uint32]ival{}, map[uint32]ival{}, map[uint32]*ival{}}
	for _, c := range cs {
		I.learnC(c, true)
	}
	T := st.T
	var out []*Term
	for _, t := range order {
		switch t.op {
		case OFAdd, OFSub, OFMul, OFDiv, OFSqrt, OUF, OFConv, OUToF, OSToF, OFRound:
			if v, ok := I.of(t); ok && !t.isConst() {
				out = append(out, T.FLe(T.fpk(t.sort, v.lo), t), T.FLe(t, T.fpk(t.sort, v.hi)))
			}
		case OFToU, OFToS:
			if v, ok := I.of(t); ok {
				out = append(out, T.Ule(T.Const(t.sort, uint64(v.lo)), t), T.Ule(t, T.Const(t.sort, uint64(v.hi))))
			}
		}
	}
	return out
}
