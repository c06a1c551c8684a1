package main

// tabT writes a Boolean or at most 8-bit term as a table over a few leaf terms of at most 8 bits together. The table
// gives the value of the term for every value of the leaves, so a comparison can be decided, or turned into one of the
// leaves, by looking at all of them. Leaves are sorted by id; the first one is the most significant part of the index.
type tabT struct {
	parts []*Term
	vals  []byte
}

func (t *Term) table() *tabT {
	if t.tabDone {
		return t.tab
	}
	t.tabDone = true
	t.tab = t.makeTable()
	return t.tab
}

func leafTable(t *Term) *tabT {
	r := &tabT{parts: []*Term{t}, vals: make([]byte, 1<<t.sort)}
	for i := range r.vals {
		r.vals[i] = byte(i)
	}
	return r
}

func (t *Term) makeTable() *tabT {
	if t.sort != SBool && (!t.sort.isBV() || t.sort > 8) {
		return nil
	}
	if t.isConst() {
		return &tabT{vals: []byte{byte(t.k)}}
	}
	switch t.op {
	case OEq:
		x, k := t.a[0], t.a[1]
		if x.isConst() {
			x, k = k, x
		}
		if !k.isConst() || !x.sort.isBV() || x.sort > 8 || x.op == OTok {
			return nil
		}
		var l *tabT
		if x.op == OIte {
			l = x.table()
		} else {
			l = leafTable(x)
		}
		if l == nil {
			return nil
		}
		r := &tabT{parts: l.parts, vals: make([]byte, len(l.vals))}
		for i, v := range l.vals {
			if uint64(v) == k.k {
				r.vals[i] = 1
			}
		}
		return r
	case ONot:
		l := t.a[0].table()
		if l == nil {
			return nil
		}
		r := &tabT{parts: l.parts, vals: make([]byte, len(l.vals))}
		for i, v := range l.vals {
			r.vals[i] = v ^ 1
		}
		return r
	case OAnd, OIte:
		var in []*tabT
		var parts []*Term
		for _, a := range t.a[:t.n] {
			l := a.table()
			if l == nil {
				return nil
			}
			in = append(in, l)
			if parts = joinParts(parts, l.parts); parts == nil && len(l.parts) > 0 {
				return nil
			}
		}
		w := 0
		for _, p := range parts {
			w += int(p.sort)
		}
		ix := make([][]uint8, len(in))
		for j, l := range in {
			ix[j] = spread(parts, l.parts, w)
		}
		r := &tabT{parts: parts, vals: make([]byte, 1<<w)}
		for i := range r.vals {
			c := in[0].vals[ix[0][i]]
			if t.op == OAnd {
				r.vals[i] = c & in[1].vals[ix[1][i]]
			} else if c == 1 {
				r.vals[i] = in[1].vals[ix[1][i]]
			} else {
				r.vals[i] = in[2].vals[ix[2][i]]
			}
		}
		return r
	}
	return nil
}

// joinParts merges two lists of leaves, nil if they have more than 8 bits together.
func joinParts(a, b []*Term) []*Term {
	var r []*Term
	w := 0
	for len(a) > 0 || len(b) > 0 {
		var p *Term
		switch {
		case len(b) == 0 || len(a) > 0 && a[0].id < b[0].id:
			p, a = a[0], a[1:]
		case len(a) == 0 || b[0].id < a[0].id:
			p, b = b[0], b[1:]
		default:
			p, a, b = a[0], a[1:], b[1:]
		}
		if w += int(p.sort); w > 8 {
			return nil
		}
		r = append(r, p)
	}
	return r
}

// spread maps indices over the leaves to indices over some of them.
func spread(parts, some []*Term, w int) []uint8 {
	ix := make([]uint8, 1<<w)
	for i := range ix {
		rest, v, j := w, 0, 0
		for _, p := range parts {
			rest -= int(p.sort)
			if j < len(some) && some[j] == p {
				v = v<<p.sort | i>>rest&(1<<p.sort-1)
				j++
			}
		}
		ix[i] = uint8(v)
	}
	return ix
}

// eqTable simplifies the comparison of a table term with a constant.
func (T *TermTable) eqTable(a *Term, k uint64) *Term {
	l := a.table()
	if l == nil {
		return nil
	}
	n, at := 0, 0
	for i, v := range l.vals {
		if uint64(v) == k {
			n++
			at = i
		}
	}
	switch n {
	case 0:
		return T.ff
	case len(l.vals):
		return T.tt
	case 1:
		return T.isLeaf(l, at)
	case len(l.vals) - 1:
		for i, v := range l.vals {
			if uint64(v) != k {
				return T.Not(T.isLeaf(l, i))
			}
		}
	}
	return nil
}

// isLeaf says that the leaves have the values of an index.
func (T *TermTable) isLeaf(l *tabT, at int) *Term {
	r := T.tt
	for i := len(l.parts) - 1; i >= 0; i-- {
		p := l.parts[i]
		r = T.And(r, T.Eq(p, T.Const(p.sort, uint64(at)&mask(p.sort))))
		at >>= p.sort
	}
	return r
}

// fromTable simplifies a table term that is constant or the concatenation of its leaves, in any of the two orders.
func (T *TermTable) fromTable(t *Term) *Term {
	l := t.table()
	if l == nil || len(l.parts) == 0 {
		return t
	}
	same, id, rev := true, len(l.parts) <= 2, len(l.parts) == 2
	for i, v := range l.vals {
		same = same && v == l.vals[0]
		id = id && int(v) == i
		if rev {
			lo := l.parts[1].sort
			rev = int(v) == (i&(1<<lo-1))<<l.parts[0].sort|i>>lo
		}
	}
	switch {
	case same:
		return T.Const(t.sort, uint64(l.vals[0]))
	case id && len(l.parts) == 1 && l.parts[0].sort <= t.sort:
		return T.ZExt(l.parts[0], t.sort)
	case id && len(l.parts) == 2 && l.parts[0].sort+l.parts[1].sort <= t.sort:
		return T.ZExt(T.Concat(l.parts[0], l.parts[1]), t.sort)
	case rev && l.parts[0].sort+l.parts[1].sort <= t.sort:
		return T.ZExt(T.Concat(l.parts[1], l.parts[0]), t.sort)
	}
	return t
}
