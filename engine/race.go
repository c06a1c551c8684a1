package main

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Data races of two operations. The operations run one after the other; every access to memory that
// existed before them is recorded together with the locks held. Two accesses of different operations
// that overlap, of which one writes, without a common lock are a data race: nothing orders them, so
// there is a schedule in which they happen at the same time.

type raceLock struct {
	k lockKey
	w bool
}

type raceAcc struct {
	id     int // object or map
	off, n *Term
	write  bool
	atomic bool
	locks  []raceLock
	label  string
	fn     string
	hb     int
}

type raceKey struct {
	id     int
	off, n *Term
	write  bool
	atomic bool
	locks  string
}

type raceRec struct {
	first  int // objects with greater numbers are new
	second int // number of the last object the first operation made
	phase  int
	hb     int             // accesses of the first operation known to come before
	rel    map[lockKey]int // the same, acquired with a lock
	items  map[*Obj]int    // the same, acquired with an item of a pool
	acc    [2][]raceAcc
	seen   map[raceKey]bool
	atomic int
	onces  []raceLock
	held   []raceLock
	heldS  string
}

func (r *raceRec) relock(st *State) {
	r.held = append([]raceLock{}, r.onces...)
	for k, n := range st.locks {
		if n != 0 {
			r.held = append(r.held, raceLock{k, n < 0})
		}
	}
	var s []string
	for _, l := range r.held {
		s = append(s, fmt.Sprintf("%d+%d%v", l.k.o.id, l.k.off, l.w))
	}
	sort.Strings(s)
	r.heldS = strings.Join(s, " ")
}

func (st *State) raceAccess(id int, frozen bool, label string, off, n *Term, write bool) {
	r := st.race
	if st.initMode || r.phase == 1 && id > r.second && !frozen {
		return
	}
	if frozen {
		id = -id // never new
	}
	k := raceKey{id, off, n, write, r.atomic > 0, r.heldS}
	if r.seen[k] {
		return
	}
	r.seen[k] = true
	r.acc[r.phase] = append(r.acc[r.phase], raceAcc{id, off, n, write, r.atomic > 0, r.held, label, st.raceFn(), r.hb})
}

// raceFn names the function of the module that is running.
func (st *State) raceFn() string {
	for i := len(st.stack) - 1; i >= 0; i-- {
		f := st.stack[i].fn
		for f.Parent() != nil {
			f = f.Parent()
		}
		if inModule(f.Pkg) && !strings.Contains(f.Pkg.Pkg.Path(), "/zzverif/") {
			return f.RelString(nil)
		}
	}
	if len(st.stack) > 0 {
		return st.stack[len(st.stack)-1].fn.String()
	}
	return "?"
}

func (st *State) raceMem(p Ptr, n *Term, write bool) {
	if st.race != nil && p.obj != nil {
		st.raceAccess(p.obj.id, p.obj.frozen, p.obj.label, p.off, n, write)
	}
}

func (st *State) raceMap(m *MapObj, write bool) {
	if st.race != nil && m != nil {
		st.raceAccess(m.id, m.frozen, "map", nil, nil, write)
	}
}

// ordered tells whether a lock keeps the accesses apart.
func (a *raceAcc) ordered(b *raceAcc) bool {
	if a.atomic && b.atomic {
		return true
	}
	for _, x := range a.locks {
		for _, y := range b.locks {
			if x.k == y.k && (x.w || y.w) {
				return true
			}
		}
	}
	return false
}

const raceLabel = "data race"

func (st *State) runRace(a, b *Closure) {
	if st.race != nil {
		unsup("nested sym.Race")
	}
	r := &raceRec{first: st.nobj, seen: map[raceKey]bool{}, rel: map[lockKey]int{}, items: map[*Obj]int{}}
	st.pools = map[lockKey]*poolState{}
	st.race = r
	defer func() { st.race = nil }()
	r.relock(st)
	st.callClosure(a, nil)
	r.second = st.nobj
	r.phase, r.seen, r.onces = 1, map[raceKey]bool{}, nil
	r.relock(st)
	st.callClosure(b, nil)
	st.race = nil
	T := st.T
	all := T.tt
	byObj := map[int][]int{}
	for i := range r.acc[0] {
		x := &r.acc[0][i]
		byObj[x.id] = append(byObj[x.id], i)
	}
	for j := range r.acc[1] {
		y := &r.acc[1][j]
		for _, i := range byObj[y.id] {
			x := &r.acc[0][i]
			if !x.write && !y.write || x.ordered(y) {
				continue
			}
			if x.id > r.first && i < y.hb {
				continue // handed over
			}
			c := T.tt
			if x.off != nil {
				// overlap of [x.off, x.off+x.n) and [y.off, y.off+y.n)
				c = T.And(T.And(T.Ult(x.off, T.Add(y.off, y.n)), T.Ult(y.off, T.Add(x.off, x.n))),
					T.And(T.Not(T.Eq(x.n, st.zero64)), T.Not(T.Eq(y.n, st.zero64))))
			}
			if c.isFalse() {
				continue
			}
			kind := func(w bool) string {
				if w {
					return "write"
				}
				return "read"
			}
			lbl := fmt.Sprintf("%s: %s in %s, %s in %s", raceLabel, kind(x.write), x.fn, kind(y.write), y.fn)
			if c.isTrue() {
				st.assert(T.ff, lbl)
			}
			// one query for all the symbolic positions
			nc := T.Not(c)
			if all = T.And(all, nc); all.isFalse() {
				st.assert(nc, lbl)
			}
		}
	}
	st.assert(all, "no "+raceLabel)
}

func initRace(m map[string]modelFn) {
	m[symPath+".Race"] = func(st *State, fn *ssa.Function, a []Value) Value {
		st.runRace(a[0].(*Closure), a[1].(*Closure))
		return nil
	}
	// accesses of atomic operations are ordered with each other
	for n, f := range m {
		if strings.HasPrefix(n, "sync/atomic.") || strings.HasPrefix(n, "internal/runtime/atomic.") || strings.HasPrefix(n, "(*sync/atomic.") || strings.HasPrefix(n, "(*sync.Map).") {
			f := f
			m[n] = func(st *State, fn *ssa.Function, a []Value) Value {
				if st.race == nil {
					return f(st, fn, a)
				}
				if st.race.phase == 1 {
					st.race.acquire(len(st.race.acc[0]))
				}
				st.race.atomic++
				v := f(st, fn, a)
				st.race.atomic--
				return v
			}
		}
	}
	// what a Once runs happens before every return from its Do
	once := m["(*sync.Once).Do"]
	m["(*sync.Once).Do"] = func(st *State, fn *ssa.Function, a []Value) Value {
		if st.race == nil {
			return once(st, fn, a)
		}
		k := st.lockOf(a[0])
		n := len(st.race.onces)
		st.race.onces = append(st.race.onces[:n:n], raceLock{k, true})
		st.race.relock(st)
		v := once(st, fn, a)
		st.race.onces = append(st.race.onces[:n:n], raceLock{k, false})
		st.race.relock(st)
		return v
	}
	// what came before putting an item into a pool comes before getting it
	put := m["(*sync.Pool).Put"]
	m["(*sync.Pool).Put"] = func(st *State, fn *ssa.Function, a []Value) Value {
		if r := st.race; r != nil {
			if p, ok := a[1].(Iface).v.(Ptr); ok && p.obj != nil && r.phase == 0 {
				r.release()
				r.items[p.obj] = len(r.acc[0])
			} else {
				return nil
			}
		}
		return put(st, fn, a)
	}
	get := m["(*sync.Pool).Get"]
	m["(*sync.Pool).Get"] = func(st *State, fn *ssa.Function, a []Value) Value {
		v := get(st, fn, a)
		if r := st.race; r != nil && r.phase == 1 {
			if p, ok := v.(Iface).v.(Ptr); ok && p.obj != nil {
				r.acquire(r.items[p.obj])
			}
		}
		return v
	}
}

// release forgets which accesses were recorded: the same access counts again when it comes later.
func (r *raceRec) release() { r.seen = map[raceKey]bool{} }

func (r *raceRec) acquire(n int) {
	if n > r.hb {
		r.hb = n
		r.release()
	}
}

// raceLocked follows a lock from the first operation to the second.
func (st *State) raceLocked(k lockKey, lock bool) {
	r := st.race
	if r == nil {
		return
	}
	r.relock(st)
	switch {
	case r.phase == 0 && !lock:
		r.release()
		r.rel[k] = len(r.acc[0])
	case r.phase == 1 && lock:
		r.acquire(r.rel[k])
	}
}
