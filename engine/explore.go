package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

const modulePath = "github.com/qmuntal/gltf"

func isModulePath(p string) bool {
	return p == modulePath || strings.HasPrefix(p, modulePath+"/")
}

// Program is the loaded and compiled-to-SSA code under test with the harnesses.
type Program struct {
	prog           *ssa.Program
	runtimeErrType types.Type
	rtypeT         types.Type
	harness        *ssa.Package
	entries        map[string]*ssa.Function
	tier           int
}

// pmodel is a model independent of a worker's term table.
type pmodel struct {
	v   map[string]uint64
	arr map[string]map[uint64]uint64
}

type item struct {
	entry  string
	prefix []decision
	model  *pmodel
}

// Assignment mirrors sym.Assignment.
type Assignment struct {
	Ints  map[string]uint64            `json:"ints,omitempty"`
	Bytes map[string][]byte            `json:"bytes,omitempty"`
	Big   map[string]map[string]uint64 `json:"big,omitempty"`
	Tier  int                          `json:"tier"`
}

type Violation struct {
	Entry  string      `json:"entry"`
	Kind   string      `json:"kind"`
	Label  string      `json:"label"`
	Where  string      `json:"where,omitempty"`
	Stack  []string    `json:"stack,omitempty"`
	Assign *Assignment `json:"assignment"`
}

type Sample struct {
	Entry    string
	Assign   *Assignment
	Observes []obsVal
	Reached  []string
}
type obsVal struct {
	name string
	kind string
	v    uint64
	data []byte
}

type entryStat struct {
	paths, done, assumed, bounded, limited, unsup, violated int
	asserts                                                 map[string]int
	trivial                                                 map[string]int
	reached                                                 map[string]int
	start                                                   time.Time
	dur                                                     time.Duration
	steps                                                   int64
	viol                                                    map[string]int
	decisions                                               int
}

type Explorer struct {
	P           *Program
	maxSteps    int
	maxConc     int
	onPrefixEnd func(st *State)

	mu       sync.Mutex
	cond     *sync.Cond
	stack    []item
	active   int
	deadline time.Time
	stopped  bool

	stats      map[string]*entryStat
	notes      map[string]int
	violations []Violation
	samples    map[string][]Sample
	sampleN    int
	fns        map[string]bool
	left       map[string]int
	queries    int
	nsat       int
	nunsat     int
	nunk       int
	solverTime time.Duration
	slowest    time.Duration
	termsMax   int
	stateBoot  bool
}

func newExplorer(P *Program) *Explorer {
	ex := &Explorer{P: P, maxSteps: 4_000_000, maxConc: 300, stats: map[string]*entryStat{}, notes: map[string]int{}, samples: map[string][]Sample{}, fns: map[string]bool{}, left: map[string]int{}, sampleN: 10}
	ex.cond = sync.NewCond(&ex.mu)
	ex.onPrefixEnd = func(st *State) { st.endReplay() }
	return ex
}

func (ex *Explorer) stat(e string) *entryStat {
	s := ex.stats[e]
	if s == nil {
		s = &entryStat{asserts: map[string]int{}, trivial: map[string]int{}, reached: map[string]int{}, viol: map[string]int{}, start: time.Now()}
		ex.stats[e] = s
	}
	return s
}

func (ex *Explorer) push(st *State, d decision, m *Model) {
	it := item{entry: st.entry, prefix: make([]decision, len(st.decs)+1), model: st.portable(m)}
	copy(it.prefix, st.decs)
	it.prefix[len(st.decs)] = d
	ex.mu.Lock()
	ex.stack = append(ex.stack, it)
	ex.stat(st.entry).decisions++
	ex.cond.Signal()
	ex.mu.Unlock()
}

func (st *State) portable(m *Model) *pmodel {
	p := &pmodel{v: map[string]uint64{}, arr: map[string]map[uint64]uint64{}}
	for _, t := range st.varsSeen {
		if v, ok := m.v[t.id]; ok {
			p.v[t.name] = v
		}
	}
	for a, mm := range m.arr {
		x := make(map[uint64]uint64, len(mm))
		for k, v := range mm {
			x[k] = v
		}
		p.arr[a] = x
	}
	return p
}

// endReplay is called when the recorded decisions are used up: the model has to satisfy the path condition.
func (st *State) endReplay() {
	if st.pmodel == nil {
		return
	}
	m := newModel()
	for a, mm := range st.pmodel.arr {
		x := make(map[uint64]uint64, len(mm))
		for k, v := range mm {
			x[k] = v
		}
		m.arr[a] = x
	}
	st.model = m
	for _, t := range st.varsSeen {
		if v, ok := st.pmodel.v[t.name]; ok {
			m.v[t.id] = v
		}
	}
	st.repairModel()
}

func (st *State) repairModel() {
	e := &evaluator{m: st.model, memo: map[uint32]uint64{}}
	bad := false
	for _, c := range st.pc {
		if e.ev(c) == 0 {
			bad = true
			break
		}
	}
	if !bad {
		return
	}
	m := st.model.clone()
	switch st.sol.check(st.pc, m) {
	case Sat:
		st.model = m
	case Unsat:
		panic(pathEnd{"assume", "prefix became infeasible"})
	default:
		st.note("solver gave no model for a path prefix")
		panic(pathEnd{"bound", "no model for the prefix"})
	}
}

func (ex *Explorer) countAssert(st *State, label string, trivial bool) {
	ex.mu.Lock()
	s := ex.stat(st.entry)
	if trivial {
		s.trivial[label]++
	} else {
		s.asserts[label]++
	}
	ex.mu.Unlock()
}

func (st *State) assignment(m *Model) *Assignment {
	a := &Assignment{Ints: map[string]uint64{}, Bytes: map[string][]byte{}, Big: map[string]map[string]uint64{}, Tier: st.P.tier}
	e := &evaluator{m: m, memo: map[uint32]uint64{}}
	for _, in := range st.inputs {
		switch in.kind {
		case "int":
			a.Ints[in.name] = e.ev(in.ts[0])
		case "bytes":
			b := make([]byte, len(in.ts))
			for i, t := range in.ts {
				b[i] = byte(e.ev(t))
			}
			a.Bytes[in.name] = b
		case "big":
			n := e.ev(in.ts[0])
			x := map[string]uint64{"len": n}
			for k, v := range m.arr[in.arr] {
				if k < n {
					x[strconv.FormatUint(k, 10)] = v
				}
			}
			a.Big[in.name] = x
		}
	}
	return a
}

const maxPerLabel = 3

func (ex *Explorer) violation(st *State, kind, label string, m *Model) {
	v := Violation{Entry: st.entry, Kind: kind, Label: label, Where: st.where(), Stack: st.trace(), Assign: st.assignment(m)}
	ex.mu.Lock()
	defer ex.mu.Unlock()
	s := ex.stat(st.entry)
	s.viol[label]++
	if s.viol[label] <= maxPerLabel {
		ex.violations = append(ex.violations, v)
		debugf("violation %s %s %s", st.entry, kind, label)
	}
}

func newWorker(id int, P *Program, sol *Solver) *Worker {
	w := &Worker{id: id, P: P, T: newTermTable(), sol: sol, globals: map[*ssa.Global]*Obj{}, initDone: map[*ssa.Package]bool{}, consts: map[*ssa.Const]Value{}, intPtrs: map[int]*Obj{}, strCache: map[string][]*Term{}, rtypes: map[string][]rtEntry{}}
	w.zero64 = w.T.Const(64, 0)
	return w
}

func (ex *Explorer) newState(w *Worker) *State {
	return &State{Worker: w, ex: ex, known: map[uint32]bool{}, model: newModel(), shadow: map[*Obj]*Obj{}, mshadow: map[*MapObj]*MapObj{}, inNames: map[string]int{}, reached: map[string]bool{}, pools: map[lockKey]*poolState{}, modelObjs: map[*Obj]any{}, fnSeen: map[*ssa.Function]bool{}, reduced: map[string]int{}, extra: map[string]any{}, undecided: map[uint32]int{}, locks: map[lockKey]int{}, onces: map[lockKey]bool{}, atomics: map[lockKey]Value{}}
}

func (ex *Explorer) bootWorker(w *Worker) {
	b := ex.newState(w)
	b.initMode = true
	w.boot = b
	b.entry = "init"
	w.initDone[ex.P.harness] = true
	w.runInit(ex.P.harness)
}

func (ex *Explorer) worker(id int, sol *Solver, wg *sync.WaitGroup) {
	defer wg.Done()
	var w *Worker
	for {
		ex.mu.Lock()
		for len(ex.stack) == 0 && ex.active > 0 && !ex.stopped {
			ex.cond.Wait()
		}
		if ex.stopped || len(ex.stack) == 0 {
			ex.cond.Broadcast()
			ex.mu.Unlock()
			break
		}
		it := ex.stack[len(ex.stack)-1]
		ex.stack = ex.stack[:len(ex.stack)-1]
		if len(ex.stat(it.entry).viol) >= 6 {
			ex.left[it.entry]++
			ex.mu.Unlock()
			continue
		}
		ex.active++
		ex.mu.Unlock()
		if w == nil || w.T.next > 1_500_000 {
			w = newWorker(id, ex.P, sol)
			ex.bootWorker(w)
		}
		ex.runPath(w, it)
		ex.mu.Lock()
		ex.active--
		if int(w.T.next) > ex.termsMax {
			ex.termsMax = int(w.T.next)
		}
		if time.Now().After(ex.deadline) && !ex.stopped {
			ex.stopped = true
			for _, x := range ex.stack {
				ex.left[x.entry]++
			}
		}
		ex.cond.Broadcast()
		ex.mu.Unlock()
	}
	sol.close()
	ex.mu.Lock()
	ex.queries += sol.queries
	ex.nsat += sol.nsat
	ex.nunsat += sol.nunsat
	ex.nunk += sol.nunk
	ex.solverTime += sol.time
	if sol.slowest > ex.slowest {
		ex.slowest = sol.slowest
		if f := os.Getenv("GOSYM_SLOW"); f != "" {
			os.WriteFile(f, []byte(sol.slowQ), 0o644)
		}
	}
	ex.mu.Unlock()
}

func (ex *Explorer) runPath(w *Worker, it item) {
	st := ex.newState(w)
	st.entry = it.entry
	st.prefix = it.prefix
	st.pmodel = it.model
	st.pathStart = time.Now()
	fn := ex.P.entries[it.entry]
	why, info := "done", ""
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			switch x := r.(type) {
			case pathEnd:
				why, info = x.why, x.info
			case unsupported:
				why, info = "unsup", x.msg+" at "+st.where()
			case *goPanic:
				why = "panic"
				info = x.msg
				if st.pos < len(st.prefix) {
					why, info = "engine", "panic during replay: "+x.msg
					return
				}
				v := Violation{Entry: it.entry, Kind: "panic", Label: "panic: " + x.msg + " in " + x.where, Where: x.where, Assign: st.assignment(st.model)}
				ex.mu.Lock()
				s := ex.stat(it.entry)
				s.viol[v.Label]++
				if s.viol[v.Label] <= maxPerLabel {
					ex.violations = append(ex.violations, v)
				}
				ex.mu.Unlock()
			default:
				if os.Getenv("GOSYM_CRASH") != "" {
					for i := len(st.stack) - 1; i >= 0; i-- {
						fmt.Fprintln(os.Stderr, "  in", st.stack[i].fn)
					}
					panic(r)
				}
				why, info = "engine", fmt.Sprintf("%v at %s", r, st.where())
			}
		}()
		st.callFn(fn, nil, nil)
	}()
	if it.entry == "" {
		return
	}
	var smp *Sample
	if why == "done" {
		ex.mu.Lock()
		want := len(ex.samples[it.entry]) < ex.sampleN
		ex.mu.Unlock()
		if want || st.sampleRand(ex) {
			smp = st.sample()
		}
	}
	ex.mu.Lock()
	defer ex.mu.Unlock()
	s := ex.stat(it.entry)
	s.paths++
	s.steps += int64(st.steps)
	s.dur = time.Since(s.start)
	switch why {
	case "done":
		s.done++
		for l := range st.reached {
			s.reached[l]++
		}
		if smp != nil {
			l := ex.samples[it.entry]
			if len(l) < ex.sampleN {
				ex.samples[it.entry] = append(l, *smp)
			} else {
				l[s.done%len(l)] = *smp
			}
		}
	case "assume":
		s.assumed++
	case "bound":
		s.bounded++
		ex.notes[it.entry+": "+info]++
	case "limit":
		s.limited++
		ex.notes[it.entry+": "+info]++
	case "unsup":
		s.unsup++
		ex.notes[it.entry+": not encoded: "+info]++
	case "engine":
		s.unsup++
		ex.notes[it.entry+": engine: "+info]++
	case "panic", "violated":
		s.violated++
	}
	for n, c := range st.reduced {
		ex.notes[it.entry+": "+n] += c
	}
	for f := range st.fnSeen {
		p := f.Pkg
		if p == nil && f.Origin() != nil {
			p = f.Origin().Pkg
		}
		if p == nil && f.Parent() != nil {
			p = f.Parent().Pkg
		}
		if p != nil && isModulePath(p.Pkg.Path()) && !strings.Contains(p.Pkg.Path(), "/zzverif/") {
			ex.fns[f.String()] = true
		}
	}
}

// sampleRand keeps some later paths in the sample (deterministically, by path number).
func (st *State) sampleRand(ex *Explorer) bool {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	n := ex.stat(st.entry).done
	return n&(n-1) == 0 // powers of two
}

func (st *State) sample() *Sample {
	// a model of the whole path condition
	e := &evaluator{m: st.model, memo: map[uint32]uint64{}}
	for _, c := range st.pc {
		if e.ev(c) == 0 {
			m := st.model.clone()
			if st.sol.check(st.pc, m) != Sat {
				return nil
			}
			st.model = m
			break
		}
	}
	s := &Sample{Entry: st.entry, Assign: st.assignment(st.model)}
	e = &evaluator{m: st.model, memo: map[uint32]uint64{}}
	for _, o := range st.observes {
		v := obsVal{name: o.name, kind: o.s}
		ok := true
		for _, t := range o.ts {
			if hasTok(t, map[uint32]bool{}) {
				ok = false
			}
		}
		if o.s == "int" {
			v.v = e.ev(o.ts[0])
		} else {
			v.data = make([]byte, len(o.ts))
			for i, t := range o.ts {
				v.data[i] = byte(e.ev(t))
			}
		}
		if !ok || e.pow {
			v.kind = "skip"
		}
		s.Observes = append(s.Observes, v)
	}
	for l := range st.reached {
		s.Reached = append(s.Reached, l)
	}
	sort.Strings(s.Reached)
	return s
}

func hasTok(t *Term, seen map[uint32]bool) bool {
	if t.op == OTok {
		return true
	}
	if seen[t.id] {
		return false
	}
	seen[t.id] = true
	for i := 0; i < int(t.n); i++ {
		if hasTok(t.a[i], seen) {
			return true
		}
	}
	return false
}

func (ex *Explorer) run(entries []string, nworkers int, solverBin string, qtimeout time.Duration, seed int) {
	for i := len(entries) - 1; i >= 0; i-- {
		ex.stack = append(ex.stack, item{entry: entries[i]})
	}
	var wg sync.WaitGroup
	for i := 0; i < nworkers; i++ {
		wg.Add(1)
		go ex.worker(i, newSolver(solverBin, qtimeout, seed), &wg)
	}
	wg.Wait()
}
