package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

var debug = os.Getenv("GOSYM_DEBUG") != ""

func debugf(f string, a ...any) {
	if debug {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

type syncMap[K comparable, V any] struct {
	mu sync.RWMutex
	m  map[K]V
}

func newSyncMap[K comparable, V any]() *syncMap[K, V] { return &syncMap[K, V]{m: map[K]V{}} }
func (s *syncMap[K, V]) get(k K) (V, bool) {
	s.mu.RLock()
	v, ok := s.m[k]
	s.mu.RUnlock()
	return v, ok
}
func (s *syncMap[K, V]) set(k K, v V) { s.mu.Lock(); s.m[k] = v; s.mu.Unlock() }

type fnInfo struct {
	idx map[ssa.Value]int
	n   int
	// model
	model modelFn
	init  bool
	name  string
	pure  map[*ssa.BasicBlock]bool
	quiet map[*ssa.BasicBlock]bool // pure, or changing nothing but scalar variables
}

type modelFn func(st *State, fn *ssa.Function, args []Value) Value

var fnInfos = newSyncMap[*ssa.Function, *fnInfo]()

func infoOf(fn *ssa.Function) *fnInfo {
	if fi, ok := fnInfos.get(fn); ok {
		return fi
	}
	fi := &fnInfo{idx: map[ssa.Value]int{}, pure: map[*ssa.BasicBlock]bool{}, quiet: map[*ssa.BasicBlock]bool{}}
	for _, p := range fn.Params {
		fi.idx[p] = fi.n
		fi.n++
	}
	for _, p := range fn.FreeVars {
		fi.idx[p] = fi.n
		fi.n++
	}
	for _, b := range fn.Blocks {
		fi.pure[b] = pureBlock(b, false)
		fi.quiet[b] = fi.pure[b] || pureBlock(b, true)
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				fi.idx[v] = fi.n
				fi.n++
			}
		}
	}
	fi.name = fn.String()
	if fn.Origin() != nil {
		fi.name = fn.Origin().String()
	}
	fi.model = models[fi.name]
	if fi.model == nil && fn.Name() == "init" && fn.Signature.Recv() == nil && fn.Parent() == nil && fn.Synthetic != "" {
		fi.init = true
	}
	fnInfos.set(fn, fi)
	return fi
}

// pureBlock says whether a block can be executed speculatively; with stores, only the scalar
// variables it assigns are changed, and the caller merges them (see mergeAt).
func pureBlock(b *ssa.BasicBlock, stores bool) bool {
	if len(b.Instrs) > 24 {
		return false
	}
	for i, in := range b.Instrs {
		if i == len(b.Instrs)-1 {
			switch in.(type) {
			case *ssa.Jump, *ssa.If:
				return true
			}
			return false
		}
		switch x := in.(type) {
		case *ssa.BinOp, *ssa.Convert, *ssa.ChangeType, *ssa.Extract, *ssa.Field, *ssa.Index, *ssa.IndexAddr, *ssa.FieldAddr, *ssa.DebugRef, *ssa.Lookup:
		case *ssa.UnOp:
			if x.Op == token.ARROW {
				return false
			}
		case *ssa.Store:
			if _, ok := scalarSort(x.Val.Type()); !ok || !stores {
				return false
			}
		case *ssa.Call:
			// len/cap and float helpers only
			switch f := x.Call.Value.(type) {
			case *ssa.Builtin:
				if f.Name() != "len" && f.Name() != "cap" && f.Name() != "min" && f.Name() != "max" {
					return false
				}
			case *ssa.Function:
				if f.Pkg == nil || f.Pkg.Pkg.Path() != "math" {
					return false
				}
			default:
				return false
			}
		default:
			return false
		}
	}
	return false
}

// ---------- per worker / per path state ----------

type decision struct {
	kind uint8 // 0 branch, 1 implied branch, 2 concretize, 3 decide, 4 assert
	b    int8
	v    uint64
}

type Worker struct {
	id       int
	P        *Program
	T        *TermTable
	sol      *Solver
	globals  map[*ssa.Global]*Obj
	initDone map[*ssa.Package]bool
	nobj     int
	zero64   *Term
	rtypes   map[string][]rtEntry
	consts   map[*ssa.Const]Value
	intPtrs  map[int]*Obj
	boot     *State
	strCache map[string][]*Term
}

type rtEntry struct {
	t types.Type
	o *Obj
}

type State struct {
	*Worker
	ex        *Explorer
	pc        []*Term
	known     map[uint32]bool
	model     *Model
	prefix    []decision
	pos       int
	decs      []decision
	shadow    map[*Obj]*Obj
	mshadow   map[*MapObj]*MapObj
	initMode  bool
	decideCtx bool
	steps     int
	depth     int
	spec      int
	specLog   []specWrite
	inputs    []*Input
	inNames   map[string]int
	fresh     int
	observes  []Observed
	reached   map[string]bool
	pools     map[lockKey]*poolState
	smaps     map[lockKey]*MapObj // content of each sync.Map
	race      *raceRec            // set while sym.Race runs
	locks     map[lockKey]int
	onces     map[lockKey]bool
	atomics   map[lockKey]Value
	entry     string
	pmodel    *pmodel
	varsSeen  []*Term
	pathStart time.Time
	modelObjs map[*Obj]any
	allocLim  *Term
	allocUsed *Term
	curFn     *ssa.Function
	curInstr  ssa.Instruction
	stack     []*Frame
	fnSeen    map[*ssa.Function]bool
	reduced   map[string]int
	fs        any
	extra     map[string]any

	deferTarget []deferRef
	undecided   map[uint32]int
}

type deferRef struct {
	fr    *Frame
	depth int
}

type Input struct {
	name string
	kind string // int kinds: u8.. ; bytes; bigbytes; choose
	ts   []*Term
	arr  string
	n    *Term
	cap  *Term
	val  uint64
}

type Observed struct {
	name string
	ts   []*Term
	s    string
}

type Frame struct {
	fn       *ssa.Function
	fi       *fnInfo
	env      []Value
	defers   []deferred
	result   Value
	panicked *goPanic
	recov    bool
	block    *ssa.BasicBlock
	prev     *ssa.BasicBlock
	caller   *Frame
	isDefer  *Frame // frame whose defers are being run
}

type deferred struct {
	fn   *Closure
	args []Value
	inv  func()
}

type goPanic struct {
	val    Value
	msg    string
	where  string
	goexit bool
}

type pathEnd struct {
	why  string // done, assume, bound, limit
	info string
}
type specAbort struct{}

func (st *State) c64(k uint64) *Term { return st.T.Const(64, k) }
func (st *State) ci(k int) *Term     { return st.T.Const(64, uint64(k)) }

func (st *State) where() string {
	for i := len(st.stack) - 1; i >= 0; i-- {
		fr := st.stack[i]
		if fr.block == nil {
			continue
		}
		var pos token.Pos
		if i == len(st.stack)-1 && st.curInstr != nil {
			pos = st.curInstr.Pos()
		}
		if pos == token.NoPos {
			pos = fr.fn.Pos()
		}
		p := st.P.prog.Fset.Position(pos)
		return fmt.Sprintf("%s (%s:%d)", fr.fn.String(), p.Filename, p.Line)
	}
	return "?"
}

func (st *State) trace() []string {
	var out []string
	for i := len(st.stack) - 1; i >= 0 && len(out) < 12; i-- {
		out = append(out, st.stack[i].fn.String())
	}
	return out
}

func (st *State) goPanic(msg string) {
	if st.spec > 0 {
		panic(specAbort{})
	}
	panic(&goPanic{val: Iface{t: st.P.runtimeErrType, v: Str{s: msg}}, msg: msg, where: st.where()})
}

func (st *State) konst(c *ssa.Const) Value {
	if v, ok := st.consts[c]; ok {
		return v
	}
	v := st.konst1(c)
	st.consts[c] = v
	return v
}

func (st *State) konst1(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return st.zero(t)
	}
	if s, ok := scalarSort(t); ok {
		switch {
		case s == SBool:
			return st.T.Bool(constant.BoolVal(c.Value))
		case s == SFP32:
			f, _ := constant.Float32Val(constant.ToFloat(c.Value))
			return st.T.Const(s, uint64(math.Float32bits(f)))
		case s == SFP64:
			f, _ := constant.Float64Val(constant.ToFloat(c.Value))
			return st.T.Const(s, math.Float64bits(f))
		}
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return st.T.Const(s, uint64(i))
		}
		u, _ := constant.Uint64Val(v)
		return st.T.Const(s, u)
	}
	if b, ok := under(t).(*types.Basic); ok {
		if b.Info()&types.IsString != 0 {
			return Str{s: constant.StringVal(c.Value)}
		}
		if b.Info()&types.IsComplex != 0 {
			re, _ := constant.Float64Val(constant.Real(c.Value))
			im, _ := constant.Float64Val(constant.Imag(c.Value))
			return Agg{st.T.fpk(SFP64, re), st.T.fpk(SFP64, im)}
		}
		if b.Kind() == types.UnsafePointer {
			return Ptr{}
		}
	}
	unsup("constant %s of type %s", c, t)
	return nil
}

func (st *State) globalObj(g *ssa.Global) *Obj {
	o, ok := st.globals[g]
	if !ok {
		et := g.Type().(*types.Pointer).Elem()
		st.nobj++
		o = &Obj{id: st.nobj, size: sizeof(et), label: g.String(), frozen: true}
		st.globals[g] = o
	}
	st.ensureInit(g.Pkg)
	return o
}

func (st *State) ensureInit(p *ssa.Package) {
	if p == nil || st.initDone[p] {
		return
	}
	st.initDone[p] = true
	st.Worker.runInit(p)
}

func (w *Worker) runInit(p *ssa.Package) {
	fn := p.Func("init")
	if fn == nil || fn.Blocks == nil {
		return
	}
	b := w.boot
	save := *b
	b.stack = nil
	b.depth = 0
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case unsupported:
					debugf("init of %s: unsupported: %s at %s", p.Pkg.Path(), x.msg, b.where())
				case *goPanic:
					debugf("init of %s: panic: %s at %s", p.Pkg.Path(), x.msg, x.where)
				case pathEnd:
					debugf("init of %s: ended %s", p.Pkg.Path(), x.why)
				default:
					panic(r)
				}
			}
		}()
		b.callFn(fn, nil, nil)
	}()
	b.stack = save.stack
	b.depth = save.depth
	b.steps = save.steps
}

func (fr *Frame) get(st *State, v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return st.konst(v)
	case *ssa.Global:
		return Ptr{st.globalObj(v), st.zero64}
	case *ssa.Function:
		return &Closure{fn: v}
	case *ssa.Builtin:
		return &Closure{bi: v}
	}
	return fr.env[fr.fi.idx[v]]
}

func (fr *Frame) term(st *State, v ssa.Value) *Term { return fr.get(st, v).(*Term) }

func (fr *Frame) set(v ssa.Value, x Value) { fr.env[fr.fi.idx[v]] = x }

func inModule(p *ssa.Package) bool {
	return p != nil && isModulePath(p.Pkg.Path())
}

func (st *State) callClosure(c *Closure, args []Value) Value {
	if c == nil {
		st.goPanic("runtime error: invalid memory address or nil pointer dereference (nil func)")
	}
	if c.bi != nil {
		unsup("builtin closure %s", c.bi.Name())
	}
	return st.callFn(c.fn, args, c.bind)
}

func (st *State) callFn(fn *ssa.Function, args []Value, bind []Value) Value {
	fi := infoOf(fn)
	if fi.model != nil {
		st.fnSeen[fn] = true
		return fi.model(st, fn, args)
	}
	if fi.init {
		// package initialiser called from another initialiser
		if len(st.stack) > 0 {
			if fn.Pkg != nil && !inModule(fn.Pkg) {
				return nil // lazily initialised
			}
			if st.initDone[fn.Pkg] {
				return nil
			}
			st.initDone[fn.Pkg] = true
		}
	}
	if fn.Blocks == nil {
		unsup("no body for %s", fi.name)
	}
	if st.spec > 0 {
		panic(specAbort{})
	}
	st.depth++
	if st.depth > 400 {
		panic(pathEnd{"limit", "call depth in " + fi.name})
	}
	st.fnSeen[fn] = true
	fr := &Frame{fn: fn, fi: fi, env: make([]Value, fi.n)}
	copy(fr.env, args)
	copy(fr.env[len(fn.Params):], bind)
	if len(args) != len(fn.Params) {
		panic(fmt.Sprintf("arg count %d vs %d for %s", len(args), len(fn.Params), fi.name))
	}
	st.stack = append(st.stack, fr)
	n := len(st.stack)
	st.runFrame(fr)
	st.stack = st.stack[:n-1]
	st.depth--
	return fr.result
}

// runFrame runs a frame to completion including defers and recovery.
func (st *State) runFrame(fr *Frame) {
	n := len(st.stack)
	d := st.depth
	p := st.runBlocks(fr, fr.fn.Blocks[0])
	if p == nil {
		return
	}
	// panicking
	st.stack = st.stack[:n]
	st.depth = d
	if len(fr.defers) == 0 {
		panic(p)
	}
	fr.panicked = p
	fr.recov = false
	st.runDefers(fr)
	if fr.recov {
		// recovered
		if fr.fn.Recover != nil {
			if p := st.runBlocks(fr, fr.fn.Recover); p != nil {
				panic(p)
			}
		} else {
			res := fr.fn.Signature.Results()
			switch res.Len() {
			case 0:
			case 1:
				fr.result = st.zero(res.At(0).Type())
			default:
				fr.result = st.zero(res)
			}
		}
		return
	}
	panic(fr.panicked)
}

func (st *State) runDefers(fr *Frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		n := len(st.stack)
		dd := st.depth
		p := func() (p *goPanic) {
			defer func() {
				if r := recover(); r != nil {
					if g, ok := r.(*goPanic); ok {
						p = g
						return
					}
					panic(r)
				}
			}()
			st.deferTarget = append(st.deferTarget, deferRef{fr, len(st.stack)})
			defer func() { st.deferTarget = st.deferTarget[:len(st.deferTarget)-1] }()
			if d.inv != nil {
				d.inv()
			} else {
				st.callClosure(d.fn, d.args)
			}
			return nil
		}()
		st.stack = st.stack[:n]
		st.depth = dd
		if p != nil {
			fr.panicked = p
			fr.recov = false
		}
	}
}

func (st *State) doRecover() Value {
	// recover returns non-nil only when called directly by the deferred function
	if len(st.deferTarget) == 0 {
		return Iface{}
	}
	dr := st.deferTarget[len(st.deferTarget)-1]
	if len(st.stack) != dr.depth+1 {
		return Iface{}
	}
	if dr.fr.panicked == nil || dr.fr.recov {
		return Iface{}
	}
	dr.fr.recov = true
	v := dr.fr.panicked.val
	dr.fr.panicked = nil
	return v
}

func (st *State) runBlocks(fr *Frame, b *ssa.BasicBlock) (pp *goPanic) {
	defer func() {
		if r := recover(); r != nil {
			if g, ok := r.(*goPanic); ok {
				pp = g
				return
			}
			panic(r)
		}
	}()
	fr.prev = nil
	fr.block = b
	for fr.block != nil {
		st.runBlock(fr)
	}
	return nil
}

func (st *State) runBlock(fr *Frame) {
	b := fr.block
	st.steps += len(b.Instrs)
	if st.steps > st.ex.maxSteps {
		panic(pathEnd{"limit", "instruction limit"})
	}
	// phis
	i := 0
	if fr.prev == nil {
		for i < len(b.Instrs) {
			if _, ok := b.Instrs[i].(*ssa.Phi); !ok {
				break
			}
			i++
		}
	}
	if fr.prev != nil {
		var vals [16]Value
		var phis []*ssa.Phi
		for ; i < len(b.Instrs); i++ {
			p, ok := b.Instrs[i].(*ssa.Phi)
			if !ok {
				break
			}
			phis = append(phis, p)
		}
		if len(phis) > 0 {
			pi := -1
			for k, x := range b.Preds {
				if x == fr.prev {
					pi = k
					break
				}
			}
			vs := vals[:0]
			for _, p := range phis {
				vs = append(vs, fr.get(st, p.Edges[pi]))
			}
			for k, p := range phis {
				fr.set(p, vs[k])
			}
		}
	}
	for ; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		st.curInstr = in
		switch x := in.(type) {
		case *ssa.Jump:
			fr.prev = b
			fr.block = b.Succs[0]
			return
		case *ssa.If:
			c := fr.term(st, x.Cond)
			if !c.isConst() && st.spec == 0 {
				if k, ok := st.known[c.id]; ok {
					c = st.T.Bool(k)
				} else if st.race == nil && st.ifConvert(fr, b, c) {
					return
				}
			}
			fr.prev = b
			if st.branch(c) {
				fr.block = b.Succs[0]
			} else {
				fr.block = b.Succs[1]
			}
			return
		case *ssa.Return:
			switch len(x.Results) {
			case 0:
			case 1:
				fr.result = fr.get(st, x.Results[0])
			default:
				t := make(Tuple, len(x.Results))
				for k, r := range x.Results {
					t[k] = fr.get(st, r)
				}
				fr.result = t
			}
			fr.block = nil
			return
		case *ssa.RunDefers:
			st.runDefers(fr)
			if fr.panicked != nil {
				p := fr.panicked
				panic(p)
			}
		case *ssa.Panic:
			v := fr.get(st, x.X)
			panic(&goPanic{val: v, msg: "panic: " + st.describe(v), where: st.where()})
		default:
			st.exec(fr, in)
		}
	}
	panic("block without terminator")
}

func (st *State) describe(v Value) string {
	switch x := v.(type) {
	case Iface:
		if x.t == nil {
			return "nil"
		}
		return fmt.Sprintf("%s(%s)", x.t, st.describe(x.v))
	case Str:
		return st.strConcrete(x)
	case *Term:
		return x.String()
	case Ptr:
		if x.obj != nil && x.off.isConst() && x.obj.size > 0 && x.obj.size <= 64 {
			if c := st.resolve(x.obj).get(int64(x.off.k)); c.n == 16 {
				return "&" + st.describe(c.v)
			}
		}
		return "ptr"
	}
	return fmt.Sprintf("%T", v)
}

// ---------- if-conversion ----------

// ifConvert merges small side-effect free branches into ite terms.
func (st *State) ifConvert(fr *Frame, b *ssa.BasicBlock, c *Term) bool {
	s0, s1 := b.Succs[0], b.Succs[1]
	if s0 == s1 {
		return false
	}
	p0 := len(s0.Preds) == 1 && fr.fi.pure[s0]
	p1 := len(s1.Preds) == 1 && fr.fi.pure[s1]
	j0 := len(s0.Preds) == 1 && fr.fi.quiet[s0] && isJump(s0)
	j1 := len(s1.Preds) == 1 && fr.fi.quiet[s1] && isJump(s1)
	switch {
	case j0 && j1 && s0.Succs[0] == s1.Succs[0]:
		return st.mergeAt(fr, b, c, s0.Succs[0], s0, s1)
	case j0 && s0.Succs[0] == s1:
		return st.mergeAt(fr, b, c, s1, s0, b)
	case j1 && s1.Succs[0] == s0:
		return st.mergeAt(fr, b, c, s0, b, s1)
	}
	// short-circuit: S pure ends in If, sharing a successor with b
	try := func(s, other *ssa.BasicBlock, pos bool) bool {
		iff, ok := s.Instrs[len(s.Instrs)-1].(*ssa.If)
		if !ok {
			return false
		}
		var shared int
		if s.Succs[0] == other {
			shared = 0
		} else if s.Succs[1] == other {
			shared = 1
		} else {
			return false
		}
		if s.Succs[0] == s.Succs[1] {
			return false
		}
		// phis in other must agree or be mergeable: require agreement
		bi, si := predIndex(other, b), predIndex(other, s)
		if bi < 0 || si < 0 {
			return false
		}
		var phis []*ssa.Phi
		for _, in := range other.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			phis = append(phis, p)
		}
		if !st.speculate(func() { st.execPure(fr, s) }) {
			return false
		}
		c2 := fr.term(st, iff.Cond)
		// condition to go to s's private successor
		priv := c2
		if shared == 0 {
			priv = st.T.Not(c2)
		}
		toS := c
		if !pos {
			toS = st.T.Not(c)
		}
		goPriv := st.T.And(toS, priv)
		// phi values at other: if toS (then came from s) else from b
		var vals []Value
		for _, p := range phis {
			v, ok := st.mergeVal(toS, fr.get(st, p.Edges[si]), fr.get(st, p.Edges[bi]))
			if !ok {
				return false
			}
			vals = append(vals, v)
		}
		if st.branch(goPriv) {
			fr.prev = s
			fr.block = s.Succs[1-shared]
			return true
		}
		for k, p := range phis {
			fr.set(p, vals[k])
		}
		st.enterSkippingPhis(fr, other, s)
		return true
	}
	if p0 && !j0 && try(s0, s1, true) {
		return true
	}
	if p1 && !j1 && try(s1, s0, false) {
		return true
	}
	return false
}

func isJump(b *ssa.BasicBlock) bool {
	_, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Jump)
	return ok
}

func predIndex(b, p *ssa.BasicBlock) int {
	for i, x := range b.Preds {
		if x == p {
			return i
		}
	}
	return -1
}

func (st *State) execPure(fr *Frame, b *ssa.BasicBlock) {
	for _, in := range b.Instrs[:len(b.Instrs)-1] {
		st.exec(fr, in)
	}
}

func (st *State) speculate(f func()) (ok bool) {
	st.spec++
	n, d := len(st.stack), st.depth
	cur := st.curInstr
	defer func() {
		st.spec--
		st.curInstr = cur
		if r := recover(); r != nil {
			switch r.(type) {
			case specAbort, unsupported:
				st.undoWrites()
				st.stack = st.stack[:n]
				st.depth = d
				ok = false
				return
			}
			panic(r)
		}
	}()
	f()
	return true
}

func (st *State) mergeVal(c *Term, a, b Value) (Value, bool) {
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok && x.sort == y.sort {
			return st.T.Ite(c, x, y), true
		}
	case Agg:
		y, ok := b.(Agg)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		r := make(Agg, len(x))
		for i := range x {
			v, ok := st.mergeVal(c, x[i], y[i])
			if !ok {
				return nil, false
			}
			r[i] = v
		}
		return r, true
	case Ptr:
		y, ok := b.(Ptr)
		if ok && x.obj == y.obj && x.off == y.off {
			return x, true
		}
	case Slice:
		y, ok := b.(Slice)
		if ok && x.obj == y.obj {
			return Slice{x.obj, st.T.Ite(c, x.off, y.off), st.T.Ite(c, x.len, y.len), st.T.Ite(c, x.cap, y.cap)}, true
		}
	case Str:
		y, ok := b.(Str)
		if ok && x.sym == nil && y.sym == nil && x.s == y.s {
			return x, true
		}
	case Iface:
		y, ok := b.(Iface)
		if ok && x.t == nil && y.t == nil {
			return x, true
		}
		if ok && x.t != nil && y.t != nil && types.Identical(x.t, y.t) {
			v, ok := st.mergeVal(c, x.v, y.v)
			if ok {
				return Iface{x.t, v}, true
			}
		}
	case *MapObj:
		if y, ok := b.(*MapObj); ok && x == y {
			return x, true
		}
	case *Closure:
		if y, ok := b.(*Closure); ok && x == y {
			return x, true
		}
	case nil:
		if b == nil {
			return nil, true
		}
	}
	return nil, false
}

// mergeAt: from b, condition c selects pred ta (true) or fa (false) of join block j.
func (st *State) mergeAt(fr *Frame, b *ssa.BasicBlock, c *Term, j, ta, fa *ssa.BasicBlock) bool {
	ti, fi := predIndex(j, ta), predIndex(j, fa)
	if ti < 0 || fi < 0 {
		return false
	}
	var tw, fw []specWrite
	if !st.speculate(func() {
		if ta != b {
			st.execPure(fr, ta)
		}
		tw = st.undoWrites()
		if fa != b {
			st.execPure(fr, fa)
		}
		fw = st.undoWrites()
	}) {
		return false
	}
	writes, ok := st.mergeWrites(c, tw, fw)
	if !ok {
		return false
	}
	var phis []*ssa.Phi
	var vals []Value
	for _, in := range j.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		v, ok := st.mergeVal(c, fr.get(st, p.Edges[ti]), fr.get(st, p.Edges[fi]))
		if !ok {
			return false
		}
		phis = append(phis, p)
		vals = append(vals, v)
	}
	for k, p := range phis {
		fr.set(p, vals[k])
	}
	for _, w := range writes {
		st.store(w.p, w.t, w.val)
	}
	st.enterSkippingPhis(fr, j, ta)
	return true
}

// specWrite is a variable assigned during speculation.
type specWrite struct {
	p        Ptr
	t        types.Type
	old, val Value
}

// specStore assigns a variable during speculation.
func (st *State) specStore(p Ptr, t types.Type, v Value) {
	if p.obj == nil || !p.off.isConst() {
		panic(specAbort{})
	}
	old := st.load(p, t)
	if _, ok := old.(*Term); !ok {
		panic(specAbort{})
	}
	st.specLog = append(st.specLog, specWrite{p: p, t: t, old: old})
	st.store(p, t, v)
}

// undoWrites takes back what was assigned since speculation began and returns the variables with
// their values before and after.
func (st *State) undoWrites() []specWrite {
	var r []specWrite
	for _, w := range st.specLog {
		dup := false
		for _, x := range r {
			if x.p.obj == w.p.obj && x.p.off == w.p.off {
				dup = true
			}
		}
		if !dup {
			r = append(r, w)
		}
	}
	for i := range r {
		r[i].val = st.load(r[i].p, r[i].t)
	}
	for i := len(st.specLog) - 1; i >= 0; i-- {
		w := st.specLog[i]
		st.store(w.p, w.t, w.old)
	}
	st.specLog = st.specLog[:0]
	return r
}

// mergeWrites combines the assignments of both branches.
func (st *State) mergeWrites(c *Term, tw, fw []specWrite) ([]specWrite, bool) {
	if len(tw)+len(fw) == 0 {
		return nil, true
	}
	overlap := func(a, b specWrite) bool {
		return a.p.obj == b.p.obj && int64(a.p.off.k) < int64(b.p.off.k)+sizeof(b.t) && int64(b.p.off.k) < int64(a.p.off.k)+sizeof(a.t)
	}
	var r []specWrite
	add := func(w specWrite, tv, fv Value) bool {
		for _, x := range r {
			if overlap(x, w) {
				return false
			}
		}
		v, ok := st.mergeVal(c, tv, fv)
		r = append(r, specWrite{w.p, w.t, w.old, v})
		return ok
	}
	for _, w := range tw {
		fv := w.old
		for _, x := range fw {
			if x.p.obj == w.p.obj && x.p.off == w.p.off && types.Identical(x.t, w.t) {
				fv = x.val
			}
		}
		if !add(w, w.val, fv) {
			return nil, false
		}
	}
next:
	for _, w := range fw {
		for _, x := range tw {
			if x.p.obj == w.p.obj && x.p.off == w.p.off && types.Identical(x.t, w.t) {
				continue next
			}
		}
		if !add(w, w.old, w.val) {
			return nil, false
		}
	}
	return r, true
}

// enterSkippingPhis continues execution at block j with phi values already set.
func (st *State) enterSkippingPhis(fr *Frame, j, prev *ssa.BasicBlock) {
	fr.block = j
	fr.prev = nil // phis are skipped when prev is nil
	// runBlock executes phis only if prev != nil; with prev nil the Phi instructions must be skipped
}

// ---------- decisions ----------

func (st *State) assumeTerm(c *Term) {
	if c.isTrue() {
		return
	}
	if c.op == OAnd {
		st.assumeTerm(c.a[0])
		st.assumeTerm(c.a[1])
		return
	}
	if _, ok := st.known[c.id]; ok {
		return
	}
	st.pc = append(st.pc, c)
	st.known[c.id] = true
	if c.op == ONot {
		st.known[c.a[0].id] = false
	} else {
		st.known[st.T.Not(c).id] = false
	}
}

func (st *State) query(c *Term, m *Model) SatResult {
	if c.isFalse() {
		return Unsat
	}
	cs := append(sliceConj(st.pc, c), c)
	cs = append(cs, st.lemmas(cs)...)
	return st.sol.check(cs, m)
}

func (st *State) knownVal(c *Term) (bool, bool) {
	if c.isConst() {
		return c.k == 1, true
	}
	if v, ok := st.known[c.id]; ok {
		return v, true
	}
	if c.op == OAnd {
		a, ok1 := st.knownVal(c.a[0])
		b, ok2 := st.knownVal(c.a[1])
		if ok1 && !a || ok2 && !b {
			return false, true
		}
		if ok1 && ok2 {
			return true, true
		}
	}
	if c.op == ONot {
		if v, ok := st.knownVal(c.a[0]); ok {
			return !v, true
		}
	}
	return false, false
}

func (st *State) branch(c *Term) bool {
	if v, ok := st.knownVal(c); ok {
		return v
	}
	if st.spec > 0 {
		panic(specAbort{})
	}
	if st.initMode {
		unsup("symbolic branch during initialisation")
	}
	if st.pos < len(st.prefix) {
		d := st.prefix[st.pos]
		st.pos++
		if d.kind > 1 {
			panic(fmt.Sprintf("engine: nondeterministic replay: decision kind %d at %s", d.kind, st.where()))
		}
		st.decs = append(st.decs, d)
		if d.kind == 0 {
			if d.b == 1 {
				st.assumeTerm(c)
			} else {
				st.assumeTerm(st.T.Not(c))
			}
		} else {
			st.setKnown(c, d.b == 1)
		}
		st.endPrefix()
		return d.b == 1
	}
	v := st.model.eval(c) != 0
	other := c
	if v {
		other = st.T.Not(c)
	}
	m := st.model.clone()
	switch st.query(other, m) {
	case Sat:
		ob := int8(0)
		if !v {
			ob = 1
		}
		st.ex.push(st, decision{0, ob, 0}, m)
		b := 1 - ob
		st.decs = append(st.decs, decision{0, b, 0})
		if v {
			st.assumeTerm(c)
		} else {
			st.assumeTerm(st.T.Not(c))
		}
	case Unknown:
		st.note("solver gave no answer for a branch (other side not explored) at " + st.where())
		st.decs = append(st.decs, decision{0, int8(b2u(v)), 0})
		if v {
			st.assumeTerm(c)
		} else {
			st.assumeTerm(st.T.Not(c))
		}
	case Unsat:
		st.decs = append(st.decs, decision{1, int8(b2u(v)), 0})
		st.setKnown(c, v)
	}
	return v
}

func (st *State) setKnown(c *Term, v bool) {
	if v && c.op == OAnd {
		st.setKnown(c.a[0], true)
		st.setKnown(c.a[1], true)
	}
	if !v && c.op == ONot && c.a[0].op == OAnd {
		st.setKnown(c.a[0], true)
	}
	st.known[c.id] = v
	st.known[st.T.Not(c).id] = !v
}

func (st *State) endPrefix() {
	if st.pos == len(st.prefix) && st.ex != nil {
		if st.ex.onPrefixEnd != nil {
			st.ex.onPrefixEnd(st)
		}
	}
}

// decide tells whether the path condition implies c (1), implies not c (0) or neither (-1).
func (st *State) decide(c *Term) int {
	if v, ok := st.knownVal(c); ok {
		return int(b2u(v))
	}
	if st.initMode {
		return -1
	}
	if d, ok := st.undecided[c.id]; ok && d == len(st.pc) {
		return -1
	}
	if st.pos < len(st.prefix) {
		d := st.prefix[st.pos]
		st.pos++
		if d.kind != 3 {
			panic(fmt.Sprintf("engine: nondeterministic replay: decision kind %d (decide) at %s", d.kind, st.where()))
		}
		st.decs = append(st.decs, d)
		if d.b >= 0 {
			st.setKnown(c, d.b == 1)
		} else {
			st.undecided[c.id] = len(st.pc)
		}
		st.endPrefix()
		return int(d.b)
	}
	v := st.model.eval(c) != 0
	q := c
	if v {
		q = st.T.Not(c)
	}
	r := int8(-1)
	if st.query(q, nil) == Unsat {
		r = int8(b2u(v))
		st.setKnown(c, v)
	} else {
		st.undecided[c.id] = len(st.pc)
	}
	st.decs = append(st.decs, decision{3, r, 0})
	return int(r)
}

// concretize forks over the possible values of t (up to a limit) and returns a constant.
func (st *State) concretize(t *Term, why string) uint64 {
	if t.isConst() {
		return t.k
	}
	if st.spec > 0 {
		panic(specAbort{})
	}
	if t.sort == SBool {
		return b2u(st.branch(t))
	}
	if t.sort.isFP() {
		unsup("concretising a float (%s)", why)
	}
	for n := 0; ; n++ {
		var v uint64
		if st.pos < len(st.prefix) {
			d := st.prefix[st.pos]
			st.pos++
			if d.kind != 2 {
				panic(fmt.Sprintf("engine: nondeterministic replay: decision kind %d (concretize) at %s", d.kind, st.where()))
			}
			st.decs = append(st.decs, d)
			v = d.v
			e := st.T.Eq(t, st.T.Const(t.sort, v))
			if d.b == 1 {
				st.assumeTerm(e)
				st.endPrefix()
				return v
			}
			st.assumeTerm(st.T.Not(e))
			st.endPrefix()
			continue
		}
		if n > st.ex.maxConc {
			panic(pathEnd{"bound", "more than " + fmt.Sprint(n) + " values for " + why})
		}
		v = st.model.eval(t)
		e := st.T.Eq(t, st.T.Const(t.sort, v))
		m := st.model.clone()
		switch st.query(st.T.Not(e), m) {
		case Sat:
			st.ex.push(st, decision{2, 0, v}, m)
			st.decs = append(st.decs, decision{2, 1, v})
			st.assumeTerm(e)
		case Unsat:
			st.decs = append(st.decs, decision{2, 1, v})
			st.assumeTerm(e)
		default:
			st.note("solver gave no answer while enumerating " + why)
			st.decs = append(st.decs, decision{2, 1, v})
			st.assumeTerm(e)
		}
		return v
	}
}

func (st *State) assume(c *Term) {
	if v, ok := st.knownVal(c); ok {
		if !v {
			panic(pathEnd{"assume", ""})
		}
		return
	}
	if st.pos < len(st.prefix) {
		st.assumeTerm(c)
		return
	}
	if st.model.eval(c) == 0 {
		m := st.model.clone()
		switch st.query(c, m) {
		case Sat:
			st.model = m
		case Unsat:
			panic(pathEnd{"assume", ""})
		default:
			st.note("solver gave no answer for an assumption at " + st.where())
			panic(pathEnd{"bound", "assumption undecided"})
		}
	}
	st.assumeTerm(c)
}

func (st *State) note(s string) { st.reduced[s]++ }

func (st *State) assert(c *Term, label string) {
	if v, ok := st.knownVal(c); ok && v {
		st.ex.countAssert(st, label, true)
		return
	}
	if st.spec > 0 {
		panic(specAbort{})
	}
	if st.pos < len(st.prefix) {
		d := st.prefix[st.pos]
		st.pos++
		if d.kind != 4 {
			panic(fmt.Sprintf("engine: nondeterministic replay: decision kind %d (assert) at %s", d.kind, st.where()))
		}
		st.decs = append(st.decs, d)
		if d.b == 1 {
			st.setKnown(c, true)
		} else {
			st.assumeTerm(c)
		}
		st.endPrefix()
		return
	}
	m := st.model.clone()
	r := st.query(st.T.Not(c), m)
	switch r {
	case Unsat:
		st.ex.countAssert(st, label, false)
		st.setKnown(c, true)
		st.decs = append(st.decs, decision{4, 1, 0})
		return
	case Sat:
		st.ex.violation(st, "assert", label, m)
	default:
		st.note("solver gave no answer for assertion " + label)
	}
	// continue under the assumption that it holds
	if c.isFalse() {
		panic(pathEnd{"violated", label})
	}
	if st.model.eval(c) == 0 {
		m := st.model.clone()
		if st.query(c, m) != Sat {
			panic(pathEnd{"violated", label})
		}
		st.model = m
	}
	st.decs = append(st.decs, decision{4, 0, 0})
	st.assumeTerm(c)
}
