package main

import (
	"bufio"
	"fmt"
	"io"
	"math"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

// ---------- evaluation under a model ----------

type Model struct {
	v   map[uint32]uint64            // var / ToBits / Tok term id -> value
	arr map[string]map[uint64]uint64 // array contents
}

func newModel() *Model { return &Model{v: map[uint32]uint64{}, arr: map[string]map[uint64]uint64{}} }
func (m *Model) clone() *Model {
	n := newModel()
	for k, v := range m.v {
		n.v[k] = v
	}
	for a, mm := range m.arr {
		x := make(map[uint64]uint64, len(mm))
		for k, v := range mm {
			x[k] = v
		}
		n.arr[a] = x
	}
	return n
}

type evaluator struct {
	m    *Model
	memo map[uint32]uint64
	pow  bool // set when an uninterpreted function was evaluated
}

func (m *Model) eval(t *Term) uint64 {
	e := &evaluator{m: m, memo: map[uint32]uint64{}}
	return e.ev(t)
}

func (e *evaluator) ev(t *Term) uint64 {
	if t.op == OConst {
		return t.k
	}
	if t.op == OVar {
		return e.m.v[t.id]
	}
	if v, ok := e.memo[t.id]; ok {
		return v
	}
	v := e.ev1(t)
	if t.sort.isBV() {
		v &= mask(t.sort)
	}
	e.memo[t.id] = v
	return v
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func sx(v uint64, s Sort) int64 {
	w := uint(s.bits())
	return int64(v<<(64-w)) >> (64 - w)
}

func (e *evaluator) ev1(t *Term) uint64 {
	switch t.op {
	case OIte:
		if e.ev(t.a[0]) != 0 {
			return e.ev(t.a[1])
		}
		return e.ev(t.a[2])
	case OAnd:
		if e.ev(t.a[0]) == 0 {
			return 0
		}
		return e.ev(t.a[1])
	}
	var x, y uint64
	var s Sort
	if t.n > 0 {
		x = e.ev(t.a[0])
		s = t.a[0].sort
	}
	if t.n > 1 {
		y = e.ev(t.a[1])
	}
	switch t.op {
	case ONot:
		return 1 - x
	case OOr:
		return x | y
	case OEq:
		if s.isFP() {
			fx, fy := fpConst(s, x), fpConst(s, y)
			if fx != fx && fy != fy {
				return 1
			}
			return b2u(x == y)
		}
		return b2u(x == y)
	case OAdd:
		return x + y
	case OMul:
		return x * y
	case OUDiv:
		if y == 0 {
			return mask(s)
		}
		return x / y
	case OURem:
		if y == 0 {
			return x
		}
		return x % y
	case OSDiv:
		a, b := sx(x, s), sx(y, s)
		if b == 0 {
			if a >= 0 {
				return ^uint64(0)
			}
			return 1
		}
		if b == -1 {
			return uint64(-a)
		}
		return uint64(a / b)
	case OSRem:
		a, b := sx(x, s), sx(y, s)
		if b == 0 {
			return x
		}
		if b == -1 {
			return 0
		}
		return uint64(a % b)
	case OShl:
		if y >= uint64(s) {
			return 0
		}
		return x << y
	case OLShr:
		if y >= uint64(s) {
			return 0
		}
		return x >> y
	case OAShr:
		if y >= uint64(s) {
			y = uint64(s) - 1
		}
		return uint64(sx(x, s) >> y)
	case OBAnd:
		return x & y
	case OBOr:
		return x | y
	case OBXor:
		return x ^ y
	case OBNot:
		return ^x
	case OUlt:
		return b2u(x < y)
	case OUle:
		return b2u(x <= y)
	case OSlt:
		return b2u(sx(x, s) < sx(y, s))
	case OSle:
		return b2u(sx(x, s) <= sx(y, s))
	case OExtract:
		return x >> (t.k & 0xff)
	case OConcat:
		return x<<t.a[1].sort | y
	case OZExt:
		return x
	case OSExt:
		return uint64(sx(x, s))
	case OSelect:
		return e.m.arr[t.name][x]
	case OTok:
		if v, ok := e.m.v[t.id]; ok {
			return v
		}
		return '1'
	case OFromBits:
		return x
	case OToBits:
		f := fpConst(t.a[0].sort, x)
		if f != f {
			if v, ok := e.m.v[t.id]; ok {
				return v
			}
		}
		return x
	case OFAdd, OFSub, OFMul, OFDiv:
		return evalFBin(t.op, s, x, y)
	case OFNeg:
		return x ^ (1 << (bvOf(s) - 1))
	case OFAbs:
		return x &^ (1 << (bvOf(s) - 1))
	case OFSqrt:
		return fbits(s, math.Sqrt(fpConst(s, x)))
	case OFRound:
		return fbits(s, evalRound(t.k, fpConst(s, x)))
	case OFLt:
		return b2u(fpConst(s, x) < fpConst(s, y))
	case OFLe:
		return b2u(fpConst(s, x) <= fpConst(s, y))
	case OFEq:
		return b2u(fpConst(s, x) == fpConst(s, y))
	case OFIsNaN:
		return b2u(math.IsNaN(fpConst(s, x)))
	case OFIsInf:
		return b2u(math.IsInf(fpConst(s, x), 0))
	case OFConv:
		return fbits(t.sort, fpConst(s, x))
	case OSToF:
		if t.sort == SFP32 {
			return uint64(math.Float32bits(float32(sx(x, s))))
		}
		return math.Float64bits(float64(sx(x, s)))
	case OUToF:
		if t.sort == SFP32 {
			return uint64(math.Float32bits(float32(x)))
		}
		return math.Float64bits(float64(x))
	case OFToS:
		f := fpConst(s, x)
		if f != f || f >= 9223372036854775808.0 || f < -9223372036854775808.0 {
			return 1 << 63
		}
		return uint64(int64(f))
	case OUF:
		e.pow = true
		if v, ok := e.m.v[t.id]; ok {
			return v
		}
		if t.name == "pow" {
			return math.Float64bits(math.Pow(fpConst(s, x), fpConst(s, y)))
		}
		return 0
	}
	panic(fmt.Sprintf("eval op %d", t.op))
}

func fbits(s Sort, f float64) uint64 {
	if s == SFP32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}

// ---------- emission ----------

func sortStr(s Sort) string {
	switch s {
	case SBool:
		return "Bool"
	case SFP32:
		return "(_ FloatingPoint 8 24)"
	case SFP64:
		return "(_ FloatingPoint 11 53)"
	}
	return "(_ BitVec " + strconv.Itoa(int(s)) + ")"
}

func toFP(s Sort) string {
	if s == SFP32 {
		return "(_ to_fp 8 24)"
	}
	return "(_ to_fp 11 53)"
}

type emitter struct {
	sb    strings.Builder
	done  map[uint32]string
	gets  []getReq
	side  []string
	fp    bool
	arrs  map[string]bool
	ufs   map[string]bool
	nexpr int
}
type getReq struct {
	t    *Term
	expr string // value expression
	idx  string // for selects: index expression
}

func bvLit(s Sort, k uint64) string {
	if s%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(s)/4, k)
	}
	return fmt.Sprintf("#b%0*b", int(s), k)
}

func (e *emitter) ref(t *Term) string {
	if r, ok := e.done[t.id]; ok {
		return r
	}
	var r string
	switch t.op {
	case OConst:
		switch {
		case t.sort == SBool:
			r = "false"
			if t.k == 1 {
				r = "true"
			}
		case t.sort.isFP():
			e.fp = true
			r = "(" + toFP(t.sort) + " " + bvLit(bvOf(t.sort), t.k) + ")"
		default:
			r = bvLit(t.sort, t.k)
		}
		e.done[t.id] = r
		return r
	case OVar:
		r = fmt.Sprintf("v%d", t.id)
		fmt.Fprintf(&e.sb, "(declare-const %s %s)\n", r, sortStr(t.sort))
		e.done[t.id] = r
		e.gets = append(e.gets, getReq{t: t, expr: r})
		return r
	case OTok:
		r = fmt.Sprintf("k%d", t.id)
		fmt.Fprintf(&e.sb, "(declare-const %s (_ BitVec 8))\n", r)
		var ors []string
		for c := 0; c < 256; c++ {
			if numTok[c] {
				ors = append(ors, fmt.Sprintf("(= %s #x%02x)", r, c))
			}
		}
		e.side = append(e.side, "(or "+strings.Join(ors, " ")+")")
		e.done[t.id] = r
		return r
	}
	var a [3]string
	for i := 0; i < int(t.n); i++ {
		a[i] = e.ref(t.a[i])
	}
	var ex string
	fp := t.sort.isFP() || (t.n > 0 && t.a[0].sort.isFP())
	if fp {
		e.fp = true
	}
	negArg := func(x *Term) (string, bool) {
		if x.op == OMul {
			if x.a[0].isConst() && x.a[0].k == maskOf(x.sort) {
				return e.ref(x.a[1]), true
			}
			if x.a[1].isConst() && x.a[1].k == maskOf(x.sort) {
				return e.ref(x.a[0]), true
			}
		}
		return "", false
	}
	switch t.op {
	case OMul:
		if r, ok := negArg(t); ok {
			ex = "(bvneg " + r + ")"
		} else {
			ex = "(bvmul " + a[0] + " " + a[1] + ")"
		}
	case OAdd:
		if r, ok := negArg(t.a[1]); ok {
			ex = "(bvsub " + a[0] + " " + r + ")"
		} else if r, ok := negArg(t.a[0]); ok {
			ex = "(bvsub " + a[1] + " " + r + ")"
		} else {
			ex = "(bvadd " + a[0] + " " + a[1] + ")"
		}
	case ONot:
		ex = "(not " + a[0] + ")"
	case OEq:
		ex = "(= " + a[0] + " " + a[1] + ")"
	case OAnd, OOr, OUDiv, OSDiv, OURem, OSRem, OShl, OLShr, OAShr, OBAnd, OBOr, OBXor, OUlt, OUle, OSlt, OSle, OConcat:
		ex = "(" + opNames[t.op] + " " + a[0] + " " + a[1] + ")"
	case OIte:
		ex = "(ite " + a[0] + " " + a[1] + " " + a[2] + ")"
	case OBNot:
		ex = "(bvnot " + a[0] + ")"
	case OExtract:
		ex = fmt.Sprintf("((_ extract %d %d) %s)", t.k>>8, t.k&0xff, a[0])
	case OZExt:
		ex = fmt.Sprintf("((_ zero_extend %d) %s)", t.sort-t.a[0].sort, a[0])
	case OSExt:
		ex = fmt.Sprintf("((_ sign_extend %d) %s)", t.sort-t.a[0].sort, a[0])
	case OSelect:
		an := "a_" + sanitizeName(t.name)
		if !e.arrs[an] {
			e.arrs[an] = true
			fmt.Fprintf(&e.sb, "(declare-fun %s ((_ BitVec 64)) (_ BitVec 8))\n", an)
		}
		ex = "(" + an + " " + a[0] + ")"
	case OFromBits:
		ex = "(" + toFP(t.sort) + " " + a[0] + ")"
	case OToBits:
		r = fmt.Sprintf("b%d", t.id)
		fmt.Fprintf(&e.sb, "(declare-const %s %s)\n", r, sortStr(t.sort))
		e.side = append(e.side, fmt.Sprintf("(= (%s %s) %s)", toFP(t.a[0].sort), r, a[0]))
		e.done[t.id] = r
		e.gets = append(e.gets, getReq{t: t, expr: r})
		return r
	case OFAdd, OFSub, OFMul, OFDiv:
		n := map[Op]string{OFAdd: "fp.add", OFSub: "fp.sub", OFMul: "fp.mul", OFDiv: "fp.div"}[t.op]
		ex = "(" + n + " RNE " + a[0] + " " + a[1] + ")"
	case OFNeg:
		ex = "(fp.neg " + a[0] + ")"
	case OFAbs:
		ex = "(fp.abs " + a[0] + ")"
	case OFSqrt:
		ex = "(fp.sqrt RNE " + a[0] + ")"
	case OFRound:
		ex = "(fp.roundToIntegral " + []string{"RNE", "RNA", "RTZ", "RTP", "RTN"}[t.k] + " " + a[0] + ")"
	case OFLt:
		ex = "(fp.lt " + a[0] + " " + a[1] + ")"
	case OFLe:
		ex = "(fp.leq " + a[0] + " " + a[1] + ")"
	case OFEq:
		ex = "(fp.eq " + a[0] + " " + a[1] + ")"
	case OFIsNaN:
		ex = "(fp.isNaN " + a[0] + ")"
	case OFIsInf:
		ex = "(fp.isInfinite " + a[0] + ")"
	case OFConv:
		ex = "(" + toFP(t.sort) + " RNE " + a[0] + ")"
	case OSToF:
		ex = "(" + toFP(t.sort) + " RNE " + a[0] + ")"
	case OUToF:
		u := "(_ to_fp_unsigned 8 24)"
		if t.sort == SFP64 {
			u = "(_ to_fp_unsigned 11 53)"
		}
		ex = "(" + u + " RNE " + a[0] + ")"
	case OFToS:
		ex = fmt.Sprintf("((_ fp.to_sbv %d) RTZ %s)", t.sort, a[0])
	case OUF:
		an := fmt.Sprintf("u_%s_%d", sanitizeName(t.name), t.n)
		if !e.ufs[an] {
			e.ufs[an] = true
			var ss []string
			for i := 0; i < int(t.n); i++ {
				ss = append(ss, sortStr(t.a[i].sort))
			}
			fmt.Fprintf(&e.sb, "(declare-fun %s (%s) %s)\n", an, strings.Join(ss, " "), sortStr(t.sort))
		}
		ex = "(" + an
		for i := 0; i < int(t.n); i++ {
			ex += " " + a[i]
		}
		ex += ")"
	default:
		panic(fmt.Sprintf("emit op %d", t.op))
	}
	r = fmt.Sprintf("t%d", t.id)
	fmt.Fprintf(&e.sb, "(define-fun %s () %s %s)\n", r, sortStr(t.sort), ex)
	e.done[t.id] = r
	if t.op == OSelect {
		e.gets = append(e.gets, getReq{t: t, expr: r, idx: a[0]})
	}
	if t.op == OUF {
		e.gets = append(e.gets, getReq{t: t, expr: r})
	}
	return r
}

func maskOf(s Sort) uint64 {
	if s >= 64 {
		return ^uint64(0)
	}
	return 1<<uint(s) - 1
}

func sanitizeName(s string) string {
	var b strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' {
			b.WriteRune(c)
		} else {
			fmt.Fprintf(&b, "_%x", c)
		}
	}
	return b.String()
}

// ---------- solver process ----------

type SatResult int

const (
	Unsat SatResult = iota
	Sat
	Unknown
)

type Solver struct {
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	bin     string
	queries int
	nsat    int
	nunsat  int
	nunk    int
	time    time.Duration
	slowest time.Duration
	slowQ   string
	timeout time.Duration
	seed    int
	cnt     int
	alt     *Solver // asked when this one gives no answer
}

func newSolver(bin string, timeout time.Duration, seed int) *Solver {
	s := &Solver{bin: bin, timeout: timeout, seed: seed}
	other := "/usr/bin/z3"
	if bin == other {
		other = "/usr/local/bin/z3-new"
	}
	if _, err := os.Stat(other); err == nil {
		s.alt = &Solver{bin: other, timeout: timeout, seed: seed}
	}
	return s
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.bin, "-in", "-smt2")
	var err error
	if s.in, err = s.cmd.StdinPipe(); err != nil {
		return err
	}
	o, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.out = bufio.NewReaderSize(o, 1<<16)
	return s.cmd.Start()
}

func (s *Solver) close() {
	if s.alt != nil {
		s.alt.close()
	}
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// check decides the conjunction of cs. On Sat it fills model m (only variables occurring in cs).
func (s *Solver) check(cs []*Term, m *Model) SatResult {
	if s.alt == nil {
		return s.checkT(cs, m, s.timeout)
	}
	r := s.checkT(cs, m, s.timeout/2)
	if r != Unknown {
		return r
	}
	// a second opinion from the other solver
	a := s.alt
	q, t := a.queries, a.time
	r = a.checkT(cs, m, s.timeout/2)
	s.queries += a.queries - q
	s.time += a.time - t
	if r != Unknown {
		s.nunk--
		if r == Sat {
			s.nsat++
		} else {
			s.nunsat++
		}
	}
	return r
}

func (s *Solver) checkT(cs []*Term, m *Model, timeout time.Duration) SatResult {
	e := &emitter{done: map[uint32]string{}, arrs: map[string]bool{}, ufs: map[string]bool{}}
	var asserts strings.Builder
	for _, c := range cs {
		r := e.ref(c)
		fmt.Fprintf(&asserts, "(assert %s)\n", r)
	}
	for _, sd := range e.side {
		fmt.Fprintf(&asserts, "(assert %s)\n", sd)
	}
	var q strings.Builder
	q.WriteString("(reset)\n(set-option :print-success false)\n(set-option :timeout " + strconv.Itoa(int(timeout.Milliseconds())) + ")\n")
	q.WriteString(e.sb.String())
	q.WriteString(asserts.String())
	q.WriteString("(check-sat)\n(echo \"eoq\")\n")
	s.queries++
	s.cnt++
	if s.cnt > 4000 {
		s.close()
		s.cnt = 0
	}
	if s.cmd == nil {
		if err := s.start(); err != nil {
			return Unknown
		}
	}
	t0 := time.Now()
	res, ok := s.roundtrip(q.String(), timeout)
	d := time.Since(t0)
	s.time += d
	if dir := os.Getenv("GOSYM_SLOWDIR"); dir != "" && d > time.Second {
		os.WriteFile(fmt.Sprintf("%s/q%d.smt2", dir, time.Now().UnixNano()), []byte(q.String()), 0o644)
	}
	if d > s.slowest {
		s.slowest = d
		s.slowQ = q.String()
	}
	if !ok || len(res) == 0 {
		s.close()
		s.nunk++
		return Unknown
	}
	for _, l := range res {
		if strings.HasPrefix(l, "(error") {
			debugf("solver error: %s\n%s", l, q.String())
			s.nunk++
			return Unknown
		}
	}
	switch res[0] {
	case "unsat":
		s.nunsat++
		return Unsat
	case "sat":
		s.nsat++
	default:
		s.nunk++
		return Unknown
	}
	if m != nil && len(e.gets) > 0 {
		var g strings.Builder
		g.WriteString("(get-value (")
		for _, x := range e.gets {
			if x.t.sort.isFP() {
				// cannot happen for Var (vars are BV/Bool); UF values are fetched natively
				continue
			}
			g.WriteString(x.expr + " ")
			if x.idx != "" {
				g.WriteString(x.idx + " ")
			}
		}
		g.WriteString("))\n(echo \"eoq\")\n")
		res, ok := s.roundtrip(g.String(), timeout)
		if !ok {
			s.close()
			return Unknown
		}
		vals := parseValues(strings.Join(res, " "))
		i := 0
		for _, x := range e.gets {
			if x.t.sort.isFP() {
				continue
			}
			if i >= len(vals) {
				return Unknown
			}
			v := vals[i]
			i++
			if x.idx != "" {
				if i >= len(vals) {
					return Unknown
				}
				iv := vals[i]
				i++
				if m.arr[x.t.name] == nil {
					m.arr[x.t.name] = map[uint64]uint64{}
				}
				m.arr[x.t.name][iv] = v
			} else {
				m.v[x.t.id] = v
			}
		}
	}
	return Sat
}

func (s *Solver) roundtrip(q string, timeout time.Duration) ([]string, bool) {
	type resp struct {
		l  []string
		ok bool
	}
	ch := make(chan resp, 1)
	out := s.out
	in := s.in
	go func() {
		if _, err := io.WriteString(in, q); err != nil {
			ch <- resp{nil, false}
			return
		}
		var ls []string
		for {
			l, err := out.ReadString('\n')
			if err != nil {
				ch <- resp{ls, false}
				return
			}
			l = strings.TrimSpace(l)
			if l == "eoq" || l == "\"eoq\"" {
				ch <- resp{ls, true}
				return
			}
			if l != "" {
				ls = append(ls, l)
			}
		}
	}()
	select {
	case r := <-ch:
		return r.l, r.ok
	case <-time.After(timeout + 10*time.Second):
		s.cmd.Process.Kill()
		<-ch
		return nil, false
	}
}

// parseValues extracts the value of every (expr value) pair of a get-value answer.
func parseValues(s string) []uint64 {
	var out []uint64
	// tokens
	depth := 0
	i := 0
	n := len(s)
	lastAtom := ""
	for i < n {
		c := s[i]
		switch {
		case c == '(':
			depth++
			i++
		case c == ')':
			if depth == 2 {
				out = append(out, parseLit(lastAtom))
			}
			depth--
			i++
		case c == ' ' || c == '\t' || c == '\n':
			i++
		default:
			j := i
			for j < n && s[j] != ' ' && s[j] != ')' && s[j] != '(' && s[j] != '\n' {
				j++
			}
			lastAtom = s[i:j]
			i = j
		}
	}
	return out
}

func parseLit(s string) uint64 {
	switch {
	case s == "true":
		return 1
	case s == "false":
		return 0
	case strings.HasPrefix(s, "#x"):
		v, _ := strconv.ParseUint(s[2:], 16, 64)
		return v
	case strings.HasPrefix(s, "#b"):
		v, _ := strconv.ParseUint(s[2:], 2, 64)
		return v
	}
	v, _ := strconv.ParseUint(s, 10, 64)
	return v
}

// slice returns the conjuncts of pc connected to the variables of q.
func sliceConj(pc []*Term, q *Term) []*Term {
	vars := map[uint32]bool{}
	for _, v := range q.vs.ids {
		vars[v] = true
	}
	used := make([]bool, len(pc))
	for changed := true; changed; {
		changed = false
		for i := len(pc) - 1; i >= 0; i-- {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range pc[i].vs.ids {
				if vars[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				for _, v := range pc[i].vs.ids {
					if !vars[v] {
						vars[v] = true
						changed = true
					}
				}
			}
		}
	}
	var out []*Term
	for i, u := range used {
		if u {
			out = append(out, pc[i])
		}
	}
	return out
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
