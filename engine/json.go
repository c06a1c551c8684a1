package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"go/types"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unicode/utf16"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// Model of encoding/json over symbolic text: a text is a sequence of byte terms in which the digits of a
// symbolic number are one OTok term.

// ---------- fields ----------

type jfield struct {
	name              string
	index             []int
	typ               types.Type
	omitEmpty, omitZ  bool
	quoted, tagged    bool
	ambiguous, hidden bool
}

var jfieldCache = newSyncMap[types.Type, []*jfield]()

func jsonFields(t types.Type) []*jfield {
	if f, ok := jfieldCache.get(t); ok {
		return f
	}
	type q struct {
		t     types.Type
		index []int
	}
	cur, next := []q{}, []q{{t, nil}}
	var count, nextCount map[types.Type]int
	visited := map[types.Type]bool{}
	var fields []*jfield
	for len(next) > 0 {
		cur, next = next, cur[:0:0]
		count, nextCount = nextCount, map[types.Type]int{}
		for _, f := range cur {
			if visited[f.t] {
				continue
			}
			visited[f.t] = true
			s := under(f.t).(*types.Struct)
			for i := 0; i < s.NumFields(); i++ {
				sf := s.Field(i)
				ft := sf.Type()
				if sf.Anonymous() {
					et := ft
					if p, ok := et.(*types.Pointer); ok {
						et = p.Elem()
					}
					if _, ok := under(et).(*types.Struct); !ok && !sf.Exported() {
						continue
					}
				} else if !sf.Exported() {
					continue
				}
				tag := reflect.StructTag(s.Tag(i)).Get("json")
				if tag == "-" {
					continue
				}
				parts := strings.Split(tag, ",")
				name := parts[0]
				fl := &jfield{index: append(append([]int(nil), f.index...), i), typ: ft}
				for _, o := range parts[1:] {
					switch o {
					case "omitempty":
						fl.omitEmpty = true
					case "omitzero":
						fl.omitZ = true
					case "string":
						fl.quoted = true
					}
				}
				et := ft
				if p, ok := et.(*types.Pointer); ok {
					et = p.Elem()
				}
				_, isStruct := under(et).(*types.Struct)
				if name != "" || !sf.Anonymous() || !isStruct {
					fl.tagged = name != ""
					if name == "" {
						name = sf.Name()
					}
					fl.name = name
					fields = append(fields, fl)
					if count[f.t] > 1 {
						fields = append(fields, fl)
					}
					continue
				}
				nextCount[et]++
				if nextCount[et] == 1 {
					next = append(next, q{et, fl.index})
				}
			}
		}
	}
	byIndex := func(a, b []int) bool {
		for k := range a {
			if k >= len(b) {
				return false
			}
			if a[k] != b[k] {
				return a[k] < b[k]
			}
		}
		return len(a) < len(b)
	}
	sort.SliceStable(fields, func(i, j int) bool {
		x, y := fields[i], fields[j]
		if x.name != y.name {
			return x.name < y.name
		}
		if len(x.index) != len(y.index) {
			return len(x.index) < len(y.index)
		}
		if x.tagged != y.tagged {
			return x.tagged
		}
		return byIndex(x.index, y.index)
	})
	var out []*jfield
	for i := 0; i < len(fields); {
		j := i + 1
		for j < len(fields) && fields[j].name == fields[i].name {
			j++
		}
		if j == i+1 || len(fields[i].index) != len(fields[i+1].index) || fields[i].tagged != fields[i+1].tagged {
			out = append(out, fields[i])
		}
		i = j
	}
	sort.SliceStable(out, func(i, j int) bool { return byIndex(out[i].index, out[j].index) })
	jfieldCache.set(t, out)
	return out
}

func isRawMessage(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	p, o := n.Obj().Pkg().Path(), n.Obj().Name()
	return p == "encoding/json/jsontext" && o == "Value" || p == "encoding/json" && o == "RawMessage"
}

func isJSONNumber(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "encoding/json" && n.Obj().Name() == "Number"
}

func (st *State) jsonMethod(t types.Type, name string) *ssa.Function {
	f := st.methodByName(t, name)
	if f == nil || f.Signature.Results().Len() == 0 {
		return nil
	}
	return f
}

// ---------- encoding ----------

type jenc struct {
	st   *State
	html bool
	out  []*Term
	err  Iface
}

func (e *jenc) lit(s string) { e.out = e.st.lit(e.out, s) }

// plain terms
func (st *State) jBytePlain(b *Term, html bool) *Term {
	T := st.T
	k := func(c byte) *Term { return T.Not(T.Eq(b, T.Const(8, uint64(c)))) }
	r := T.And(T.Not(T.Ult(b, T.Const(8, 0x20))), T.Ult(b, T.Const(8, 0x80)))
	r = T.And(r, T.And(k('"'), k('\\')))
	if html {
		r = T.And(r, T.And(k('<'), T.And(k('>'), k('&'))))
	}
	return r
}

func (st *State) jsonQuote(out []*Term, bs []*Term, html bool) []*Term {
	return st.jsonQuoteBody(st.lit(out, `"`), bs, html)
}

func nativeQuote(s string, html bool) string {
	var b bytes.Buffer
	enc := json.NewEncoder(&b)
	enc.SetEscapeHTML(html)
	if err := enc.Encode(s); err != nil {
		unsup("native JSON string encoding: %v", err)
	}
	return strings.TrimSuffix(b.String(), "\n")
}

func (st *State) jsonQuoteBody(out []*Term, bs []*Term, html bool) []*Term {
	all := st.T.tt
	for _, b := range bs {
		if b.op == OTok {
			continue
		}
		all = st.T.And(all, st.jBytePlain(b, html))
	}
	if !all.isFalse() && st.branch(all) {
		return st.lit(append(out, bs...), `"`)
	}
	for i := 0; i < len(bs); {
		b := bs[i]
		if b.op == OTok {
			out = append(out, b)
			i++
			continue
		}
		if p := st.jBytePlain(b, html); st.branch(p) {
			out = append(out, b)
			i++
			continue
		}
		// a run of non-plain bytes: its value decides the escape
		c := byte(st.concretize(b, "byte of a JSON string"))
		run := []byte{c}
		i++
		if c >= 0x80 {
			for len(run) < 4 && i < len(bs) && !utf8.FullRune(run) && bs[i].op != OTok {
				n := bs[i]
				if st.branch(st.T.Ult(n, st.T.Const(8, 0x80))) {
					break
				}
				run = append(run, byte(st.concretize(n, "byte of a JSON string")))
				i++
			}
			if r, sz := utf8.DecodeRune(run); sz < len(run) || r == utf8.RuneError && sz == 1 {
				// not one well-formed rune: step back to after its first byte
				i -= len(run) - sz
				run = run[:sz]
			}
		}
		q := nativeQuote(string(run), html)
		out = st.lit(out, q[1:len(q)-1])
	}
	return st.lit(out, `"`)
}

// knownFloat gives the constant a symbolic float is known to equal.
func (st *State) knownFloat(x *Term) (*Term, bool) {
	for _, c := range st.pc {
		if c.op == OFEq || c.op == OEq {
			a, b := c.a[0], c.a[1]
			if a == x && b.isConst() || b == x && a.isConst() {
				if a == x {
					a = b
				}
				f := fpConst(x.sort, a.k)
				if f == 0 && c.op == OFEq {
					if st.branch(st.T.Eq(st.T.ToBits(x), st.T.Const(bvOf(x.sort), 0))) {
						return st.T.fpk(x.sort, 0), true
					}
					return st.T.fpk(x.sort, math.Copysign(0, -1)), true
				}
				return a, true
			}
		}
	}
	return nil, false
}

func (e *jenc) number(x *Term, t types.Type) {
	st := e.st
	if x.sort.isFP() {
		if !x.isConst() {
			if st.branch(st.T.Or(st.T.FIsNaN(x), st.T.FIsInf(x))) {
				e.err = st.jsonError("UnsupportedValueError", map[string]Value{"Value": RVal{t: t, v: x}, "Str": Str{s: "NaN or Inf"}})
				return
			}
			k, ok := st.knownFloat(x)
			if !ok {
				e.out = append(e.out, st.tok(x, true))
				return
			}
			x = k
		}
		f := fpConst(x.sort, x.k)
		if math.IsNaN(f) || math.IsInf(f, 0) {
			e.err = st.jsonError("UnsupportedValueError", map[string]Value{"Value": RVal{t: t, v: x}, "Str": Str{s: strconv.FormatFloat(f, 'g', -1, 64)}})
			return
		}
		var b []byte
		if x.sort == SFP32 {
			b, _ = json.Marshal(float32(f))
		} else {
			b, _ = json.Marshal(f)
		}
		e.lit(string(b))
		return
	}
	if !x.isConst() {
		for _, c := range st.pc {
			if c.op == OEq && (c.a[0] == x && c.a[1].isConst() || c.a[1] == x && c.a[0].isConst()) {
				if c.a[0] == x {
					x = c.a[1]
				} else {
					x = c.a[0]
				}
				break
			}
		}
	}
	sg := isSigned(t)
	switch {
	case !x.isConst():
		e.out = append(e.out, st.tok(x, sg))
	case sg:
		e.lit(strconv.FormatInt(x.sval(), 10))
	default:
		e.lit(strconv.FormatUint(x.k, 10))
	}
}

func (e *jenc) callMarshaler(f *ssa.Function, recv Value, t types.Type) {
	st := e.st
	r := st.callFn(f, []Value{recv}, nil).(Tuple)
	if er := r[1].(Iface); er.t != nil {
		e.err = st.marshalerError(t, er, "MarshalJSON")
		return
	}
	b := st.sliceBytes(r[0].(Slice), "MarshalJSON result")
	p := &jparser{st: st, t: b}
	n, ok := p.parseAll()
	if !ok {
		e.err = st.marshalerError(t, st.syntaxError(p.msg), "MarshalJSON")
		return
	}
	e.out = p.compact(e.out, n, e.html)
}

func (st *State) marshalerError(t types.Type, er Iface, src string) Iface {
	mt := st.pkgType("encoding/json", "MarshalerError")
	o := st.newObj(sizeof(mt), "MarshalerError")
	st.storeAt(o, 0, mt, Agg{st.rtypeIface(t), er, Str{s: src}})
	return Iface{ptrTo(mt), Ptr{o, st.zero64}}
}

// jsonError makes an error of the named type of encoding/json; fields that are not given are zero.
func (st *State) jsonError(name string, fields map[string]Value) Iface {
	et := st.pkgType("encoding/json", name)
	s := under(et).(*types.Struct)
	var v Agg
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		x, ok := fields[f.Name()]
		if !ok {
			x = st.zero(f.Type())
		}
		v = append(v, x)
	}
	o := st.newObj(sizeof(et), name)
	st.storeAt(o, 0, et, v)
	return Iface{ptrTo(et), Ptr{o, st.zero64}}
}

func (st *State) syntaxError(msg string) Iface {
	return st.jsonError("SyntaxError", map[string]Value{"msg": Str{s: msg}})
}

func (e *jenc) value(r RVal, quoted bool, depth int) {
	st := e.st
	if e.err.t != nil {
		return
	}
	if depth > 100 {
		unsup("JSON encoding recursion")
	}
	if r.t == nil {
		e.lit("null")
		return
	}
	_, isPtr := under(r.t).(*types.Pointer)
	if isRawMessage(r.t) {
		s := st.rval(r).(Slice)
		if s.obj == nil {
			e.lit("null")
			return
		}
		p := &jparser{st: st, t: st.sliceBytes(s, "json.RawMessage length")}
		n, ok := p.parseAll()
		if !ok {
			e.err = st.marshalerError(r.t, st.syntaxError(p.msg), "MarshalJSON")
			return
		}
		e.out = p.compact(e.out, n, e.html)
		return
	}
	if isJSONNumber(r.t) {
		unsup("json.Number")
	}
	if isPtr && isRawMessage(under(r.t).(*types.Pointer).Elem()) {
		e.value(st.relem(r), quoted, depth+1)
		return
	}
	if _, isIf := under(r.t).(*types.Interface); !isIf {
		if !isPtr && r.addr {
			if f := st.jsonMethod(ptrTo(r.t), "MarshalJSON"); f != nil {
				e.callMarshaler(f, r.ptr, ptrTo(r.t))
				return
			}
		}
		if f := st.jsonMethod(r.t, "MarshalJSON"); f != nil {
			v := st.rval(r)
			if p, ok := v.(Ptr); ok && p.obj == nil {
				e.lit("null")
				return
			}
			e.callMarshaler(f, v, r.t)
			return
		}
		if st.jsonMethod(r.t, "MarshalText") != nil || r.addr && !isPtr && st.jsonMethod(ptrTo(r.t), "MarshalText") != nil {
			unsup("encoding.TextMarshaler in JSON encoding (%s)", r.t)
		}
	}
	if quoted {
		unsup("JSON string option")
	}
	switch u := under(r.t).(type) {
	case *types.Basic:
		switch x := st.rval(r).(type) {
		case *Term:
			if x.sort == SBool {
				if st.branch(x) {
					e.lit("true")
				} else {
					e.lit("false")
				}
				return
			}
			if u.Info()&types.IsComplex == 0 {
				e.number(x, r.t)
				return
			}
		case Str:
			if x.sym == nil {
				e.lit(nativeQuote(x.s, e.html))
			} else {
				e.out = st.jsonQuote(e.out, x.sym, e.html)
			}
			return
		}
		e.err = st.jsonError("UnsupportedTypeError", map[string]Value{"Type": st.rtypeIface(r.t)})
	case *types.Pointer:
		if p := st.rval(r).(Ptr); p.obj == nil {
			e.lit("null")
			return
		}
		e.value(st.relem(r), quoted, depth+1)
	case *types.Interface:
		i := st.rval(r).(Iface)
		if i.t == nil {
			e.lit("null")
			return
		}
		e.value(RVal{t: i.t, v: i.v}, false, depth+1)
	case *types.Slice:
		s := st.rval(r).(Slice)
		if s.obj == nil {
			e.lit("null")
			return
		}
		if b, ok := under(u.Elem()).(*types.Basic); ok && b.Kind() == types.Uint8 {
			e.lit(`"`)
			e.out = append(e.out, st.base64(st.sliceBytes(s, "JSON byte slice"))...)
			e.lit(`"`)
			return
		}
		n := int(st.concretize(s.len, "JSON array length"))
		e.lit("[")
		for i := 0; i < n; i++ {
			if i > 0 {
				e.lit(",")
			}
			e.value(st.rindex(r, st.ci(i)), false, depth+1)
			if e.err.t != nil {
				return
			}
		}
		e.lit("]")
	case *types.Array:
		e.lit("[")
		for i := 0; i < int(u.Len()); i++ {
			if i > 0 {
				e.lit(",")
			}
			e.value(st.rindex(r, st.ci(i)), false, depth+1)
			if e.err.t != nil {
				return
			}
		}
		e.lit("]")
	case *types.Map:
		m := st.mapR(st.rval(r).(*MapObj))
		if m == nil {
			e.lit("null")
			return
		}
		if b, ok := under(u.Key()).(*types.Basic); !ok || b.Info()&types.IsString == 0 {
			unsup("JSON encoding of %s", r.t)
		}
		var es []*MapEntry
		for _, x := range m.entries {
			if !x.del {
				es = append(es, x)
			}
		}
		// insertion sort: comparisons of symbolic keys branch
		for i := 1; i < len(es); i++ {
			for j := i; j > 0 && st.branch(st.strLess(es[j].k.(Str), es[j-1].k.(Str))); j-- {
				es[j], es[j-1] = es[j-1], es[j]
			}
		}
		e.lit("{")
		for i, x := range es {
			if i > 0 {
				e.lit(",")
			}
			e.out = st.jsonQuote(e.out, st.strBytes(x.k.(Str)), e.html)
			e.lit(":")
			e.value(RVal{t: u.Elem(), v: x.v}, false, depth+1)
			if e.err.t != nil {
				return
			}
		}
		e.lit("}")
	case *types.Struct:
		e.lit("{")
		first := true
	fields:
		for _, f := range jsonFields(r.t) {
			c := r
			for _, i := range f.index {
				if _, ok := under(c.t).(*types.Pointer); ok {
					if st.rval(c).(Ptr).obj == nil {
						continue fields
					}
					c = st.relem(c)
				}
				c = st.rfield(c, i)
			}
			if f.omitEmpty && st.branch(st.jsonEmpty(c)) {
				continue
			}
			if f.omitZ {
				if st.jsonMethod(c.t, "IsZero") != nil {
					unsup("omitzero with an IsZero method")
				}
				if st.branch(st.isZeroTerm(st.rval(c), c.t)) {
					continue
				}
			}
			if !first {
				e.lit(",")
			}
			first = false
			e.lit(nativeQuote(f.name, e.html) + ":")
			e.value(c, f.quoted, depth+1)
			if e.err.t != nil {
				return
			}
		}
		e.lit("}")
	default:
		e.err = st.jsonError("UnsupportedTypeError", map[string]Value{"Type": st.rtypeIface(r.t)})
	}
}

func (st *State) jsonEmpty(r RVal) *Term {
	switch u := under(r.t).(type) {
	case *types.Array:
		return st.T.Bool(u.Len() == 0)
	case *types.Slice, *types.Map:
		return st.T.Eq(st.rlen2(r), st.zero64)
	case *types.Basic:
		v := st.rval(r)
		if s, ok := v.(Str); ok {
			return st.T.Bool(s.length() == 0)
		}
		x := v.(*Term)
		if x.sort.isFP() {
			return st.T.FEq(x, st.T.fpk(x.sort, 0))
		}
		return st.T.Eq(x, st.T.Const(x.sort, 0))
	case *types.Interface, *types.Pointer:
		n, _ := st.isNilVal(st.rval(r))
		return st.T.Bool(n)
	}
	return st.T.ff
}

func (st *State) rlen2(r RVal) *Term {
	if m, ok := st.rval(r).(*MapObj); ok && m == nil {
		return st.zero64
	}
	if s, ok := st.rval(r).(Slice); ok && s.obj == nil {
		return st.zero64
	}
	return st.rlen(r)
}

// base64 encodes with the standard alphabet and padding; symbolic bytes become table selections.
func (st *State) base64(bs []*Term) []*Term {
	T := st.T
	conc := make([]byte, len(bs))
	ok := true
	for i, b := range bs {
		if !b.isConst() {
			ok = false
			break
		}
		conc[i] = byte(b.k)
	}
	if ok {
		return st.lit(nil, base64.StdEncoding.EncodeToString(conc))
	}
	_ = T
	unsup("symbolic []byte in JSON")
	return nil
}

func (st *State) jsonMarshal(v Iface, html bool) ([]*Term, Iface) {
	e := &jenc{st: st, html: html}
	if v.t == nil {
		e.lit("null")
	} else {
		e.value(RVal{t: v.t, v: v.v}, false, 0)
	}
	return e.out, e.err
}

// ---------- parsing ----------

type jnode struct {
	k    byte // { [ " 0 n t f
	s, e int
	kids []*jnode
	keys []*jnode
}

type jparser struct {
	st    *State
	t     []*Term
	msg   string
	more  bool // ran off the end
	depth int
	part  bool // more text may follow
}

func (p *jparser) fail(i int, ctx string) (*jnode, int) {
	if p.msg == "" {
		if i >= len(p.t) {
			p.more = true
			p.msg = "unexpected end of JSON input"
		} else {
			p.msg = fmt.Sprintf("invalid character in JSON text (%s)", ctx)
		}
	}
	return nil, -1
}

func (p *jparser) is(i int, c byte) bool {
	b := p.t[i]
	if b.isConst() {
		return byte(b.k) == c
	}
	if b.op == OTok {
		return false
	}
	return p.st.branch(p.st.T.Eq(b, p.st.T.Const(8, uint64(c))))
}

func (p *jparser) ws(i int) int {
	for i < len(p.t) {
		b := p.t[i]
		if b.isConst() {
			switch byte(b.k) {
			case ' ', '\t', '\r', '\n':
				i++
				continue
			}
			return i
		}
		if b.op == OTok {
			return i
		}
		T := p.st.T
		e := func(c uint64) *Term { return T.Eq(b, T.Const(8, c)) }
		if !p.st.branch(T.Or(T.Or(e(' '), e('\t')), T.Or(e('\r'), e('\n')))) {
			return i
		}
		i++
	}
	return i
}

func (p *jparser) parseAll() (*jnode, bool) {
	n, i := p.value(p.ws(0))
	if n == nil {
		return nil, false
	}
	i = p.ws(i)
	if i != len(p.t) {
		p.msg = "invalid character after top-level value"
		return nil, false
	}
	return n, true
}

func (p *jparser) value(i int) (*jnode, int) {
	st := p.st
	if i >= len(p.t) {
		return p.fail(i, "value")
	}
	p.depth++
	defer func() { p.depth-- }()
	if p.depth > 10000 {
		p.msg = "exceeded max depth"
		return nil, -1
	}
	b := p.t[i]
	if b.op == OTok {
		if i+1 < len(p.t) && p.numChar(i+1) {
			unsup("digits after a symbolic number in JSON")
		}
		return &jnode{k: '0', s: i, e: i + 1}, i + 1
	}
	var c byte
	if b.isConst() {
		c = byte(b.k)
	} else {
		// classify
		for _, x := range []byte{'{', '[', '"', 't', 'f', 'n'} {
			if p.is(i, x) {
				c = x
				break
			}
		}
		if c == 0 && p.numChar(i) {
			c = byte(st.concretize(b, "digit in JSON"))
		}
	}
	switch {
	case c == '{':
		n := &jnode{k: '{', s: i}
		i = p.ws(i + 1)
		if i < len(p.t) && p.is(i, '}') {
			n.e = i + 1
			return n, i + 1
		}
		for {
			if i >= len(p.t) || !p.is(i, '"') {
				return p.fail(i, "object key")
			}
			k, j := p.str(i)
			if k == nil {
				return nil, -1
			}
			i = p.ws(j)
			if i >= len(p.t) || !p.is(i, ':') {
				return p.fail(i, "after object key")
			}
			v, j := p.value(p.ws(i + 1))
			if v == nil {
				return nil, -1
			}
			n.keys = append(n.keys, k)
			n.kids = append(n.kids, v)
			i = p.ws(j)
			if i >= len(p.t) {
				return p.fail(i, "object")
			}
			if p.is(i, ',') {
				i = p.ws(i + 1)
				continue
			}
			if p.is(i, '}') {
				n.e = i + 1
				return n, i + 1
			}
			return p.fail(i, "after object value")
		}
	case c == '[':
		n := &jnode{k: '[', s: i}
		i = p.ws(i + 1)
		if i < len(p.t) && p.is(i, ']') {
			n.e = i + 1
			return n, i + 1
		}
		for {
			v, j := p.value(i)
			if v == nil {
				return nil, -1
			}
			n.kids = append(n.kids, v)
			i = p.ws(j)
			if i >= len(p.t) {
				return p.fail(i, "array")
			}
			if p.is(i, ',') {
				i = p.ws(i + 1)
				continue
			}
			if p.is(i, ']') {
				n.e = i + 1
				return n, i + 1
			}
			return p.fail(i, "after array element")
		}
	case c == '"':
		return p.str(i)
	case c == 't':
		return p.word(i, "true")
	case c == 'f':
		return p.word(i, "false")
	case c == 'n':
		return p.word(i, "null")
	case c == '-' || c >= '0' && c <= '9':
		var s []byte
		j := i
		for j < len(p.t) && p.numChar(j) {
			s = append(s, byte(st.concretize(p.t[j], "digit in JSON")))
			j++
		}
		n := numberPrefix(string(s))
		if n == len(s) && n > 0 {
			if j == len(p.t) && p.part {
				return p.fail(j, "number")
			}
			return &jnode{k: '0', s: i, e: j}, j
		}
		if n < 0 { // could continue
			return p.fail(j, "number")
		}
		return p.fail(i+n, "number")
	}
	return p.fail(i, "looking for a value")
}

func (p *jparser) numChar(i int) bool {
	b := p.t[i]
	if b.isConst() {
		c := byte(b.k)
		return c >= '0' && c <= '9' || c == '-' || c == '+' || c == '.' || c == 'e' || c == 'E'
	}
	if b.op == OTok {
		unsup("adjacent symbolic numbers in JSON")
	}
	T := p.st.T
	e := func(c uint64) *Term { return T.Eq(b, T.Const(8, c)) }
	dig := T.And(T.Not(T.Ult(b, T.Const(8, '0'))), T.Ult(b, T.Const(8, '9'+1)))
	return p.st.branch(T.Or(dig, T.Or(T.Or(e('-'), e('+')), T.Or(e('.'), T.Or(e('e'), e('E'))))))
}

// numberPrefix returns the length of the longest prefix that is a JSON number, or -1 if s is a proper
// prefix of a number only.
func numberPrefix(s string) int {
	i := 0
	dig := func() bool {
		k := i
		for i < len(s) && s[i] >= '0' && s[i] <= '9' {
			i++
		}
		return i > k
	}
	if i < len(s) && s[i] == '-' {
		i++
	}
	if i == len(s) {
		return -1
	}
	if s[i] == '0' {
		i++
	} else if !dig() {
		return 0
	}
	if i < len(s) && s[i] == '.' {
		k := i
		i++
		if i == len(s) {
			return -1
		}
		if !dig() {
			return k
		}
	}
	if i < len(s) && (s[i] == 'e' || s[i] == 'E') {
		k := i
		i++
		if i < len(s) && (s[i] == '+' || s[i] == '-') {
			i++
		}
		if i == len(s) {
			return -1
		}
		if !dig() {
			return k
		}
	}
	return i
}

func (p *jparser) word(i int, w string) (*jnode, int) {
	for k := 0; k < len(w); k++ {
		if i+k >= len(p.t) || !p.is(i+k, w[k]) {
			return p.fail(i+k, "in literal "+w)
		}
	}
	return &jnode{k: w[0], s: i, e: i + len(w)}, i + len(w)
}

func (p *jparser) str(i int) (*jnode, int) {
	st := p.st
	T := st.T
	n := &jnode{k: '"', s: i}
	i++
	for i < len(p.t) {
		b := p.t[i]
		if b.op == OTok {
			i++
			continue
		}
		if !b.isConst() {
			if st.branch(st.jBytePlain(b, false)) {
				i++
				continue
			}
			if st.branch(T.Not(T.Ult(b, T.Const(8, 0x80)))) {
				i++
				continue
			}
		} else if c := byte(b.k); c >= 0x20 && c != '"' && c != '\\' {
			i++
			continue
		}
		if p.is(i, '"') {
			n.e = i + 1
			return n, i + 1
		}
		if !p.is(i, '\\') {
			return p.fail(i, "in string literal")
		}
		i++
		if i >= len(p.t) {
			break
		}
		c := byte(st.concretize(p.t[i], "JSON escape"))
		switch c {
		case '"', '\\', '/', 'b', 'f', 'n', 'r', 't':
			i++
		case 'u':
			i++
			for k := 0; k < 4; k++ {
				if i >= len(p.t) {
					return p.fail(i, "in \\u escape")
				}
				h := byte(st.concretize(p.t[i], "JSON escape digit"))
				if !(h >= '0' && h <= '9' || h >= 'a' && h <= 'f' || h >= 'A' && h <= 'F') {
					return p.fail(i, "in \\u escape")
				}
				i++
			}
		default:
			return p.fail(i, "in string escape code")
		}
	}
	return p.fail(len(p.t), "string")
}

// unquote decodes a string node (already validated).
func (p *jparser) unquote(n *jnode) []*Term {
	st := p.st
	in := p.t[n.s+1 : n.e-1]
	var out []*Term
	hex4 := func(i int) rune {
		if i+4 > len(in) {
			return -1
		}
		v := rune(0)
		for k := 0; k < 4; k++ {
			d, err := strconv.ParseUint(string(rune(st.concretize(in[i+k], "JSON escape digit"))), 16, 8)
			if err != nil {
				return -1
			}
			v = v<<4 | rune(d)
		}
		return v
	}
	for i := 0; i < len(in); {
		b := in[i]
		if b.op == OTok {
			out = append(out, b)
			i++
			continue
		}
		if !b.isConst() {
			if st.branch(st.T.Ult(b, st.T.Const(8, 0x80))) {
				if !p.is(n.s+1+i, '\\') {
					out = append(out, b)
					i++
					continue
				}
				b = st.T.Const(8, '\\')
			} else {
				b = st.T.Const(8, st.concretize(b, "byte of a JSON string"))
			}
		}
		c := byte(b.k)
		switch {
		case c == '\\':
			x := byte(st.concretize(in[i+1], "JSON escape"))
			i += 2
			switch x {
			case 'b':
				x = '\b'
			case 'f':
				x = '\f'
			case 'n':
				x = '\n'
			case 'r':
				x = '\r'
			case 't':
				x = '\t'
			case 'u':
				r := hex4(i)
				i += 4
				if utf16.IsSurrogate(r) {
					r2 := rune(-1)
					if i+1 < len(in) && in[i].isConst() && in[i].k == '\\' && in[i+1].isConst() && in[i+1].k == 'u' {
						r2 = hex4(i + 2)
					}
					if d := utf16.DecodeRune(r, r2); d != utf8.RuneError {
						r = d
						i += 6
					} else {
						r = utf8.RuneError
					}
				}
				out = st.lit(out, string(r))
				continue
			}
			out = append(out, st.T.Const(8, uint64(x)))
		case c < 0x80:
			out = append(out, b)
			i++
		default:
			run := []byte{c}
			for k := 1; k < 4 && i+k < len(in) && !utf8.FullRune(run); k++ {
				y := in[i+k]
				if y.op == OTok {
					break
				}
				if !y.isConst() {
					if st.branch(st.T.Ult(y, st.T.Const(8, 0x80))) {
						break
					}
					y = st.T.Const(8, st.concretize(y, "byte of a JSON string"))
				}
				run = append(run, byte(y.k))
			}
			r, sz := utf8.DecodeRune(run)
			i += sz
			out = st.lit(out, string(r))
		}
	}
	return out
}

// compact appends the node without white space; strings keep their text except for HTML escaping.
func (p *jparser) compact(out []*Term, n *jnode, html bool) []*Term {
	st := p.st
	switch n.k {
	case '{':
		out = st.lit(out, "{")
		for i := range n.kids {
			if i > 0 {
				out = st.lit(out, ",")
			}
			out = p.compact(out, n.keys[i], html)
			out = st.lit(out, ":")
			out = p.compact(out, n.kids[i], html)
		}
		return st.lit(out, "}")
	case '[':
		out = st.lit(out, "[")
		for i := range n.kids {
			if i > 0 {
				out = st.lit(out, ",")
			}
			out = p.compact(out, n.kids[i], html)
		}
		return st.lit(out, "]")
	case '"':
		in := p.t[n.s:n.e]
		for i := 0; i < len(in); i++ {
			b := in[i]
			if b.op == OTok || i == 0 || i == len(in)-1 {
				out = append(out, b)
				continue
			}
			if !b.isConst() {
				if v, ok := st.knownVal(st.jBytePlain(b, html)); ok && v || !html {
					out = append(out, b)
					continue
				}
				T := st.T
				e := func(c uint64) *Term { return T.Eq(b, T.Const(8, c)) }
				if !st.branch(T.Or(e('<'), T.Or(e('>'), T.Or(e('&'), T.Not(T.Ult(b, T.Const(8, 0x80))))))) {
					out = append(out, b)
					continue
				}
				b = T.Const(8, st.concretize(b, "byte of a JSON string"))
			}
			c := byte(b.k)
			switch {
			case html && (c == '<' || c == '>' || c == '&'):
				out = st.lit(out, fmt.Sprintf(`\u%04x`, c))
			case html && c == 0xe2 && i+2 < len(in) && in[i+1].isConst() && in[i+1].k == 0x80 && in[i+2].isConst() && in[i+2].k&^1 == 0xa8:
				out = st.lit(out, fmt.Sprintf(`\u202%x`, in[i+2].k&0xf))
				i += 2
			default:
				out = append(out, b)
			}
		}
		return out
	}
	return append(out, p.t[n.s:n.e]...)
}

func (p *jparser) indent(out []*Term, n *jnode, prefix, ind string, depth int) []*Term {
	st := p.st
	nl := func(d int) { out = st.lit(out, "\n"+prefix+strings.Repeat(ind, d)) }
	switch n.k {
	case '{', '[':
		out = append(out, st.T.Const(8, uint64(n.k)))
		for i, k := range n.kids {
			if i > 0 {
				out = st.lit(out, ",")
			}
			nl(depth + 1)
			if n.k == '{' {
				out = p.compact(out, n.keys[i], false)
				out = st.lit(out, ": ")
			}
			out = p.indent(out, k, prefix, ind, depth+1)
		}
		if len(n.kids) > 0 {
			nl(depth)
		}
		return append(out, st.T.Const(8, uint64(n.k)+2))
	}
	return p.compact(out, n, false)
}

// ---------- decoding ----------

type jdec struct {
	st      *State
	p       *jparser
	err     Iface
	unknown bool // DisallowUnknownFields
}

func (d *jdec) save(msg string) {
	if d.err.t == nil {
		d.err = d.st.newError("json: " + msg)
	}
}

var anyType types.Type = types.NewInterfaceType(nil, nil)

func (st *State) jsonUnmarshal(text []*Term, v Iface) Iface {
	p := &jparser{st: st, t: text}
	n, ok := p.parseAll()
	if !ok {
		return st.syntaxError(p.msg)
	}
	return st.jsonStore(p, n, v, false)
}

func (st *State) jsonStore(p *jparser, n *jnode, v Iface, unknown bool) Iface {
	pt, ok := v.t, false
	if pt != nil {
		_, ok = under(pt).(*types.Pointer)
	}
	if !ok || v.v.(Ptr).obj == nil {
		return st.jsonError("InvalidUnmarshalError", map[string]Value{"Type": st.rtypeIface(pt)})
	}
	d := &jdec{st: st, p: p, unknown: unknown}
	d.value(n, RVal{t: under(pt).(*types.Pointer).Elem(), addr: true, ptr: v.v.(Ptr)}, 0)
	return d.err
}

func (d *jdec) kind(n *jnode) string {
	switch n.k {
	case '{':
		return "object"
	case '[':
		return "array"
	case '"':
		return "string"
	case '0':
		return "number"
	case 'n':
		return "null"
	}
	return "bool"
}

func (d *jdec) mismatch(n *jnode, t types.Type) {
	if d.err.t == nil {
		d.err = d.st.jsonError("UnmarshalTypeError", map[string]Value{"Value": Str{s: d.kind(n)}, "Type": d.st.rtypeIface(t)})
	}
}

func (d *jdec) value(n *jnode, r RVal, depth int) {
	st := d.st
	if depth > 200 {
		unsup("JSON decoding recursion")
	}
	if isRawMessage(r.t) {
		raw := append([]*Term(nil), d.p.t[n.s:n.e]...)
		st.rset(r, st.newBytes(raw, "json.RawMessage"))
		return
	}
	if isJSONNumber(r.t) {
		unsup("json.Number")
	}
	if _, ok := under(r.t).(*types.Pointer); !ok {
		if _, isIf := under(r.t).(*types.Interface); !isIf {
			if f := st.jsonMethod(ptrTo(r.t), "UnmarshalJSON"); f != nil {
				raw := append([]*Term(nil), d.p.t[n.s:n.e]...)
				er := st.callFn(f, []Value{r.ptr, st.newBytes(raw, "UnmarshalJSON argument")}, nil).(Iface)
				if er.t != nil && d.err.t == nil {
					d.err = er
				}
				return
			}
			if st.jsonMethod(ptrTo(r.t), "UnmarshalText") != nil {
				unsup("encoding.TextUnmarshaler in JSON decoding (%s)", r.t)
			}
		}
	}
	switch u := under(r.t).(type) {
	case *types.Pointer:
		if n.k == 'n' {
			st.rset(r, Ptr{})
			return
		}
		p := st.rval(r).(Ptr)
		if p.obj == nil {
			p = Ptr{st.newObj(sizeof(u.Elem()), "json value"), st.zero64}
			st.rset(r, p)
		}
		if f := st.jsonMethod(r.t, "UnmarshalJSON"); f != nil && !isRawMessage(u.Elem()) {
			if _, ok := types.Unalias(r.t).(*types.Named); ok {
				unsup("named pointer type with UnmarshalJSON")
			}
		}
		d.value(n, RVal{t: u.Elem(), addr: true, ptr: p}, depth+1)
	case *types.Interface:
		if n.k == 'n' {
			st.rset(r, Iface{})
			return
		}
		if i := st.rval(r).(Iface); i.t != nil {
			if p, ok := i.v.(Ptr); ok && p.obj != nil {
				if pt, ok := under(i.t).(*types.Pointer); ok {
					d.value(n, RVal{t: pt.Elem(), addr: true, ptr: p}, depth+1)
					return
				}
			}
		}
		if u.NumMethods() > 0 {
			d.mismatch(n, r.t)
			return
		}
		st.rset(r, d.any(n, depth))
	case *types.Map:
		switch n.k {
		case 'n':
			st.rset(r, (*MapObj)(nil))
			return
		case '{':
		default:
			d.mismatch(n, r.t)
			return
		}
		if b, ok := under(u.Key()).(*types.Basic); !ok || b.Info()&types.IsString == 0 {
			unsup("JSON decoding into %s", r.t)
		}
		m := st.rval(r).(*MapObj)
		if m == nil {
			m = st.newMap(r.t)
			st.rset(r, m)
		}
		for i, k := range n.kids {
			key := st.mkStr(d.p.unquote(n.keys[i]))
			o := st.newObj(sizeof(u.Elem()), "json map element")
			e := RVal{t: u.Elem(), addr: true, ptr: Ptr{o, st.zero64}}
			d.value(k, e, depth+1)
			st.mapSet(st.rval(r).(*MapObj), key, st.rval(e))
		}
	case *types.Slice:
		switch n.k {
		case 'n':
			st.rset(r, Slice{nil, st.zero64, st.zero64, st.zero64})
			return
		case '"':
			if b, ok := under(u.Elem()).(*types.Basic); ok && b.Kind() == types.Uint8 {
				st.rset(r, d.base64(n, r))
				return
			}
			d.mismatch(n, r.t)
			return
		case '[':
		default:
			d.mismatch(n, r.t)
			return
		}
		s := st.rval(r).(Slice)
		c := 0
		if s.obj != nil {
			c = int(st.concretize(s.cap, "capacity of a decoded slice"))
		}
		if c < len(n.kids) || s.obj == nil {
			ns := st.makeSlice(u.Elem(), st.ci(len(n.kids)), st.ci(len(n.kids)))
			if s.obj != nil {
				st.copyElems(ns.obj, ns.off, s.obj, s.off, s.len, sizeof(u.Elem()))
			}
			s = ns
		} else {
			s.len = st.ci(len(n.kids))
		}
		st.rset(r, s)
		for i, k := range n.kids {
			d.value(k, st.rindex(r, st.ci(i)), depth+1)
		}
	case *types.Array:
		switch n.k {
		case 'n':
			return
		case '[':
		default:
			d.mismatch(n, r.t)
			return
		}
		for i := 0; i < int(u.Len()); i++ {
			e := st.rindex(r, st.ci(i))
			if i < len(n.kids) {
				d.value(n.kids[i], e, depth+1)
			} else {
				st.rset(e, st.zero(u.Elem()))
			}
		}
	case *types.Struct:
		switch n.k {
		case 'n':
			return
		case '{':
		default:
			d.mismatch(n, r.t)
			return
		}
		fs := jsonFields(r.t)
		for i, k := range n.kids {
			f := d.field(fs, d.p.unquote(n.keys[i]))
			if f == nil {
				if d.unknown {
					d.save("unknown field")
				}
				continue
			}
			if f.quoted {
				unsup("JSON string option")
			}
			c := r
			bad := false
			for _, x := range f.index {
				if pt, ok := under(c.t).(*types.Pointer); ok {
					p := st.rval(c).(Ptr)
					if p.obj == nil {
						if nm, ok := pt.Elem().(*types.Named); ok && !nm.Obj().Exported() {
							d.save("cannot set embedded pointer to unexported struct: " + pt.Elem().String())
							bad = true
							break
						}
						p = Ptr{st.newObj(sizeof(pt.Elem()), "json value"), st.zero64}
						st.rset(c, p)
					}
					c = RVal{t: pt.Elem(), addr: true, ptr: p}
				}
				c = st.rfield(c, x)
			}
			if !bad {
				d.value(k, c, depth+1)
			}
		}
	case *types.Basic:
		if n.k == 'n' {
			return
		}
		switch {
		case u.Info()&types.IsBoolean != 0:
			if n.k != 't' && n.k != 'f' {
				d.mismatch(n, r.t)
				return
			}
			st.rset(r, st.T.Bool(n.k == 't'))
		case u.Info()&types.IsString != 0:
			if n.k != '"' {
				d.mismatch(n, r.t)
				return
			}
			st.rset(r, st.mkStr(d.p.unquote(n)))
		case u.Info()&(types.IsInteger|types.IsFloat) != 0:
			if n.k != '0' {
				d.mismatch(n, r.t)
				return
			}
			if v, ok := d.number(n, r.t); ok {
				st.rset(r, v)
			} else {
				d.mismatch(n, r.t)
			}
		default:
			d.mismatch(n, r.t)
		}
	default:
		d.mismatch(n, r.t)
	}
}

func (d *jdec) base64(n *jnode, r RVal) Value {
	st := d.st
	bs := d.p.unquote(n)
	conc := make([]byte, len(bs))
	for i, b := range bs {
		if b.op == OTok {
			unsup("symbolic number in base64 text")
		}
		conc[i] = byte(st.concretize(b, "base64 text"))
	}
	out, err := base64.StdEncoding.DecodeString(string(conc))
	if err != nil {
		d.save(err.Error())
		return st.rval(r)
	}
	var ts []*Term
	for _, b := range out {
		ts = append(ts, st.T.Const(8, uint64(b)))
	}
	return st.newBytes(ts, "json bytes")
}

func (d *jdec) field(fs []*jfield, key []*Term) *jfield {
	st := d.st
	k := st.mkStr(key)
	if k.sym == nil {
		for _, f := range fs {
			if f.name == k.s {
				return f
			}
		}
		for _, f := range fs {
			if strings.EqualFold(f.name, k.s) {
				return f
			}
		}
		return nil
	}
	for _, f := range fs {
		if len(f.name) == len(key) && st.branch(st.strEq(k, Str{s: f.name})) {
			return f
		}
	}
	for _, f := range fs {
		if len(f.name) != len(key) {
			continue
		}
		eq := st.T.tt
		for i, b := range key {
			c := f.name[i]
			x := st.T.Eq(b, st.T.Const(8, uint64(c)))
			if o := c ^ 0x20; c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z' {
				x = st.T.Or(x, st.T.Eq(b, st.T.Const(8, uint64(o))))
			}
			eq = st.T.And(eq, x)
		}
		if st.branch(eq) {
			return f
		}
	}
	return nil
}

func (d *jdec) numText(n *jnode) string {
	b := make([]byte, 0, n.e-n.s)
	for _, t := range d.p.t[n.s:n.e] {
		b = append(b, byte(d.st.concretize(t, "digit in JSON")))
	}
	return string(b)
}

func (d *jdec) number(n *jnode, t types.Type) (*Term, bool) {
	st := d.st
	T := st.T
	s, _ := scalarSort(t)
	if n.e == n.s+1 && d.p.t[n.s].op == OTok {
		tk := d.p.t[n.s]
		x, sg := tk.a[0], tk.k == 1
		switch {
		case x.sort.isFP() && s.isFP():
			if s == x.sort {
				return x, true
			}
			unsup("symbolic float%d decoded as float%d", x.sort.bits(), s.bits())
		case x.sort.isFP():
			// The text of a float is an integer literal if the value is integral and not in exponent form; its digits
			// are exact up to 2^53.
			k := func(f float64) *Term { return T.fpk(x.sort, f) }
			if st.branch(T.Not(T.FEq(T.FRound(2, x), x))) || st.branch(T.Or(T.FLe(k(1e21), x), T.FLe(x, k(-1e21)))) {
				return nil, false
			}
			if x.sort.bits() != 64 || st.branch(T.Or(T.FLt(k(1<<53), x), T.FLt(x, k(-1<<53)))) {
				unsup("symbolic float decoded as an integer")
			}
			v := T.FToI(x, 64, true)
			if !isSigned(t) && st.branch(T.FLt(x, k(0))) {
				return nil, false
			}
			if !isSigned(t) && st.branch(T.FEq(x, k(0))) {
				unsup("symbolic zero decoded as an unsigned integer") // -0 is none
			}
			if s == 64 {
				return v, true
			}
			lo := T.Extract(v, int(s)-1, 0)
			if !st.branch(T.Eq(T.extTo(lo, isSigned(t), 64), v)) {
				return nil, false
			}
			return lo, true
		case s.isFP():
			return T.IToF(T.extTo(x, sg, 64), sg, s), true
		}
		if isSigned(t) {
			x64 := T.extTo(x, sg, 64)
			if !sg && x.sort == 64 {
				if !st.branch(T.Not(T.Slt(x64, st.zero64))) {
					return nil, false
				}
			}
			if s == 64 {
				return x64, true
			}
			lo := T.Extract(x64, int(s)-1, 0)
			if !st.branch(T.Eq(T.SExt(lo, 64), x64)) {
				return nil, false
			}
			return lo, true
		}
		x64 := T.extTo(x, sg, 64)
		if sg && !st.branch(T.Not(T.Slt(x64, st.zero64))) {
			return nil, false
		}
		if s == 64 {
			return x64, true
		}
		lo := T.Extract(x64, int(s)-1, 0)
		if !st.branch(T.Eq(T.ZExt(lo, 64), x64)) {
			return nil, false
		}
		return lo, true
	}
	txt := d.numText(n)
	switch {
	case s.isFP():
		f, err := strconv.ParseFloat(txt, s.bits())
		if err != nil {
			return nil, false
		}
		return T.fpk(s, f), true
	case isSigned(t):
		v, err := strconv.ParseInt(txt, 10, s.bits())
		if err != nil {
			return nil, false
		}
		return T.Const(s, uint64(v)&mask(s)), true
	}
	v, err := strconv.ParseUint(txt, 10, s.bits())
	if err != nil {
		return nil, false
	}
	return T.Const(s, v), true
}

func (T *TermTable) extTo(x *Term, signed bool, w Sort) *Term {
	if signed {
		return T.SExt(x, w)
	}
	return T.ZExt(x, w)
}

var anyMap = types.NewMap(types.Typ[types.String], anyType)
var anySlice = types.NewSlice(anyType)

func (d *jdec) any(n *jnode, depth int) Iface {
	st := d.st
	switch n.k {
	case '{':
		m := st.newMap(anyMap)
		for i, k := range n.kids {
			st.mapSet(m, st.mkStr(d.p.unquote(n.keys[i])), d.any(k, depth+1))
		}
		return Iface{anyMap, m}
	case '[':
		s := st.makeSlice(anyType, st.ci(len(n.kids)), st.ci(len(n.kids)))
		for i, k := range n.kids {
			st.store(Ptr{s.obj, st.T.Add(s.off, st.ci(16*i))}, anyType, d.any(k, depth+1))
		}
		return Iface{anySlice, s}
	case '"':
		return Iface{types.Typ[types.String], st.mkStr(d.p.unquote(n))}
	case '0':
		v, ok := d.number(n, types.Typ[types.Float64])
		if !ok {
			d.mismatch(n, types.Typ[types.Float64])
			return Iface{}
		}
		return Iface{types.Typ[types.Float64], v}
	case 't', 'f':
		return Iface{types.Typ[types.Bool], st.T.Bool(n.k == 't')}
	}
	return Iface{}
}

// ---------- streams ----------

type jstream struct {
	rd       Iface
	buf      []*Term
	cap      int
	prevEnd  int
	prevStrt int
	base     int
	err      Iface
	unknown  bool
}

func (st *State) ioErr(pkg, name string) Iface {
	p := st.P.prog.ImportedPackage(pkg)
	if p == nil {
		unsup("package %s is not loaded", pkg)
	}
	g := p.Var(name)
	return st.load(Ptr{st.globalObj(g), st.zero64}, g.Type().(*types.Pointer).Elem()).(Iface)
}

// fetch reads more input; it returns a nil error or the error met.
func (st *State) jsonFetch(js *jstream) Iface {
	if js.cap == 0 {
		js.cap = 64
	}
	grow := js.cap <= 2048 && js.cap < (js.base+js.prevEnd)/2
	grow = grow || js.prevStrt == 0 && len(js.buf) >= 3*js.cap/4
	if grow {
		js.cap *= 2
	}
	js.buf = append([]*Term(nil), js.buf[js.prevStrt:]...)
	js.base += js.prevStrt
	js.prevEnd -= js.prevStrt
	js.prevStrt = 0
	// the decoder reads into the spare capacity of its buffer
	room := js.cap - len(js.buf)
	for tries := 0; ; tries++ {
		if tries > 200 {
			panic(pathEnd{"limit", "reader that keeps returning 0, nil"})
		}
		s := st.makeSlice(types.Typ[types.Uint8], st.ci(room), st.ci(room))
		r := st.callMethod(js.rd, "Read", s).(Tuple)
		n := int(int64(st.concretize(r[0].(*Term), "bytes read")))
		if n > 0 {
			if n > room {
				st.goPanic("runtime error: slice bounds out of range (reader returned too much)")
			}
			s.len = st.ci(n)
			js.buf = append(js.buf, st.sliceBytes(s, "bytes read")...)
			return Iface{}
		}
		er := r[1].(Iface)
		if er.t != nil {
			return er
		}
	}
}

func (st *State) jsonStreamOf(v Value) *jstream {
	p := v.(Ptr)
	if p.obj == nil {
		st.goPanic("runtime error: invalid memory address or nil pointer dereference")
	}
	js, ok := st.modelObjs[p.obj].(*jstream)
	if !ok {
		unsup("json.Decoder not made by NewDecoder")
	}
	return js
}

func (st *State) jsonDecode(js *jstream, v Iface) Iface {
	if js.err.t != nil {
		return js.err
	}
	js.prevStrt = js.prevEnd
	fresh := true
	eof := false
	for {
		rest := js.buf[js.prevEnd:]
		p := &jparser{st: st, t: rest, part: !eof}
		var n *jnode
		try := fresh
		if try {
			i := p.ws(0)
			if i == len(rest) {
				if eof {
					js.err = st.ioErr("io", "EOF")
					return js.err
				}
				try = false
			} else {
				n, _ = p.value(i)
			}
		}
		if n != nil {
			q := &jparser{st: st, t: append([]*Term(nil), rest[:n.e]...)}
			base := js.prevEnd
			js.prevStrt = base + n.s
			js.prevEnd = base + n.e
			return st.jsonStore(q, n, v, js.unknown)
		}
		if try && !p.more {
			js.err = st.syntaxError(p.msg)
			return js.err
		}
		if try && eof {
			js.err = st.ioErr("io", "ErrUnexpectedEOF")
			return js.err
		}
		// (model of the reader's state while a value is incomplete: nothing consumed before it)
		k := len(js.buf) - js.prevStrt
		er := st.jsonFetch(js)
		if er.t != nil {
			if st.branch(st.equal(er, st.ioErr("io", "EOF"), er.t)) {
				eof = true
				fresh = true
				continue
			}
			js.err = er
			return er
		}
		fresh = false
		for _, b := range js.buf[k:] {
			if !b.isConst() || b.k == '}' || b.k == ']' {
				fresh = true
				break
			}
		}
		if !fresh {
			i := 0
			for i < len(js.buf) && js.buf[i].isConst() && strings.IndexByte(" \t\r\n", byte(js.buf[i].k)) >= 0 {
				i++
			}
			if i < len(js.buf) && !(js.buf[i].isConst() && (js.buf[i].k == '{' || js.buf[i].k == '[')) {
				fresh = true
			}
		}
	}
}

type jout struct {
	w           Iface
	html        bool
	prefix, ind string
	err         Iface
}

func initJSON(m map[string]modelFn) {
	res := func(st *State, out []*Term, er Iface) Value {
		if er.t != nil {
			return tup(Slice{nil, st.zero64, st.zero64, st.zero64}, er)
		}
		return tup(st.newBytes(out, "json.Marshal"), er)
	}
	m["encoding/json.Marshal"] = func(st *State, fn *ssa.Function, a []Value) Value {
		out, er := st.jsonMarshal(a[0].(Iface), true)
		return res(st, out, er)
	}
	indent := func(st *State, out []*Term, prefix, ind string) ([]*Term, Iface) {
		p := &jparser{st: st, t: out}
		n, ok := p.parseAll()
		if !ok {
			return nil, st.syntaxError(p.msg)
		}
		return p.indent(nil, n, prefix, ind, 0), Iface{}
	}
	m["encoding/json.MarshalIndent"] = func(st *State, fn *ssa.Function, a []Value) Value {
		out, er := st.jsonMarshal(a[0].(Iface), true)
		if er.t == nil {
			out, er = indent(st, out, st.strConcrete(a[1].(Str)), st.strConcrete(a[2].(Str)))
		}
		return res(st, out, er)
	}
	m["encoding/json.Unmarshal"] = func(st *State, fn *ssa.Function, a []Value) Value {
		return st.jsonUnmarshal(st.sliceBytes(a[0].(Slice), "JSON text length"), a[1].(Iface))
	}
	m["encoding/json.Valid"] = func(st *State, fn *ssa.Function, a []Value) Value {
		p := &jparser{st: st, t: st.sliceBytes(a[0].(Slice), "JSON text length")}
		_, ok := p.parseAll()
		return st.T.Bool(ok)
	}
	write := func(st *State, buf Value, out []*Term) {
		f := st.methodByName(ptrTo(st.pkgType("bytes", "Buffer")), "Write")
		st.callFn(f, []Value{buf, st.newBytes(out, "json text")}, nil)
	}
	m["encoding/json.Compact"] = func(st *State, fn *ssa.Function, a []Value) Value {
		p := &jparser{st: st, t: st.sliceBytes(a[1].(Slice), "JSON text length")}
		n, ok := p.parseAll()
		if !ok {
			return st.syntaxError(p.msg)
		}
		write(st, a[0], p.compact(nil, n, false))
		return Iface{}
	}
	m["encoding/json.Indent"] = func(st *State, fn *ssa.Function, a []Value) Value {
		out, er := indent(st, st.sliceBytes(a[1].(Slice), "JSON text length"), st.strConcrete(a[2].(Str)), st.strConcrete(a[3].(Str)))
		if er.t == nil {
			write(st, a[0], out)
		}
		return er
	}
	alloc := func(st *State, name string, x any) Value {
		o := st.newObj(sizeof(st.pkgType("encoding/json", name)), "json."+name)
		st.modelObjs[o] = x
		return Ptr{o, st.zero64}
	}
	m["encoding/json.NewDecoder"] = func(st *State, fn *ssa.Function, a []Value) Value {
		return alloc(st, "Decoder", &jstream{rd: a[0].(Iface)})
	}
	m["(*encoding/json.Decoder).Decode"] = func(st *State, fn *ssa.Function, a []Value) Value {
		return st.jsonDecode(st.jsonStreamOf(a[0]), a[1].(Iface))
	}
	m["(*encoding/json.Decoder).DisallowUnknownFields"] = func(st *State, fn *ssa.Function, a []Value) Value {
		st.jsonStreamOf(a[0]).unknown = true
		return nil
	}
	m["(*encoding/json.Decoder).Buffered"] = func(st *State, fn *ssa.Function, a []Value) Value {
		js := st.jsonStreamOf(a[0])
		f := st.pkgFunc("bytes", "NewReader")
		r := st.callFn(f, []Value{st.newBytes(append([]*Term(nil), js.buf[js.prevEnd:]...), "json rest")}, nil)
		return Iface{ptrTo(st.pkgType("bytes", "Reader")), r}
	}
	m["(*encoding/json.Decoder).InputOffset"] = func(st *State, fn *ssa.Function, a []Value) Value {
		js := st.jsonStreamOf(a[0])
		return st.ci(js.base + js.prevEnd)
	}
	m["encoding/json.NewEncoder"] = func(st *State, fn *ssa.Function, a []Value) Value {
		return alloc(st, "Encoder", &jout{w: a[0].(Iface), html: true})
	}
	enc := func(st *State, v Value) *jout {
		p := v.(Ptr)
		if p.obj == nil {
			st.goPanic("runtime error: invalid memory address or nil pointer dereference")
		}
		return st.modelObjs[p.obj].(*jout)
	}
	m["(*encoding/json.Encoder).SetIndent"] = func(st *State, fn *ssa.Function, a []Value) Value {
		e := enc(st, a[0])
		e.prefix, e.ind = st.strConcrete(a[1].(Str)), st.strConcrete(a[2].(Str))
		return nil
	}
	m["(*encoding/json.Encoder).SetEscapeHTML"] = func(st *State, fn *ssa.Function, a []Value) Value {
		enc(st, a[0]).html = st.branch(a[1].(*Term))
		return nil
	}
	m["(*encoding/json.Encoder).Encode"] = func(st *State, fn *ssa.Function, a []Value) Value {
		e := enc(st, a[0])
		if e.err.t != nil {
			return e.err
		}
		out, er := st.jsonMarshal(a[1].(Iface), e.html)
		if er.t == nil && e.prefix+e.ind != "" {
			out, er = indent(st, out, e.prefix, e.ind)
		}
		if er.t != nil {
			return er
		}
		out = st.lit(out, "\n")
		r := st.callMethod(e.w, "Write", st.newBytes(out, "json text")).(Tuple)
		e.err = r[1].(Iface)
		return r[1]
	}
}
