// Package sym declares the symbolic inputs and assertions of the verification harnesses.
//
// The symbolic engine (/verif/engine) intercepts every call to the functions of this package. The bodies below
// are the native implementation used to replay a concrete assignment against the real code.
package sym

import (
	"fmt"
	"io/fs"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strings"
)

// Assignment gives a concrete value to every input of one path.
type Assignment struct {
	Ints  map[string]uint64            `json:"ints,omitempty"`
	Bytes map[string][]byte            `json:"bytes,omitempty"`
	Big   map[string]map[string]uint64 `json:"big,omitempty"` // "len" and byte indices
	Tier  int                          `json:"tier"`
}

// Result is what a native run of a harness did.
type Result struct {
	Failed   []string        `json:"failed,omitempty"`
	Panic    string          `json:"panic,omitempty"`
	Trace    string          `json:"trace,omitempty"`
	Excluded bool            `json:"excluded,omitempty"`
	Missing  []string        `json:"missing,omitempty"`
	Reached  map[string]bool `json:"reached,omitempty"`
	Observed []ObservedVal   `json:"observed,omitempty"`
	Passed   int             `json:"passed"`
}

// ObservedVal is a value recorded by Observe.
type ObservedVal struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Int  uint64 `json:"int,omitempty"`
	Data []byte `json:"data,omitempty"`
}

var (
	cur   *Assignment
	res   *Result
	names map[string]int
	alloc uint64
	limit uint64
)

var raced int // calls of Race

type stop struct{}

// Run executes f under an assignment.
func Run(a *Assignment, f func()) (r *Result) {
	r = &Result{Reached: map[string]bool{}}
	cur, res, names, limit = a, r, map[string]int{}, 0
	defer func() {
		AllocEnd()
		if p := recover(); p != nil {
			if _, ok := p.(stop); ok {
				return
			}
			r.Panic = fmt.Sprint(p)
			buf := make([]byte, 1<<14)
			r.Trace = string(buf[:runtime.Stack(buf, false)])
		}
	}()
	f()
	return r
}

func nm(n string) string {
	k := names[n]
	names[n] = k + 1
	if k > 0 {
		n = fmt.Sprintf("%s#%d", n, k)
	}
	return n
}

func geti(n string) uint64 {
	n = nm(n)
	v, ok := cur.Ints[n]
	if !ok {
		res.Missing = append(res.Missing, n)
	}
	return v
}

func getb(n string, k int) []byte {
	n = nm(n)
	v, ok := cur.Bytes[n]
	if !ok || len(v) != k {
		res.Missing = append(res.Missing, n)
	}
	out := make([]byte, k)
	copy(out, v)
	return out
}

func U8(name string) uint8    { return uint8(geti(name)) }
func U16(name string) uint16  { return uint16(geti(name)) }
func U32(name string) uint32  { return uint32(geti(name)) }
func U64(name string) uint64  { return geti(name) }
func I8(name string) int8     { return int8(geti(name)) }
func I16(name string) int16   { return int16(geti(name)) }
func I32(name string) int32   { return int32(geti(name)) }
func I64(name string) int64   { return int64(geti(name)) }
func Int(name string) int     { return int(geti(name)) }
func Bool(name string) bool   { return geti(name) == 1 }
func F32(name string) float32 { return math.Float32frombits(uint32(geti(name))) }
func F64(name string) float64 { return math.Float64frombits(geti(name)) }

// Choose is a case split: every value 0..n-1 is explored as its own path.
func Choose(name string, n int) int { return int(geti(name)) }

// Concrete forks over the feasible values of x.
func Concrete(x int) int { return x }

// Bytes gives n unconstrained bytes.
func Bytes(name string, n int) []byte { return getb(name, n) }

// BytesCap gives n unconstrained bytes backed by an array of c unconstrained bytes.
func BytesCap(name string, n, c int) []byte { return getb(name, c)[:n] }

// BigBytes gives between 0 and max unconstrained bytes; the length is symbolic.
func BigBytes(name string, max int) []byte {
	n := nm(name)
	m, ok := cur.Big[n]
	if !ok {
		res.Missing = append(res.Missing, n)
		return nil
	}
	b := make([]byte, m["len"])
	for k, v := range m {
		var i uint64
		if _, err := fmt.Sscan(k, &i); err == nil && i < uint64(len(b)) {
			b[i] = byte(v)
		}
	}
	return b
}

// Str gives an unconstrained string of n bytes.
func Str(name string, n int) string { return string(getb(name, n)) }

// StrAlphabet gives a string of n bytes out of alphabet.
func StrAlphabet(name string, n int, alphabet string) string { return string(getb(name, n)) }

// Assume restricts the explored inputs.
func Assume(c bool) {
	if !c {
		res.Excluded = true
		panic(stop{})
	}
}

// Assert states the property.
func Assert(c bool, label string) {
	if c {
		res.Passed++
		return
	}
	res.Failed = append(res.Failed, label)
}

// Known states a condition whose failure is a recorded finding.
func Known(c bool, id string) { Assert(c, "known:"+id) }

// Reach records that a point was reached.
func Reach(label string) { res.Reached[label] = true }

// Tier is 0 for quick and 1 for thorough runs.
func Tier() int { return cur.Tier }

// Observe records a value, to compare native runs with the symbolic execution.
func Observe(name string, v interface{}) {
	r := reflect.ValueOf(v)
	switch r.Kind() {
	case reflect.Bool:
		o := ObservedVal{Name: name, Kind: "int"}
		if r.Bool() {
			o.Int = 1
		}
		res.Observed = append(res.Observed, o)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		res.Observed = append(res.Observed, ObservedVal{Name: name, Kind: "int", Int: uint64(r.Int()) & mask(r.Type().Size())})
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		res.Observed = append(res.Observed, ObservedVal{Name: name, Kind: "int", Int: r.Uint()})
	case reflect.Float32:
		res.Observed = append(res.Observed, ObservedVal{Name: name, Kind: "f32", Int: uint64(math.Float32bits(float32(r.Float())))})
	case reflect.Float64:
		res.Observed = append(res.Observed, ObservedVal{Name: name, Kind: "f64", Int: math.Float64bits(r.Float())})
	case reflect.String:
		res.Observed = append(res.Observed, ObservedVal{Name: name, Kind: "bytes", Data: []byte(r.String())})
	case reflect.Slice:
		if b, ok := v.([]byte); ok && len(b) <= 4096 {
			res.Observed = append(res.Observed, ObservedVal{Name: name, Kind: "bytes", Data: append([]byte(nil), b...)})
		}
	}
}

func mask(n uintptr) uint64 {
	if n >= 8 {
		return ^uint64(0)
	}
	return 1<<(8*n) - 1
}

// And, Or and Not combine conditions without splitting paths.
func And(cs ...bool) bool {
	for _, c := range cs {
		if !c {
			return false
		}
	}
	return true
}

func Or(cs ...bool) bool {
	for _, c := range cs {
		if c {
			return true
		}
	}
	return false
}

func Not(c bool) bool { return !c }

// IteInt selects without splitting paths.
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// BytesEq and StrEq compare without splitting paths.
func BytesEq(a, b []byte) bool { return string(a) == string(b) }
func StrEq(a, b string) bool   { return a == b }

// DeepEqual is structural equality; nil and empty slices and maps are equal, floats are compared by bits.
func DeepEqual(a, b interface{}) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return deep(reflect.ValueOf(a), reflect.ValueOf(b))
}

func deep(a, b reflect.Value) bool {
	if !a.IsValid() || !b.IsValid() {
		return a.IsValid() == b.IsValid()
	}
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Float32:
		return math.Float32bits(float32(a.Float())) == math.Float32bits(float32(b.Float())) || a.Float() != a.Float() && b.Float() != b.Float()
	case reflect.Float64:
		return math.Float64bits(a.Float()) == math.Float64bits(b.Float()) || a.Float() != a.Float() && b.Float() != b.Float()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() == b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() == b.Uint()
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.String:
		return a.String() == b.String()
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !deep(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Array, reflect.Slice:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !deep(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Ptr, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return deep(a.Elem(), b.Elem())
	case reflect.Map:
		if a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			y := b.MapIndex(k)
			if !y.IsValid() || !deep(a.MapIndex(k), y) {
				return false
			}
		}
		return true
	case reflect.Func:
		return a.IsNil() && b.IsNil()
	}
	return false
}

// Race runs two operations at the same time; the symbolic engine runs one after the other and asserts
// that no schedule lets them access the same memory at the same time. Neither may call this package.
func Race(a, b func()) {
	raced++
	turn := raced % 2
	gate := make(chan bool)
	var ps [2]interface{}
	done := make(chan bool)
	fs := []func(){a, b}
	for k := range fs {
		i := k ^ turn
		f := fs[i]
		go func(i int, f func()) {
			defer func() {
				ps[i] = recover()
				done <- true
			}()
			<-gate
			f()
		}(i, f)
	}
	close(gate)
	<-done
	<-done
	for _, p := range ps {
		if p != nil {
			panic(p)
		}
	}
}

// AllocLimit starts bounding the memory that is allocated.
func AllocLimit(n int) {
	limit = uint64(n)
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	alloc = m.TotalAlloc
}

// AllocEnd ends the accounting. Native allocations carry overhead the symbolic count does not have.
func AllocEnd() {
	if limit == 0 {
		return
	}
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	if m.TotalAlloc-alloc > 4*limit+(4<<20) {
		res.Failed = append(res.Failed, "allocation bounded by the data that is present")
	}
	limit = 0
}

// HasPrefix is strings.HasPrefix, for labels.
func HasPrefix(s, p string) bool { return strings.HasPrefix(s, p) }

// Tree lists everything below a directory, sorted; names of directories end in a slash.
func Tree(dir string) []string {
	var l []string
	filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err == nil && p != dir {
			n := strings.TrimPrefix(p, dir+"/")
			if d.IsDir() {
				n += "/"
			}
			l = append(l, n)
		}
		return nil
	})
	sort.Strings(l)
	return l
}

// OpenFiles counts the open files below a directory.
func OpenFiles(dir string) int {
	n := 0
	es, _ := os.ReadDir("/proc/self/fd")
	for _, e := range es {
		if p, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(p, dir+"/") {
			n++
		}
	}
	return n
}
