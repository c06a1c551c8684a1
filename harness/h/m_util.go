package h

import (
	"image/color"
	"math"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/modeler"
	"github.com/qmuntal/gltf/zzverif/sym"
)

// The typed read helpers.

const (
	rdIndices = iota
	rdNormal
	rdTangent
	rdTexCoord
	rdWeights
	rdJoints
	rdPosition
	rdColor
	rdColor64
	rdMatrices
	rdAccessor
	nReaders
)

// readerKinds lists the accessor kinds a helper accepts.
func readerKinds(r int) []kind {
	switch r {
	case rdIndices:
		return []kind{{comp: cUbyte, sh: shScalar}, {comp: cUshort, sh: shScalar}, {comp: cUint, sh: shScalar}}
	case rdNormal, rdPosition:
		return []kind{{comp: cFloat, sh: shVec3}}
	case rdTangent:
		return []kind{{comp: cFloat, sh: shVec4}}
	case rdTexCoord:
		return []kind{{comp: cUbyte, sh: shVec2}, {comp: cUshort, sh: shVec2}, {comp: cFloat, sh: shVec2}}
	case rdWeights:
		return []kind{{comp: cUbyte, sh: shVec4}, {comp: cUshort, sh: shVec4}, {comp: cFloat, sh: shVec4}}
	case rdJoints:
		return []kind{{comp: cUbyte, sh: shVec4}, {comp: cUshort, sh: shVec4}}
	case rdColor, rdColor64:
		return []kind{{comp: cUbyte, sh: shVec3}, {comp: cUbyte, sh: shVec4}, {comp: cUshort, sh: shVec3}, {comp: cUshort, sh: shVec4},
			{comp: cFloat, sh: shVec3}, {comp: cFloat, sh: shVec4}}
	case rdMatrices:
		return []kind{{comp: cFloat, sh: shMat4}}
	}
	ks := make([]kind, 0, nComps*nShapes)
	for i := 0; i < nComps*nShapes; i++ {
		ks = append(ks, kindOf(i))
	}
	return ks
}

// outKind is the kind of the slice a helper returns for an accessor kind.
func outKind(r int, k kind) kind {
	switch r {
	case rdIndices:
		return kind{comp: cUint, sh: shScalar}
	case rdTexCoord:
		return kind{comp: cFloat, sh: shVec2}
	case rdWeights:
		return kind{comp: cFloat, sh: shVec4}
	case rdJoints:
		return kind{comp: cUshort, sh: shVec4}
	case rdColor:
		return kind{comp: cUbyte, sh: shVec4}
	case rdColor64:
		return kind{comp: cUshort, sh: shVec4}
	}
	return kind{comp: k.comp, sh: k.sh}
}

// reuse describes the buffer handed to a reader: nil, or a dirty one of some length and capacity (in elements).
type reuse struct {
	isNil    bool
	len, cap int
}

// reuseFor picks among nil, empty, shorter, exact and longer reuse buffers for n elements.
func reuseFor(choice, n int) reuse {
	switch choice {
	case 0:
		return reuse{isNil: true}
	case 1:
		return reuse{false, n + 2, n + 3}
	case 2:
		return reuse{false, n / 2, n/2 + 1}
	case 3:
		return reuse{false, 0, n + 1}
	}
	return reuse{false, n, n}
}

const nReuse = 5

// readWith calls helper r and returns the data as it was returned.
func readWith(r int, doc *gltf.Document, acr *gltf.Accessor, ru reuse) (interface{}, error) {
	switch r {
	case rdIndices:
		var b []uint32
		if !ru.isNil {
			b = symSlice("reuse", cUint, shScalar, ru.cap).([]uint32)[:ru.len]
		}
		return modeler.ReadIndices(doc, acr, b)
	case rdNormal, rdPosition:
		var b [][3]float32
		if !ru.isNil {
			b = symSlice("reuse", cFloat, shVec3, ru.cap).([][3]float32)[:ru.len]
		}
		if r == rdNormal {
			return modeler.ReadNormal(doc, acr, b)
		}
		return modeler.ReadPosition(doc, acr, b)
	case rdTangent, rdWeights:
		var b [][4]float32
		if !ru.isNil {
			b = symSlice("reuse", cFloat, shVec4, ru.cap).([][4]float32)[:ru.len]
		}
		if r == rdTangent {
			return modeler.ReadTangent(doc, acr, b)
		}
		return modeler.ReadWeights(doc, acr, b)
	case rdTexCoord:
		var b [][2]float32
		if !ru.isNil {
			b = symSlice("reuse", cFloat, shVec2, ru.cap).([][2]float32)[:ru.len]
		}
		return modeler.ReadTextureCoord(doc, acr, b)
	case rdJoints, rdColor64:
		var b [][4]uint16
		if !ru.isNil {
			b = symSlice("reuse", cUshort, shVec4, ru.cap).([][4]uint16)[:ru.len]
		}
		if r == rdJoints {
			return modeler.ReadJoints(doc, acr, b)
		}
		return modeler.ReadColor64(doc, acr, b)
	case rdColor:
		var b [][4]uint8
		if !ru.isNil {
			b = symSlice("reuse", cUbyte, shVec4, ru.cap).([][4]uint8)[:ru.len]
		}
		return modeler.ReadColor(doc, acr, b)
	case rdMatrices:
		var b [][4][4]float32
		if !ru.isNil {
			b = symSlice("reuse", cFloat, shMat4, ru.cap).([][4][4]float32)[:ru.len]
		}
		return modeler.ReadInverseBindMatrices(doc, acr, b)
	}
	var b []byte
	if !ru.isNil {
		// lengths in bytes; one element of slack so that odd remainders occur too
		es := nComponents(shapeIndex(acr.Type)) * compSize[compIndex(acr.ComponentType)]
		c := ru.cap*es + 1
		b = sym.Bytes("reuse", c)[:ru.len*es]
	}
	return modeler.ReadAccessor(doc, acr, b)
}

// convert gives the documented result of helper r for elements of kind k.
func convert(r int, k kind, in []uint64) []uint64 {
	nc := nComponents(k.sh)
	var out []uint64
	switch r {
	case rdTexCoord, rdWeights:
		if k.comp == cFloat {
			return in
		}
		for _, v := range in {
			if k.comp == cUbyte {
				out = append(out, bitsF32(float32(uint8(v))/255))
			} else {
				out = append(out, bitsF32(float32(uint16(v))/65535))
			}
		}
		return out
	case rdColor64:
		for i := 0; i < len(in); i += nc {
			if k.comp == cFloat {
				var c [4]uint16
				if nc == 4 {
					c = gltf.NormalizeRGBA64([4]float32{f32(in[i]), f32(in[i+1]), f32(in[i+2]), f32(in[i+3])})
				} else {
					x := gltf.NormalizeRGB64([3]float32{f32(in[i]), f32(in[i+1]), f32(in[i+2])})
					c = [4]uint16{x[0], x[1], x[2], 65535}
				}
				out = append(out, uint64(c[0]), uint64(c[1]), uint64(c[2]), uint64(c[3]))
				continue
			}
			for j := 0; j < nc; j++ {
				v := in[i+j]
				if k.comp == cUbyte {
					v = v * 257
				}
				out = append(out, v)
			}
			if nc == 3 {
				out = append(out, 65535)
			}
		}
		return out
	case rdColor:
		for i := 0; i < len(in); i += nc {
			if k.comp == cFloat {
				var c [4]uint8
				if nc == 4 {
					c = gltf.NormalizeRGBA([4]float32{f32(in[i]), f32(in[i+1]), f32(in[i+2]), f32(in[i+3])})
				} else {
					x := gltf.NormalizeRGB([3]float32{f32(in[i]), f32(in[i+1]), f32(in[i+2])})
					c = [4]uint8{x[0], x[1], x[2], 255}
				}
				out = append(out, uint64(c[0]), uint64(c[1]), uint64(c[2]), uint64(c[3]))
				continue
			}
			for j := 0; j < nc; j++ {
				out = append(out, in[i+j])
			}
			if nc == 3 {
				if k.comp == cUbyte {
					out = append(out, 255)
				} else {
					out = append(out, 65535)
				}
			}
		}
		return out
	}
	return in
}

func f32(bits uint64) float32 { return math.Float32frombits(uint32(bits)) }

// narrow16 tells whether every got byte is a faithful 8-bit version of the 16-bit channel: v/257 rounded either way.
func narrow16(got, v []uint64) bool {
	r := true
	for i := range got {
		r = sym.And(r, sym.Or(got[i] == v[i]/257, got[i] == (v[i]+256)/257, got[i] == v[i]>>8))
	}
	return r
}

func low8(got, v []uint64) bool {
	r := true
	for i := range got {
		r = sym.And(r, got[i] == v[i]&255)
	}
	return r
}

// checkRead asserts that helper r reads exactly the elements (component bits of kind k) from acr.
func checkRead(r int, doc *gltf.Document, acr *gltf.Accessor, k kind, bits []uint64, n int, ru reuse) interface{} {
	got, err := readWith(r, doc, acr, ru)
	sym.Assert(err == nil, "reading a well-formed accessor succeeds")
	if err != nil {
		return nil
	}
	ok := outKind(r, k)
	gb, typeOK := ok.flatten(got)
	sym.Assert(typeOK, "the result has the documented type")
	sym.Assert(len(gb) == n*nComponents(ok.sh), "the result has exactly the accessor's number of elements")
	if len(gb) != n*nComponents(ok.sh) {
		return got
	}
	want := convert(r, k, bits)
	if r == rdColor && k.comp == cUshort {
		sym.Assert(sym.Or(narrow16(gb, want), low8(gb, want)), "16-bit colors are read in order")
		return got
	}
	sym.Assert(eqBits(gb, want), "the elements are exactly those the document describes")
	return got
}

// scribble overwrites a slice returned by a reader.
func scribble(data interface{}) {
	switch s := data.(type) {
	case []uint32:
		for i := range s {
			s[i] = 0xdeadbeef
		}
	case [][2]float32:
		for i := range s {
			s[i] = [2]float32{-7, -7}
		}
	case [][3]float32:
		for i := range s {
			s[i] = [3]float32{-7, -7, -7}
		}
	case [][4]float32:
		for i := range s {
			s[i] = [4]float32{-7, -7, -7, -7}
		}
	case [][4]uint16:
		for i := range s {
			s[i] = [4]uint16{0xdead, 0xdead, 0xdead, 0xdead}
		}
	case [][4]uint8:
		for i := range s {
			s[i] = [4]uint8{0xde, 0xad, 0xde, 0xad}
		}
	case [][4][4]float32:
		for i := range s {
			s[i][1][2] = -7
		}
	case []uint8:
		for i := range s {
			s[i] = 0xde
		}
	case []float32:
		for i := range s {
			s[i] = -7
		}
	case []int8:
		for i := range s {
			s[i] = -7
		}
	case []int16:
		for i := range s {
			s[i] = -7
		}
	case []uint16:
		for i := range s {
			s[i] = 0xdead
		}
	case [][2]uint8:
		for i := range s {
			s[i] = [2]uint8{0xde, 0xad}
		}
	case [][3]uint16:
		for i := range s {
			s[i] = [3]uint16{0xdead, 0xdead, 0xdead}
		}
	}
}

func toColor(k kind) bool { return k.color != 0 }

var _ = color.RGBA{}

// ---- document snapshots ----

type bufSnap struct {
	ptr  *gltf.Buffer
	name string
	uri  string
	n    int
	data []byte
}
type viewSnap struct {
	ptr *gltf.BufferView
	v   gltf.BufferView
}
type acrSnap struct {
	ptr        *gltf.Accessor
	v          gltf.Accessor
	view       int
	min, max   []float64
	hasView    bool
	hasSparse  bool
	sparse     gltf.Sparse
	nMin, nMax int
}
type docSnap struct {
	bufs   []bufSnap
	views  []viewSnap
	acrs   []acrSnap
	images int
}

func snapDoc(d *gltf.Document) *docSnap {
	s := &docSnap{images: len(d.Images)}
	for _, b := range d.Buffers {
		s.bufs = append(s.bufs, bufSnap{b, b.Name, b.URI, b.ByteLength, clone(b.Data)})
	}
	for _, v := range d.BufferViews {
		s.views = append(s.views, viewSnap{v, *v})
	}
	for _, a := range d.Accessors {
		x := acrSnap{ptr: a, v: *a}
		if a.BufferView != nil {
			x.hasView, x.view = true, *a.BufferView
		}
		if a.Sparse != nil {
			x.hasSparse, x.sparse = true, *a.Sparse
		}
		x.min = append(x.min, a.Min...)
		x.max = append(x.max, a.Max...)
		s.acrs = append(s.acrs, x)
	}
	return s
}

func sameFloats(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = sym.And(r, math.Float64bits(a[i]) == math.Float64bits(b[i]))
	}
	return r
}

func sameAccessor(a *gltf.Accessor, x acrSnap) bool {
	if a != x.ptr || (a.BufferView != nil) != x.hasView || (a.Sparse != nil) != x.hasSparse {
		return false
	}
	r := sym.And(a.ByteOffset == x.v.ByteOffset, a.ComponentType == x.v.ComponentType, a.Type == x.v.Type, a.Count == x.v.Count,
		a.Normalized == x.v.Normalized, a.Name == x.v.Name, sameFloats(a.Min, x.min), sameFloats(a.Max, x.max))
	if x.hasView {
		r = sym.And(r, *a.BufferView == x.view)
	}
	if x.hasSparse {
		r = sym.And(r, a.Sparse.Count == x.sparse.Count, a.Sparse.Indices.BufferView == x.sparse.Indices.BufferView, a.Sparse.Indices.ByteOffset == x.sparse.Indices.ByteOffset,
			a.Sparse.Indices.ComponentType == x.sparse.Indices.ComponentType, a.Sparse.Values.BufferView == x.sparse.Values.BufferView, a.Sparse.Values.ByteOffset == x.sparse.Values.ByteOffset)
	}
	return r
}

func sameView(v *gltf.BufferView, x viewSnap) bool {
	return v == x.ptr && sym.And(v.Buffer == x.v.Buffer, v.ByteOffset == x.v.ByteOffset, v.ByteLength == x.v.ByteLength, v.ByteStride == x.v.ByteStride,
		v.Target == x.v.Target, v.Name == x.v.Name)
}

// unchanged tells whether everything recorded in the snapshot is still there, as it was. The last buffer's data may
// have been extended when grow is set.
func (s *docSnap) unchanged(d *gltf.Document, grow bool) bool {
	if len(d.Buffers) < len(s.bufs) || len(d.BufferViews) < len(s.views) || len(d.Accessors) < len(s.acrs) || len(d.Images) < s.images {
		return false
	}
	if !grow && (len(d.Buffers) > len(s.bufs) || len(d.BufferViews) > len(s.views) || len(d.Accessors) > len(s.acrs) || len(d.Images) > s.images) {
		return false
	}
	r := true
	for i, x := range s.bufs {
		b := d.Buffers[i]
		if b != x.ptr || b.Name != x.name || b.URI != x.uri {
			return false
		}
		if grow && i == len(s.bufs)-1 {
			if len(b.Data) < len(x.data) {
				return false
			}
			r = sym.And(r, sym.BytesEq(b.Data[:len(x.data)], x.data))
			continue
		}
		if len(b.Data) != len(x.data) {
			return false
		}
		r = sym.And(r, b.ByteLength == x.n, sym.BytesEq(b.Data, x.data))
	}
	for i, x := range s.views {
		r = sym.And(r, sameView(d.BufferViews[i], x))
	}
	for i, x := range s.acrs {
		r = sym.And(r, sameAccessor(d.Accessors[i], x))
	}
	return r
}
