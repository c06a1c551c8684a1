package h

import (
	"bytes"
	"errors"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/modeler"
	"github.com/qmuntal/gltf/zzverif/sym"
)

// The modeler's write helpers.

const (
	wrIndices = iota
	wrNormal
	wrTangent
	wrTexCoord
	wrWeights
	wrJoints
	wrPosition
	wrColor
	wrMatrices
	wrRaw
	nWriters
)

func writerKinds(w int) []kind {
	switch w {
	case wrIndices:
		return []kind{{comp: cUshort, sh: shScalar}, {comp: cUint, sh: shScalar}}
	case wrNormal, wrPosition:
		return []kind{{comp: cFloat, sh: shVec3}}
	case wrTangent:
		return []kind{{comp: cFloat, sh: shVec4}}
	case wrTexCoord:
		return []kind{{comp: cUbyte, sh: shVec2}, {comp: cUshort, sh: shVec2}, {comp: cFloat, sh: shVec2}}
	case wrWeights:
		return []kind{{comp: cUbyte, sh: shVec4}, {comp: cUshort, sh: shVec4}, {comp: cFloat, sh: shVec4}}
	case wrJoints:
		return []kind{{comp: cUbyte, sh: shVec4}, {comp: cUshort, sh: shVec4}}
	case wrColor:
		return []kind{{comp: cUbyte, sh: shVec3}, {comp: cUbyte, sh: shVec4}, {comp: cUshort, sh: shVec3}, {comp: cUshort, sh: shVec4},
			{comp: cFloat, sh: shVec3}, {comp: cFloat, sh: shVec4}, {cUbyte, shVec4, 1}, {cUshort, shVec4, 2}}
	case wrMatrices:
		return []kind{{comp: cFloat, sh: shMat4}}
	}
	ks := make([]kind, 0, nKinds)
	for i := 0; i < nKinds; i++ {
		ks = append(ks, kindOf(i))
	}
	return ks
}

// readersOf lists the read helpers matching a writer.
func readersOf(w int) []int {
	switch w {
	case wrIndices:
		return []int{rdIndices, rdAccessor}
	case wrNormal:
		return []int{rdNormal, rdAccessor}
	case wrTangent:
		return []int{rdTangent, rdAccessor}
	case wrTexCoord:
		return []int{rdTexCoord, rdAccessor}
	case wrWeights:
		return []int{rdWeights, rdAccessor}
	case wrJoints:
		return []int{rdJoints, rdAccessor}
	case wrPosition:
		return []int{rdPosition, rdAccessor}
	case wrColor:
		return []int{rdColor, rdColor64, rdAccessor}
	case wrMatrices:
		return []int{rdMatrices, rdAccessor}
	}
	return []int{rdAccessor}
}

func writerNorm(w int, k kind) bool {
	return (w == wrTexCoord || w == wrWeights || w == wrColor) && k.comp != cFloat
}

func writerTarget(w int) gltf.Target {
	if w == wrIndices {
		return gltf.TargetElementArrayBuffer
	}
	return gltf.TargetArrayBuffer
}

func writeWith(w int, doc *gltf.Document, target gltf.Target, data interface{}) int {
	switch w {
	case wrIndices:
		return modeler.WriteIndices(doc, data)
	case wrNormal:
		return modeler.WriteNormal(doc, data.([][3]float32))
	case wrTangent:
		return modeler.WriteTangent(doc, data.([][4]float32))
	case wrTexCoord:
		return modeler.WriteTextureCoord(doc, data)
	case wrWeights:
		return modeler.WriteWeights(doc, data)
	case wrJoints:
		return modeler.WriteJoints(doc, data)
	case wrPosition:
		return modeler.WritePosition(doc, data.([][3]float32))
	case wrColor:
		return modeler.WriteColor(doc, data)
	case wrMatrices:
		return modeler.WriteInverseBindMatrices(doc, data.([][4][4]float32))
	}
	return modeler.WriteAccessor(doc, target, data)
}

// ---- documents before the write ----

const nPre = 9

// preDoc builds one of several well-formed documents: empty, with buffers of all lengths modulo four, with dirty spare
// capacity, with earlier accessors.
func preDoc(choice int) *gltf.Document {
	doc := &gltf.Document{}
	add := func(n, c int) {
		doc.Buffers = append(doc.Buffers, &gltf.Buffer{ByteLength: n, Data: sym.BytesCap("pre", n, c)})
	}
	switch choice {
	case 0:
	case 1:
		doc.Buffers = []*gltf.Buffer{{Name: "empty"}}
	case 2:
		add(1, 1)
	case 3:
		add(2, 40)
	case 4:
		add(3, 4)
	case 5:
		add(4, 9)
	case 6:
		add(7, 200)
	case 7:
		add(6, 6)
		add(5, 5)
		doc.Buffers[0].URI = "a.bin"
		doc.BufferViews = []*gltf.BufferView{{Buffer: 0, ByteOffset: 1, ByteLength: 5, Name: "v"}}
		doc.Accessors = []*gltf.Accessor{{BufferView: gltf.Index(0), Count: 5, ComponentType: gltf.ComponentUbyte, Min: []float64{1}, Max: []float64{2}, Normalized: true}}
		doc.Images = []*gltf.Image{{Name: "i"}}
	default:
		add(13, 16)
		doc.BufferViews = []*gltf.BufferView{{Buffer: 0, ByteOffset: 0, ByteLength: 12, ByteStride: 6}, {Buffer: 0, ByteOffset: 12, ByteLength: 1}}
		doc.Accessors = []*gltf.Accessor{{Name: "x", BufferView: gltf.Index(0), ByteOffset: 2, Count: 2, ComponentType: gltf.ComponentShort, Type: gltf.AccessorVec2}, {Count: 3}}
	}
	return doc
}

// wellFormed tells whether buffers, views and accessors fit together.
func wellFormed(doc *gltf.Document) bool {
	for _, b := range doc.Buffers {
		if b == nil || b.ByteLength != len(b.Data) {
			return false
		}
	}
	for _, v := range doc.BufferViews {
		if v == nil || v.Buffer < 0 || v.Buffer >= len(doc.Buffers) || v.ByteOffset < 0 || v.ByteLength < 0 || v.ByteOffset+v.ByteLength > len(doc.Buffers[v.Buffer].Data) {
			return false
		}
	}
	for _, a := range doc.Accessors {
		if a == nil || a.Count < 0 || a.ByteOffset < 0 {
			return false
		}
		if a.BufferView != nil && (*a.BufferView < 0 || *a.BufferView >= len(doc.BufferViews)) {
			return false
		}
	}
	return true
}

// written describes one accessor a write is expected to have added.
type written struct {
	acr    int
	k      kind
	bits   []uint64
	n      int
	norm   bool
	target gltf.Target
}

// checkWritten asserts that the accessor describes the data and that the data is where the accessor says.
func checkWritten(doc *gltf.Document, w written) {
	sym.Assert(w.acr >= 0 && w.acr < len(doc.Accessors), "the returned index is an accessor of the document")
	a := doc.Accessors[w.acr]
	sym.Assert(a.ComponentType == compType[w.k.comp] && a.Type == accType[w.k.sh], "the accessor has the type of the data")
	sym.Assert(a.Count == w.n, "the accessor counts the elements of the data")
	sym.Assert(a.Normalized == w.norm, "the normalized flag describes the data")
	sym.Assert(a.BufferView != nil && a.Sparse == nil, "the accessor refers to a buffer view")
	if a.BufferView == nil {
		return
	}
	v := doc.BufferViews[*a.BufferView]
	sym.Assert(v.Target == w.target, "the buffer view has the target of the data")
	sym.Assert((v.ByteOffset+a.ByteOffset)%4 == 0, "accessor data starts on a 4-byte boundary")
	stride := v.ByteStride
	if stride == 0 {
		stride = w.k.size()
	}
	sym.Assert(w.n < 2 || stride >= w.k.size(), "elements do not overlap")
	sym.Assert(w.n == 0 || a.ByteOffset+(w.n-1)*stride+w.k.size() <= v.ByteLength, "the accessor fits in its buffer view")
	if w.n > 0 {
		d := doc.Buffers[v.Buffer].Data
		got := w.k.decodeAt(d[v.ByteOffset+a.ByteOffset:], stride, w.n)
		sym.Assert(eqBits(got, w.bits), "the buffer holds the data")
	}
}

// checkWrite asserts everything M01 says about one write that added nv views, na accessors and ni images.
func checkWrite(doc *gltf.Document, s *docSnap, nv, na, ni int, ws []written) {
	nb := len(s.bufs)
	if nb == 0 {
		nb = 1
	}
	sym.Assert(len(doc.Buffers) == nb, "data goes to the last buffer")
	sym.Assert(len(doc.BufferViews) == len(s.views)+nv && len(doc.Accessors) == len(s.acrs)+na && len(doc.Images) == s.images+ni, "exactly the new entries are appended")
	sym.Assert(wellFormed(doc), "buffers, views and accessors fit together")
	sym.Assert(s.unchanged(doc, true), "what was in the document before is unchanged")
	for _, w := range ws {
		checkWritten(doc, w)
	}
}

// errReader fails after some bytes.
type errReader struct {
	data []byte
	fail bool
}

var errTest = errors.New("test")

func (r *errReader) Read(p []byte) (int, error) {
	if len(r.data) == 0 {
		if r.fail {
			return 0, errTest
		}
		return 0, errEOF
	}
	n := copy(p, r.data[:1+len(r.data)/2])
	r.data = r.data[n:]
	return n, nil
}

var errEOF = bytesEOF()

func bytesEOF() error {
	_, err := bytes.NewReader(nil).Read(make([]byte, 1))
	return err
}
