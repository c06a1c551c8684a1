package h

import (
	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/modeler"
	"github.com/qmuntal/gltf/zzverif/sym"
)

// Malformed documents: every integer is an unconstrained 64-bit value.

const m05Buf = 24

func symView() *gltf.BufferView {
	return &gltf.BufferView{Buffer: sym.Int("buffer"), ByteOffset: sym.Int("offset"), ByteLength: sym.Int("length"), ByteStride: sym.Int("stride")}
}

func symBuffers(max int) []*gltf.Buffer {
	n := sym.Choose("buffers", 3)
	var bs []*gltf.Buffer
	for i := 0; i < n; i++ {
		if sym.Choose("null", 2) == 1 {
			bs = append(bs, nil)
			continue
		}
		bs = append(bs, &gltf.Buffer{ByteLength: sym.Int("byteLength"), Data: sym.BigBytes("data", max)})
	}
	return bs
}

func M05_View() {
	doc := &gltf.Document{Buffers: symBuffers(1 << 20)}
	v := symView()
	sym.AllocLimit(4096)
	b, err := modeler.ReadBufferView(doc, v)
	sym.AllocEnd()
	if err != nil {
		sym.Reach("error")
		return
	}
	sym.Assert(sym.And(v.Buffer >= 0, v.Buffer < len(doc.Buffers)), "a dangling buffer index is an error")
	i := sym.Concrete(v.Buffer)
	sym.Assert(doc.Buffers[i] != nil, "a missing buffer is an error")
	d := doc.Buffers[i].Data
	sym.Assert(len(b) == v.ByteLength, "exactly the bytes of the view")
	sym.Assert(sym.And(v.ByteOffset >= 0, v.ByteLength >= 0, v.ByteOffset <= len(d), v.ByteLength <= len(d)-v.ByteOffset), "the view lies inside the buffer")
	if len(b) > 0 {
		p := sym.Int("probe")
		sym.Assume(p >= 0)
		sym.Assume(p < len(b))
		sym.Assert(b[p] == d[v.ByteOffset+p], "the bytes are those of the view")
	}
	sym.Reach("ok")
}

// M05_Missing: null entries in the lists.
func M05_Missing() {
	doc := &gltf.Document{Buffers: symBuffers(8)}
	nv := sym.Choose("views", 3)
	for i := 0; i < nv; i++ {
		if sym.Choose("nullView", 2) == 1 {
			doc.BufferViews = append(doc.BufferViews, nil)
		} else {
			doc.BufferViews = append(doc.BufferViews, &gltf.BufferView{Buffer: sym.Int("buffer"), ByteLength: 4})
		}
	}
	a := &gltf.Accessor{BufferView: gltf.Index(sym.Int("view")), Count: 1, ComponentType: gltf.ComponentUbyte, Type: gltf.AccessorScalar}
	if sym.Choose("sparse", 2) == 1 {
		a.BufferView = nil
		a.Sparse = &gltf.Sparse{Count: 1, Indices: gltf.SparseIndices{BufferView: sym.Int("idxView"), ComponentType: gltf.ComponentUbyte}, Values: gltf.SparseValues{BufferView: sym.Int("valView")}}
	}
	if nv == 2 && sym.Choose("viewErr", 2) == 1 {
		modeler.ReadBufferView(doc, doc.BufferViews[0])
	}
	_, err := modeler.ReadAccessor(doc, a, nil)
	if err == nil {
		sym.Reach("ok")
	} else {
		sym.Reach("error")
	}
}

func symAccessor(k kind) *gltf.Accessor {
	return &gltf.Accessor{ByteOffset: sym.Int("acrOffset"), Count: sym.Int("count"), ComponentType: compType[k.comp], Type: accType[k.sh]}
}

// within asserts that a successful dense read stayed inside the view.
func within(doc *gltf.Document, a *gltf.Accessor, v *gltf.BufferView, k kind, n int) {
	sym.Assert(n == a.Count, "as many elements as the accessor declares")
	sym.Assert(sym.And(v.ByteOffset >= 0, v.ByteLength >= 0, a.ByteOffset >= 0, a.ByteOffset <= v.ByteLength), "offsets outside the view are errors")
	d := doc.Buffers[0].Data
	sym.Assert(sym.And(v.ByteOffset <= len(d), v.ByteLength <= len(d)-v.ByteOffset), "the view lies inside the buffer")
	if n > 0 {
		eff := sym.IteInt(v.ByteStride == 0, k.size(), v.ByteStride)
		room := v.ByteLength - a.ByteOffset - k.size()
		sym.Assert(room >= 0, "no byte outside the view is returned")
		if n > 1 {
			sym.Assert(sym.And(eff >= 0, eff <= room, eff*(n-1) <= room), "no byte outside the view is returned")
		}
	}
}

var m05Kinds = []kind{{comp: cUbyte, sh: shScalar}, {comp: cFloat, sh: shVec3}, {comp: cUshort, sh: shVec3}, {comp: cByte, sh: shMat2}, {comp: cUint, sh: shScalar}, {comp: cUbyte, sh: shVec2}, {comp: cFloat, sh: shMat4}, {comp: cShort, sh: shMat3}}

func M05_Dense() {
	k := m05Kinds[sym.Choose("kind", len(m05Kinds))]
	doc := &gltf.Document{Buffers: []*gltf.Buffer{{ByteLength: sym.Int("byteLength"), Data: sym.BigBytes("data", m05Buf)}}}
	v := symView()
	sym.Assume(v.Buffer == 0)
	doc.BufferViews = []*gltf.BufferView{v}
	a := symAccessor(k)
	a.BufferView = gltf.Index(0)
	var reuse []byte
	if sym.Choose("reuse", 2) == 1 {
		reuse = sym.BytesCap("reuse", 3, 9)
	}
	sym.AllocLimit(64*m05Buf + 4096)
	got, err := modeler.ReadAccessor(doc, a, reuse)
	sym.AllocEnd()
	if err != nil {
		sym.Reach("error")
		return
	}
	bits, ok := k.flatten(got)
	sym.Assert(ok, "the result has the accessor's type")
	within(doc, a, v, k, len(bits)/nComponents(k.sh))
	sym.Reach("ok")
}

// M05_HugeCount: no element can be allocated before the view is known to hold it, for any kind.
func M05_HugeCount() {
	r := sym.Choose("reader", nReaders)
	ks := readerKinds(r)
	k := ks[sym.Choose("kind", len(ks))]
	a := symAccessor(k)
	sym.Assume(sym.Or(a.Count > 64, a.Count < 0))
	doc := &gltf.Document{Buffers: []*gltf.Buffer{{ByteLength: 8, Data: sym.Bytes("data", 8)}}, BufferViews: []*gltf.BufferView{symView()}}
	a.BufferView = gltf.Index(sym.Int("view"))
	sym.AllocLimit(8192)
	_, err := readWith(r, doc, a, reuse{isNil: true})
	sym.AllocEnd()
	sym.Assert(err != nil, "more elements than the buffer has bytes are an error")
	sym.Reach("error")
}

// M05_NoView: without a buffer view the accessor has Count zero elements; counts no memory can hold are errors.
func M05_NoView() {
	r := sym.Choose("reader", nReaders)
	ks := readerKinds(r)
	k := ks[sym.Choose("kind", len(ks))]
	a := symAccessor(k)
	sym.Assume(sym.Or(a.Count < 4, a.Count > 1<<44))
	_, err := readWith(r, &gltf.Document{}, a, reuse{isNil: true})
	sym.Assert((err == nil) == sym.And(a.Count >= 0, a.Count < 4), "counts that cannot exist are errors")
	sym.Reach("done")
}

// M05_Codes: any component and accessor type code with every reader.
func M05_Codes() {
	r := sym.Choose("reader", nReaders)
	a := &gltf.Accessor{ComponentType: gltf.ComponentType(sym.U16("c")), Type: gltf.AccessorType(sym.U8("t")), Count: sym.Choose("count", 2)}
	doc := &gltf.Document{Buffers: []*gltf.Buffer{{ByteLength: 70, Data: sym.Bytes("data", 70)}}, BufferViews: []*gltf.BufferView{{ByteLength: 70}}}
	if sym.Choose("view", 2) == 1 {
		a.BufferView = gltf.Index(0)
	}
	ci, si := compIndex(a.ComponentType), shapeIndex(a.Type)
	good := false
	for _, k := range readerKinds(r) {
		if k.comp == ci && k.sh == si {
			good = true
		}
	}
	_, err := readWith(r, doc, a, reuse{isNil: true})
	sym.Assert((err == nil) == good, "exactly the documented types are accepted")
	sym.Reach("done")
}

// M05_Sparse: arbitrary sparse descriptors over well-formed or missing base data.
func M05_Sparse() {
	k := []kind{{comp: cUbyte, sh: shScalar}, {comp: cUshort, sh: shVec3}}[sym.Choose("kind", 2)]
	ic := gltf.ComponentType(sym.U16("idxComp"))
	doc := &gltf.Document{Buffers: []*gltf.Buffer{{ByteLength: 8, Data: sym.Bytes("data", 8)}}}
	iv, vv := symView(), symView()
	sym.Assume(iv.Buffer == 0)
	sym.Assume(vv.Buffer == 0)
	sym.Assume(iv.ByteStride == 0) // strides are decided by M05_Dense
	sym.Assume(vv.ByteStride == 0)
	doc.BufferViews = []*gltf.BufferView{iv, vv}
	n := sym.Choose("count", 3)
	a := &gltf.Accessor{Count: n, ComponentType: compType[k.comp], Type: accType[k.sh]}
	a.Sparse = &gltf.Sparse{Count: sym.Int("sparseCount"), Indices: gltf.SparseIndices{BufferView: sym.Choose("iv", 2), ByteOffset: sym.Int("idxOffset"), ComponentType: ic},
		Values: gltf.SparseValues{BufferView: 1, ByteOffset: sym.Int("valOffset")}}
	sym.AllocLimit(64*8 + 8192)
	got, err := modeler.ReadAccessor(doc, a, nil)
	sym.AllocEnd()
	if err != nil {
		sym.Reach("error")
		return
	}
	bits, ok := k.flatten(got)
	sym.Assert(ok, "the result has the accessor's type")
	sym.Assert(len(bits) == n*nComponents(k.sh), "as many elements as the accessor declares")
	sym.Assert(sym.And(a.Sparse.Count >= 0, a.Sparse.Count <= 8), "impossible sparse counts are errors")
	sym.Reach("ok")
}

// M05_SparseView: dangling view indices in the sparse descriptor.
func M05_SparseView() {
	doc := &gltf.Document{Buffers: []*gltf.Buffer{{ByteLength: 8, Data: sym.Bytes("data", 8)}}, BufferViews: []*gltf.BufferView{{ByteLength: 8}, {ByteLength: 8}}}
	a := &gltf.Accessor{Count: 2, ComponentType: gltf.ComponentUshort, Type: gltf.AccessorScalar}
	a.Sparse = &gltf.Sparse{Count: sym.Int("sparseCount"), Indices: gltf.SparseIndices{BufferView: sym.Int("iv"), ComponentType: gltf.ComponentUbyte}, Values: gltf.SparseValues{BufferView: sym.Int("vv")}}
	if sym.Choose("base", 2) == 1 {
		a.BufferView = gltf.Index(sym.Int("view"))
	}
	_, err := modeler.ReadAccessor(doc, a, nil)
	if err != nil {
		sym.Reach("error")
		return
	}
	in := func(i int) bool { return sym.And(i >= 0, i < 2) }
	sym.Assert(sym.Or(a.Sparse.Count == 0, sym.And(in(a.Sparse.Indices.BufferView), in(a.Sparse.Values.BufferView))), "dangling views are errors")
	sym.Reach("ok")
}
