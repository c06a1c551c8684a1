package h

import (
	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/modeler"
	"github.com/qmuntal/gltf/zzverif/sym"
)

type layoutCase struct{ viewOff, acrOff, stride, tail int } // stride: -1 tight (zero), else element size + stride

var layouts = []layoutCase{{0, 0, -1, 0}, {3, 0, -1, 2}, {8, 4, -1, 5}, {4, 12, 0, 0}, {5, 7, 9, 1}, {1, 0, 3, 0}}

// denseDoc builds a document with one accessor over symbolic bytes and returns the reference elements.
func denseDoc(k kind, n int, l layoutCase) (*gltf.Document, *gltf.Accessor, []uint64) {
	stride, eff := 0, k.size()
	if l.stride >= 0 {
		stride = k.size() + l.stride
		eff = stride
	}
	need := 0
	if n > 0 {
		need = (n-1)*eff + k.size()
	}
	viewLen := l.acrOff + need + l.tail
	data := sym.Bytes("data", l.viewOff+viewLen+l.tail)
	doc := &gltf.Document{
		Buffers:     []*gltf.Buffer{{ByteLength: 4, Data: []byte{9, 8, 7, 6}}, {ByteLength: len(data), Data: data}},
		BufferViews: []*gltf.BufferView{{Buffer: 0, ByteLength: 4}, {Buffer: 1, ByteOffset: l.viewOff, ByteLength: viewLen, ByteStride: stride}},
	}
	acr := &gltf.Accessor{BufferView: gltf.Index(1), ByteOffset: l.acrOff, ComponentType: compType[k.comp], Type: accType[k.sh], Count: n}
	doc.Accessors = []*gltf.Accessor{acr}
	return doc, acr, k.decodeAt(data[l.viewOff+l.acrOff:], eff, n)
}

func M04_Dense() {
	k := kindOf(sym.Choose("kind", nComps*nShapes))
	n := []int{1, 3, 0}[sym.Choose("count", 3)]
	doc, acr, want := denseDoc(k, n, layouts[sym.Choose("layout", len(layouts))])
	checkRead(rdAccessor, doc, acr, k, want, n, reuseFor(sym.Choose("reuse", nReuse), n))
	sym.Reach("done")
}

// M04_NoView: an accessor without buffer view is all zeros, whatever the reuse buffer holds.
func M04_NoView() {
	k := kindOf(sym.Choose("kind", nComps*nShapes))
	n := []int{1, 4, 0}[sym.Choose("count", 3)]
	acr := &gltf.Accessor{ComponentType: compType[k.comp], Type: accType[k.sh], Count: n, ByteOffset: sym.Choose("off", 2) * 4}
	checkRead(rdAccessor, &gltf.Document{}, acr, k, make([]uint64, n*nComponents(k.sh)), n, reuseFor(sym.Choose("reuse", nReuse), n))
	sym.Reach("done")
}

// dirtyPools fills the package's internal buffers with arbitrary data through an earlier read.
func dirtyPools(choice, n int) {
	switch choice {
	case 1:
		k := kind{comp: cUint, sh: shScalar}
		doc, acr, _ := denseDoc(k, n, layouts[0])
		modeler.ReadIndices(doc, acr, nil)
	case 2:
		k := kind{comp: cFloat, sh: shMat4}
		doc, acr, _ := denseDoc(k, n, layouts[0])
		doc.Buffers[1].Data = append(doc.Buffers[1].Data, 1, 0, 0, 0)
		doc.Buffers[1].ByteLength += 4
		doc.BufferViews = append(doc.BufferViews, &gltf.BufferView{Buffer: 1, ByteOffset: 0, ByteLength: n * 64}, &gltf.BufferView{Buffer: 1, ByteOffset: n * 64, ByteLength: 4})
		acr.Sparse = &gltf.Sparse{Count: 1, Indices: gltf.SparseIndices{BufferView: 3, ComponentType: gltf.ComponentUint}, Values: gltf.SparseValues{BufferView: 2}}
		modeler.ReadInverseBindMatrices(doc, acr, nil)
	}
}

var idxComps = []int{cUbyte, cUshort, cUint}

// addSparse gives acr sparse substitutions stored in buffers and views of their own. idx are component bits.
func addSparse(doc *gltf.Document, acr *gltf.Accessor, k kind, ic int, sc int, idxOff, valOff int) (idx, vals []uint64) {
	ik := kind{comp: ic, sh: shScalar}
	ib := sym.Bytes("idx", idxOff+sc*compSize[ic]+1)
	vb := sym.Bytes("val", valOff+sc*k.size()+1)
	nb, nv := len(doc.Buffers), len(doc.BufferViews)
	doc.Buffers = append(doc.Buffers, &gltf.Buffer{ByteLength: len(ib), Data: ib}, &gltf.Buffer{ByteLength: len(vb), Data: vb})
	doc.BufferViews = append(doc.BufferViews,
		&gltf.BufferView{Buffer: nb, ByteOffset: idxOff / 2, ByteLength: len(ib) - idxOff/2},
		&gltf.BufferView{Buffer: nb + 1, ByteOffset: valOff / 2, ByteLength: len(vb) - valOff/2})
	acr.Sparse = &gltf.Sparse{
		Count:   sc,
		Indices: gltf.SparseIndices{BufferView: nv, ByteOffset: idxOff - idxOff/2, ComponentType: compType[ic]},
		Values:  gltf.SparseValues{BufferView: nv + 1, ByteOffset: valOff - valOff/2},
	}
	return ik.decodeAt(ib[idxOff:], compSize[ic], sc), k.decodeAt(vb[valOff:], k.size(), sc)
}

// substitute applies sparse substitutions to reference elements.
func substitute(base []uint64, idx, vals []uint64, nc int) []uint64 {
	out := append([]uint64(nil), base...)
	for s := range idx {
		for i := 0; i*nc < len(out); i++ {
			hit := int(idx[s]) == i
			for j := 0; j < nc; j++ {
				out[i*nc+j] = uint64(sym.IteInt(hit, int(vals[s*nc+j]), int(out[i*nc+j])))
			}
		}
	}
	return out
}

func assumeIncreasing(idx []uint64, n int) {
	for i := range idx {
		sym.Assume(idx[i] < uint64(n))
		if i > 0 {
			sym.Assume(idx[i-1] < idx[i])
		}
	}
}

func M04_Sparse() {
	k := kindOf(sym.Choose("kind", nComps*nShapes))
	n := 3
	var doc *gltf.Document
	var acr *gltf.Accessor
	var want []uint64
	if sym.Choose("base", 2) == 0 {
		doc, acr, want = denseDoc(k, n, layouts[4])
	} else {
		doc, acr, want = &gltf.Document{}, &gltf.Accessor{ComponentType: compType[k.comp], Type: accType[k.sh], Count: n}, make([]uint64, n*nComponents(k.sh))
	}
	sc := sym.Choose("sparseCount", 3) // zero is not valid glTF but must be harmless
	ic := idxComps[sym.Choose("idxComp", 3)]
	idx, vals := addSparse(doc, acr, k, ic, sc, 2*sym.Choose("idxOff", 2), 4)
	assumeIncreasing(idx, n)
	dirtyPools(sym.Choose("earlier", 3), 2)
	checkRead(rdAccessor, doc, acr, k, substitute(want, idx, vals, nComponents(k.sh)), n, reuseFor(2*sym.Choose("reuse", 2), n))
	sym.Reach("done")
}

// M04_Typed: the typed helpers over accessors without buffer view and with sparse substitutions, after earlier reads.
func M04_Typed() {
	r := sym.Choose("reader", rdAccessor)
	ks := readerKinds(r)
	k := ks[sym.Choose("kind", len(ks))]
	n := 1 + sym.Choose("count", 3)
	doc, acr := &gltf.Document{}, &gltf.Accessor{ComponentType: compType[k.comp], Type: accType[k.sh], Count: n}
	want := make([]uint64, n*nComponents(k.sh))
	if sym.Choose("sparse", 2) == 1 {
		idx, vals := addSparse(doc, acr, k, cUbyte, 1, 0, 0)
		assumeIncreasing(idx, n)
		if outKind(r, k).comp != k.comp {
			// keep the conversions' arithmetic free of the choice of the index: one path per index
			doc.Buffers[0].Data[0] = byte(sym.Concrete(int(idx[0])))
			idx[0] = uint64(doc.Buffers[0].Data[0])
		}
		want = substitute(want, idx, vals, nComponents(k.sh))
	}
	dirtyPools(sym.Choose("earlier", 3), 3)
	checkRead(r, doc, acr, k, want, n, reuseFor(sym.Choose("reuse", nReuse), n))
	sym.Reach("done")
}

// M04_Large: more data than the package's internal buffers hold, sparse index lists longer than the index pool.
func M04_Large() {
	k := []kind{{comp: cFloat, sh: shVec3}, {comp: cUbyte, sh: shVec3}, {comp: cUshort, sh: shScalar}, {comp: cFloat, sh: shMat4}}[sym.Choose("kind", 4)]
	n := []int{270, 101}[sym.Choose("count", 2)]
	sc := []int{99, 100, 101, 0}[sym.Choose("sparseCount", 4)]
	doc, acr, want := denseDoc(k, n, layouts[sym.Choose("layout", 2)*4])
	if sc > 0 {
		idx, vals := addSparse(doc, acr, k, cUshort, sc, 0, 0)
		for i := range idx {
			doc.Buffers[2].Data[2*i] = byte(i)
			doc.Buffers[2].Data[2*i+1] = byte(i >> 8)
			copy(want[i*nComponents(k.sh):(i+1)*nComponents(k.sh)], vals[i*nComponents(k.sh):])
		}
	}
	dirtyPools(2*sym.Choose("earlier", 2), 20)
	checkRead(rdAccessor, doc, acr, k, want, n, reuseFor(sym.Choose("reuse", 2)*2, n))
	// a second read sees the same document
	checkRead(rdAccessor, doc, acr, k, want, n, reuseFor(0, n))
	sym.Reach("done")
}
