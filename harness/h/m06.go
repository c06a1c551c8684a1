package h

import (
	"math"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/modeler"
	"github.com/qmuntal/gltf/zzverif/sym"
)

func pickRead(name string, few bool) (int, kind) {
	r := sym.Choose(name, nReaders)
	ks := readerKinds(r)
	if r == rdAccessor {
		ks = []kind{{comp: cUbyte, sh: shScalar}, {comp: cFloat, sh: shVec3}, {comp: cShort, sh: shScalar}, {comp: cUbyte, sh: shVec2}, {comp: cUshort, sh: shVec3}, {comp: cUint, sh: shScalar}}
		if few {
			ks = ks[:3]
		}
	} else if few {
		ks = ks[len(ks)-1:]
	}
	return r, ks[sym.Choose(name+"Kind", len(ks))]
}

func m06Doc(r int, k kind, n int, sparse bool) (*gltf.Document, *gltf.Accessor) {
	conv := r == rdColor || r == rdColor64
	doc, acr, _ := denseDoc(k, n, layouts[0])
	if k.comp == cFloat && conv {
		// the conversions branch on the float values: fixed values here, all values in N02
		fillFloats(doc.Buffers[1].Data)
	}
	if sparse {
		idx, _ := addSparse(doc, acr, k, cUbyte, 1, 0, 0)
		if k.comp == cFloat && conv {
			fillFloats(doc.Buffers[3].Data)
		}
		assumeIncreasing(idx, n)
	}
	return doc, acr
}

func fillFloats(b []byte) {
	for i := 0; i+4 <= len(b); i += 4 {
		v := math.Float32bits(float32(i%7) / 8)
		b[i], b[i+1], b[i+2], b[i+3] = byte(v), byte(v>>8), byte(v>>16), byte(v>>24)
	}
}

// M06_Pair: the result of a read survives later reads of anything, and the documents are never written.
func M06_Pair() {
	r1, k1 := pickRead("first", false)
	r2, k2 := pickRead("second", true)
	n1, n2 := 2, 3
	d1, a1 := m06Doc(r1, k1, n1, sym.Choose("sparse1", 2) == 1)
	d2, a2 := m06Doc(r2, k2, n2, true)
	if sym.Choose("failing", 2) == 1 {
		a2.ByteOffset = 1 << 20
	}
	s1, s2 := snapDoc(d1), snapDoc(d2)
	v1, err := readWith(r1, d1, a1, reuseFor(sym.Choose("reuse", 2)*2, n1))
	sym.Assert(err == nil, "reading succeeds")
	o1 := outKind(r1, k1)
	b1, _ := o1.flatten(v1)
	v2, _ := readWith(r2, d2, a2, reuse{isNil: true})
	b1b, _ := o1.flatten(v1)
	sym.Assert(eqBits(b1, b1b), "a later read does not change an earlier result")
	if v2 != nil {
		scribble(v2)
	}
	b1c, _ := o1.flatten(v1)
	sym.Assert(eqBits(b1, b1c), "results do not share memory")
	scribble(v1)
	sym.Assert(sym.And(s1.unchanged(d1, false), s2.unchanged(d2, false)), "reading and modifying results never changes the document")
	v3, err := readWith(r1, d1, a1, reuse{isNil: true})
	sym.Assert(err == nil, "reading again succeeds")
	b3, _ := o1.flatten(v3)
	sym.Assert(eqBits(b1, b3), "modifying a result does not affect later reads")
	sym.Reach("done")
}

// M06_Same: every reader twice over the same accessor; counts around the pools' sizes for some.
func M06_Same() {
	r, k := pickRead("reader", false)
	n := []int{1, 5}[sym.Choose("count", 2)]
	d, a := m06Doc(r, k, n, sym.Choose("sparse", 2) == 1)
	s := snapDoc(d)
	v1, err1 := readWith(r, d, a, reuse{isNil: true})
	v2, err2 := readWith(r, d, a, reuse{isNil: true})
	sym.Assert(err1 == nil && err2 == nil, "reading succeeds")
	o := outKind(r, k)
	b1, _ := o.flatten(v1)
	b2, _ := o.flatten(v2)
	sym.Assert(eqBits(b1, b2), "reading twice gives the same")
	scribble(v1)
	b2b, _ := o.flatten(v2)
	sym.Assert(eqBits(b2, b2b), "results do not share memory")
	sym.Assert(s.unchanged(d, false), "reading never changes the document")
	sym.Reach("done")
}

// M06_Large: results larger than the internal buffers.
func M06_Large() {
	n := []int{101, 256, 257, 1025}[sym.Choose("count", 4)]
	d, a := m06Doc(rdIndices, kind{comp: cUint, sh: shScalar}, n, false)
	v1, err1 := modeler.ReadIndices(d, a, nil)
	sym.Assert(err1 == nil, "reading succeeds")
	c := append([]uint32(nil), v1...)
	d2, a2 := m06Doc(rdIndices, kind{comp: cUint, sh: shScalar}, n, true)
	v2, err2 := modeler.ReadIndices(d2, a2, nil)
	sym.Assert(err2 == nil, "reading succeeds")
	same := len(c) == len(v1)
	for i := range c {
		same = sym.And(same, c[i] == v1[i])
	}
	sym.Assert(same, "a later read does not change an earlier result")
	for i := range v2 {
		v2[i] = 1
	}
	same = true
	for i := range c {
		same = sym.And(same, c[i] == v1[i])
	}
	sym.Assert(same, "results do not share memory")
	sym.Reach("done")
}
