package h

import (
	"bytes"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/modeler"
	"github.com/qmuntal/gltf/zzverif/sym"
)

// plain is the kind of the data as the readers see it (color slices are stored like arrays).
func plain(k kind) kind { return kind{comp: k.comp, sh: k.sh} }

// readBack asserts that helper r returns what was written.
func readBack(doc *gltf.Document, w written, r int, ru reuse) {
	got := checkRead(r, doc, doc.Accessors[w.acr], plain(w.k), w.bits, w.n, ru)
	if r == rdColor && w.k.comp == cUshort && got != nil {
		gb, _ := outKind(r, w.k).flatten(got)
		want := convert(r, w.k, w.bits)
		if len(gb) == len(want) {
			sym.Assert(narrow16(gb, want), "16-bit colors are scaled to 8 bits")
		}
	}
}

// around performs some unrelated write.
func around(doc *gltf.Document, op int) {
	switch op {
	case 1:
		modeler.WriteBufferView(doc, gltf.TargetNone, sym.Bytes("raw", 5))
	case 2:
		modeler.WriteImage(doc, "", "image/png", bytes.NewBuffer(sym.Bytes("img", 3)))
		modeler.WriteIndices(doc, symSlice("ind", cUshort, shScalar, 3))
	case 3:
		modeler.WriteAccessorsInterleaved(doc, symSlice("x", cUbyte, shVec3, 2), symSlice("y", cFloat, shVec2, 2))
	}
}

func M02_Helper() {
	w := sym.Choose("writer", wrRaw)
	ks := writerKinds(w)
	k := ks[sym.Choose("kind", len(ks))]
	rs := readersOf(w)
	r := rs[sym.Choose("reader", len(rs))]
	n := 3
	if w == wrColor && k.comp == cFloat && r != rdAccessor {
		n = 1 // every float color conversion forks; N02 decides the conversion
	} else if sym.Choose("one", 2) == 1 {
		n = 1
	}
	doc := preDoc([]int{0, 6}[sym.Choose("pre", 2)])
	around(doc, sym.Choose("before", 3))
	x := writeOne(doc, w, k, n, 0)
	around(doc, sym.Choose("after", 2)*3)
	readBack(doc, x, r, reuseFor(sym.Choose("reuse", nReuse), n))
	sym.Reach("done")
}

func M02_Raw() {
	k := kindOf(sym.Choose("kind", nKinds))
	n := []int{2, 5, 0}[sym.Choose("count", 3)]
	doc := preDoc([]int{0, 4}[sym.Choose("pre", 2)])
	x := writeOne(doc, wrRaw, k, n, targets[sym.Choose("target", 3)])
	around(doc, sym.Choose("after", 2))
	readBack(doc, x, rdAccessor, reuseFor(sym.Choose("reuse", nReuse), n))
	sym.Reach("done")
}

func M02_Interleaved() {
	n := []int{3, 1}[sym.Choose("count", 2)]
	doc := preDoc([]int{0, 4}[sym.Choose("pre", 2)])
	var ks []kind
	switch sym.Choose("shape", 3) {
	case 0:
		ks = []kind{kindOf(sym.Choose("single", nKinds))}
	case 1:
		ks = []kind{interKinds[sym.Choose("a", len(interKinds))], interKinds[sym.Choose("b", len(interKinds))]}
	default:
		i := sym.Choose("a", len(interKinds))
		ks = []kind{interKinds[i], interKinds[(i+1)%len(interKinds)], interKinds[(i+3)%len(interKinds)], interKinds[i]}
	}
	_, ws, err := interleave(doc, ks, n)
	sym.Assert(err == nil, "writing succeeds")
	if err != nil {
		return
	}
	around(doc, sym.Choose("after", 2))
	ru := sym.Choose("reuse", 2)
	for _, w := range ws {
		readBack(doc, w, rdAccessor, reuseFor(ru, n))
	}
	sym.Reach("done")
}

func M02_Attributes() {
	specs := pickSpecs()
	sym.Assume(!dupNames(specs))
	n := 2
	for _, a := range specs {
		if a.w == wrColor && a.k.comp == cFloat {
			n = 1
		}
	}
	doc := preDoc([]int{0, 4}[sym.Choose("pre", 2)])
	_, ws, used, err := attributes(doc, specs, n, sym.Choose("skip", 3))
	sym.Assert(err == nil, "writing succeeds")
	if err != nil {
		return
	}
	around(doc, sym.Choose("after", 2))
	for i, w := range ws {
		rs := readersOf(used[i].w)
		sym.Assert(w.acr >= 0, "every attribute has an accessor")
		readBack(doc, w, rs[sym.Choose("reader", 2)*(len(rs)-1)], reuseFor(0, n))
	}
	sym.Reach("done")
}

// M02_Large: more elements than the readers' internal buffers hold (1024 bytes).
func M02_Large() {
	type wk struct {
		w, k int
		ns   []int
	}
	c := []wk{{wrIndices, 0, []int{512, 513}}, {wrIndices, 1, []int{100, 256, 257}}, {wrNormal, 0, []int{85, 86}}, {wrTangent, 0, []int{64, 65}}, {wrTexCoord, 2, []int{128, 129}},
		{wrWeights, 2, []int{65}}, {wrJoints, 0, []int{256, 257}}, {wrJoints, 1, []int{129}}, {wrPosition, 0, []int{86}}, {wrColor, 0, []int{341, 342}}, {wrColor, 6, []int{257}}, {wrMatrices, 0, []int{16, 17}}}[sym.Choose("case", 12)]
	n := c.ns[sym.Choose("n", len(c.ns))]
	k := writerKinds(c.w)[c.k]
	doc := preDoc(4)
	x := writeOneConst(doc, c.w, k, n)
	readBack(doc, x, readersOf(c.w)[0], reuseFor(sym.Choose("reuse", 2), n))
	sym.Reach("done")
}

// writeOneConst avoids position bounds over symbolic values, which fork per element.
func writeOneConst(doc *gltf.Document, w int, k kind, n int) written {
	if w != wrPosition {
		return writeOne(doc, w, k, n, 0)
	}
	data := make([][3]float32, n)
	for i := range data {
		data[i] = [3]float32{float32(i), float32(-i), float32(i%7) / 8}
	}
	bits, _ := k.flatten(data)
	return written{modeler.WritePosition(doc, data), k, bits, n, false, gltf.TargetArrayBuffer}
}

// M02_Sequence: histories of writes; everything is read back at the end.
func M02_Sequence() {
	doc := preDoc([]int{0, 6}[sym.Choose("pre", 2)])
	var all []written
	steps := 3
	if sym.Tier() > 0 {
		steps = 4
	}
	for i := 0; i < steps; i++ {
		all = append(all, oneOp(doc, sym.Choose("op", 8))...)
	}
	for _, w := range all {
		readBack(doc, w, rdAccessor, reuseFor(1, w.n))
	}
	sym.Reach("done")
}
