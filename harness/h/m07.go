package h

import (
	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/modeler"
	"github.com/qmuntal/gltf/zzverif/sym"
)

// The write helpers take data of exactly the types their attribute allows.

// the helpers whose data may have several types
var anyWriters = []int{wrIndices, wrTexCoord, wrWeights, wrJoints, wrColor}

func hasKind(ks []kind, k kind) bool {
	for _, x := range ks {
		if x == k {
			return true
		}
	}
	return false
}

// tryWrite calls a helper and tells whether it returned.
func tryWrite(w int, doc *gltf.Document, data interface{}) (idx int, ok bool) {
	defer func() {
		if !ok {
			recover()
		}
	}()
	idx = writeWith(w, doc, gltf.TargetNone, data)
	ok = true
	return
}

// foreign are values that are no data of any accessor.
func foreign(i int) interface{} {
	switch i {
	case 0:
		return nil
	case 1:
		return 3
	case 2:
		return "abcd"
	case 3:
		return []int{1, 2}
	case 4:
		return []float64{1, 2}
	case 5:
		return [][5]uint8{{1}}
	case 6:
		return [][][4]uint8{{{1}}}
	case 7:
		return [4]uint8{1, 2, 3, 4}
	case 8:
		return [][2]float64{{1, 2}}
	case 9:
		return []interface{}{uint16(1)}
	case 10:
		return [][]uint8{{1, 2, 3, 4}}
	}
	return &[][4]uint8{{1}}
}

const nForeign = 12

// M07_Writers: every helper with every type of data.
func M07_Writers() {
	w := anyWriters[sym.Choose("writer", len(anyWriters))]
	k := kindOf(sym.Choose("kind", nKinds))
	n := sym.Choose("n", 3)
	doc := preDoc([]int{0, 2, 7, 8}[sym.Choose("pre", 4)])
	s := snapDoc(doc)
	_, ok := tryWrite(w, doc, k.symbolic("data", n))
	sym.Assert(ok == hasKind(writerKinds(w), k), "exactly the allowed types are taken")
	if ok {
		sym.Assert(s.unchanged(doc, true), "earlier content stays")
		sym.Assert(len(doc.Accessors) == len(s.acrs)+1, "one accessor is added")
		a := doc.Accessors[len(s.acrs)]
		sym.Assert(a.ComponentType == compType[k.comp] && a.Type == accType[k.sh] && a.Count == n, "the accessor has the type of the data")
		sym.Reach("taken")
		return
	}
	sym.Assert(s.unchanged(doc, false), "refused data leaves the document as it was")
	sym.Reach("refused")
}

// M07_Foreign: values that are not data at all.
func M07_Foreign() {
	w := anyWriters[sym.Choose("writer", len(anyWriters))]
	doc := preDoc([]int{0, 2, 7, 8}[sym.Choose("pre", 4)])
	s := snapDoc(doc)
	_, ok := tryWrite(w, doc, foreign(sym.Choose("value", nForeign)))
	sym.Assert(!ok, "what is no data is refused")
	sym.Assert(s.unchanged(doc, false), "refused data leaves the document as it was")
	sym.Reach("refused")
}

// typed lists the attributes whose type is known, with the helper that writes them alone.
var typed = []struct {
	name string
	w    int
}{{gltf.POSITION, wrPosition}, {gltf.TEXCOORD_0, wrTexCoord}, {gltf.TEXCOORD_1, wrTexCoord}, {gltf.WEIGHTS_0, wrWeights}, {gltf.JOINTS_0, wrJoints}, {gltf.COLOR_0, wrColor}}

// attrData picks an attribute and any type of data for it, and tells whether they go together.
func attrData(name string, n int) (modeler.PrimitiveAttribute, bool) {
	i := sym.Choose(name, len(typed)+1)
	k := kindOf(sym.Choose(name+"Kind", nKinds))
	data := k.filled(n, 1)
	if i == len(typed) {
		return modeler.PrimitiveAttribute{Name: "_CUSTOM", Data: data}, true
	}
	return modeler.PrimitiveAttribute{Name: typed[i].name, Data: data}, hasKind(writerKinds(typed[i].w), k)
}

// checkAttrs writes attributes and compares the outcome.
func checkAttrs(doc *gltf.Document, attrs []modeler.PrimitiveAttribute, good bool) {
	s := snapDoc(doc)
	got, err := modeler.WritePrimitiveAttributes(doc, attrs...)
	sym.Assert((err == nil) == good, "exactly the allowed types are taken")
	if err != nil {
		sym.Assert(s.unchanged(doc, false), "refused data leaves the document as it was")
		sym.Reach("refused")
		return
	}
	sym.Assert(len(got) == len(attrs), "every attribute is written")
	sym.Reach("taken")
}

// M07_Attributes: one attribute of any type of data, alone, before and after attributes that are fine.
func M07_Attributes() {
	n := 1 + sym.Choose("n", 2)
	a, good := attrData("attr", n)
	x := modeler.PrimitiveAttribute{Name: gltf.NORMAL, Data: kind{comp: cFloat, sh: shVec3}.filled(n, 1)}
	y := modeler.PrimitiveAttribute{Name: "_Y", Data: kind{comp: cUbyte, sh: shScalar}.filled(n, 1)}
	var attrs []modeler.PrimitiveAttribute
	switch sym.Choose("place", 4) {
	case 0:
		attrs = []modeler.PrimitiveAttribute{a}
	case 1:
		attrs = []modeler.PrimitiveAttribute{a, x}
	case 2:
		attrs = []modeler.PrimitiveAttribute{x, a}
	default:
		attrs = []modeler.PrimitiveAttribute{x, a, y}
	}
	checkAttrs(preDoc([]int{0, 8}[sym.Choose("pre", 2)]), attrs, good)
}

// M07_Pairs: two attributes, each with any of several types: one that fits does not cover for one that does not.
func M07_Pairs() {
	few := []kind{{comp: cFloat, sh: shVec2}, {comp: cFloat, sh: shVec3}, {comp: cFloat, sh: shVec4}, {comp: cUbyte, sh: shVec2}, {comp: cUshort, sh: shVec4}, {comp: cUint, sh: shScalar}}
	i, j := sym.Choose("a", len(typed)), sym.Choose("b", len(typed))
	sym.Assume(i != j)
	k, l := few[sym.Choose("aKind", len(few))], few[sym.Choose("bKind", len(few))]
	attrs := []modeler.PrimitiveAttribute{{Name: typed[i].name, Data: k.filled(2, 1)}, {Name: typed[j].name, Data: l.filled(2, 1)}}
	checkAttrs(preDoc([]int{0, 8}[sym.Choose("pre", 2)]), attrs, hasKind(writerKinds(typed[i].w), k) && hasKind(writerKinds(typed[j].w), l))
}

// M07_Empty: attributes without elements are left out, whatever their type.
func M07_Empty() {
	k := kindOf(sym.Choose("kind", nKinds))
	doc := preDoc([]int{0, 8}[sym.Choose("pre", 2)])
	n := len(doc.Accessors)
	got, err := modeler.WritePrimitiveAttributes(doc, modeler.PrimitiveAttribute{Name: typed[sym.Choose("attr", len(typed))].name, Data: k.filled(0, 1)},
		modeler.PrimitiveAttribute{Name: gltf.NORMAL, Data: kind{comp: cFloat, sh: shVec3}.filled(2, 1)})
	sym.Assert(err == nil, "writing succeeds")
	_, has := got[gltf.NORMAL]
	sym.Assert(has && len(got) == 1 && len(doc.Accessors) == n+1, "only the attribute with elements is written")
	sym.Reach("done")
}
