package h

import (
	"math"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/modeler"
	"github.com/qmuntal/gltf/zzverif/sym"
)

func finite(f float32) bool { return math.Float32bits(f)&0x7f800000 != 0x7f800000 }

// positions gives n positions of finite floats.
func positions(name string, n int) [][3]float32 {
	p := symSlice(name, cFloat, shVec3, n).([][3]float32)
	for i := range p {
		for j := range p[i] {
			sym.Assume(finite(p[i][j]))
		}
	}
	return p
}

// checkBounds asserts that min and max are attained bounds of every component.
func checkBounds(a *gltf.Accessor, p [][3]float32) {
	sym.Assert(len(a.Min) == 3 && len(a.Max) == 3, "three bounds each")
	if len(a.Min) != 3 || len(a.Max) != 3 {
		return
	}
	for j := 0; j < 3; j++ {
		below, above, attMin, attMax := true, true, false, false
		for i := range p {
			v := float64(p[i][j])
			below = sym.And(below, a.Min[j] <= v)
			above = sym.And(above, a.Max[j] >= v)
			attMin = sym.Or(attMin, a.Min[j] == v)
			attMax = sym.Or(attMax, a.Max[j] == v)
		}
		sym.Assert(sym.And(below, attMin), "Min is the smallest value")
		sym.Assert(sym.And(above, attMax), "Max is the largest value")
	}
}

func M03_Position() {
	n := 1 + sym.Choose("count", 3)
	p := positions("p", n)
	doc := preDoc([]int{0, 7, 8}[sym.Choose("pre", 3)])
	s := snapDoc(doc)
	i := modeler.WritePosition(doc, p)
	checkBounds(doc.Accessors[i], p)
	sym.Assert(s.unchanged(doc, true), "other accessors keep their bounds")
	sym.Reach("done")
}

// M03_Attribute: positions anywhere among interleaved attributes, some of them empty.
func M03_Attribute() {
	n := 1 + sym.Choose("count", 2)
	p := positions("p", n)
	q := positions("q", n)
	pos := modeler.PrimitiveAttribute{Name: gltf.POSITION, Data: p}
	nor := modeler.PrimitiveAttribute{Name: gltf.NORMAL, Data: q}
	tex := modeler.PrimitiveAttribute{Name: gltf.TEXCOORD_0, Data: make([][2]uint8, n)}
	none := modeler.PrimitiveAttribute{Name: gltf.COLOR_0, Data: [][4]uint8{}}
	null := modeler.PrimitiveAttribute{Name: gltf.TANGENT}
	var at []modeler.PrimitiveAttribute
	switch sym.Choose("order", 8) {
	case 0:
		at = []modeler.PrimitiveAttribute{pos}
	case 1:
		at = []modeler.PrimitiveAttribute{nor, pos}
	case 2:
		at = []modeler.PrimitiveAttribute{pos, nor}
	case 3:
		at = []modeler.PrimitiveAttribute{none, tex, pos, nor}
	case 4:
		at = []modeler.PrimitiveAttribute{null, pos, none, tex}
	case 5:
		at = []modeler.PrimitiveAttribute{tex, nor, none, pos}
	case 6:
		at = []modeler.PrimitiveAttribute{tex, null, nor}
	default:
		at = []modeler.PrimitiveAttribute{nor, null, pos, tex}
	}
	doc := preDoc([]int{0, 7}[sym.Choose("pre", 2)])
	s := snapDoc(doc)
	m, err := modeler.WritePrimitiveAttributes(doc, at...)
	sym.Assert(err == nil, "writing succeeds")
	if err != nil {
		return
	}
	for name, i := range m {
		if name == gltf.POSITION {
			checkBounds(doc.Accessors[i], p)
		} else {
			sym.Assert(len(doc.Accessors[i].Min) == 0 && len(doc.Accessors[i].Max) == 0, "only positions have bounds")
		}
	}
	sym.Assert(s.unchanged(doc, true), "other accessors keep their bounds")
	sym.Reach("done")
}

// M03_Several: several position accessors in one document do not share their bounds.
func M03_Several() {
	p, q := positions("p", 2), positions("q", 1)
	doc := &gltf.Document{}
	i := modeler.WritePosition(doc, p)
	var j int
	if sym.Choose("how", 2) == 0 {
		j = modeler.WritePosition(doc, q)
	} else {
		m, err := modeler.WritePrimitiveAttributes(doc, modeler.PrimitiveAttribute{Name: gltf.POSITION, Data: q}, modeler.PrimitiveAttribute{Name: gltf.NORMAL, Data: q})
		sym.Assert(err == nil, "writing succeeds")
		j = m[gltf.POSITION]
	}
	checkBounds(doc.Accessors[i], p)
	checkBounds(doc.Accessors[j], q)
	sym.Reach("done")
}
