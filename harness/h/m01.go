package h

import (
	"bytes"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/modeler"
	"github.com/qmuntal/gltf/zzverif/sym"
)

// writeOne performs one helper write with symbolic data and says what it should have stored.
func writeOne(doc *gltf.Document, w int, k kind, n int, target gltf.Target) written {
	data := k.symbolic("data", n)
	bits, _ := k.flatten(data)
	if w != wrRaw {
		target = writerTarget(w)
	}
	acr := writeWith(w, doc, target, data)
	after, _ := k.flatten(data)
	sym.Assert(eqBits(bits, after), "the caller's data is not modified")
	return written{acr, k, bits, n, writerNorm(w, k), target}
}

func M01_Helper() {
	w := sym.Choose("writer", wrRaw)
	ks := writerKinds(w)
	k := ks[sym.Choose("kind", len(ks))]
	doc := preDoc(sym.Choose("pre", nPre))
	s := snapDoc(doc)
	n := []int{1, 3, 0}[sym.Choose("count", 3)]
	x := writeOne(doc, w, k, n, 0)
	sym.Assert(x.acr == len(doc.Accessors)-1, "the returned index is the new last entry")
	checkWrite(doc, s, 1, 1, 0, []written{x})
	sym.Reach("done")
}

var targets = []gltf.Target{gltf.TargetArrayBuffer, gltf.TargetElementArrayBuffer, gltf.TargetNone}

func M01_Raw() {
	k := kindOf(sym.Choose("kind", nKinds))
	pre := []int{0, 3, 6, 7}
	doc := preDoc(pre[sym.Choose("pre", len(pre))])
	s := snapDoc(doc)
	n := []int{2, 5, 0}[sym.Choose("count", 3)]
	x := writeOne(doc, wrRaw, k, n, targets[sym.Choose("target", 3)])
	sym.Assert(x.acr == len(doc.Accessors)-1, "the returned index is the new last entry")
	checkWrite(doc, s, 1, 1, 0, []written{x})
	sym.Reach("done")
}

var interKinds = []kind{{comp: cFloat, sh: shVec3}, {comp: cUbyte, sh: shScalar}, {comp: cUshort, sh: shVec3}, {comp: cShort, sh: shScalar}, {cUbyte, shVec4, 1}, {comp: cByte, sh: shMat2},
	{comp: cUshort, sh: shMat3}, {comp: cUint, sh: shScalar}, {comp: cByte, sh: shVec3}}

// interleave writes 1 to 4 interleaved slices.
func interleave(doc *gltf.Document, ks []kind, n int) ([]int, []written, error) {
	var data []interface{}
	var ws []written
	for _, k := range ks {
		d := k.symbolic("data", n)
		bits, _ := k.flatten(d)
		data = append(data, d)
		ws = append(ws, written{0, k, bits, n, false, gltf.TargetArrayBuffer})
	}
	idx, err := modeler.WriteAccessorsInterleaved(doc, data...)
	for i := range idx {
		if i < len(ws) {
			ws[i].acr = idx[i]
		}
	}
	return idx, ws, err
}

func M01_Interleaved() {
	doc := preDoc([]int{0, 4, 8}[sym.Choose("pre", 3)])
	s := snapDoc(doc)
	n := []int{3, 1, 0}[sym.Choose("count", 3)]
	var ks []kind
	switch sym.Choose("shape", 3) {
	case 0:
		ks = []kind{kindOf(sym.Choose("single", nKinds))}
	case 1:
		ks = []kind{interKinds[sym.Choose("a", len(interKinds))], interKinds[sym.Choose("b", len(interKinds))]}
	default:
		i := sym.Choose("a", len(interKinds))
		ks = []kind{interKinds[i], interKinds[(i+1)%len(interKinds)], interKinds[(i+3)%len(interKinds)], interKinds[i]}
	}
	idx, ws, err := interleave(doc, ks, n)
	sym.Assert(err == nil && len(idx) == len(ks), "one accessor per slice")
	for i := range idx {
		sym.Assert(idx[i] == len(s.acrs)+i, "the returned indices are the new last entries, in order")
	}
	checkWrite(doc, s, 1, len(ks), 0, ws)
	disjoint(doc, ws)
	sym.Reach("done")
}

// disjoint asserts that the elements of different accessors of one view do not overlap.
func disjoint(doc *gltf.Document, ws []written) {
	ok := true
	for i, x := range ws {
		for _, y := range ws[i+1:] {
			a, b := doc.Accessors[x.acr], doc.Accessors[y.acr]
			if a.BufferView == nil || b.BufferView == nil || *a.BufferView != *b.BufferView {
				continue
			}
			if a.ByteOffset < b.ByteOffset+y.k.size() && b.ByteOffset < a.ByteOffset+x.k.size() {
				ok = false
			}
			if st := doc.BufferViews[*a.BufferView].ByteStride; x.n > 1 && (a.ByteOffset+x.k.size() > st || b.ByteOffset+y.k.size() > st) {
				ok = false
			}
		}
	}
	sym.Assert(ok, "interleaved attributes do not overlap")
}

type attrSpec struct {
	name string
	w    int
	k    kind
}

var attrSpecs = []attrSpec{
	{gltf.POSITION, wrPosition, kind{comp: cFloat, sh: shVec3}},
	{gltf.NORMAL, wrNormal, kind{comp: cFloat, sh: shVec3}},
	{gltf.TEXCOORD_0, wrTexCoord, kind{comp: cUbyte, sh: shVec2}},
	{gltf.TEXCOORD_1, wrTexCoord, kind{comp: cFloat, sh: shVec2}},
	{gltf.WEIGHTS_0, wrWeights, kind{comp: cUshort, sh: shVec4}},
	{gltf.JOINTS_0, wrJoints, kind{comp: cUbyte, sh: shVec4}},
	{gltf.COLOR_0, wrColor, kind{comp: cUshort, sh: shVec3}},
	{gltf.TANGENT, wrTangent, kind{comp: cFloat, sh: shVec4}},
	{gltf.TEXCOORD_0, wrTexCoord, kind{comp: cUshort, sh: shVec2}},
	{gltf.COLOR_0, wrColor, kind{comp: cFloat, sh: shVec4}},
	{gltf.COLOR_0, wrColor, kind{cUbyte, shVec4, 1}},
	{gltf.WEIGHTS_0, wrWeights, kind{comp: cUbyte, sh: shVec4}},
}

// attributes writes a subset of attributes as a primitive; some may be empty or nil and are skipped.
func attributes(doc *gltf.Document, specs []attrSpec, n int, skip int) (map[string]int, []written, []attrSpec, error) {
	var attrs []modeler.PrimitiveAttribute
	var ws []written
	var used []attrSpec
	for i, a := range specs {
		switch {
		case skip == 1 && i == 0:
			attrs = append(attrs, modeler.PrimitiveAttribute{Name: a.name})
			continue
		case skip == 2 && i == 1:
			attrs = append(attrs, modeler.PrimitiveAttribute{Name: a.name, Data: a.k.filled(0, 0)})
			continue
		}
		d := a.k.symbolic("data", n)
		bits, _ := a.k.flatten(d)
		attrs = append(attrs, modeler.PrimitiveAttribute{Name: a.name, Data: d})
		ws = append(ws, written{-1, a.k, bits, n, writerNorm(a.w, a.k), gltf.TargetArrayBuffer})
		used = append(used, a)
	}
	m, err := modeler.WritePrimitiveAttributes(doc, attrs...)
	if err == nil {
		for i, a := range used {
			if idx, ok := m[a.name]; ok {
				ws[i].acr = idx
			}
		}
	}
	return m, ws, used, err
}

func pickSpecs() []attrSpec {
	i := sym.Choose("attr", len(attrSpecs))
	at := func(d int) attrSpec { return attrSpecs[(i+d)%len(attrSpecs)] }
	switch sym.Choose("attrs", 4) {
	case 0:
		return []attrSpec{at(0)}
	case 1:
		return []attrSpec{at(0), at(1), at(3)}
	case 2:
		return []attrSpec{at(2), at(0)}
	}
	return []attrSpec{at(5), at(1), at(0), at(2)}
}

func dupNames(specs []attrSpec) bool {
	for i, a := range specs {
		for _, b := range specs[i+1:] {
			if a.name == b.name {
				return true
			}
		}
	}
	return false
}

func M01_Attributes() {
	specs := pickSpecs()
	sym.Assume(!dupNames(specs))
	doc := preDoc([]int{0, 4, 7}[sym.Choose("pre", 3)])
	s := snapDoc(doc)
	n := 1 + sym.Choose("count", 2)
	skip := sym.Choose("skip", 3)
	m, ws, _, err := attributes(doc, specs, n, skip)
	sym.Assert(err == nil, "writing valid attributes succeeds")
	sym.Assert(len(m) == len(ws), "one attribute per non-empty slice")
	for _, w := range ws {
		sym.Assert(w.acr >= len(s.acrs), "attributes refer to new accessors")
	}
	for i, w := range ws {
		for _, x := range ws[i+1:] {
			sym.Assert(w.acr != x.acr, "attributes have their own accessors")
		}
	}
	checkWrite(doc, s, 1, len(ws), 0, ws)
	disjoint(doc, ws)
	sym.Reach("done")
}

// M01_View: raw buffer views and images.
func M01_View() {
	doc := preDoc(sym.Choose("pre", nPre))
	s := snapDoc(doc)
	n := sym.Choose("len", 6)
	data := sym.Bytes("data", n)
	keep := clone(data)
	var idx, ni int
	var err error
	switch sym.Choose("op", 4) {
	case 0:
		idx = modeler.WriteBufferView(doc, targets[sym.Choose("target", 3)], data)
	case 1:
		var img int
		img, err = modeler.WriteImage(doc, "img", "image/png", bytes.NewBuffer(data))
		idx, ni = len(doc.BufferViews)-1, 1
		sym.Assert(img == len(doc.Images)-1, "the returned index is the new last image")
	case 2:
		var img int
		img, err = modeler.WriteImage(doc, "img", "image/png", &errReader{data: clone(data)})
		idx, ni = len(doc.BufferViews)-1, 1
		sym.Assert(img == len(doc.Images)-1, "the returned index is the new last image")
	default:
		_, err = modeler.WriteImage(doc, "img", "image/png", &errReader{data: clone(data), fail: true})
		sym.Assert(err != nil, "a failing reader is reported")
		sym.Assert(s.unchanged(doc, false), "an error leaves the document as it was")
		sym.Reach("failed")
		return
	}
	sym.Assert(err == nil, "writing succeeds")
	checkWrite(doc, s, 1, 0, ni, nil)
	sym.Assert(idx == len(doc.BufferViews)-1, "the returned index is the new last view")
	v := doc.BufferViews[idx]
	sym.Assert(v.ByteLength == n, "the view has the length of the data")
	sym.Assert(sym.BytesEq(doc.Buffers[v.Buffer].Data[v.ByteOffset:v.ByteOffset+v.ByteLength], keep), "the view holds the data")
	if ni == 1 {
		im := doc.Images[len(doc.Images)-1]
		sym.Assert(im.Name == "img" && im.MimeType == "image/png" && im.BufferView != nil && *im.BufferView == idx && im.URI == "", "the image refers to its data")
	}
	sym.Reach("done")
}

// M01_Errors: writes that fail must not leave traces.
func M01_Errors() {
	doc := preDoc(sym.Choose("pre", nPre))
	s := snapDoc(doc)
	a, b := interKinds[sym.Choose("a", 3)], interKinds[sym.Choose("b", 3)]
	n, m := sym.Choose("n", 3), sym.Choose("m", 3)
	var err error
	switch sym.Choose("op", 5) {
	case 0:
		sym.Assume(n != m)
		_, err = modeler.WriteAccessorsInterleaved(doc, a.filled(n, 1), b.filled(m, 1))
	case 1:
		sym.Assume(n != m)
		_, err = modeler.WriteBufferViewInterleaved(doc, a.filled(n, 1), b.filled(m, 1))
	case 2:
		sym.Assume(n != m && n > 0 && m > 0)
		_, err = modeler.WritePrimitiveAttributes(doc, modeler.PrimitiveAttribute{Name: "_A", Data: a.filled(n, 1)}, modeler.PrimitiveAttribute{Name: "_B", Data: b.filled(m, 1)})
	case 3:
		sym.Assume(n > 0)
		bad := []string{gltf.POSITION, gltf.TEXCOORD_0, gltf.TEXCOORD_1, gltf.WEIGHTS_0, gltf.JOINTS_0, gltf.COLOR_0}[sym.Choose("attr", 6)]
		_, err = modeler.WritePrimitiveAttributes(doc, modeler.PrimitiveAttribute{Name: "_A", Data: a.filled(n, 1)}, modeler.PrimitiveAttribute{Name: bad, Data: make([]uint32, n)})
	default:
		sym.Assume(n > 0 && m > 0)
		_, err = modeler.WriteAccessorsInterleaved(doc, a.filled(n, 1), b.filled(n, 1), a.filled(n+m, 1))
	}
	sym.Assert(err != nil, "inconsistent data is an error")
	sym.Assert(s.unchanged(doc, false), "an error leaves the document as it was")
	sym.Reach("done")
}

// oneOp performs one of several writes and checks it.
func oneOp(doc *gltf.Document, op int) []written {
	s := snapDoc(doc)
	switch op {
	case 0:
		x := writeOne(doc, wrIndices, kind{comp: cUshort, sh: shScalar}, 3, 0)
		checkWrite(doc, s, 1, 1, 0, []written{x})
		return []written{x}
	case 1:
		x := writeOne(doc, wrPosition, kind{comp: cFloat, sh: shVec3}, 2, 0)
		checkWrite(doc, s, 1, 1, 0, []written{x})
		return []written{x}
	case 2:
		_, ws, err := interleave(doc, []kind{{comp: cUshort, sh: shVec3}, {comp: cUbyte, sh: shScalar}}, 2)
		sym.Assert(err == nil, "writing succeeds")
		checkWrite(doc, s, 1, 2, 0, ws)
		return ws
	case 3:
		_, ws, _, err := attributes(doc, []attrSpec{attrSpecs[2], attrSpecs[0]}, 1, 0)
		sym.Assert(err == nil, "writing succeeds")
		checkWrite(doc, s, 1, 2, 0, ws)
		return ws
	case 4:
		modeler.WriteBufferView(doc, gltf.TargetNone, sym.Bytes("raw", 5))
		checkWrite(doc, s, 1, 0, 0, nil)
	case 5:
		_, err := modeler.WriteImage(doc, "", "image/jpeg", bytes.NewBuffer(sym.Bytes("img", 3)))
		sym.Assert(err == nil, "writing succeeds")
		checkWrite(doc, s, 1, 0, 1, nil)
	case 6:
		x := writeOne(doc, wrColor, kind{comp: cUbyte, sh: shVec3}, 3, 0)
		checkWrite(doc, s, 1, 1, 0, []written{x})
		return []written{x}
	default:
		_, _, err := interleave(doc, nil, 0)
		_ = err
		doc.Buffers = append(doc.Buffers, &gltf.Buffer{ByteLength: 2, Data: sym.BytesCap("new", 2, 7)})
	}
	return nil
}

// M01_Sequence: histories of writes; every accessor written earlier still describes its data at the end.
func M01_Sequence() {
	doc := preDoc([]int{0, 6}[sym.Choose("pre", 2)])
	var all []written
	steps := 3
	if sym.Tier() > 0 {
		steps = 4
	}
	for i := 0; i < steps; i++ {
		op := sym.Choose("op", 8)
		all = append(all, oneOp(doc, op)...)
	}
	for _, w := range all {
		checkWritten(doc, w)
	}
	sym.Reach("done")
}
