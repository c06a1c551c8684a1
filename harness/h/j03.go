package h

import (
	"encoding/json"
	"strconv"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/zzverif/sym"
)

// The codes of the glTF 2.0 specification.

var componentCode = map[gltf.ComponentType]int{gltf.ComponentByte: 5120, gltf.ComponentUbyte: 5121, gltf.ComponentShort: 5122, gltf.ComponentUshort: 5123, gltf.ComponentUint: 5125, gltf.ComponentFloat: 5126}
var modeCode = map[gltf.PrimitiveMode]int{gltf.PrimitivePoints: 0, gltf.PrimitiveLines: 1, gltf.PrimitiveLineLoop: 2, gltf.PrimitiveLineStrip: 3, gltf.PrimitiveTriangles: 4, gltf.PrimitiveTriangleStrip: 5, gltf.PrimitiveTriangleFan: 6}
var magCode = map[gltf.MagFilter]int{gltf.MagNearest: 9728, gltf.MagLinear: 9729}
var minCode = map[gltf.MinFilter]int{gltf.MinNearest: 9728, gltf.MinLinear: 9729, gltf.MinNearestMipMapNearest: 9984, gltf.MinLinearMipMapNearest: 9985, gltf.MinNearestMipMapLinear: 9986, gltf.MinLinearMipMapLinear: 9987}
var wrapCode = map[gltf.WrappingMode]int{gltf.WrapClampToEdge: 33071, gltf.WrapMirroredRepeat: 33648, gltf.WrapRepeat: 10497}
var targetCode = map[gltf.Target]int{gltf.TargetArrayBuffer: 34962, gltf.TargetElementArrayBuffer: 34963}
var accessorName = map[gltf.AccessorType]string{gltf.AccessorScalar: "SCALAR", gltf.AccessorVec2: "VEC2", gltf.AccessorVec3: "VEC3", gltf.AccessorVec4: "VEC4", gltf.AccessorMat2: "MAT2", gltf.AccessorMat3: "MAT3", gltf.AccessorMat4: "MAT4"}
var alphaName = map[gltf.AlphaMode]string{gltf.AlphaOpaque: "OPAQUE", gltf.AlphaMask: "MASK", gltf.AlphaBlend: "BLEND"}
var interpName = map[gltf.Interpolation]string{gltf.InterpolationLinear: "LINEAR", gltf.InterpolationStep: "STEP", gltf.InterpolationCubicSpline: "CUBICSPLINE"}
var trsName = map[gltf.TRSProperty]string{gltf.TRSTranslation: "translation", gltf.TRSRotation: "rotation", gltf.TRSScale: "scale", gltf.TRSWeights: "weights"}

func jsonStr(s string) string { return `"` + s + `"` }

// enumCase checks one direction pair for a value v with the JSON text want.
func enumCase(v json.Marshaler, u json.Unmarshaler, known bool, want string, same func() bool) {
	sym.Assume(known)
	b, err := v.MarshalJSON()
	sym.Assert(err == nil, "marshals")
	sym.Assert(string(b) == want, "code of the specification")
	err = u.UnmarshalJSON([]byte(want))
	sym.Assert(err == nil, "unmarshals")
	sym.Assert(same(), "same value again")
	sym.Reach("done")
}

func J03_Component() {
	v := gltf.ComponentType(sym.U16("v"))
	u := gltf.ComponentType(sym.U16("before"))
	c, ok := componentCode[v]
	enumCase(&v, &u, ok, strconv.Itoa(c), func() bool { return u == v })
}
func J03_Mode() {
	v := gltf.PrimitiveMode(sym.U8("v"))
	u := gltf.PrimitiveMode(sym.U8("before"))
	c, ok := modeCode[v]
	enumCase(&v, &u, ok, strconv.Itoa(c), func() bool { return u == v })
}
func J03_Mag() {
	v := gltf.MagFilter(sym.U16("v"))
	u := gltf.MagFilter(sym.U16("before"))
	c, ok := magCode[v]
	enumCase(&v, &u, ok, strconv.Itoa(c), func() bool { return u == v })
}
func J03_Min() {
	v := gltf.MinFilter(sym.U16("v"))
	u := gltf.MinFilter(sym.U16("before"))
	c, ok := minCode[v]
	enumCase(&v, &u, ok, strconv.Itoa(c), func() bool { return u == v })
}
func J03_Wrap() {
	v := gltf.WrappingMode(sym.U16("v"))
	u := gltf.WrappingMode(sym.U16("before"))
	c, ok := wrapCode[v]
	enumCase(&v, &u, ok, strconv.Itoa(c), func() bool { return u == v })
}
func J03_Accessor() {
	v := gltf.AccessorType(sym.U8("v"))
	u := gltf.AccessorType(sym.U8("before"))
	c, ok := accessorName[v]
	enumCase(&v, &u, ok, jsonStr(c), func() bool { return u == v })
}
func J03_Alpha() {
	v := gltf.AlphaMode(sym.U8("v"))
	u := gltf.AlphaMode(sym.U8("before"))
	c, ok := alphaName[v]
	enumCase(&v, &u, ok, jsonStr(c), func() bool { return u == v })
}
func J03_Interpolation() {
	v := gltf.Interpolation(sym.U8("v"))
	u := gltf.Interpolation(sym.U8("before"))
	c, ok := interpName[v]
	enumCase(&v, &u, ok, jsonStr(c), func() bool { return u == v })
}
func J03_TRS() {
	v := gltf.TRSProperty(sym.U8("v"))
	u := gltf.TRSProperty(sym.U8("before"))
	c, ok := trsName[v]
	enumCase(&v, &u, ok, jsonStr(c), func() bool { return u == v })
}

// J03_Codes: every 16-bit code decoded alone gives the value the specification names by it.
func J03_Codes() {
	code := sym.U16("code")
	text := []byte(strconv.Itoa(int(code)))
	hit := false
	switch sym.Choose("enum", 5) {
	case 0:
		var u gltf.ComponentType
		err := u.UnmarshalJSON(text)
		for v, c := range componentCode {
			if int(code) == c {
				hit = true
				sym.Assert(err == nil && u == v, "component type of the code")
			}
		}
	case 1:
		var u gltf.PrimitiveMode
		err := u.UnmarshalJSON(text)
		for v, c := range modeCode {
			if int(code) == c {
				hit = true
				sym.Assert(err == nil && u == v, "mode of the code")
			}
		}
	case 2:
		var u gltf.MagFilter
		err := u.UnmarshalJSON(text)
		for v, c := range magCode {
			if int(code) == c {
				hit = true
				sym.Assert(err == nil && u == v, "mag filter of the code")
			}
		}
	case 3:
		var u gltf.MinFilter
		err := u.UnmarshalJSON(text)
		for v, c := range minCode {
			if int(code) == c {
				hit = true
				sym.Assert(err == nil && u == v, "min filter of the code")
			}
		}
	case 4:
		var u gltf.WrappingMode
		err := u.UnmarshalJSON(text)
		for v, c := range wrapCode {
			if int(code) == c {
				hit = true
				sym.Assert(err == nil && u == v, "wrapping mode of the code")
			}
		}
	}
	if hit {
		sym.Reach("known code")
	} else {
		sym.Reach("unknown code")
	}
}

// J03_AccessorNames: any string over the letters of the type names is either one of the seven or rejected,
// and rejection leaves the value alone.
func J03_AccessorNames() {
	n := sym.Choose("len", 8)
	s := sym.StrAlphabet("name", n, "SCALRVETM1234")
	before := gltf.AccessorType(sym.U8("before"))
	u := before
	err := json.Unmarshal([]byte(jsonStr(s)), &u)
	known := false
	for v, c := range accessorName {
		if s == c {
			known = true
			sym.Assert(err == nil && u == v, "type of the name")
			sym.Reach("known")
		}
	}
	if !known {
		sym.Assert(err != nil, "unknown type is rejected")
		sym.Assert(u == before, "value untouched")
		sym.Reach("unknown")
	}
}

// enumDoc is a document in which every enumeration occurs in the place the library puts it.
func J03_InPlace() {
	acc := &gltf.Accessor{ComponentType: gltf.ComponentType(sym.U16("component")), Type: gltf.AccessorType(sym.U8("type")), Count: 1,
		Sparse: &gltf.Sparse{Count: 1, Indices: gltf.SparseIndices{ComponentType: gltf.ComponentType(sym.U16("index component"))}}}
	_, ok := componentCode[acc.ComponentType]
	sym.Assume(ok)
	_, ok = componentCode[acc.Sparse.Indices.ComponentType]
	sym.Assume(ok)
	_, ok = accessorName[acc.Type]
	sym.Assume(ok)
	b, err := json.Marshal(acc)
	sym.Assert(err == nil, "accessor marshals")
	var gen struct {
		ComponentType int
		Type          string
		Sparse        struct{ Indices struct{ ComponentType int } }
	}
	sym.Assert(json.Unmarshal(b, &gen) == nil, "accessor text is valid")
	sym.Assert(gen.ComponentType == componentCode[acc.ComponentType] && gen.Type == accessorName[acc.Type], "codes in the accessor")
	sym.Assert(gen.Sparse.Indices.ComponentType == componentCode[acc.Sparse.Indices.ComponentType], "code in the sparse indices")
	var back gltf.Accessor
	sym.Assert(json.Unmarshal(b, &back) == nil, "accessor unmarshals")
	sym.Assert(back.ComponentType == acc.ComponentType && back.Type == acc.Type, "accessor round trip")
	sym.Assert(back.Sparse != nil && back.Sparse.Indices.ComponentType == acc.Sparse.Indices.ComponentType, "sparse round trip")
	sym.Reach("done")
}

func J03_InSampler() {
	s := &gltf.Sampler{MagFilter: gltf.MagFilter(sym.U16("mag")), MinFilter: gltf.MinFilter(sym.U16("min")), WrapS: gltf.WrappingMode(sym.U16("s")), WrapT: gltf.WrappingMode(sym.U16("t"))}
	sym.Assume(s.MagFilter <= gltf.MagNearest && s.MinFilter <= gltf.MinLinearMipMapLinear)
	sym.Assume(s.WrapS <= gltf.WrapMirroredRepeat && s.WrapT <= gltf.WrapMirroredRepeat)
	b, err := json.Marshal(s)
	sym.Assert(err == nil, "sampler marshals")
	var gen struct{ MagFilter, MinFilter, WrapS, WrapT *int }
	sym.Assert(json.Unmarshal(b, &gen) == nil, "sampler text is valid")
	if gen.MagFilter != nil {
		sym.Assert(*gen.MagFilter == magCode[s.MagFilter], "mag code")
	} else {
		sym.Assert(s.MagFilter == gltf.MagUndefined, "only an undefined mag filter is omitted")
	}
	if gen.MinFilter != nil {
		sym.Assert(*gen.MinFilter == minCode[s.MinFilter], "min code")
	} else {
		sym.Assert(s.MinFilter == gltf.MinUndefined, "only an undefined min filter is omitted")
	}
	if gen.WrapS != nil {
		sym.Assert(*gen.WrapS == wrapCode[s.WrapS], "wrap code")
	} else {
		sym.Assert(s.WrapS == gltf.WrapRepeat, "only the default wrapping is omitted")
	}
	if gen.WrapT != nil {
		sym.Assert(*gen.WrapT == wrapCode[s.WrapT], "wrap code")
	} else {
		sym.Assert(s.WrapT == gltf.WrapRepeat, "only the default wrapping is omitted")
	}
	var back gltf.Sampler
	sym.Assert(json.Unmarshal(b, &back) == nil, "sampler unmarshals")
	sym.Assert(sym.DeepEqual(back, *s), "sampler round trip")
	sym.Reach("done")
}

func J03_InOthers() {
	p := &gltf.Primitive{Mode: gltf.PrimitiveMode(sym.U8("mode")), Attributes: map[string]int{}}
	m := &gltf.Material{AlphaMode: gltf.AlphaMode(sym.U8("alpha"))}
	a := &gltf.Animation{Samplers: []*gltf.AnimationSampler{{Interpolation: gltf.Interpolation(sym.U8("interpolation"))}},
		Channels: []*gltf.AnimationChannel{{Target: gltf.AnimationChannelTarget{Path: gltf.TRSProperty(sym.U8("path"))}}}}
	v := &gltf.BufferView{Target: gltf.Target(sym.U16("target"))}
	_, ok := targetCode[v.Target]
	sym.Assume(sym.Or(ok, v.Target == gltf.TargetNone))
	sym.Assume(p.Mode <= gltf.PrimitiveTriangleFan && m.AlphaMode <= gltf.AlphaBlend)
	sym.Assume(a.Samplers[0].Interpolation <= gltf.InterpolationCubicSpline && a.Channels[0].Target.Path <= gltf.TRSWeights)
	switch sym.Choose("object", 4) {
	case 0:
		b, err := json.Marshal(p)
		sym.Assert(err == nil, "primitive marshals")
		gen := struct{ Mode int }{4}
		sym.Assert(json.Unmarshal(b, &gen) == nil && gen.Mode == modeCode[p.Mode], "mode code")
		var back gltf.Primitive
		sym.Assert(json.Unmarshal(b, &back) == nil && back.Mode == p.Mode, "mode round trip")
	case 1:
		b, err := json.Marshal(m)
		sym.Assert(err == nil, "material marshals")
		gen := struct{ AlphaMode string }{"OPAQUE"}
		sym.Assert(json.Unmarshal(b, &gen) == nil && gen.AlphaMode == alphaName[m.AlphaMode], "alpha code")
		var back gltf.Material
		sym.Assert(json.Unmarshal(b, &back) == nil && back.AlphaMode == m.AlphaMode, "alpha round trip")
	case 2:
		b, err := json.Marshal(a)
		sym.Assert(err == nil, "animation marshals")
		var gen struct {
			Samplers []struct{ Interpolation *string }
			Channels []struct{ Target struct{ Path string } }
		}
		sym.Assert(json.Unmarshal(b, &gen) == nil, "animation text is valid")
		if i := gen.Samplers[0].Interpolation; i != nil {
			sym.Assert(*i == interpName[a.Samplers[0].Interpolation], "interpolation code")
		} else {
			sym.Assert(a.Samplers[0].Interpolation == gltf.InterpolationLinear, "only the default interpolation is omitted")
		}
		sym.Assert(gen.Channels[0].Target.Path == trsName[a.Channels[0].Target.Path], "path code")
		var back gltf.Animation
		sym.Assert(json.Unmarshal(b, &back) == nil, "animation unmarshals")
		sym.Assert(back.Samplers[0].Interpolation == a.Samplers[0].Interpolation && back.Channels[0].Target.Path == a.Channels[0].Target.Path, "animation round trip")
	case 3:
		b, err := json.Marshal(v)
		sym.Assert(err == nil, "view marshals")
		var gen struct{ Target int }
		sym.Assert(json.Unmarshal(b, &gen) == nil && gen.Target == targetCode[v.Target], "target code")
		var back gltf.BufferView
		sym.Assert(json.Unmarshal(b, &back) == nil && back.Target == v.Target, "target round trip")
	}
	sym.Reach("done")
}

// names: the text of a declared value is its glTF name, that of any other value is no declared name.
func nameCase(got string, want string, known bool, all []string) {
	if known {
		sym.Assert(got == want, "name of the value")
	} else {
		for _, n := range all {
			sym.Assert(got != n, "an unknown value has no name of a declared one")
		}
	}
	sym.Reach("done")
}

// J03_Names: the String methods.
func J03_Names() {
	at := func(all []string, i int) (string, bool) {
		if i < len(all) {
			return all[i], true
		}
		return "", false
	}
	switch sym.Choose("enum", 10) {
	case 0:
		all := []string{"FLOAT", "BYTE", "UNSIGNED_BYTE", "SHORT", "UNSIGNED_SHORT", "UNSIGNED_INT"}
		v := gltf.ComponentType(sym.U16("v"))
		n, ok := at(all, int(v))
		nameCase(v.String(), n, ok, all)
	case 1:
		all := []string{"SCALAR", "VEC2", "VEC3", "VEC4", "MAT2", "MAT3", "MAT4"}
		v := gltf.AccessorType(sym.U8("v"))
		n, ok := at(all, int(v))
		nameCase(v.String(), n, ok, all)
	case 2:
		all := []string{"TRIANGLES", "POINTS", "LINES", "LINE_LOOP", "LINE_STRIP", "TRIANGLE_STRIP", "TRIANGLE_FAN"}
		v := gltf.PrimitiveMode(sym.U8("v"))
		n, ok := at(all, int(v))
		nameCase(v.String(), n, ok, all)
	case 3:
		all := []string{"OPAQUE", "MASK", "BLEND"}
		v := gltf.AlphaMode(sym.U8("v"))
		n, ok := at(all, int(v))
		nameCase(v.String(), n, ok, all)
	case 4:
		all := []string{"UNDEFINED", "LINEAR", "NEAREST"}
		v := gltf.MagFilter(sym.U16("v"))
		n, ok := at(all, int(v))
		nameCase(v.String(), n, ok, all)
	case 5:
		all := []string{"UNDEFINED", "LINEAR", "NEAREST_MIPMAP_LINEAR", "NEAREST", "NEAREST_MIPMAP_NEAREST", "LINEAR_MIPMAP_NEAREST", "LINEAR_MIPMAP_LINEAR"}
		v := gltf.MinFilter(sym.U16("v"))
		n, ok := at(all, int(v))
		nameCase(v.String(), n, ok, all)
	case 6:
		all := []string{"REPEAT", "CLAMP_TO_EDGE", "MIRRORED_REPEAT"}
		v := gltf.WrappingMode(sym.U16("v"))
		n, ok := at(all, int(v))
		nameCase(v.String(), n, ok, all)
	case 7:
		all := []string{"LINEAR", "STEP", "CUBICSPLINE"}
		v := gltf.Interpolation(sym.U8("v"))
		n, ok := at(all, int(v))
		nameCase(v.String(), n, ok, all)
	case 8:
		all := []string{"translation", "rotation", "scale", "weights"}
		v := gltf.TRSProperty(sym.U8("v"))
		n, ok := at(all, int(v))
		nameCase(v.String(), n, ok, all)
	case 9:
		all := []string{"NONE", "ARRAY_BUFFER", "ELEMENT_ARRAY_BUFFER"}
		v := gltf.Target(sym.U16("v"))
		i := 3
		switch v {
		case gltf.TargetNone:
			i = 0
		case gltf.TargetArrayBuffer:
			i = 1
		case gltf.TargetElementArrayBuffer:
			i = 2
		}
		n, ok := at(all, i)
		nameCase(v.String(), n, ok, all)
	}
}
