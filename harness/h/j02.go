package h

import (
	"math"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/ext/lightspunctual"
	"github.com/qmuntal/gltf/ext/texturetransform"
	"github.com/qmuntal/gltf/zzverif/sym"
)

// floats gives n arbitrary float64 values (any bit pattern).
func floats(name string, n int) []float64 {
	f := make([]float64, n)
	for i := range f {
		f[i] = sym.F64(name)
	}
	return f
}

func sameBits(a, b []float64) bool {
	ok := len(a) == len(b)
	for i := range a {
		if i < len(b) {
			ok = sym.And(ok, math.Float64bits(a[i]) == math.Float64bits(b[i]))
		}
	}
	return ok
}

func allZero(a []float64) bool {
	ok := true
	for i := range a {
		ok = sym.And(ok, a[i] == 0)
	}
	return ok
}

// J02_Node: a transform is set unless all of its components are zero.
func J02_Node() {
	var n gltf.Node
	copy(n.Matrix[:], floats("matrix", 16))
	copy(n.Rotation[:], floats("rotation", 4))
	copy(n.Scale[:], floats("scale", 3))
	copy(n.Translation[:], floats("translation", 3))
	before := n
	m, r, s, t := n.MatrixOrDefault(), n.RotationOrDefault(), n.ScaleOrDefault(), n.TranslationOrDefault()
	sym.Assert(sym.Or(sym.And(!allZero(before.Matrix[:]), sameBits(m[:], before.Matrix[:])), sym.And(allZero(before.Matrix[:]), m == [16]float64{1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1})), "matrix or identity")
	sym.Assert(sym.Or(sym.And(!allZero(before.Rotation[:]), sameBits(r[:], before.Rotation[:])), sym.And(allZero(before.Rotation[:]), r == [4]float64{0, 0, 0, 1})), "rotation or identity")
	sym.Assert(sym.Or(sym.And(!allZero(before.Scale[:]), sameBits(s[:], before.Scale[:])), sym.And(allZero(before.Scale[:]), s == [3]float64{1, 1, 1})), "scale or one")
	sym.Assert(sym.Or(sameBits(t[:], before.Translation[:]), sym.And(allZero(before.Translation[:]), t == [3]float64{})), "translation or zero")
	sym.Assert(sym.And(sameBits(n.Matrix[:], before.Matrix[:]), sameBits(n.Rotation[:], before.Rotation[:]), sameBits(n.Scale[:], before.Scale[:]), sameBits(n.Translation[:], before.Translation[:])), "node untouched")
	sym.Reach("done")
}

// optional gives nil or a pointer to an arbitrary float.
func optional(name string) *float64 {
	if sym.Choose(name+" set", 2) == 0 {
		return nil
	}
	f := sym.F64(name)
	return &f
}

func checkOptional(get func() float64, p **float64, def float64, label string) {
	old := *p
	var v float64
	if old != nil {
		v = *old
	}
	r := get()
	if old == nil {
		sym.Assert(r == def, label+" default")
		sym.Reach("default")
	} else {
		sym.Assert(math.Float64bits(r) == math.Float64bits(v), label+" set")
		sym.Assert(math.Float64bits(*old) == math.Float64bits(v), label+" untouched")
		sym.Reach("set")
	}
	sym.Assert(*p == old, label+" pointer untouched")
}

func J02_Scalars() {
	switch sym.Choose("accessor", 7) {
	case 0:
		o := gltf.Material{AlphaCutoff: optional("f")}
		checkOptional(o.AlphaCutoffOrDefault, &o.AlphaCutoff, 0.5, "alpha cutoff")
	case 1:
		o := gltf.NormalTexture{Scale: optional("f")}
		checkOptional(o.ScaleOrDefault, &o.Scale, 1, "normal scale")
	case 2:
		o := gltf.OcclusionTexture{Strength: optional("f")}
		checkOptional(o.StrengthOrDefault, &o.Strength, 1, "occlusion strength")
	case 3:
		o := gltf.PBRMetallicRoughness{MetallicFactor: optional("f"), RoughnessFactor: optional("g")}
		checkOptional(o.MetallicFactorOrDefault, &o.MetallicFactor, 1, "metallic factor")
	case 4:
		o := gltf.PBRMetallicRoughness{MetallicFactor: optional("f"), RoughnessFactor: optional("g")}
		checkOptional(o.RoughnessFactorOrDefault, &o.RoughnessFactor, 1, "roughness factor")
	case 5:
		o := lightspunctual.Light{Intensity: optional("f"), Range: optional("g")}
		checkOptional(o.IntensityOrDefault, &o.Intensity, 1, "intensity")
	case 6:
		o := lightspunctual.Spot{OuterConeAngle: optional("f"), InnerConeAngle: sym.F64("g")}
		checkOptional(o.OuterConeAngleOrDefault, &o.OuterConeAngle, math.Pi/4, "outer cone angle")
	}
}

func J02_Vectors() {
	set := sym.Choose("set", 2) == 1
	switch sym.Choose("accessor", 3) {
	case 0:
		var o gltf.PBRMetallicRoughness
		if !set {
			sym.Assert(o.BaseColorFactorOrDefault() == [4]float64{1, 1, 1, 1}, "default color")
			sym.Assert(o.BaseColorFactor == nil, "color untouched")
			break
		}
		f := floats("color", 4)
		o.BaseColorFactor = &[4]float64{f[0], f[1], f[2], f[3]}
		c := o.BaseColorFactorOrDefault()
		sym.Assert(sameBits(c[:], f), "color")
		c[0]++
		sym.Assert(sameBits(o.BaseColorFactor[:], f), "color untouched")
	case 1:
		var o lightspunctual.Light
		if !set {
			sym.Assert(o.ColorOrDefault() == [3]float64{1, 1, 1}, "default light color")
			sym.Assert(o.Color == nil, "light color untouched")
			break
		}
		f := floats("color", 3)
		o.Color = &[3]float64{f[0], f[1], f[2]}
		c := o.ColorOrDefault()
		sym.Assert(sameBits(c[:], f), "light color")
		sym.Assert(sameBits(o.Color[:], f), "light color untouched")
	case 2:
		f := floats("scale", 2)
		o := texturetransform.TextureTranform{Scale: [2]float64{f[0], f[1]}}
		c := o.ScaleOrDefault()
		sym.Assert(sym.Or(sym.And(!allZero(f), sameBits(c[:], f)), sym.And(allZero(f), c == [2]float64{1, 1})), "texture scale or one")
		sym.Assert(sameBits(o.Scale[:], f), "texture scale untouched")
	}
	sym.Reach("done")
}
