package h

import (
	"math"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/zzverif/sym"
)

// near tells whether d is v/scale up to the rounding of a float32.
func near(d float32, v float64, scale float64) bool {
	return math.Abs(float64(d)*scale-v) <= scale/(1<<23)
}

func N01_Ubyte() {
	v := sym.U8("v")
	d := gltf.DenormalizeUbyte(v)
	sym.Assert(sym.And(d >= 0, d <= 1), "in [0,1]")
	sym.Assert(near(d, float64(v), 255), "the scaled integer")
	sym.Assert(gltf.NormalizeUbyte(d) == v, "normalizing undoes denormalizing")
	sym.Reach("done")
}

func N01_Byte() {
	v := sym.I8("v")
	d := gltf.DenormalizeByte(v)
	sym.Assert(sym.And(d >= -1, d <= 1), "in [-1,1]")
	w := v
	if v == -128 {
		w = -127
		sym.Assert(d == -1, "the most negative value is -1")
	}
	sym.Assert(near(d, float64(w), 127), "the scaled integer")
	sym.Assert(gltf.NormalizeByte(d) == w, "normalizing undoes denormalizing")
	sym.Reach("done")
}

func N01_Ushort() {
	v := sym.U16("v")
	sym.Assume(int(v)>>12 == sym.Choose("high", 16))
	d := gltf.DenormalizeUshort(v)
	sym.Assert(sym.And(d >= 0, d <= 1), "in [0,1]")
	sym.Assert(near(d, float64(v), 65535), "the scaled integer")
	sym.Assert(gltf.NormalizeUshort(d) == v, "normalizing undoes denormalizing")
	sym.Reach("done")
}

func N01_Short() {
	v := sym.I16("v")
	sym.Assume(int(uint16(v))>>11 == sym.Choose("high", 32))
	d := gltf.DenormalizeShort(v)
	sym.Assert(sym.And(d >= -1, d <= 1), "in [-1,1]")
	w := v
	if v == -32768 {
		w = -32767
		sym.Assert(d == -1, "the most negative value is -1")
	}
	sym.Assert(near(d, float64(w), 32767), "the scaled integer")
	sym.Assert(gltf.NormalizeShort(d) == w, "normalizing undoes denormalizing")
	sym.Reach("done")
}

// unit gives a float in [lo, 1].
func unit(name string, lo float32) float32 {
	f := sym.F32(name)
	sym.Assume(sym.And(f >= lo, f <= 1))
	return f
}

func N01_Nearest() {
	var got, want float64
	switch sym.Choose("type", 4) {
	case 0:
		f := unit("f", 0)
		got, want = float64(gltf.NormalizeUbyte(f)), float64(f)*255
	case 1:
		f := unit("f", -1)
		got, want = float64(gltf.NormalizeByte(f)), float64(f)*127
	case 2:
		f := unit("f", 0)
		got, want = float64(gltf.NormalizeUshort(f)), float64(f)*65535
	default:
		f := unit("f", -1)
		got, want = float64(gltf.NormalizeShort(f)), float64(f)*32767
	}
	sym.Assert(math.Abs(got-want) <= 0.5, "the nearest integer")
	sym.Reach("done")
}
