package h

import (
	"math"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/zzverif/sym"
)

// N02_Channels: each channel is converted on its own, in order, the same way in all variants.
func N02_Channels() {
	a, b, c, d := unit("a", 0), unit("b", 0), unit("c", 0), unit("d", 0)
	if sym.Choose("bits", 2) == 0 {
		f := func(x float32) uint8 { return gltf.NormalizeRGB([3]float32{x, x, x})[0] }
		r3, r4 := gltf.NormalizeRGB([3]float32{a, b, c}), gltf.NormalizeRGBA([4]float32{a, b, c, d})
		sym.Assert(sym.And(r3[0] == f(a), r3[1] == f(b), r3[2] == f(c)), "channels are independent and in order")
		sym.Assert(sym.And(r4[0] == r3[0], r4[1] == r3[1], r4[2] == r3[2]), "alpha does not influence the color")
		al := gltf.NormalizeRGBA([4]float32{0.5, 0.25, 0.125, d})[3]
		sym.Assert(r4[3] == al, "the color does not influence alpha")
	} else {
		f := func(x float32) uint16 { return gltf.NormalizeRGB64([3]float32{x, x, x})[0] }
		r3, r4 := gltf.NormalizeRGB64([3]float32{a, b, c}), gltf.NormalizeRGBA64([4]float32{a, b, c, d})
		sym.Assert(sym.And(r3[0] == f(a), r3[1] == f(b), r3[2] == f(c)), "channels are independent and in order")
		sym.Assert(sym.And(r4[0] == r3[0], r4[1] == r3[1], r4[2] == r3[2]), "alpha does not influence the color")
		al := gltf.NormalizeRGBA64([4]float32{0.5, 0.25, 0.125, d})[3]
		sym.Assert(r4[3] == al, "the color does not influence alpha")
	}
	sym.Reach("done")
}

// same3 compares bit patterns.
func same3(a, b [3]float32, label string) {
	r := true
	for i := range a {
		r = sym.And(r, math.Float32bits(a[i]) == math.Float32bits(b[i]))
	}
	sym.Assert(r, label)
}

// N02_Alpha: alpha is scaled linearly in both directions.
func N02_Alpha() {
	switch sym.Choose("way", 4) {
	case 0:
		d := unit("d", 0)
		al := gltf.NormalizeRGBA([4]float32{0.5, 0.25, 0.125, d})[3]
		sym.Assert(sym.And(float32(al) <= d*255+0.51, float32(al) >= d*255-1.001), "alpha is linear")
	case 1:
		d := unit("d", 0)
		al := gltf.NormalizeRGBA64([4]float32{0.5, 0.25, 0.125, d})[3]
		sym.Assert(sym.And(float32(al) <= d*65535+0.51, float32(al) >= d*65535-1.01), "alpha is linear")
	case 2:
		v := sym.U8("v")
		al := gltf.DenormalizeRGBA([4]uint8{7, 77, 177, v})[3]
		sym.Assert(near(al, float64(v), 255), "alpha is linear")
		sym.Assert(sym.And(al >= 0, al <= 1), "alpha is in [0,1]")
	default:
		v := sym.U16("v")
		sym.Assume(int(v)>>12 == sym.Choose("high", 16))
		al := gltf.DenormalizeRGBA64([4]uint16{7, 777, 47777, v})[3]
		sym.Assert(near(al, float64(v), 65535), "alpha is linear")
		sym.Assert(sym.And(al >= 0, al <= 1), "alpha is in [0,1]")
	}
	sym.Reach("done")
}

// srgb is the reference transfer function from linear to encoded values.
func srgb(x float64) float64 {
	if x <= 0.0031308 {
		return x * 12.92
	}
	return 1.055*math.Pow(x, 1/2.4) - 0.055
}

func srgbInv(x float64) float64 {
	if x <= 0.04045 {
		return x / 12.92
	}
	return math.Pow((x+0.055)/1.055, 2.4)
}

// N02_Curve: between any two multiples of 1/32 the color codes lie between those of the sRGB curve at the two ends.
func N02_Curve() {
	x := unit("x", 0)
	i := sym.Choose("i", 32)
	lo, hi := float64(i)/32, float64(i+1)/32
	sym.Assume(sym.And(float64(x) >= lo, float64(x) <= hi))
	max, got := 255.0, 0.0
	if sym.Choose("bits", 2) == 0 {
		got = float64(gltf.NormalizeRGB([3]float32{x, 0, 1})[0])
	} else {
		max, got = 65535, float64(gltf.NormalizeRGB64([3]float32{x, 0, 1})[0])
	}
	sym.Assert(sym.And(got >= srgb(lo)*max-1.01, got <= srgb(hi)*max+1.01), "color codes follow the transfer curve")
	sym.Reach("done")
}

func N02_Denormalize8() {
	v := [4]uint8{sym.U8("r"), sym.U8("g"), sym.U8("b"), sym.U8("a")}
	f := func(x uint8) float32 { return gltf.DenormalizeRGB([3]uint8{x, x, x})[0] }
	r3, r4 := gltf.DenormalizeRGB([3]uint8{v[0], v[1], v[2]}), gltf.DenormalizeRGBA(v)
	al := gltf.DenormalizeRGBA([4]uint8{7, 77, 177, v[3]})[3]
	same3(r3, [3]float32{f(v[0]), f(v[1]), f(v[2])}, "channels are independent and in order")
	same3(r3, [3]float32{r4[0], r4[1], r4[2]}, "alpha does not influence the color")
	same3([3]float32{r4[3]}, [3]float32{al}, "the color does not influence alpha")
	sym.Reach("done")
}

func N02_Denormalize16() {
	v := [4]uint16{sym.U16("r"), sym.U16("g"), sym.U16("b"), sym.U16("a")}
	f := func(x uint16) float32 { return gltf.DenormalizeRGB64([3]uint16{x, x, x})[0] }
	r3, r4 := gltf.DenormalizeRGB64([3]uint16{v[0], v[1], v[2]}), gltf.DenormalizeRGBA64(v)
	al := gltf.DenormalizeRGBA64([4]uint16{7, 777, 47777, v[3]})[3]
	same3(r3, [3]float32{f(v[0]), f(v[1]), f(v[2])}, "channels are independent and in order")
	same3(r3, [3]float32{r4[0], r4[1], r4[2]}, "alpha does not influence the color")
	same3([3]float32{r4[3]}, [3]float32{al}, "the color does not influence alpha")
	sym.Reach("done")
}

// N02_Range: color codes map into [0,1] along the inverse curve.
func N02_Range() {
	var got float32
	var lo, hi float64
	if sym.Choose("bits", 2) == 0 {
		i := sym.Choose("i", 32)
		v := sym.U8("v")
		sym.Assume(int(v)>>3 == i)
		lo, hi = float64(8*i)/255, float64(8*i+7)/255
		got = gltf.DenormalizeRGB([3]uint8{v, 0, 1})[0]
	} else {
		i := sym.Choose("i", 32)
		v := sym.U16("v")
		sym.Assume(int(v)>>11 == i)
		lo, hi = float64(2048*i)/65535, float64(2048*i+2047)/65535
		got = gltf.DenormalizeRGB64([3]uint16{v, 0, 1})[0]
	}
	sym.Assert(sym.And(got >= 0, got <= 1), "in [0,1]")
	sym.Assert(sym.And(float64(got) >= srgbInv(lo)-1e-6, float64(got) <= srgbInv(hi)+1e-6), "the inverse of the transfer curve")
	sym.Reach("done")
}

// N02_Extremes: black and white.
func N02_Extremes() {
	w := float32(sym.Choose("white", 2))
	i8, i16 := uint8(w*255), uint16(w*65535)
	sym.Assert(gltf.NormalizeRGB([3]float32{w, w, w}) == [3]uint8{i8, i8, i8}, "black and white are the extreme codes")
	sym.Assert(gltf.NormalizeRGBA([4]float32{w, w, w, w}) == [4]uint8{i8, i8, i8, i8}, "black and white are the extreme codes")
	sym.Assert(gltf.NormalizeRGB64([3]float32{w, w, w}) == [3]uint16{i16, i16, i16}, "black and white are the extreme codes")
	sym.Assert(gltf.NormalizeRGBA64([4]float32{w, w, w, w}) == [4]uint16{i16, i16, i16, i16}, "black and white are the extreme codes")
	sym.Assert(gltf.DenormalizeRGB([3]uint8{i8, i8, i8}) == [3]float32{w, w, w}, "the extreme codes are black and white")
	sym.Assert(gltf.DenormalizeRGBA([4]uint8{i8, i8, i8, i8}) == [4]float32{w, w, w, w}, "the extreme codes are black and white")
	sym.Assert(gltf.DenormalizeRGB64([3]uint16{i16, i16, i16}) == [3]float32{w, w, w}, "the extreme codes are black and white")
	sym.Assert(gltf.DenormalizeRGBA64([4]uint16{i16, i16, i16, i16}) == [4]float32{w, w, w, w}, "the extreme codes are black and white")
	sym.Reach("done")
}

// encoded and linear are the two transfer functions in the precision of the channels.
func encoded(x float32) float32 {
	if x < 0.0031308 {
		return x * 12.92
	}
	return float32(1.055*math.Pow(float64(x), 1.0/2.4) - 0.055)
}

func linear(x float32) float32 {
	if x <= 0.04045 {
		return x / 12.92
	}
	return float32(math.Pow((float64(x)+0.055)/1.055, 2.4))
}

// The values where a wrong branch of the curve would differ most are kept apart from those where the branches meet.
var pieces = []float32{0, 0.0005, 0.001, 0.0015, 0.002, 0.0025, 0.0031308, 0.004, 0.005, 0.01, 0.0404, 0.2, 1}

// N02_Exact: the color code of a value is that of the transfer curve at this value.
func N02_Exact() {
	x := unit("x", 0)
	i := sym.Choose("i", len(pieces)-1)
	sym.Assume(sym.And(x >= pieces[i], x <= pieces[i+1]))
	var got, want int
	if sym.Choose("bits", 2) == 0 {
		got, want = int(gltf.NormalizeRGB([3]float32{x, 0, 1})[0]), int(uint8(encoded(x)*255))
	} else {
		got, want = int(gltf.NormalizeRGB64([3]float32{x, 0, 1})[0]), int(uint16(encoded(x)*65535))
	}
	sym.Assert(sym.And(got >= want-1, got <= want+1), "the code of the transfer curve")
	sym.Reach("done")
}

// N02_ExactRange: the value of a color code is that of the inverse curve at this code.
func N02_ExactRange() {
	var got, x float32
	if sym.Choose("bits", 2) == 0 {
		v := sym.U8("v")
		sym.Assume(int(v)>>4 == sym.Choose("high", 16))
		got, x = gltf.DenormalizeRGB([3]uint8{v, 0, 1})[0], float32(v)/255
	} else {
		v := sym.U16("v")
		sym.Assume(int(v)>>12 == sym.Choose("high", 16))
		got, x = gltf.DenormalizeRGB64([3]uint16{v, 0, 1})[0], float32(v)/65535
	}
	c := linear(x)
	sym.Assert(sym.And(got >= c-1e-6, got <= c+1e-6), "the value of the inverse transfer curve")
	sym.Reach("done")
}
