// Package h holds the verification harnesses, one or more entries per property. Entry functions are named after
// the property they belong to (B01_..., M04_...); names ending in _Deep only run in thorough mode.
package h

import (
	"image/color"
	"math"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/zzverif/sym"
)

// The glTF element types, written down independently of the library.

const (
	shScalar = iota
	shVec2
	shVec3
	shVec4
	shMat2
	shMat3
	shMat4
	nShapes
)

const (
	cByte = iota
	cUbyte
	cShort
	cUshort
	cUint
	cFloat
	nComps
)

var compSize = [nComps]int{1, 1, 2, 2, 4, 4}
var compType = [nComps]gltf.ComponentType{gltf.ComponentByte, gltf.ComponentUbyte, gltf.ComponentShort, gltf.ComponentUshort, gltf.ComponentUint, gltf.ComponentFloat}
var accType = [nShapes]gltf.AccessorType{gltf.AccessorScalar, gltf.AccessorVec2, gltf.AccessorVec3, gltf.AccessorVec4, gltf.AccessorMat2, gltf.AccessorMat3, gltf.AccessorMat4}
var shapeRows = [nShapes]int{1, 2, 3, 4, 2, 3, 4}
var shapeCols = [nShapes]int{1, 1, 1, 1, 2, 3, 4}

func nComponents(sh int) int { return shapeRows[sh] * shapeCols[sh] }

// colStride is the distance in bytes between matrix columns: columns start on 4-byte boundaries. Vectors are
// treated as one column: the library documents that they, too, are aligned to 4-byte boundaries.
func colStride(comp, sh int) int {
	n := shapeRows[sh] * compSize[comp]
	if shapeRows[sh] > 1 {
		n = (n + 3) / 4 * 4
	}
	return n
}

// elemSize is the number of bytes an element occupies.
func elemSize(comp, sh int) int { return colStride(comp, sh) * shapeCols[sh] }

// compOffset is the offset of component k (row-major numbering, as in the Go arrays) inside the element.
func compOffset(comp, sh, k int) int {
	cols := shapeCols[sh]
	r, c := k/cols, k%cols
	return c*colStride(comp, sh) + r*compSize[comp]
}

// mk builds a slice of n elements of a shape out of component values.
func mk[E any](sh, n int, gen func() E) interface{} {
	switch sh {
	case shScalar:
		s := make([]E, n)
		for i := range s {
			s[i] = gen()
		}
		return s
	case shVec2:
		s := make([][2]E, n)
		for i := range s {
			for j := range s[i] {
				s[i][j] = gen()
			}
		}
		return s
	case shVec3:
		s := make([][3]E, n)
		for i := range s {
			for j := range s[i] {
				s[i][j] = gen()
			}
		}
		return s
	case shVec4:
		s := make([][4]E, n)
		for i := range s {
			for j := range s[i] {
				s[i][j] = gen()
			}
		}
		return s
	case shMat2:
		s := make([][2][2]E, n)
		for i := range s {
			for j := range s[i] {
				for k := range s[i][j] {
					s[i][j][k] = gen()
				}
			}
		}
		return s
	case shMat3:
		s := make([][3][3]E, n)
		for i := range s {
			for j := range s[i] {
				for k := range s[i][j] {
					s[i][j][k] = gen()
				}
			}
		}
		return s
	}
	s := make([][4][4]E, n)
	for i := range s {
		for j := range s[i] {
			for k := range s[i][j] {
				s[i][j][k] = gen()
			}
		}
	}
	return s
}

// flat lists the component bits of every element; ok is false if data has another type.
func flat[E any](sh int, data interface{}, bits func(E) uint64) (out []uint64, ok bool) {
	switch sh {
	case shScalar:
		s, ok := data.([]E)
		for i := range s {
			out = append(out, bits(s[i]))
		}
		return out, ok
	case shVec2:
		s, ok := data.([][2]E)
		for i := range s {
			for j := range s[i] {
				out = append(out, bits(s[i][j]))
			}
		}
		return out, ok
	case shVec3:
		s, ok := data.([][3]E)
		for i := range s {
			for j := range s[i] {
				out = append(out, bits(s[i][j]))
			}
		}
		return out, ok
	case shVec4:
		s, ok := data.([][4]E)
		for i := range s {
			for j := range s[i] {
				out = append(out, bits(s[i][j]))
			}
		}
		return out, ok
	case shMat2:
		s, ok := data.([][2][2]E)
		for i := range s {
			for j := range s[i] {
				for k := range s[i][j] {
					out = append(out, bits(s[i][j][k]))
				}
			}
		}
		return out, ok
	case shMat3:
		s, ok := data.([][3][3]E)
		for i := range s {
			for j := range s[i] {
				for k := range s[i][j] {
					out = append(out, bits(s[i][j][k]))
				}
			}
		}
		return out, ok
	}
	s, ok := data.([][4][4]E)
	for i := range s {
		for j := range s[i] {
			for k := range s[i][j] {
				out = append(out, bits(s[i][j][k]))
			}
		}
	}
	return out, ok
}

func bitsI8(v int8) uint64     { return uint64(uint8(v)) }
func bitsU8(v uint8) uint64    { return uint64(v) }
func bitsI16(v int16) uint64   { return uint64(uint16(v)) }
func bitsU16(v uint16) uint64  { return uint64(v) }
func bitsU32(v uint32) uint64  { return uint64(v) }
func bitsF32(v float32) uint64 { return uint64(math.Float32bits(v)) }

// symSlice is a slice of n elements with unconstrained components.
func symSlice(name string, comp, sh, n int) interface{} {
	switch comp {
	case cByte:
		return mk(sh, n, func() int8 { return sym.I8(name) })
	case cUbyte:
		return mk(sh, n, func() uint8 { return sym.U8(name) })
	case cShort:
		return mk(sh, n, func() int16 { return sym.I16(name) })
	case cUshort:
		return mk(sh, n, func() uint16 { return sym.U16(name) })
	case cUint:
		return mk(sh, n, func() uint32 { return sym.U32(name) })
	}
	return mk(sh, n, func() float32 { return sym.F32(name) })
}

// fillSlice is a slice of n elements with every component set to the same arbitrary bits.
func fillSlice(comp, sh, n int, v uint8) interface{} {
	switch comp {
	case cByte:
		return mk(sh, n, func() int8 { return int8(v) })
	case cUbyte:
		return mk(sh, n, func() uint8 { return v })
	case cShort:
		return mk(sh, n, func() int16 { return int16(v) })
	case cUshort:
		return mk(sh, n, func() uint16 { return uint16(v) })
	case cUint:
		return mk(sh, n, func() uint32 { return uint32(v) })
	}
	return mk(sh, n, func() float32 { return math.Float32frombits(uint32(v)) })
}

// flatten lists the component bits of a slice of the given type.
func flatten(comp, sh int, data interface{}) ([]uint64, bool) {
	switch comp {
	case cByte:
		return flat(sh, data, bitsI8)
	case cUbyte:
		return flat(sh, data, bitsU8)
	case cShort:
		return flat(sh, data, bitsI16)
	case cUshort:
		return flat(sh, data, bitsU16)
	case cUint:
		return flat(sh, data, bitsU32)
	}
	return flat(sh, data, bitsF32)
}

// A data kind is one of the 42 component/shape pairs or one of the two color slices.
const nKinds = nComps*nShapes + 2

type kind struct {
	comp, sh int
	color    int // 1: color.RGBA, 2: color.RGBA64
}

func kindOf(k int) kind {
	switch k {
	case nComps * nShapes:
		return kind{cUbyte, shVec4, 1}
	case nComps*nShapes + 1:
		return kind{cUshort, shVec4, 2}
	}
	return kind{k / nShapes, k % nShapes, 0}
}

func (k kind) size() int { return elemSize(k.comp, k.sh) }

func (k kind) symbolic(name string, n int) interface{} {
	switch k.color {
	case 1:
		s := make([]color.RGBA, n)
		for i := range s {
			s[i] = color.RGBA{R: sym.U8(name), G: sym.U8(name), B: sym.U8(name), A: sym.U8(name)}
		}
		return s
	case 2:
		s := make([]color.RGBA64, n)
		for i := range s {
			s[i] = color.RGBA64{R: sym.U16(name), G: sym.U16(name), B: sym.U16(name), A: sym.U16(name)}
		}
		return s
	}
	return symSlice(name, k.comp, k.sh, n)
}

func (k kind) filled(n int, v uint8) interface{} {
	switch k.color {
	case 1:
		s := make([]color.RGBA, n)
		for i := range s {
			s[i] = color.RGBA{v, v, v, v}
		}
		return s
	case 2:
		s := make([]color.RGBA64, n)
		for i := range s {
			s[i] = color.RGBA64{uint16(v), uint16(v), uint16(v), uint16(v)}
		}
		return s
	}
	return fillSlice(k.comp, k.sh, n, v)
}

func (k kind) flatten(data interface{}) ([]uint64, bool) {
	var out []uint64
	switch k.color {
	case 1:
		s, ok := data.([]color.RGBA)
		for _, c := range s {
			out = append(out, uint64(c.R), uint64(c.G), uint64(c.B), uint64(c.A))
		}
		return out, ok
	case 2:
		s, ok := data.([]color.RGBA64)
		for _, c := range s {
			out = append(out, uint64(c.R), uint64(c.G), uint64(c.B), uint64(c.A))
		}
		return out, ok
	}
	return flatten(k.comp, k.sh, data)
}

// encodeAt writes the reference encoding of elements (component bits) into b at the given stride.
func (k kind) encodeAt(b []byte, stride int, bits []uint64) {
	nc := nComponents(k.sh)
	cs := compSize[k.comp]
	for i := 0; i*nc < len(bits); i++ {
		for j := 0; j < nc; j++ {
			o := i*stride + compOffset(k.comp, k.sh, j)
			v := bits[i*nc+j]
			for x := 0; x < cs; x++ {
				b[o+x] = byte(v >> (8 * uint(x)))
			}
		}
	}
}

// decodeAt reads the component bits of n elements.
func (k kind) decodeAt(b []byte, stride, n int) []uint64 {
	nc := nComponents(k.sh)
	cs := compSize[k.comp]
	out := make([]uint64, 0, n*nc)
	for i := 0; i < n; i++ {
		for j := 0; j < nc; j++ {
			o := i*stride + compOffset(k.comp, k.sh, j)
			v := uint64(0)
			for x := 0; x < cs; x++ {
				v |= uint64(b[o+x]) << (8 * uint(x))
			}
			out = append(out, v)
		}
	}
	return out
}

func eqBits(a, b []uint64) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = sym.And(r, a[i] == b[i])
	}
	return r
}

func clone(b []byte) []byte { return append([]byte(nil), b...) }
