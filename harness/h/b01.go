package h

import (
	"github.com/qmuntal/gltf/binary"
	"github.com/qmuntal/gltf/zzverif/sym"
)

// component is the interface documented in package binary.
type component[E any] interface {
	Scalar([]byte) E
	Vec2([]byte) [2]E
	Vec3([]byte) [3]E
	Vec4([]byte) [4]E
	Mat2([]byte) [2][2]E
	Mat3([]byte) [3][3]E
	Mat4([]byte) [4][4]E
	PutScalar([]byte, E)
	PutVec2([]byte, [2]E)
	PutVec3([]byte, [3]E)
	PutVec4([]byte, [4]E)
	PutMat2([]byte, [2][2]E)
	PutMat3([]byte, [3][3]E)
	PutMat4([]byte, [4][4]E)
}

func put[E any](c component[E], sh int, b []byte, data interface{}) {
	switch sh {
	case shScalar:
		c.PutScalar(b, data.([]E)[0])
	case shVec2:
		c.PutVec2(b, data.([][2]E)[0])
	case shVec3:
		c.PutVec3(b, data.([][3]E)[0])
	case shVec4:
		c.PutVec4(b, data.([][4]E)[0])
	case shMat2:
		c.PutMat2(b, data.([][2][2]E)[0])
	case shMat3:
		c.PutMat3(b, data.([][3][3]E)[0])
	case shMat4:
		c.PutMat4(b, data.([][4][4]E)[0])
	}
}

func get[E any](c component[E], sh int, b []byte) interface{} {
	switch sh {
	case shScalar:
		return []E{c.Scalar(b)}
	case shVec2:
		return [][2]E{c.Vec2(b)}
	case shVec3:
		return [][3]E{c.Vec3(b)}
	case shVec4:
		return [][4]E{c.Vec4(b)}
	case shMat2:
		return [][2][2]E{c.Mat2(b)}
	case shMat3:
		return [][3][3]E{c.Mat3(b)}
	}
	return [][4][4]E{c.Mat4(b)}
}

func putGet[E any](c component[E], comp int) {
	k := kind{comp: comp, sh: sym.Choose("shape", nShapes)}
	size := k.size()
	extra := sym.Choose("extra", 3)
	old := sym.Bytes("old", size+extra)
	b := clone(old)
	want := clone(old)
	data := k.symbolic("v", 1)
	bits, _ := k.flatten(data)
	k.encodeAt(want, size, bits)
	put(c, k.sh, b, data)
	sym.Observe("stored", b)
	sym.Assert(sym.BytesEq(b, want), "put stores the glTF layout and nothing else")
	back, ok := k.flatten(get(c, k.sh, b))
	sym.Assert(ok && eqBits(back, bits), "get returns what put stored")
	sym.Assert(sym.BytesEq(b, want), "get does not modify the bytes")

	// any stored bytes, not only those put there by Put; any capacity beyond the element
	raw := sym.Bytes("raw", size+extra)
	rawOld := clone(raw)
	got, ok := k.flatten(get(c, k.sh, raw))
	sym.Assert(ok && eqBits(got, k.decodeAt(rawOld, size, 1)), "get decodes the glTF layout")
	sym.Assert(sym.BytesEq(raw, rawOld), "get does not modify the bytes")
	sym.Reach("done")
}

func B01_Byte()   { putGet[int8](binary.Byte, cByte) }
func B01_Ubyte()  { putGet[uint8](binary.Ubyte, cUbyte) }
func B01_Short()  { putGet[int16](binary.Short, cShort) }
func B01_Ushort() { putGet[uint16](binary.Ushort, cUshort) }
func B01_Uint()   { putGet[uint32](binary.Uint, cUint) }
func B01_Float()  { putGet[float32](binary.Float, cFloat) }
