package h

import (
	"io"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/binary"
	"github.com/qmuntal/gltf/zzverif/sym"
)

var b02Counts = []int{1, 2, 3, 9, 40}
var b02CountsDeep = []int{1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 40, 64, 65, 130, 260}

// B02_WriteRead: every slice type, strides from tight to element size + 5, several counts.
func B02_WriteRead() {
	counts := b02Counts
	if sym.Tier() > 0 {
		counts = b02CountsDeep
	}
	writeRead(counts[sym.Choose("count", len(counts))], 7)
}

// B02_Long: more than 256 elements.
func B02_Long() { writeRead(261, 3) }

func writeRead(n, strides int) {
	k := kindOf(sym.Choose("kind", nKinds))
	size := k.size()
	stride := 0
	eff := size
	if s := sym.Choose("stride", strides); s > 0 {
		if strides == 3 && s == 2 {
			s = 6
		}
		stride = size + s - 1
		eff = stride
	}
	data := k.symbolic("v", n)
	bits, _ := k.flatten(data)
	total := (n-1)*eff + size
	extra := sym.Choose("extra", 2) * 5
	old := sym.Bytes("old", total+extra)
	b := clone(old)
	want := clone(old)
	k.encodeAt(want, eff, bits)
	err := binary.Write(b, stride, data)
	sym.Assert(err == nil, "write succeeds when the buffer is large enough")
	sym.Assert(sym.BytesEq(b, want), "elements at i*stride in the glTF layout, everything else untouched")
	after, _ := k.flatten(data)
	sym.Assert(eqBits(after, bits), "write does not modify the data")
	out := k.filled(n, 0xa5)
	c := clone(b)
	err = binary.Read(b, stride, out)
	sym.Assert(err == nil, "read succeeds")
	back, ok := k.flatten(out)
	sym.Assert(ok && eqBits(back, bits), "read returns what was written")
	sym.Assert(sym.BytesEq(b, c), "read does not modify the buffer")
	sym.Reach("done")
}

// B03: symbolic buffer length and symbolic stride.

func shortSpec(n, size, stride, blen int) bool {
	// holds <=> all elements i*stride .. i*stride+size lie inside the buffer
	if n == 0 {
		return true
	}
	if stride == 0 {
		stride = size
	}
	if n == 1 {
		return size <= blen
	}
	// buffers are at most 1<<20 bytes long, so a larger stride can never fit
	return sym.And(stride >= 0, stride <= 1<<20, stride*(n-1)+size <= blen)
}

func b03Kind() kind {
	return kindOf(sym.Choose("kind", nKinds))
}

const errShort = "ErrShortBuffer exactly when the buffer cannot hold the strided elements"

func B03_Read() {
	k := b03Kind()
	n := sym.Choose("count", 4)
	size := k.size()
	stride := sym.Int("stride")
	b := sym.BigBytes("b", 1<<20)
	bl := len(b)
	fits := shortSpec(n, size, stride, bl)
	data := k.filled(n, 0x5a)
	before, _ := k.flatten(data)
	err := binary.Read(b, stride, data)
	if err != nil {
		sym.Assert(err == io.ErrShortBuffer, "the error is io.ErrShortBuffer")
		sym.Assert(!fits, errShort)
		after, _ := k.flatten(data)
		sym.Assert(eqBits(before, after), "a failed read leaves the slice unchanged")
		sym.Reach("short")
		return
	}
	sym.Assert(fits, errShort)
	sym.Reach("ok")
}

func B03_Write() {
	k := b03Kind()
	n := sym.Choose("count", 4)
	size := k.size()
	stride := sym.Int("stride")
	b := sym.BigBytes("b", 1<<20)
	bl := len(b)
	fits := shortSpec(n, size, stride, bl)
	data := k.symbolic("v", n)
	p := sym.Int("probe")
	sym.Assume(p >= 0)
	sym.Assume(p < bl)
	old := b[p]
	err := binary.Write(b, stride, data)
	if err != nil {
		sym.Assert(err == io.ErrShortBuffer, "the error is io.ErrShortBuffer")
		sym.Assert(!fits, errShort)
		sym.Assert(b[p] == old, "a failed write leaves the buffer unchanged")
		sym.Reach("short")
		return
	}
	sym.Assert(fits, errShort)
	// nothing beyond the last element is touched
	if n == 0 {
		sym.Assert(b[p] == old, "writing nothing changes nothing")
	} else {
		eff := sym.IteInt(stride == 0, size, stride)
		sym.Assert(sym.Or(p < (n-1)*eff+size, b[p] == old), "nothing beyond the last element is touched")
	}
	sym.Reach("ok")
}

// B03_EmptyBuffer: nil and empty buffers, empty data, all strides.
func B03_EmptyBuffer() {
	k := b03Kind()
	n := sym.Choose("count", 3)
	stride := sym.Int("stride")
	var b []byte
	if sym.Choose("nil", 2) == 1 {
		b = []byte{}
	}
	want := n == 0
	err := binary.Read(b, stride, k.filled(n, 1))
	sym.Assert((err == nil) == want, "read: "+errShort)
	err = binary.Write(b, stride, k.filled(n, 1))
	sym.Assert((err == nil) == want, "write: "+errShort)
}

// B04

func compIndex(c gltf.ComponentType) int {
	for i, x := range compType {
		if x == c {
			return i
		}
	}
	return -1
}

func shapeIndex(t gltf.AccessorType) int {
	for i, x := range accType {
		if x == t {
			return i
		}
	}
	return -1
}

func checkMade(v interface{}, comp, sh, count int) {
	k := kind{comp: comp, sh: sh}
	bits, ok := k.flatten(v)
	sym.Assert(ok, "the slice has the matching Go type")
	sym.Assert(len(bits) == count*nComponents(sh), "the slice has the requested length")
	c, t, n := binary.Type(v)
	sym.Assert(sym.And(c == compType[comp], t == accType[sh], n == count), "binary.Type reports the same types and count")
	sym.Assert(gltf.SizeOfElement(c, t) == k.size(), "SizeOfElement is the size of the glTF layout")
}

var b04Counts = []int{0, 1, 2, 3, 5, 33}

func B04_Valid() {
	comp := sym.Choose("comp", nComps)
	sh := sym.Choose("shape", nShapes)
	count := b04Counts[sym.Choose("count", len(b04Counts))]
	sym.Assert(gltf.SizeOfElement(compType[comp], accType[sh]) == elemSize(comp, sh), "SizeOfElement is the size of the glTF layout")
	sym.Assert(compType[comp].ByteSize() == compSize[comp], "ByteSize of the component")
	sym.Assert(accType[sh].Components() == nComponents(sh), "Components of the accessor type")
	v, err := binary.MakeSlice(compType[comp], accType[sh], count)
	sym.Assert(err == nil, "MakeSlice accepts every valid pair")
	checkMade(v, comp, sh, count)
	sym.Reach("done")
}

var b04Caps = []int{0, 1, 3, 4, 7, 8, 12, 16, 31, 48, 64, 130}

// B04_Buffer: backing buffers of many lengths and capacities.
func B04_Buffer() {
	comp := sym.Choose("comp", nComps)
	sh := sym.Choose("shape", nShapes)
	count := sym.Choose("count", 4)
	c := b04Caps[sym.Choose("cap", len(b04Caps))]
	l := sym.Choose("len", 3) * c / 2
	guard := sym.Bytes("mem", c+8)
	old := clone(guard)
	buf := guard[:l:c]
	v, err := binary.MakeSliceBuffer(compType[comp], accType[sh], count, buf)
	sym.Assert(err == nil, "MakeSliceBuffer accepts every valid pair")
	checkMade(v, comp, sh, count)
	sym.Assert(sym.BytesEq(guard[c:], old[c:]), "nothing is written outside the buffer")
	// using the slice must not reach outside the buffer either
	k := kind{comp: comp, sh: sh}
	if count > 0 {
		src := make([]byte, count*k.size())
		for i := range src {
			src[i] = 0xee
		}
		sym.Assert(binary.Read(src, 0, v) == nil, "the slice can be filled")
	}
	sym.Assert(sym.BytesEq(guard[c:], old[c:]), "filling the slice stays inside the buffer")
	bits, _ := k.flatten(v)
	all := true
	for _, x := range bits {
		all = sym.And(all, x == 0xeeeeeeee&(1<<(8*uint(compSize[comp]))-1))
	}
	sym.Assert(all, "every element of the slice can be stored")
	sym.Reach("done")
}

func B04_NilBuffer() {
	comp := sym.Choose("comp", nComps)
	sh := sym.Choose("shape", nShapes)
	count := sym.Choose("count", 3)
	v, err := binary.MakeSliceBuffer(compType[comp], accType[sh], count, nil)
	sym.Assert(err == nil, "MakeSliceBuffer accepts a nil buffer")
	checkMade(v, comp, sh, count)
}

// B04_Invalid: codes outside the enumerations and negative counts.
func B04_Invalid() {
	c := gltf.ComponentType(sym.U16("c"))
	t := gltf.AccessorType(sym.U8("t"))
	count := sym.Int("count")
	sym.Assume(count < 8)
	comp, sh := compIndex(c), shapeIndex(t)
	var v interface{}
	var err error
	if sym.Choose("buffer", 2) == 0 {
		v, err = binary.MakeSlice(c, t, count)
	} else {
		v, err = binary.MakeSliceBuffer(c, t, count, sym.BytesCap("buf", 3, 24))
	}
	if comp < 0 || sh < 0 || count < 0 {
		sym.Assert(err != nil, "invalid types and negative counts are errors")
		sym.Reach("invalid")
		return
	}
	sym.Assert(err == nil, "valid types are accepted")
	checkMade(v, comp, sh, sym.Concrete(count))
	sym.Reach("valid")
}
