From 89b2b6f55195936d72feb9e49e0a99b4958603e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:35 +0000
Subject: [PATCH 01/19] fix: honor the byte stride when reading and writing
 8-bit scalars

---
 binary/encode.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/binary/encode.go b/binary/encode.go
index 01a4226..b8e598e 100644
--- a/binary/encode.go
+++ b/binary/encode.go
@@ -40,8 +40,8 @@ func Read(b []byte, byteStride int, data any) error {
 			data[i] = color.RGBA64{R: c[0], G: c[1], B: c[2], A: c[3]}
 		}
 	case []int8:
-		for i, x := range b {
-			data[i] = int8(x)
+		for i := range data {
+			data[i] = Byte.Scalar(b[e*i:])
 		}
 	case [][2]int8:
 		for i := range data {
@@ -68,7 +68,7 @@ func Read(b []byte, byteStride int, data any) error {
 			data[i] = Byte.Mat4(b[e*i:])
 		}
 	case []uint8:
-		if byteStride != 1 {
+		if e == 1 {
 			copy(data, b)
 		} else {
 			for i := range data {
@@ -273,7 +273,13 @@ func Write(b []byte, stride int, data any) error {
 			Byte.PutMat4(b[e*i:], data[i])
 		}
 	case []uint8:
-		copy(b, data)
+		if e == 1 {
+			copy(b, data)
+		} else {
+			for i, x := range data {
+				Ubyte.PutScalar(b[e*i:], x)
+			}
+		}
 	case [][2]uint8:
 		for i := range data {
 			Ubyte.PutVec2(b[e*i:], data[i])
-- 
2.43.0


From aa4e5c69e7ed1d4cf763344012356c253e7cc062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:35 +0000
Subject: [PATCH 02/19] fix: return io.ErrShortBuffer instead of panicking on
 negative or huge strides

---
 binary/encode.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/binary/encode.go b/binary/encode.go
index b8e598e..448a0c4 100644
--- a/binary/encode.go
+++ b/binary/encode.go
@@ -21,11 +21,7 @@ func Read(b []byte, byteStride int, data any) error {
 		byteStride = size
 	}
 	e := int(byteStride)
-	high := int(n) * e
-	if byteStride != size {
-		high -= int(byteStride - size)
-	}
-	if len(b) < high {
+	if !fits(len(b), n, size, e) {
 		return io.ErrShortBuffer
 	}
 	switch data := data.(type) {
@@ -217,6 +213,20 @@ func Read(b []byte, byteStride int, data any) error {
 	return nil
 }
 
+// fits reports whether count elements of the given size,
+// whose start is separated by stride bytes, fit in length bytes.
+func fits(length, count, size, stride int) bool {
+	switch {
+	case count == 0:
+		return true
+	case length < size:
+		return false
+	case count == 1:
+		return true
+	}
+	return stride >= 0 && stride <= (length-size)/(count-1)
+}
+
 // Write writes the binary representation of data into b.
 // If stride is diferent than zero data will be interleaved.
 //
@@ -232,7 +242,7 @@ func Write(b []byte, stride int, data any) error {
 	if stride == 0 {
 		e = sizeOfElement
 	}
-	if len(b) < e*(int(n)-1)+sizeOfElement {
+	if !fits(len(b), n, sizeOfElement, e) {
 		return io.ErrShortBuffer
 	}
 	switch data := data.(type) {
-- 
2.43.0


From db0a35caf023bd40a28c1623f939296325e209c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:35 +0000
Subject: [PATCH 03/19] fix: support uint mat3 accessors in MakeSliceBuffer

---
 binary/slice.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binary/slice.go b/binary/slice.go
index 7a1dd4f..3b37118 100644
--- a/binary/slice.go
+++ b/binary/slice.go
@@ -112,7 +112,7 @@ func castSlice(c gltf.ComponentType, t gltf.AccessorType, count int, v []byte) a
 		case gltf.AccessorMat2:
 			return reslice[[2][2]uint32](v, l, rem)
 		case gltf.AccessorMat3:
-
+			return reslice[[3][3]uint32](v, l, rem)
 		case gltf.AccessorMat4:
 			return reslice[[4][4]uint32](v, l, rem)
 		}
-- 
2.43.0


From 84e12445abf36c5177ab960aef4cb8dc72104dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:35 +0000
Subject: [PATCH 04/19] fix: return an error for negative counts in MakeSlice
 and MakeSliceBuffer

---
 binary/slice.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/binary/slice.go b/binary/slice.go
index 3b37118..c6c89b7 100644
--- a/binary/slice.go
+++ b/binary/slice.go
@@ -144,6 +144,9 @@ func MakeSliceBuffer(c gltf.ComponentType, t gltf.AccessorType, count int, buffe
 	if err := checkAccessorType(c, t); err != nil {
 		return nil, err
 	}
+	if count < 0 {
+		return nil, fmt.Errorf("gltf: negative element count %d", count)
+	}
 	buffer = buffer[:cap(buffer)] // Extend the slice to its capacity.
 	if len(buffer) == 0 {
 		return MakeSlice(c, t, count)
@@ -158,6 +161,9 @@ func MakeSlice(c gltf.ComponentType, t gltf.AccessorType, count int) (any, error
 	if err := checkAccessorType(c, t); err != nil {
 		return nil, err
 	}
+	if count < 0 {
+		return nil, fmt.Errorf("gltf: negative element count %d", count)
+	}
 	var tp reflect.Type
 	switch c {
 	case gltf.ComponentUbyte:
-- 
2.43.0


From 29517ea439c85c9a70a9207a1a537e941ad6acf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:11 +0000
Subject: [PATCH 05/19] fix: return zeros for accessors without buffer view
 when a dirty buffer is reused

---
 modeler/read.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/modeler/read.go b/modeler/read.go
index fc4d6f8..f77695e 100644
--- a/modeler/read.go
+++ b/modeler/read.go
@@ -29,6 +29,11 @@ var uint32Pool = sync.Pool{
 // ReadAccessor is safe to use even with malformed documents.
 // If that happens it will return an error instead of panic.
 func ReadAccessor(doc *gltf.Document, acr *gltf.Accessor, buffer []byte) (any, error) {
+	if acr.BufferView == nil {
+		// There is no data to read, so the elements must be zero-initialized
+		// even if buffer contains data from previous usages.
+		zeroBuffer(buffer, acr)
+	}
 	data, err := binary.MakeSliceBuffer(acr.ComponentType, acr.Type, acr.Count, buffer)
 	if err != nil {
 		return nil, err
@@ -81,6 +86,19 @@ func ReadAccessor(doc *gltf.Document, acr *gltf.Accessor, buffer []byte) (any, e
 	return data, nil
 }
 
+// zeroBuffer zeroes the part of buffer, up to its capacity,
+// that is used as backing memory for the elements of acr.
+func zeroBuffer(buffer []byte, acr *gltf.Accessor) {
+	buffer = buffer[:cap(buffer)]
+	size := acr.ComponentType.ByteSize() * acr.Type.Components()
+	if size > 0 && acr.Count >= 0 && acr.Count < len(buffer)/size {
+		buffer = buffer[:acr.Count*size]
+	}
+	for i := range buffer {
+		buffer[i] = 0
+	}
+}
+
 func readBufferView(doc *gltf.Document, bufferViewIndex int) ([]byte, error) {
 	if len(doc.BufferViews) <= bufferViewIndex {
 		return nil, errors.New("gltf: bufferview index overflows")
-- 
2.43.0


From 8d9e022f440d70d69a46caae5c24ea695cbd89e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:26 +0000
Subject: [PATCH 06/19] fix: return an error instead of panicking when reading
 malformed accessors

---
 modeler/read.go | 49 ++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 38 insertions(+), 11 deletions(-)

diff --git a/modeler/read.go b/modeler/read.go
index f77695e..00c5d50 100644
--- a/modeler/read.go
+++ b/modeler/read.go
@@ -18,6 +18,10 @@ var uint32Pool = sync.Pool{
 	},
 }
 
+// maxZeroElements is the maximum number of elements of
+// an accessor which is not backed by a buffer view.
+const maxZeroElements = 1 << 26
+
 // ReadAccessor returns the data references by acr as an slice
 // whose element types are the ones associated with acr.ComponentType and acr.Type.
 //
@@ -29,7 +33,25 @@ var uint32Pool = sync.Pool{
 // ReadAccessor is safe to use even with malformed documents.
 // If that happens it will return an error instead of panic.
 func ReadAccessor(doc *gltf.Document, acr *gltf.Accessor, buffer []byte) (any, error) {
-	if acr.BufferView == nil {
+	var src []byte
+	if acr.BufferView != nil {
+		buf, err := readBufferView(doc, *acr.BufferView)
+		if err != nil {
+			return nil, err
+		}
+		if acr.ByteOffset < 0 || acr.ByteOffset > len(buf) {
+			return nil, io.ErrShortBuffer
+		}
+		src = buf[acr.ByteOffset:]
+		// An element takes at least one byte. Check it before
+		// allocating memory for more elements than available.
+		if acr.Count > len(src) {
+			return nil, io.ErrShortBuffer
+		}
+	} else {
+		if acr.Count > maxZeroElements {
+			return nil, fmt.Errorf("gltf: accessor count %d is too large", acr.Count)
+		}
 		// There is no data to read, so the elements must be zero-initialized
 		// even if buffer contains data from previous usages.
 		zeroBuffer(buffer, acr)
@@ -39,12 +61,8 @@ func ReadAccessor(doc *gltf.Document, acr *gltf.Accessor, buffer []byte) (any, e
 		return nil, err
 	}
 	if acr.BufferView != nil {
-		buf, err := readBufferView(doc, *acr.BufferView)
-		if err != nil {
-			return nil, err
-		}
 		byteStride := doc.BufferViews[*acr.BufferView].ByteStride
-		err = binary.Read(buf[acr.ByteOffset:], byteStride, data)
+		err = binary.Read(src, byteStride, data)
 		if err != nil {
 			return nil, err
 		}
@@ -80,6 +98,9 @@ func ReadAccessor(doc *gltf.Document, acr *gltf.Accessor, buffer []byte) (any, e
 		s := reflect.ValueOf(data)
 		vals := reflect.ValueOf(values)
 		for i := 0; i < int(acr.Sparse.Count); i++ {
+			if uint64(indices[i]) >= uint64(acr.Count) {
+				return nil, fmt.Errorf("gltf: sparse index %d overflows", indices[i])
+			}
 			s.Index(int(indices[i])).Set(vals.Index(i))
 		}
 	}
@@ -100,7 +121,7 @@ func zeroBuffer(buffer []byte, acr *gltf.Accessor) {
 }
 
 func readBufferView(doc *gltf.Document, bufferViewIndex int) ([]byte, error) {
-	if len(doc.BufferViews) <= bufferViewIndex {
+	if bufferViewIndex < 0 || len(doc.BufferViews) <= bufferViewIndex {
 		return nil, errors.New("gltf: bufferview index overflows")
 	}
 	return ReadBufferView(doc, doc.BufferViews[bufferViewIndex])
@@ -112,16 +133,22 @@ func readBufferView(doc *gltf.Document, bufferViewIndex int) ([]byte, error) {
 // It is safe to use even with malformed documents.
 // If that happens it will return an error instead of panic.
 func ReadBufferView(doc *gltf.Document, bv *gltf.BufferView) ([]byte, error) {
-	if len(doc.Buffers) <= bv.Buffer {
+	if bv == nil {
+		return nil, errors.New("gltf: bufferview is nil")
+	}
+	if bv.Buffer < 0 || len(doc.Buffers) <= bv.Buffer {
 		return nil, errors.New("gltf: buffer index overflows")
 	}
+	if doc.Buffers[bv.Buffer] == nil {
+		return nil, errors.New("gltf: buffer is nil")
+	}
 	buf := doc.Buffers[bv.Buffer].Data
 
-	high := bv.ByteOffset + bv.ByteLength
-	if len(buf) < high {
+	if bv.ByteOffset < 0 || bv.ByteLength < 0 ||
+		len(buf) < bv.ByteOffset || len(buf)-bv.ByteOffset < bv.ByteLength {
 		return nil, io.ErrShortBuffer
 	}
-	return buf[bv.ByteOffset:high], nil
+	return buf[bv.ByteOffset : bv.ByteOffset+bv.ByteLength], nil
 }
 
 var bufPool = sync.Pool{
-- 
2.43.0


From d5a3a0e188cbdb50f3e5cce287bf4c06f9c62347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:27 +0000
Subject: [PATCH 07/19] fix: return no elements for empty accessors when a
 longer buffer is reused

---
 modeler/read.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/modeler/read.go b/modeler/read.go
index 00c5d50..a471308 100644
--- a/modeler/read.go
+++ b/modeler/read.go
@@ -161,12 +161,10 @@ var bufPool = sync.Pool{
 func makeBufferOf[T any](count int, buffer []T) []T {
 	if len(buffer) < count {
 		buffer = append(buffer, make([]T, count-len(buffer))...)
-	} else if count != 0 {
-		buffer = buffer[:count]
 	} else if buffer == nil {
 		buffer = make([]T, 0)
 	}
-	return buffer
+	return buffer[:count]
 }
 
 // ReadIndices returns the data referenced by acr.
-- 
2.43.0


From 1671efe965f1e0b6b0798af2d539454e92c7b19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:21 +0000
Subject: [PATCH 08/19] fix: leave the document unchanged when interleaved data
 has different lengths

---
 modeler/write.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/modeler/write.go b/modeler/write.go
index bbcfd6e..9c6f86f 100644
--- a/modeler/write.go
+++ b/modeler/write.go
@@ -214,6 +214,10 @@ func WriteAccessor(doc *gltf.Document, target gltf.Target, data any) int {
 // with the same order as data or an error if the data elements
 // don´t have all the same length.
 func WriteAccessorsInterleaved(doc *gltf.Document, data ...any) ([]int, error) {
+	// Validate the data before modifying doc.
+	if err := checkInterleaved(data...); err != nil {
+		return nil, err
+	}
 	ensurePadding(doc)
 	index, err := WriteBufferViewInterleaved(doc, data...)
 	if err != nil {
@@ -314,15 +318,27 @@ func WriteBufferView(doc *gltf.Document, target gltf.Target, data any) int {
 	return index
 }
 
-func writeBufferViews(doc *gltf.Document, target gltf.Target, data ...any) (int, error) {
-	var refLength, stride, size int
+// checkInterleaved returns an error if the data elements don't have all the same length.
+func checkInterleaved(data ...any) error {
+	var refLength int
 	for i, d := range data {
-		c, a, l := binary.Type(d)
+		_, _, l := binary.Type(d)
 		if i == 0 {
 			refLength = l
 		} else if refLength != l {
-			return 0, errors.New("gltf: interleaved data shall have the same number of elements in all chunks")
+			return errors.New("gltf: interleaved data shall have the same number of elements in all chunks")
 		}
+	}
+	return nil
+}
+
+func writeBufferViews(doc *gltf.Document, target gltf.Target, data ...any) (int, error) {
+	if err := checkInterleaved(data...); err != nil {
+		return 0, err
+	}
+	var stride, size int
+	for _, d := range data {
+		c, a, l := binary.Type(d)
 		sizeOfElement := gltf.SizeOfElement(c, a)
 		size += l * sizeOfElement
 		if len(data) > 1 {
-- 
2.43.0


From f82df1c2172be0ed53ac38ae69e20e3d6f8908fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:22 +0000
Subject: [PATCH 09/19] fix: don't panic when interleaving empty data

---
 modeler/write.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modeler/write.go b/modeler/write.go
index 9c6f86f..fb33c90 100644
--- a/modeler/write.go
+++ b/modeler/write.go
@@ -353,6 +353,9 @@ func writeBufferViews(doc *gltf.Document, target gltf.Target, data ...any) (int,
 	buffer.Data = append(buffer.Data, make([]byte, size)...)
 	dataOffset := offset
 	for _, d := range data {
+		if size == 0 {
+			break // No elements to write.
+		}
 		// Cannot return error as the buffer has enough size and the data type is controlled.
 		_ = binary.Write(buffer.Data[dataOffset:], stride, d)
 		c, a, _ := binary.Type(d)
-- 
2.43.0


From 68cca0c6cc277aae951f8418f8f0f22293bd4740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:10 +0000
Subject: [PATCH 10/19] fix: align interleaved attributes to 4 bytes

---
 modeler/write.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/modeler/write.go b/modeler/write.go
index fb33c90..d275c3a 100644
--- a/modeler/write.go
+++ b/modeler/write.go
@@ -234,7 +234,7 @@ func WriteAccessorsInterleaved(doc *gltf.Document, data ...any) ([]int, error) {
 			Type:          t,
 			Count:         l,
 		})
-		byteOffset += gltf.SizeOfElement(c, t)
+		byteOffset += sizeOfInterleaved(c, t)
 		indices[i] = len(doc.Accessors) - 1
 	}
 	return indices, nil
@@ -340,6 +340,9 @@ func writeBufferViews(doc *gltf.Document, target gltf.Target, data ...any) (int,
 	for _, d := range data {
 		c, a, l := binary.Type(d)
 		sizeOfElement := gltf.SizeOfElement(c, a)
+		if len(data) > 1 {
+			sizeOfElement = sizeOfInterleaved(c, a)
+		}
 		size += l * sizeOfElement
 		if len(data) > 1 {
 			stride += sizeOfElement
@@ -359,7 +362,7 @@ func writeBufferViews(doc *gltf.Document, target gltf.Target, data ...any) (int,
 		// Cannot return error as the buffer has enough size and the data type is controlled.
 		_ = binary.Write(buffer.Data[dataOffset:], stride, d)
 		c, a, _ := binary.Type(d)
-		dataOffset += gltf.SizeOfElement(c, a)
+		dataOffset += sizeOfInterleaved(c, a)
 	}
 	bufferView := &gltf.BufferView{
 		Buffer:     len(doc.Buffers) - 1,
@@ -372,6 +375,13 @@ func writeBufferViews(doc *gltf.Document, target gltf.Target, data ...any) (int,
 	return len(doc.BufferViews) - 1, nil
 }
 
+// sizeOfInterleaved returns the size of an element when interleaved with others,
+// which is padded so all the interleaved elements are aligned to 4 bytes.
+func sizeOfInterleaved(c gltf.ComponentType, t gltf.AccessorType) int {
+	size := gltf.SizeOfElement(c, t)
+	return size + getPadding(size)
+}
+
 func ensurePadding(doc *gltf.Document) {
 	buffer := lastBuffer(doc)
 	padding := getPadding(len(buffer.Data))
-- 
2.43.0


From 34d4a87486ce02d4eaac8ceea8cbb7461a110fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:41 +0000
Subject: [PATCH 11/19] fix: denormalize white to exactly 1.0

---
 math.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math.go b/math.go
index 1a4904d..efd4530 100644
--- a/math.go
+++ b/math.go
@@ -130,7 +130,7 @@ func linearize(v float32) float32 {
 	if v <= 0.04045 {
 		return float32(v / 12.92)
 	}
-	return float32(math.Pow(float64(v+0.055)/1.055, 2.4))
+	return float32(math.Pow((float64(v)+0.055)/1.055, 2.4))
 }
 
 func deliniarize(v float32) float32 {
-- 
2.43.0


From 5b9b53eb0e4a6f1b9dac0d90d3ce07ace436dbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:21 +0000
Subject: [PATCH 12/19] fix: report write errors while encoding a GLB

---
 encode.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/encode.go b/encode.go
index f8a29ad..a81bc4d 100644
--- a/encode.go
+++ b/encode.go
@@ -175,8 +175,12 @@ func (e *Encoder) encodeBinary(doc *Document) (bool, error) {
 	if err != nil {
 		return false, err
 	}
-	e.w.Write(jsonText)
-	e.w.Write(headerPadding)
+	if _, err = e.w.Write(jsonText); err != nil {
+		return false, err
+	}
+	if _, err = e.w.Write(headerPadding); err != nil {
+		return false, err
+	}
 
 	if hasBinChunk {
 		binBuffer := doc.Buffers[0]
@@ -185,8 +189,12 @@ func (e *Encoder) encodeBinary(doc *Document) (bool, error) {
 			binPadding[i] = 0
 		}
 		binHeader := chunkHeader{Length: uint32(binPaddedLength), Type: glbChunkBIN}
-		binary.Write(e.w, binary.LittleEndian, &binHeader)
-		e.w.Write(binBuffer.Data)
+		if err = binary.Write(e.w, binary.LittleEndian, &binHeader); err != nil {
+			return false, err
+		}
+		if _, err = e.w.Write(binBuffer.Data); err != nil {
+			return false, err
+		}
 		_, err = e.w.Write(binPadding)
 	}
 
-- 
2.43.0


From 26d5a634382e88bdcfe80d584f29e304e1bc9004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:46 +0000
Subject: [PATCH 13/19] fix: don't write GLB files whose lengths don't match
 the data

---
 encode.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/encode.go b/encode.go
index a81bc4d..331a01a 100644
--- a/encode.go
+++ b/encode.go
@@ -4,8 +4,10 @@ import (
 	"encoding/binary"
 	"encoding/json"
 	"errors"
+	"fmt"
 	"io"
 	"io/fs"
+	"math"
 	"os"
 	"path/filepath"
 )
@@ -167,9 +169,16 @@ func (e *Encoder) encodeBinary(doc *Document) (bool, error) {
 	hasBinChunk := len(doc.Buffers) > 0 && doc.Buffers[0].URI == ""
 	var binPaddedLength int
 	if hasBinChunk {
-		binPaddedLength = ((doc.Buffers[0].ByteLength + 3) / 4) * 4
+		byteLength := doc.Buffers[0].ByteLength
+		if byteLength < 0 || byteLength > len(doc.Buffers[0].Data) {
+			return false, fmt.Errorf("gltf: Invalid buffer.byteLength value %d, the buffer has %d bytes", byteLength, len(doc.Buffers[0].Data))
+		}
+		binPaddedLength = ((byteLength + 3) / 4) * 4
 		header.Length += uint32(8 + binPaddedLength)
 	}
+	if total := uint64(len(jsonText)) + uint64(binPaddedLength) + 12 + 8 + 8 + 3; total > math.MaxUint32 {
+		return false, errors.New("gltf: document too large for a GLB file")
+	}
 
 	err = binary.Write(e.w, binary.LittleEndian, &header)
 	if err != nil {
@@ -192,7 +201,7 @@ func (e *Encoder) encodeBinary(doc *Document) (bool, error) {
 		if err = binary.Write(e.w, binary.LittleEndian, &binHeader); err != nil {
 			return false, err
 		}
-		if _, err = e.w.Write(binBuffer.Data); err != nil {
+		if _, err = e.w.Write(binBuffer.Data[:binBuffer.ByteLength]); err != nil {
 			return false, err
 		}
 		_, err = e.w.Write(binPadding)
-- 
2.43.0


From 3a4ef48eb1e1cfc106c8c9290119438ce2b7779e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:12 +0000
Subject: [PATCH 14/19] fix: validate the name an external buffer is written
 to, not its URI

---
 decoder.go | 11 +++++++++--
 encode.go  | 12 ++++++++----
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/decoder.go b/decoder.go
index 8ca826c..bc95544 100644
--- a/decoder.go
+++ b/decoder.go
@@ -155,7 +155,7 @@ func (d *Decoder) decodeBuffer(buffer *Buffer) error {
 		buffer.Data, err = buffer.marshalData()
 	} else {
 		err = validateBufferURI(buffer.URI)
-		if err == nil && d.Fsys != nil {
+		if err == nil && d.Fsys != nil && !hasScheme(buffer.URI) {
 			buffer.Data, err = fs.ReadFile(d.Fsys, buffer.URI)
 			if len(buffer.Data) > int(buffer.ByteLength) {
 				buffer.Data = buffer.Data[:buffer.ByteLength:buffer.ByteLength]
@@ -192,7 +192,7 @@ func (d *Decoder) validateBuffer(buffer *Buffer) error {
 }
 
 func validateBufferURI(uri string) error {
-	if u, err := url.Parse(uri); err == nil && u.Scheme != "" {
+	if hasScheme(uri) {
 		return nil
 	}
 	if !filepath.IsLocal(uri) {
@@ -201,6 +201,13 @@ func validateBufferURI(uri string) error {
 	return nil
 }
 
+// hasScheme reports whether uri is an absolute URI,
+// which is neither read from nor written to the file system.
+func hasScheme(uri string) bool {
+	u, err := url.Parse(uri)
+	return err == nil && u.Scheme != ""
+}
+
 func sanitizeURI(uri string) (string, bool) {
 	uri = strings.Replace(uri, "\\", "/", -1)
 	uri = strings.Replace(uri, "/./", "/", -1)
diff --git a/encode.go b/encode.go
index 331a01a..b25a557 100644
--- a/encode.go
+++ b/encode.go
@@ -125,14 +125,18 @@ func (e *Encoder) Encode(doc *Document) error {
 }
 
 func (e *Encoder) encodeBuffer(buffer *Buffer) error {
-	if err := validateBufferURI(buffer.URI); err != nil {
-		return err
-	}
-	if e.Fsys == nil {
+	if hasScheme(buffer.URI) {
 		return nil
 	}
 	uri, ok := sanitizeURI(buffer.URI)
 	if !ok {
+		// Same name the decoder would use.
+		uri = buffer.URI
+	}
+	if err := validateBufferURI(uri); err != nil {
+		return err
+	}
+	if e.Fsys == nil || hasScheme(uri) {
 		return nil
 	}
 	w, err := e.Fsys.Create(uri)
-- 
2.43.0


From 6e9a26bdfddc9ce871e1d138e9bca189b4485a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:14 +0000
Subject: [PATCH 15/19] fix: reject null buffers and images and invalid lengths
 instead of panicking

---
 decoder.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/decoder.go b/decoder.go
index bc95544..96628e0 100644
--- a/decoder.go
+++ b/decoder.go
@@ -63,6 +63,9 @@ func (d *Decoder) Decode(doc *Document) error {
 	}
 
 	for _, b := range doc.Buffers {
+		if b == nil {
+			return errors.New("gltf: Invalid null buffer")
+		}
 		if !b.IsEmbeddedResource() {
 			if uri, ok := sanitizeURI(b.URI); ok {
 				b.URI = uri
@@ -70,6 +73,9 @@ func (d *Decoder) Decode(doc *Document) error {
 		}
 	}
 	for _, im := range doc.Images {
+		if im == nil {
+			return errors.New("gltf: Invalid null image")
+		}
 		if !im.IsEmbeddedResource() {
 			if uri, ok := sanitizeURI(im.URI); ok {
 				im.URI = uri
@@ -129,7 +135,7 @@ func (d *Decoder) readGLBHeader() (*glbHeader, error) {
 }
 
 func (d *Decoder) validateGLBHeader(header *glbHeader) error {
-	if header.JSONHeader.Type != glbChunkJSON || (header.JSONHeader.Length+uint32(binary.Size(header))) > header.Length {
+	if header.JSONHeader.Type != glbChunkJSON || (uint64(header.JSONHeader.Length)+uint64(binary.Size(header))) > uint64(header.Length) {
 		return errors.New("gltf: Invalid GLB JSON header")
 	}
 	return nil
@@ -176,7 +182,7 @@ func (d *Decoder) decodeBinaryBuffer(buffer *Buffer) error {
 	if err != nil {
 		return err
 	}
-	if header.Type != glbChunkBIN || header.Length < uint32(buffer.ByteLength) {
+	if header.Type != glbChunkBIN || uint64(header.Length) < uint64(buffer.ByteLength) {
 		return errors.New("gltf: Invalid GLB BIN header")
 	}
 	buffer.Data = make([]byte, buffer.ByteLength)
@@ -185,8 +191,8 @@ func (d *Decoder) decodeBinaryBuffer(buffer *Buffer) error {
 }
 
 func (d *Decoder) validateBuffer(buffer *Buffer) error {
-	if buffer.ByteLength == 0 {
-		return errors.New("gltf: Invalid buffer.byteLength value = 0")
+	if buffer.ByteLength <= 0 {
+		return fmt.Errorf("gltf: Invalid buffer.byteLength value = %d", buffer.ByteLength)
 	}
 	return nil
 }
-- 
2.43.0


From dedbf706fb10aee7858983da81f28c1f11f2b807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:33 +0000
Subject: [PATCH 16/19] fix: skip the rest of the JSON chunk before reading the
 BIN chunk

---
 decoder.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index 96628e0..fb9cf49 100644
--- a/decoder.go
+++ b/decoder.go
@@ -106,9 +106,11 @@ func (d *Decoder) decodeDocument(doc *Document) (bool, error) {
 	var (
 		jd       *json.Decoder
 		isBinary bool
+		chunk    io.LimitedReader
 	)
 	if glbHeader != nil {
-		jd = json.NewDecoder(&io.LimitedReader{R: d.r, N: int64(glbHeader.JSONHeader.Length)})
+		chunk = io.LimitedReader{R: d.r, N: int64(glbHeader.JSONHeader.Length)}
+		jd = json.NewDecoder(&chunk)
 		isBinary = true
 	} else {
 		jd = json.NewDecoder(d.r)
@@ -116,6 +118,10 @@ func (d *Decoder) decodeDocument(doc *Document) (bool, error) {
 	}
 
 	err = jd.Decode(doc)
+	if err == nil && isBinary {
+		// Skip the padding that the JSON decoder has not read.
+		_, err = io.Copy(io.Discard, &chunk)
+	}
 	return isBinary, err
 }
 
-- 
2.43.0


From 0595cd7174cf3d340d8d4103f20fa84e5ba97d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:07 +0000
Subject: [PATCH 17/19] fix: don't edit nested JSON when eliding
 specular-glossiness defaults

---
 ext/specular/specular.go | 34 ++++++++++------------------------
 1 file changed, 10 insertions(+), 24 deletions(-)

diff --git a/ext/specular/specular.go b/ext/specular/specular.go
index 6752474..ec09c86 100644
--- a/ext/specular/specular.go
+++ b/ext/specular/specular.go
@@ -1,7 +1,6 @@
 package specular
 
 import (
-	"bytes"
 	"encoding/json"
 
 	"github.com/qmuntal/gltf"
@@ -46,28 +45,15 @@ func (p *PBRSpecularGlossiness) UnmarshalJSON(data []byte) error {
 // MarshalJSON marshal the pbr with the correct default values.
 func (p *PBRSpecularGlossiness) MarshalJSON() ([]byte, error) {
 	type alias PBRSpecularGlossiness
-	out, err := json.Marshal(&struct{ *alias }{alias: (*alias)(p)})
-	if err == nil {
-		if p.GlossinessFactor != nil && *p.GlossinessFactor == 1 {
-			out = removeProperty([]byte(`"glossinessFactor":1`), out)
-		}
-		if p.DiffuseFactor != nil && *p.DiffuseFactor == [4]float64{1, 1, 1, 1} {
-			out = removeProperty([]byte(`"diffuseFactor":[1,1,1,1]`), out)
-		}
-		if p.SpecularFactor != nil && *p.SpecularFactor == [3]float64{1, 1, 1} {
-			out = removeProperty([]byte(`"specularFactor":[1,1,1]`), out)
-		}
-		out = sanitizeJSON(out)
+	tmp := alias(*p)
+	if p.GlossinessFactor != nil && *p.GlossinessFactor == 1 {
+		tmp.GlossinessFactor = nil
 	}
-	return out, err
-}
-
-func removeProperty(str []byte, b []byte) []byte {
-	b = bytes.Replace(b, str, []byte(""), 1)
-	return bytes.Replace(b, []byte(`,,`), []byte(","), 1)
-}
-
-func sanitizeJSON(b []byte) []byte {
-	b = bytes.Replace(b, []byte(`{,`), []byte("{"), 1)
-	return bytes.Replace(b, []byte(`,}`), []byte("}"), 1)
+	if p.DiffuseFactor != nil && *p.DiffuseFactor == [4]float64{1, 1, 1, 1} {
+		tmp.DiffuseFactor = nil
+	}
+	if p.SpecularFactor != nil && *p.SpecularFactor == [3]float64{1, 1, 1} {
+		tmp.SpecularFactor = nil
+	}
+	return json.Marshal(&tmp)
 }
-- 
2.43.0


From c3193e4d4969e1f0d0210dece32cc59fa4298fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:07 +0000
Subject: [PATCH 18/19] fix: encode lights and light indices the way they are
 decoded

---
 ext/lightspunctual/lightspunctual.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/ext/lightspunctual/lightspunctual.go b/ext/lightspunctual/lightspunctual.go
index 6365db3..3b6e6de 100644
--- a/ext/lightspunctual/lightspunctual.go
+++ b/ext/lightspunctual/lightspunctual.go
@@ -48,6 +48,13 @@ const (
 // LightIndex is the id of the light referenced by this node.
 type LightIndex int
 
+// MarshalJSON marshals the index as the extension object of a node.
+func (l LightIndex) MarshalJSON() ([]byte, error) {
+	return json.Marshal(struct {
+		Light int `json:"light"`
+	}{int(l)})
+}
+
 // Spot defines the spot cone.
 type Spot struct {
 	InnerConeAngle float64  `json:"innerConeAngle,omitempty"`
@@ -76,6 +83,13 @@ func (s *Spot) UnmarshalJSON(data []byte) error {
 // Lights defines a list of Lights.
 type Lights []*Light
 
+// MarshalJSON marshals the lights as the extension object of a document.
+func (l Lights) MarshalJSON() ([]byte, error) {
+	return json.Marshal(struct {
+		Lights []*Light `json:"lights"`
+	}{l})
+}
+
 // Light defines a directional, point, or spot light.
 // When a light's type is spot, the spot property on the light is required.
 type Light struct {
@@ -113,3 +127,14 @@ func (l *Light) UnmarshalJSON(data []byte) error {
 	}
 	return err
 }
+
+// MarshalJSON marshal the light with the correct default values.
+func (l *Light) MarshalJSON() ([]byte, error) {
+	type alias Light
+	tmp := alias(*l)
+	if l.Range != nil && math.IsInf(*l.Range, 1) {
+		// The default range is infinite, which JSON can't represent.
+		tmp.Range = nil
+	}
+	return json.Marshal(&tmp)
+}
-- 
2.43.0


From d778f134b7804c3fbc89a8bd96ed007c1d8373ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:09 +0000
Subject: [PATCH 19/19] fix: report read errors while looking for the GLB
 header

---
 decoder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/decoder.go b/decoder.go
index fb9cf49..65968f2 100644
--- a/decoder.go
+++ b/decoder.go
@@ -129,6 +129,9 @@ func (d *Decoder) readGLBHeader() (*glbHeader, error) {
 	var header glbHeader
 	chunk, err := d.r.Peek(binary.Size(header))
 	if err != nil {
+		if err != io.EOF {
+			return nil, err
+		}
 		return nil, nil
 	}
 	r := bytes.NewReader(chunk)
-- 
2.43.0

