package h

import (
	"bytes"
	"encoding/json"
	"os"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/binary"
	"github.com/qmuntal/gltf/ext/lightspunctual"
	"github.com/qmuntal/gltf/ext/specular"
	"github.com/qmuntal/gltf/ext/texturetransform"
	"github.com/qmuntal/gltf/ext/unlit"
	"github.com/qmuntal/gltf/modeler"
	"github.com/qmuntal/gltf/zzverif/sym"
)

// Operations that run at the same time. None of them may call package sym.

// sharedDoc is a document with accessors of several kinds, embedded and external resources and extensions.
func sharedDoc() *gltf.Document {
	b := sym.Bytes("data", 48)
	for i := 0; i < 6; i++ {
		b[36+i] = uint8(i) // indices
	}
	off := 0
	view := func(n int) *int { return gltf.Index(n) }
	doc := &gltf.Document{
		Asset:   gltf.Asset{Version: "2.0"},
		Buffers: []*gltf.Buffer{{ByteLength: 48, Data: b}, {ByteLength: 4, URI: "a.bin", Data: sym.Bytes("external", 4)}, {ByteLength: 3, URI: "data:application/octet-stream;base64,AQID", Data: []byte{1, 2, 3}}, {ByteLength: 2, Data: []byte{1, 2}, Name: "embedded"}},
		BufferViews: []*gltf.BufferView{{ByteLength: 24, Name: "vectors"}, {ByteOffset: 24, ByteLength: 12, ByteStride: 4}, {ByteOffset: 36, ByteLength: 6},
			{ByteOffset: 40, ByteLength: 8}, {Buffer: 1, ByteLength: 4}},
		Accessors: []*gltf.Accessor{
			{BufferView: view(0), ComponentType: gltf.ComponentFloat, Count: 2, Type: gltf.AccessorVec3},
			{BufferView: view(1), ComponentType: gltf.ComponentUbyte, Count: 3, Type: gltf.AccessorVec4, Normalized: true},
			{BufferView: view(2), ComponentType: gltf.ComponentUshort, Count: 3},
			{BufferView: view(0), ComponentType: gltf.ComponentFloat, Count: 3, Type: gltf.AccessorVec2,
				Sparse: &gltf.Sparse{Count: 1, Indices: gltf.SparseIndices{BufferView: 2, ComponentType: gltf.ComponentUbyte}, Values: gltf.SparseValues{BufferView: 3}}},
		},
		Images:    []*gltf.Image{{URI: "data:image/png;base64,AQID"}, {BufferView: view(4), MimeType: "image/png"}},
		Materials: []*gltf.Material{{AlphaMode: gltf.AlphaMask, PBRMetallicRoughness: &gltf.PBRMetallicRoughness{}, NormalTexture: &gltf.NormalTexture{Index: view(0)}, OcclusionTexture: &gltf.OcclusionTexture{Index: view(0)}, Extensions: gltf.Extensions{unlit.ExtensionName: &unlit.Unlit{}, "X_other": json.RawMessage(`{"a":1}`)}}},
		Nodes:     []*gltf.Node{{Name: "n", Children: []int{1}}, {Scale: [3]float64{1, 1, 2}}},
		Meshes:    []*gltf.Mesh{{Primitives: []*gltf.Primitive{{Attributes: gltf.PrimitiveAttributes{"POSITION": off}}}}},
	}
	doc.Extensions = gltf.Extensions{lightspunctual.ExtensionName: lightspunctual.Lights{{Type: lightspunctual.TypePoint}}}
	return doc
}

const nReads = 15

// reads is an operation that only looks at doc; it tells whether it succeeded.
func reads(op int, doc *gltf.Document) func() bool {
	encode := func(binary bool, indent string) func() bool {
		return func() bool {
			var out sink
			e := gltf.NewEncoderFS(&out, &memFS{})
			e.AsBinary = binary
			e.SetJSONIndent("", indent)
			return e.Encode(doc) == nil && len(out.b) > 0
		}
	}
	acr := doc.Accessors
	switch op {
	case 0:
		return encode(true, "")
	case 1:
		return encode(false, "  ")
	case 2:
		return func() bool {
			v, err := modeler.ReadPosition(doc, acr[0], nil)
			scribble(v)
			return err == nil && len(v) == 2
		}
	case 3:
		return func() bool {
			v, err := modeler.ReadColor(doc, acr[1], nil)
			scribble(v)
			return err == nil && len(v) == 3
		}
	case 4:
		return func() bool {
			v, err := modeler.ReadColor64(doc, acr[1], nil)
			scribble(v)
			return err == nil && len(v) == 3
		}
	case 5:
		return func() bool {
			v, err := modeler.ReadIndices(doc, acr[2], nil)
			scribble(v)
			return err == nil && len(v) == 3
		}
	case 6:
		return func() bool {
			v, err := modeler.ReadAccessor(doc, acr[3], nil)
			scribble(v)
			return err == nil && v != nil
		}
	case 7:
		return func() bool {
			v, err := modeler.ReadTextureCoord(doc, acr[3], nil)
			scribble(v)
			return err == nil && len(v) == 3
		}
	case 8:
		return func() bool {
			v, err := modeler.ReadWeights(doc, acr[1], nil)
			scribble(v)
			return err == nil && len(v) == 3
		}
	case 9:
		return func() bool {
			v, err := modeler.ReadBufferView(doc, doc.BufferViews[1])
			return err == nil && len(v) == 12
		}
	case 10:
		return func() bool {
			v, err := doc.Images[0].MarshalData()
			scribble(v)
			return err == nil && len(v) == 3
		}
	case 11:
		return func() bool {
			m, n := doc.Materials[0], doc.Nodes[0]
			return m.AlphaCutoffOrDefault() == 0.5 && m.PBRMetallicRoughness.MetallicFactorOrDefault() == 1 &&
				m.PBRMetallicRoughness.RoughnessFactorOrDefault() == 1 && m.PBRMetallicRoughness.BaseColorFactorOrDefault() == [4]float64{1, 1, 1, 1} &&
				m.NormalTexture.ScaleOrDefault() == 1 && m.OcclusionTexture.StrengthOrDefault() == 1 &&
				n.MatrixOrDefault() == gltf.DefaultMatrix && n.RotationOrDefault() == gltf.DefaultRotation &&
				n.ScaleOrDefault() == gltf.DefaultScale && n.TranslationOrDefault() == gltf.DefaultTranslation
		}
	case 12:
		return func() bool {
			for _, v := range []interface{}{doc.Materials[0], doc.Nodes[0], doc.Nodes[1], doc.Meshes[0], doc.Extensions} {
				if _, err := json.Marshal(v); err != nil {
					return false
				}
			}
			return true
		}
	case 13:
		return func() bool {
			return doc.Buffers[2].IsEmbeddedResource() && doc.Images[0].IsEmbeddedResource() && !doc.Buffers[0].IsEmbeddedResource() &&
				gltf.SizeOfElement(acr[0].ComponentType, acr[0].Type) == 12 && acr[0].Type.String() != "" && acr[0].ComponentType.String() != ""
		}
	}
	return func() bool {
		v, err := modeler.ReadAccessor(doc, acr[0], nil)
		w, ok := v.([][3]float32)
		scribble(v)
		return err == nil && ok && len(w) == 2
	}
}

// bothWork runs two operations at the same time, possibly not for the first time.
func bothWork(a, b func() bool) {
	var x, y bool
	if sym.Choose("again", 2) == 1 {
		sym.Assert(a() && b(), "both succeed")
	}
	sym.Race(func() { x = a() }, func() { y = b() })
	sym.Assert(x && y, "both succeed")
	sym.Reach("done")
}

// pair chooses two of n operations, in both orders.
func pair(n int) (int, int) { return sym.Choose("first", n), sym.Choose("second", n) }

// C01_Shared: a document that nothing changes can be encoded and read by several at the same time.
func C01_Shared() {
	i, j := pair(nReads)
	doc := sharedDoc()
	bothWork(reads(i, doc), reads(j, doc))
}

const cJSON = `{"asset":{"version":"2.0"},"buffers":[{"byteLength":3,"uri":"data:application/octet-stream;base64,AQID"}],"materials":[{"extensions":{"KHR_materials_unlit":{},"X_y":{"a":[1]}}}],` +
	`"nodes":[{}],"extensions":{"KHR_lights_punctual":{"lights":[{"type":"spot","spot":{}}]}}}`

const nApart = 9

var cPositions = [][3]float32{{1, 2, 3}, {4, 5, 6}}

// apart is an operation on documents of its own; bytes and data are shared and only read.
func apart(op int, glb, data []byte) func() bool {
	decode := func(b []byte, fsys *memFS) func() bool {
		return func() bool {
			var d gltf.Document
			if gltf.NewDecoderFS(bytes.NewReader(b), fsys).Decode(&d) != nil {
				return false
			}
			// what was decoded belongs to the caller
			for _, b := range d.Buffers {
				for i := range b.Data {
					b.Data[i]++
				}
			}
			for _, m := range d.Materials {
				m.Extensions["new"] = 1
			}
			for _, n := range d.Nodes {
				n.Matrix[0]++
				n.Scale[1]++
			}
			return true
		}
	}
	pos := cPositions
	switch op {
	case 0:
		return decode(glb, nil)
	case 1:
		return decode([]byte(cJSON), &memFS{})
	case 2:
		return decode([]byte(`{"asset":{"version":"2.0"},"buffers":[{"byteLength":4,"uri":"b.bin"}]}`), &memFS{all: clone(data)})
	case 3:
		return func() bool {
			var out sink
			d := gltf.NewDocument()
			modeler.WritePosition(d, pos)
			modeler.WriteColor(d, [][4]uint8{{1, 2, 3, 4}})
			modeler.WriteIndices(d, []uint16{0, 1, 2})
			d.Buffers[0].EmbeddedResource()
			e := gltf.NewEncoder(&out)
			e.AsBinary = false
			d.Asset.Generator, d.Scenes[0].Name = "mine", "mine"
			d.Scenes[0].Nodes = append(d.Scenes[0].Nodes, 0)
			return e.Encode(d) == nil
		}
	case 4:
		return func() bool {
			d := gltf.NewDocument()
			_, err := modeler.WritePrimitiveAttributes(d, modeler.PrimitiveAttribute{Name: gltf.POSITION, Data: pos}, modeler.PrimitiveAttribute{Name: gltf.COLOR_0, Data: [][4]uint8{{1, 2, 3, 4}, {5, 6, 7, 8}}})
			return err == nil
		}
	case 5:
		return func() bool {
			d := gltf.NewDocument()
			modeler.WriteBufferView(d, gltf.TargetArrayBuffer, data)
			_, err := modeler.WriteImage(d, "i", "image/png", bytes.NewReader(data))
			modeler.WriteAccessor(d, gltf.TargetArrayBuffer, data)
			return err == nil && len(d.BufferViews) == 3
		}
	case 6:
		return func() bool {
			out := make([]uint8, 4)
			b := make([]byte, 16)
			return binary.Read(data, 1, out) == nil && binary.Write(b, 4, data) == nil
		}
	case 7:
		return func() bool {
			d := gltf.NewDocument()
			d.Extensions = gltf.Extensions{lightspunctual.ExtensionName: lightspunctual.Lights{{Type: lightspunctual.TypeSpot, Spot: &lightspunctual.Spot{}}}}
			for _, f := range []func([]byte) (any, error){specular.Unmarshal, unlit.Unmarshal, texturetransform.Unmarshal, lightspunctual.Unmarshal} {
				if _, err := f([]byte(`{}`)); err != nil {
					return false
				}
			}
			_, err := json.Marshal([]interface{}{&specular.PBRSpecularGlossiness{}, d.Extensions})
			return err == nil
		}
	}
	return func() bool {
		// results that the caller may change
		d := gltf.Document{Buffers: []*gltf.Buffer{{ByteLength: 12, Data: make([]byte, 12)}}, BufferViews: []*gltf.BufferView{{ByteLength: 12}}}
		a := &gltf.Accessor{BufferView: gltf.Index(0), ComponentType: gltf.ComponentUshort, Count: 6}
		for k := 0; k < 2; k++ {
			v, err := modeler.ReadIndices(&d, a, nil)
			if err != nil || len(v) != 6 {
				return false
			}
			v[0], v[5] = 7, 7
		}
		a.BufferView = nil
		v, err := modeler.ReadIndices(&d, a, nil)
		if err != nil {
			return false
		}
		v[0] = 1
		return true
	}
}

// C01_Apart: operations on separate documents do not meet.
func C01_Apart() {
	i, j := pair(nApart)
	glb := encodeDoc(&gltf.Document{Asset: gltf.Asset{Version: "2.0"}, Buffers: []*gltf.Buffer{{ByteLength: 5, Data: sym.Bytes("glb", 5)}}}, true, &memFS{})
	data := sym.Bytes("data", 4)
	bothWork(apart(i, glb, data), apart(j, glb, data))
}

// C01_Mixed: reading one document while another one is made.
func C01_Mixed() {
	i, j := sym.Choose("shared", nReads), sym.Choose("apart", nApart)
	doc := sharedDoc()
	data := doc.Buffers[1].Data
	glb := encodeDoc(&gltf.Document{Asset: gltf.Asset{Version: "2.0"}, Buffers: []*gltf.Buffer{{ByteLength: 4, Data: data}}}, true, &memFS{})
	a, b := reads(i, doc), apart(j, glb, data)
	if sym.Choose("order", 2) == 1 {
		a, b = b, a
	}
	bothWork(a, b)
}

// C01_Register: extensions can be registered while documents are decoded.
func C01_Register() {
	register := func(name string) func() bool {
		return func() bool {
			gltf.RegisterExtension(name, func(b []byte) (any, error) { return new(custom), nil })
			return true
		}
	}
	keys := []string{"KHR_materials_unlit", "X_y", "H_new"}
	key := keys[sym.Choose("key", len(keys))]
	if key == "KHR_materials_unlit" {
		defer gltf.RegisterExtension(key, unlit.Unmarshal)
	}
	a := register(key)
	var b func() bool
	switch sym.Choose("other", 4) {
	case 0:
		b = apart(1, nil, nil)
	case 1:
		b = register("H_second")
	case 2:
		b = register(key)
	case 3:
		b = func() bool {
			var e gltf.Extensions
			return json.Unmarshal([]byte(`{"X_y":{},"KHR_materials_unlit":{}}`), &e) == nil && len(e) == 2
		}
	}
	if sym.Choose("order", 2) == 1 {
		a, b = b, a
	}
	bothWork(a, b)
}

// C01_Columns: the columns of interleaved data can be written and read at the same time.
func C01_Columns() {
	const n = 2
	kinds := []kind{{cUbyte, shVec4, 1}, {comp: cByte, sh: shVec3}, {comp: cUshort, sh: shVec2}, {comp: cShort, sh: shVec3}, {comp: cUint, sh: shScalar}, {comp: cFloat, sh: shVec3}, {comp: cUbyte, sh: shMat2}}
	ka, kb := kinds[sym.Choose("first kind", len(kinds))], kinds[sym.Choose("second kind", len(kinds))]
	stride := ka.size() + kb.size() + 4*sym.Choose("gap", 3)
	off := sym.Int("offset")
	sym.Assume(off%4 == 0 && off >= ka.size() && off <= stride-kb.size())
	b := make([]byte, stride*n)
	da, db := ka.filled(n, 1), kb.filled(n, 2)
	ea, eb := ka.filled(n, 0), kb.filled(n, 0)
	rd := func(b []byte, v interface{}) func() bool {
		return func() bool { return binary.Read(b, stride, v) == nil }
	}
	wr := func(b []byte, v interface{}) func() bool {
		return func() bool { return binary.Write(b, stride, v) == nil }
	}
	switch sym.Choose("operations", 4) {
	case 0:
		bothWork(wr(b, da), wr(b[off:], db))
	case 1:
		bothWork(wr(b, da), rd(b[off:], eb))
	case 2:
		bothWork(rd(b, ea), wr(b[off:], db))
	case 3:
		// the same column may be read by several
		bothWork(rd(b, ea), rd(b, ka.filled(n, 0)))
	}
}

// C01_Files: documents can be saved to and opened from different files, and one file can be opened by several.
func C01_Files() {
	root := scratch()
	defer os.RemoveAll(root)
	d := sharedDoc()
	d.Buffers[1].URI = ""
	if gltf.SaveBinary(d, root+"/out/old.glb") != nil || gltf.Save(d, root+"/out/old.gltf") != nil {
		panic("save")
	}
	op := func(k int, dir string) func() bool {
		switch k {
		case 0:
			return func() bool { return gltf.SaveBinary(d, dir+"new.glb") == nil }
		case 1:
			return func() bool { return gltf.Save(d, dir+"new.gltf") == nil }
		case 2:
			return func() bool {
				x, err := gltf.Open(root + "/out/old.glb")
				return err == nil && len(x.Buffers) == 4
			}
		case 3:
			return func() bool {
				x, err := gltf.Open(root + "/out/missing.gltf")
				return err != nil && x == nil
			}
		}
		return func() bool {
			// another document with a file of its own
			e := gltf.Document{Asset: gltf.Asset{Version: "2.0"}, Buffers: []*gltf.Buffer{{ByteLength: 4, URI: "b.bin", Data: d.Buffers[1].Data}}}
			if gltf.Save(&e, dir+"e.gltf") != nil {
				return false
			}
			x, err := gltf.Open(dir + "e.gltf")
			return err == nil && bytes.Equal(x.Buffers[0].Data, d.Buffers[1].Data)
		}
	}
	i, j := pair(5)
	bothWork(op(i, root+"/in/"), op(j, root+"/in/sub/"))
}
