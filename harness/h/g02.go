package h

import (
	"bytes"
	"reflect"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/zzverif/sym"
)

var fieldGroups = [][]string{
	{"view", "offset", "count", "sparse count"},
	{"index view", "index offset", "value view", "value offset"},
	{"max", "min"},
	{"sampler", "node", "input", "output"},
	{"buffer", "view offset", "view length", "stride"},
	{"aspect", "yfov", "zfar", "znear", "xmag", "ymag"},
	{"image view", "cutoff", "emissive", "color", "metallic", "roughness"},
	{"base", "base coord", "normal", "normal coord", "normal scale"},
	{"occlusion", "occlusion coord", "strength", "emissive coord"},
	{"position", "x", "indices", "material", "target", "mesh weight"},
	{"camera", "child", "skin", "mesh", "weight", "matrix", "rotation", "scale", "translation"},
	{"tex sampler", "source", "inverse", "skeleton", "joint", "scene", "scene node"},
}

// groupDoc is a document with every kind of object in which one group of fields has arbitrary values.
func groupDoc() *gltf.Document {
	group := fieldGroups[sym.Choose("group", len(fieldGroups))]
	has := func(n string) bool {
		for _, g := range group {
			if g == n {
				return true
			}
		}
		return false
	}
	return fullDoc(func(n string) int {
		if has(n) {
			return sym.Int(n)
		}
		return 3
	}, func(n string) float64 {
		if has(n) {
			return finFloats(n, 1)[0]
		}
		return 0.75
	})
}

// encodeDoc encodes doc as GLB or JSON.
func encodeDoc(doc *gltf.Document, binary bool, m *memFS) []byte {
	return encodeIndented(doc, binary, m, "", "")
}

func encodeIndented(doc *gltf.Document, binary bool, m *memFS, prefix, indent string) []byte {
	var out sink
	e := gltf.NewEncoderFS(&out, m)
	e.AsBinary = binary
	e.SetJSONIndent(prefix, indent)
	sym.Assert(e.Encode(doc) == nil, "encodes")
	return out.b
}

// G02_Document: every field of every object comes back.
func G02_Document() {
	doc := groupDoc()
	doc.Buffers[0].Data = sym.Bytes("data", 4)
	binary := sym.Choose("binary", 2) == 1
	out := encodeIndented(doc, binary, &memFS{}, "", []string{"", "  "}[sym.Choose("indentation", 2)])
	var back gltf.Document
	sym.Assert(gltf.NewDecoder(bytes.NewReader(out)).Decode(&back) == nil, "decodes")
	sym.Assert(len(back.Buffers) == 1, "one buffer")
	sym.Assert(sym.BytesEq(back.Buffers[0].Data, doc.Buffers[0].Data), "same data")
	sym.Assert(back.Buffers[0].ByteLength == 4 && back.Buffers[0].Name == "buf", "same buffer")
	back.Buffers, doc.Buffers = nil, nil
	sym.Assert(reflect.DeepEqual(&back, doc), "same document")
	sym.Reach("done")
}

// optionalDoc has one optional part set or not.
func optionalDoc(g *gen) *gltf.Document {
	doc := &gltf.Document{Asset: gltf.Asset{Version: "2.0"}}
	on := g.choose("on", 2) == 1
	idx := func() *int {
		if on {
			return gltf.Index(g.int("index"))
		}
		return nil
	}
	switch g.choose("part", 14) {
	case 0:
		doc.Scene = idx()
	case 1:
		doc.Accessors = []*gltf.Accessor{{BufferView: idx(), Type: gltf.AccessorVec2, Count: g.int("count"), Normalized: g.bool("normalized")}}
	case 2:
		doc.Meshes = []*gltf.Mesh{{Primitives: []*gltf.Primitive{{Attributes: gltf.PrimitiveAttributes{}, Indices: idx(), Material: idx()}}}}
	case 3:
		doc.Nodes = []*gltf.Node{{Matrix: gltf.DefaultMatrix, Rotation: gltf.DefaultRotation, Scale: gltf.DefaultScale, Camera: idx(), Mesh: idx(), Skin: idx()}}
	case 4:
		doc.Skins = []*gltf.Skin{{InverseBindMatrices: idx(), Skeleton: idx(), Joints: []int{g.int("joint")}}}
	case 5:
		doc.Textures = []*gltf.Texture{{Sampler: idx(), Source: idx()}}
	case 6:
		doc.Images = []*gltf.Image{{BufferView: idx()}}
	case 7:
		doc.Animations = []*gltf.Animation{{Channels: []*gltf.AnimationChannel{{Target: gltf.AnimationChannelTarget{Node: idx()}}}, Samplers: []*gltf.AnimationSampler{{Input: g.int("input")}}}}
	case 8:
		c := &gltf.Camera{Perspective: &gltf.Perspective{Yfov: 1, Znear: g.float("znear")}}
		if on {
			c.Perspective.AspectRatio, c.Perspective.Zfar = gltf.Float(g.float("aspect")), gltf.Float(g.float("zfar"))
		}
		doc.Cameras = []*gltf.Camera{c}
	case 9:
		m := &gltf.Material{AlphaCutoff: gltf.Float(0.5), DoubleSided: g.bool("double")}
		if on {
			m.NormalTexture = &gltf.NormalTexture{Index: idx(), Scale: gltf.Float(1)}
			m.OcclusionTexture = &gltf.OcclusionTexture{Index: idx(), Strength: gltf.Float(1)}
			m.EmissiveTexture = &gltf.TextureInfo{Index: g.int("texture")}
			m.PBRMetallicRoughness = &gltf.PBRMetallicRoughness{BaseColorFactor: &[4]float64{1, 1, 1, 1}, MetallicFactor: gltf.Float(1), RoughnessFactor: gltf.Float(1)}
		}
		doc.Materials = []*gltf.Material{m, {AlphaCutoff: gltf.Float(0.5), AlphaMode: gltf.AlphaMask}}
	case 10:
		doc.Samplers = []*gltf.Sampler{{}, {MagFilter: gltf.MagNearest}, {WrapS: gltf.WrapMirroredRepeat, MinFilter: gltf.MinLinear}}
	case 11:
		if on {
			doc.Accessors = []*gltf.Accessor{{Sparse: &gltf.Sparse{Count: g.int("count"), Indices: gltf.SparseIndices{ComponentType: gltf.ComponentUint}}}}
		} else {
			doc.Accessors = []*gltf.Accessor{{}, {ComponentType: gltf.ComponentByte}}
		}
	case 12:
		doc.BufferViews = []*gltf.BufferView{{Buffer: g.int("buffer")}, {Target: gltf.TargetArrayBuffer}}
		if on {
			doc.BufferViews[0].ByteOffset, doc.BufferViews[0].ByteStride = g.int("offset"), g.int("stride")
		}
	case 13:
		s := g.text("name", 1)
		doc.Scenes = []*gltf.Scene{{Name: s}, {Nodes: []int{g.int("node")}}}
		doc.Asset.Generator = g.text("generator", 2)
		if on {
			doc.ExtensionsUsed = []string{s, "x"}
		}
	}
	return doc
}

// G02_Optional: optional parts present and absent.
func G02_Optional() {
	doc := optionalDoc(&gen{})
	out := encodeDoc(doc, sym.Choose("binary", 2) == 1, &memFS{})
	var back gltf.Document
	sym.Assert(gltf.NewDecoder(bytes.NewReader(out)).Decode(&back) == nil, "decodes")
	sym.Assert(reflect.DeepEqual(&back, doc), "same document")
	sym.Reach("done")
}

// symBuffer is a buffer with arbitrary data of 1..max bytes, or with a data URI.
func symBuffer(max int) *gltf.Buffer {
	n := 1 + sym.Choose("length", max)
	b := &gltf.Buffer{Name: text("name", 1), ByteLength: n, Data: sym.Bytes("data", n)}
	if sym.Choose("embedded", 2) == 1 {
		b.EmbeddedResource()
	}
	return b
}

// G02_Buffers: several buffers, in the BIN chunk or embedded.
func G02_Buffers() {
	doc := &gltf.Document{Asset: gltf.Asset{Version: "2.0"}}
	k := sym.Choose("buffers", 4)
	max := []int{0, 9, 3, 2}[k]
	for i := 0; i < k; i++ {
		doc.Buffers = append(doc.Buffers, symBuffer(max))
	}
	binary := sym.Choose("binary", 2) == 1
	prefix, indent := "", ""
	if k < 3 {
		in := sym.Choose("indentation", 3)
		prefix, indent = []string{"", "", " "}[in], []string{"", "\t", ""}[in]
	}
	out := encodeIndented(doc, binary, &memFS{}, prefix, indent)
	var back gltf.Document
	sym.Assert(gltf.NewDecoder(bytes.NewReader(out)).Decode(&back) == nil, "decodes")
	sym.Assert(len(back.Buffers) == k, "number of buffers")
	for i, b := range back.Buffers {
		a := doc.Buffers[i]
		sym.Assert(b.Name == a.Name && b.ByteLength == a.ByteLength, "name and length")
		sym.Assert(sym.BytesEq(b.Data, a.Data), "same data")
		if a.URI != "" {
			sym.Assert(sym.StrEq(a.URI, b.URI), "same data URI")
		} else if binary && i == 0 {
			sym.Assert(b.URI == "", "the BIN chunk buffer has no URI")
		} else {
			sym.Assert(b.IsEmbeddedResource(), "embedded")
		}
	}
	sym.Reach("done")
}

// chunkDoc has a BIN chunk, a JSON chunk padded to any length modulo 4, and an embedded buffer.
func chunkDoc() *gltf.Document {
	return &gltf.Document{Asset: gltf.Asset{Version: "2.0", Generator: pad(sym.Choose("generator", 4))},
		Buffers: []*gltf.Buffer{{ByteLength: 5, Data: sym.Bytes("data", 5)}, {ByteLength: 2, Data: sym.Bytes("more", 2)}}}
}

func decodeBack(out []byte, src *source, doc *gltf.Document, data ...[]byte) {
	src.b = out
	var back gltf.Document
	sym.Assert(gltf.NewDecoder(src).Decode(&back) == nil, "decodes")
	sym.Assert(len(back.Buffers) == len(data), "number of buffers")
	for i := range data {
		sym.Assert(sym.BytesEq(back.Buffers[i].Data, data[i]), "same data")
	}
	sym.Assert(back.Asset.Generator == doc.Asset.Generator, "same text")
	sym.Reach("done")
}

// G02_Chunks: the input arrives in pieces: every single cut, and every piece size.
func G02_Chunks() {
	doc := chunkDoc()
	binary := sym.Choose("binary", 2) == 1
	out := encodeDoc(doc, binary, &memFS{})
	src := &source{eofWithData: sym.Choose("eof", 2) == 1}
	if sym.Choose("pieces", 2) == 0 {
		src.cuts = []int{1 + sym.Choose("cut", len(out))}
	} else {
		src.all = 1 + sym.Choose("size", 33)
	}
	decodeBack(out, src, doc, doc.Buffers[0].Data, doc.Buffers[1].Data)
}

// G02_Cuts: two cuts, around the chunk boundaries.
func G02_Cuts() {
	doc := chunkDoc()
	out := encodeDoc(doc, true, &memFS{})
	jl := le32(out[12:])
	spots := []int{1, 11, 12, 19, 20, 21, jl, 16 + jl, 17 + jl, 18 + jl, 19 + jl, 20 + jl, 21 + jl, 27 + jl, 28 + jl, 29 + jl, 33 + jl}
	a := sym.Choose("first", len(spots))
	b := sym.Choose("second", len(spots))
	sym.Assume(spots[a] < spots[b])
	src := &source{cuts: []int{spots[a], spots[b] - spots[a]}}
	decodeBack(out, src, doc, doc.Buffers[0].Data, doc.Buffers[1].Data)
}
