package h

import (
	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/zzverif/sym"
)

// place is one of the objects of a document that carry extensions and extras.
type place struct {
	name string
	ext  *gltf.Extensions
	ex   *any
}

// places lists every object of a document that carries extensions and extras.
func places(d *gltf.Document) []place {
	var p []place
	add := func(name string, e *gltf.Extensions, x *any) { p = append(p, place{name, e, x}) }
	add("document", &d.Extensions, &d.Extras)
	add("asset", &d.Asset.Extensions, &d.Asset.Extras)
	for _, o := range d.Accessors {
		add("accessor", &o.Extensions, &o.Extras)
		if s := o.Sparse; s != nil {
			add("sparse", &s.Extensions, &s.Extras)
			add("sparse indices", &s.Indices.Extensions, &s.Indices.Extras)
			add("sparse values", &s.Values.Extensions, &s.Values.Extras)
		}
	}
	for _, o := range d.Animations {
		add("animation", &o.Extensions, &o.Extras)
		for _, c := range o.Channels {
			add("channel", &c.Extensions, &c.Extras)
			add("channel target", &c.Target.Extensions, &c.Target.Extras)
		}
		for _, s := range o.Samplers {
			add("animation sampler", &s.Extensions, &s.Extras)
		}
	}
	for _, o := range d.Buffers {
		add("buffer", &o.Extensions, &o.Extras)
	}
	for _, o := range d.BufferViews {
		add("view", &o.Extensions, &o.Extras)
	}
	for _, o := range d.Cameras {
		add("camera", &o.Extensions, &o.Extras)
		if c := o.Perspective; c != nil {
			add("perspective", &c.Extensions, &c.Extras)
		}
		if c := o.Orthographic; c != nil {
			add("orthographic", &c.Extensions, &c.Extras)
		}
	}
	for _, o := range d.Images {
		add("image", &o.Extensions, &o.Extras)
	}
	for _, o := range d.Materials {
		add("material", &o.Extensions, &o.Extras)
		if t := o.PBRMetallicRoughness; t != nil {
			add("pbr", &t.Extensions, &t.Extras)
			if u := t.BaseColorTexture; u != nil {
				add("base color texture", &u.Extensions, &u.Extras)
			}
		}
		if t := o.NormalTexture; t != nil {
			add("normal texture", &t.Extensions, &t.Extras)
		}
		if t := o.OcclusionTexture; t != nil {
			add("occlusion texture", &t.Extensions, &t.Extras)
		}
		if t := o.EmissiveTexture; t != nil {
			add("emissive texture", &t.Extensions, &t.Extras)
		}
	}
	for _, o := range d.Meshes {
		add("mesh", &o.Extensions, &o.Extras)
		for _, q := range o.Primitives {
			add("primitive", &q.Extensions, &q.Extras)
		}
	}
	for _, o := range d.Nodes {
		add("node", &o.Extensions, &o.Extras)
	}
	for _, o := range d.Samplers {
		add("sampler", &o.Extensions, &o.Extras)
	}
	for _, o := range d.Scenes {
		add("scene", &o.Extensions, &o.Extras)
	}
	for _, o := range d.Skins {
		add("skin", &o.Extensions, &o.Extras)
	}
	for _, o := range d.Textures {
		add("texture", &o.Extensions, &o.Extras)
	}
	return p
}

// fullDoc is a document with every kind of object and every field set to a non-default value made by in and fl.
// It has one GLB-style buffer; more can be appended.
func fullDoc(in func(string) int, fl func(string) float64) *gltf.Document {
	ip := func(s string) *int { return gltf.Index(in(s)) }
	fp := func(s string) *float64 { return gltf.Float(fl(s)) }
	n := &gltf.Node{Name: "node", Camera: ip("camera"), Children: []int{in("child"), in("child")}, Skin: ip("skin"), Mesh: ip("mesh"), Weights: []float64{fl("weight"), fl("weight")}}
	for i := range n.Matrix {
		n.Matrix[i] = float64(i + 1)
	}
	n.Matrix[0], n.Matrix[15] = fl("matrix"), fl("matrix")
	n.Rotation = [4]float64{fl("rotation"), 0.5, fl("rotation"), 1}
	n.Scale = [3]float64{2, fl("scale"), fl("scale")}
	n.Translation = [3]float64{fl("translation"), 3, fl("translation")}
	return &gltf.Document{
		ExtensionsUsed: []string{"EXT_a", "EXT_b"}, ExtensionsRequired: []string{"EXT_b"},
		Asset: gltf.Asset{Version: "2.0", MinVersion: "2.0", Generator: "gen", Copyright: "copy"},
		Accessors: []*gltf.Accessor{
			{Name: "acc", BufferView: ip("view"), ByteOffset: in("offset"), ComponentType: gltf.ComponentUshort, Normalized: true, Count: in("count"), Type: gltf.AccessorVec3,
				Max: []float64{fl("max"), fl("max"), fl("max")}, Min: []float64{fl("min"), fl("min"), fl("min")},
				Sparse: &gltf.Sparse{Count: in("sparse count"), Indices: gltf.SparseIndices{BufferView: in("index view"), ByteOffset: in("index offset"), ComponentType: gltf.ComponentUbyte},
					Values: gltf.SparseValues{BufferView: in("value view"), ByteOffset: in("value offset")}}},
			{ComponentType: gltf.ComponentFloat, Count: in("count"), Type: gltf.AccessorMat4},
		},
		Animations: []*gltf.Animation{{Name: "anim",
			Channels: []*gltf.AnimationChannel{{Sampler: in("sampler"), Target: gltf.AnimationChannelTarget{Node: ip("node"), Path: gltf.TRSWeights}}},
			Samplers: []*gltf.AnimationSampler{{Input: in("input"), Output: in("output"), Interpolation: gltf.InterpolationStep}}}},
		Buffers:     []*gltf.Buffer{{Name: "buf", ByteLength: 4, Data: []byte{1, 2, 3, 4}}},
		BufferViews: []*gltf.BufferView{{Name: "view", Buffer: in("buffer"), ByteOffset: in("view offset"), ByteLength: in("view length"), ByteStride: in("stride"), Target: gltf.TargetElementArrayBuffer}},
		Cameras: []*gltf.Camera{{Name: "persp", Perspective: &gltf.Perspective{AspectRatio: fp("aspect"), Yfov: fl("yfov"), Zfar: fp("zfar"), Znear: fl("znear")}},
			{Name: "ortho", Orthographic: &gltf.Orthographic{Xmag: fl("xmag"), Ymag: fl("ymag"), Zfar: fl("zfar"), Znear: fl("znear")}}},
		Images: []*gltf.Image{{Name: "image", MimeType: "image/png", BufferView: ip("image view")}, {URI: "a.png"}},
		Materials: []*gltf.Material{{Name: "material", AlphaMode: gltf.AlphaBlend, AlphaCutoff: fp("cutoff"), DoubleSided: true, EmissiveFactor: [3]float64{0.5, fl("emissive"), 0.25},
			PBRMetallicRoughness: &gltf.PBRMetallicRoughness{BaseColorFactor: &[4]float64{fl("color"), 0.5, 0.25, fl("color")}, MetallicFactor: fp("metallic"), RoughnessFactor: fp("roughness"),
				BaseColorTexture: &gltf.TextureInfo{Index: in("base"), TexCoord: in("base coord")}},
			NormalTexture:    &gltf.NormalTexture{Index: ip("normal"), TexCoord: in("normal coord"), Scale: fp("normal scale")},
			OcclusionTexture: &gltf.OcclusionTexture{Index: ip("occlusion"), TexCoord: in("occlusion coord"), Strength: fp("strength")},
			EmissiveTexture:  &gltf.TextureInfo{Index: in("emissive"), TexCoord: in("emissive coord")}}},
		Meshes: []*gltf.Mesh{{Name: "mesh", Weights: []float64{fl("mesh weight")}, Primitives: []*gltf.Primitive{{Attributes: gltf.PrimitiveAttributes{"POSITION": in("position"), "_X": in("x")},
			Indices: ip("indices"), Material: ip("material"), Mode: gltf.PrimitiveLineStrip, Targets: []gltf.PrimitiveAttributes{{"POSITION": in("target")}}}}}},
		Nodes:    []*gltf.Node{n},
		Samplers: []*gltf.Sampler{{Name: "sampler", MagFilter: gltf.MagLinear, MinFilter: gltf.MinNearestMipMapLinear, WrapS: gltf.WrapClampToEdge, WrapT: gltf.WrapMirroredRepeat}},
		Scene:    ip("scene"),
		Scenes:   []*gltf.Scene{{Name: "scene", Nodes: []int{in("scene node"), in("scene node")}}},
		Skins:    []*gltf.Skin{{Name: "skin", InverseBindMatrices: ip("inverse"), Skeleton: ip("skeleton"), Joints: []int{in("joint"), in("joint")}}},
		Textures: []*gltf.Texture{{Name: "texture", Sampler: ip("tex sampler"), Source: ip("source")}},
	}
}

func fixedInt(string) int       { return 3 }
func fixedFloat(string) float64 { return 0.75 }

// gen gives symbolic values, and the same ones again after rewind.
type gen struct {
	vals []any
	at   int
}

func (g *gen) rewind() { g.at = 0 }

func (g *gen) next(f func() any) any {
	if g.at == len(g.vals) {
		g.vals = append(g.vals, f())
	}
	g.at++
	return g.vals[g.at-1]
}

func (g *gen) choose(name string, n int) int {
	return g.next(func() any { return sym.Choose(name, n) }).(int)
}
func (g *gen) int(name string) int   { return g.next(func() any { return sym.Int(name) }).(int) }
func (g *gen) bool(name string) bool { return g.next(func() any { return sym.Bool(name) }).(bool) }
func (g *gen) float(name string) float64 {
	return g.next(func() any { return finFloats(name, 1)[0] }).(float64)
}
func (g *gen) text(name string, max int) string {
	return g.next(func() any { return text(name, max) }).(string)
}
