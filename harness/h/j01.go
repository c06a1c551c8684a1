package h

import (
	"encoding/json"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/zzverif/sym"
)

// num is the JSON text of a finite float.
func num(f float64) string {
	b, err := json.Marshal(f)
	if err != nil {
		panic(err)
	}
	return string(b)
}

func nums(f []float64) string {
	b, err := json.Marshal(f)
	if err != nil {
		panic(err)
	}
	return string(b)
}

func fin(f float64) bool { return f-f == 0 }

// finFloats gives n finite float64 values.
func finFloats(name string, n int) []float64 {
	f := floats(name, n)
	for i := range f {
		sym.Assume(fin(f[i]))
	}
	return f
}

func eqFloats(a, b []float64) bool {
	ok := len(a) == len(b)
	for i := range a {
		if i < len(b) {
			ok = sym.And(ok, a[i] == b[i])
		}
	}
	return ok
}

// optVec chooses between unset, a mixture of given values, and arbitrary finite values.
func optFloat(name string) *float64 {
	if sym.Choose(name+" set", 2) == 0 {
		return nil
	}
	f := finFloats(name, 1)[0]
	return &f
}

// roundTrip marshals v and unmarshals the text into out; the text must be valid and decodable.
func roundTrip(v, out interface{}) []byte {
	b, err := json.Marshal(v)
	sym.Assert(err == nil, "marshals")
	if err != nil {
		panic("marshal failed")
	}
	sym.Assert(json.Valid(b), "valid JSON")
	err = json.Unmarshal(b, out)
	sym.Assert(err == nil, "unmarshals")
	return b
}

// jobj parses a JSON object generically.
func jobj(b []byte) map[string]json.RawMessage {
	var m map[string]json.RawMessage
	sym.Assert(json.Unmarshal(b, &m) == nil, "is an object")
	return m
}

func symNode() *gltf.Node {
	n := &gltf.Node{Name: "n"}
	which := sym.Choose("set", 16)
	if which&1 != 0 {
		copy(n.Matrix[:], finFloats("matrix", 16))
	}
	if which&2 != 0 {
		copy(n.Rotation[:], finFloats("rotation", 4))
	}
	if which&4 != 0 {
		copy(n.Scale[:], finFloats("scale", 3))
	}
	if which&8 != 0 {
		copy(n.Translation[:], finFloats("translation", 3))
	}
	return n
}

func sameNode(a, b *gltf.Node) bool {
	am, ar, as, at := a.MatrixOrDefault(), a.RotationOrDefault(), a.ScaleOrDefault(), a.TranslationOrDefault()
	bm, br, bs, bt := b.MatrixOrDefault(), b.RotationOrDefault(), b.ScaleOrDefault(), b.TranslationOrDefault()
	return sym.And(eqFloats(am[:], bm[:]), eqFloats(ar[:], br[:]), eqFloats(as[:], bs[:]), eqFloats(at[:], bt[:]))
}

func J01_Node() {
	n := symNode()
	if sym.Choose("refs", 2) == 1 {
		n.Camera, n.Skin, n.Mesh = gltf.Index(sym.Int("camera")), gltf.Index(sym.Int("skin")), gltf.Index(sym.Int("mesh"))
		n.Children = []int{sym.Int("child"), sym.Int("child")}
		n.Weights = finFloats("weight", 2)
	}
	before := *n
	var back gltf.Node
	b := roundTrip(n, &back)
	sym.Assert(sameNode(&before, &back), "transforms")
	sym.Assert(sym.And(sym.DeepEqual(back.Camera, n.Camera), sym.DeepEqual(back.Skin, n.Skin), sym.DeepEqual(back.Mesh, n.Mesh), sym.DeepEqual(back.Children, n.Children)), "references")
	sym.Assert(back.Name == "n" && eqFloats(back.Weights, n.Weights), "name and weights")
	sym.Assert(sameNode(&before, n), "the marshalled node is unchanged")
	// the stored text, read without the library, defines the same node
	gen := struct {
		Matrix      [16]float64
		Rotation    [4]float64
		Scale       [3]float64
		Translation [3]float64
	}{[16]float64{1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1}, [4]float64{0, 0, 0, 1}, [3]float64{1, 1, 1}, [3]float64{}}
	sym.Assert(json.Unmarshal(b, &gen) == nil, "text fits the schema")
	m, r, s, t := before.MatrixOrDefault(), before.RotationOrDefault(), before.ScaleOrDefault(), before.TranslationOrDefault()
	sym.Assert(sym.And(eqFloats(gen.Matrix[:], m[:]), eqFloats(gen.Rotation[:], r[:]), eqFloats(gen.Scale[:], s[:]), eqFloats(gen.Translation[:], t[:])), "the text defines the transforms")
	sym.Reach("done")
}

// J01_NodeText: a node read from text has the stated transforms and defaults for the others.
func J01_NodeText() {
	which := sym.Choose("set", 16)
	m, r, s, t := []float64{1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1}, []float64{0, 0, 0, 1}, []float64{1, 1, 1}, []float64{0, 0, 0}
	txt := `{"name":"n"`
	if which&1 != 0 {
		m = finFloats("matrix", 16)
		txt += `,"matrix":` + nums(m)
	}
	if which&2 != 0 {
		r = finFloats("rotation", 4)
		txt += `, "rotation" : ` + nums(r)
	}
	if which&4 != 0 {
		s = finFloats("scale", 3)
		txt += `,"scale":` + nums(s)
	}
	if which&8 != 0 {
		t = finFloats("translation", 3)
		txt += `,"translation":` + nums(t)
	}
	txt += "}"
	// what was in the node before does not shine through
	var n gltf.Node
	if sym.Choose("dirty", 2) == 1 {
		n = gltf.Node{Name: "old", Matrix: [16]float64{2}, Rotation: [4]float64{1}, Scale: [3]float64{3}, Translation: [3]float64{4}, Children: []int{1}}
	}
	sym.Assert(json.Unmarshal([]byte(txt), &n) == nil, "unmarshals")
	sym.Assert(sym.And(eqFloats(n.Matrix[:], m), eqFloats(n.Rotation[:], r), eqFloats(n.Scale[:], s), eqFloats(n.Translation[:], t)), "stated or default transforms")
	sym.Assert(n.Name == "n", "name")
	sym.Reach("done")
}

func optVec(name string, n int) []float64 {
	if sym.Choose(name+" set", 2) == 0 {
		return nil
	}
	return finFloats(name, n)
}

func symPBR() *gltf.PBRMetallicRoughness {
	p := &gltf.PBRMetallicRoughness{MetallicFactor: optFloat("metallic"), RoughnessFactor: optFloat("roughness")}
	if f := optVec("color", 4); f != nil {
		p.BaseColorFactor = &[4]float64{f[0], f[1], f[2], f[3]}
	}
	if sym.Choose("textures", 2) == 1 {
		p.BaseColorTexture = &gltf.TextureInfo{Index: sym.Int("base texture"), TexCoord: sym.Int("base coord")}
		p.MetallicRoughnessTexture = &gltf.TextureInfo{Index: sym.Int("mr texture"), TexCoord: sym.Int("mr coord")}
	}
	return p
}

func samePBR(a, b *gltf.PBRMetallicRoughness) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	ac, bc := a.BaseColorFactorOrDefault(), b.BaseColorFactorOrDefault()
	return sym.And(eqFloats(ac[:], bc[:]), a.MetallicFactorOrDefault() == b.MetallicFactorOrDefault(), a.RoughnessFactorOrDefault() == b.RoughnessFactorOrDefault(),
		sym.DeepEqual(a.BaseColorTexture, b.BaseColorTexture), sym.DeepEqual(a.MetallicRoughnessTexture, b.MetallicRoughnessTexture))
}

func clonePBR(p *gltf.PBRMetallicRoughness) *gltf.PBRMetallicRoughness {
	if p == nil {
		return nil
	}
	c := *p
	if p.BaseColorFactor != nil {
		v := *p.BaseColorFactor
		c.BaseColorFactor = &v
	}
	if p.MetallicFactor != nil {
		v := *p.MetallicFactor
		c.MetallicFactor = &v
	}
	if p.RoughnessFactor != nil {
		v := *p.RoughnessFactor
		c.RoughnessFactor = &v
	}
	return &c
}

func J01_PBR() {
	p := symPBR()
	before := clonePBR(p)
	var back gltf.PBRMetallicRoughness
	b := roundTrip(p, &back)
	sym.Assert(samePBR(before, &back), "same factors and textures")
	sym.Assert(samePBR(before, p), "the marshalled value is unchanged")
	one := 1.0
	gen := struct {
		BaseColorFactor                 [4]float64
		MetallicFactor, RoughnessFactor *float64
	}{[4]float64{1, 1, 1, 1}, &one, nil}
	two := 1.0
	gen.RoughnessFactor = &two
	sym.Assert(json.Unmarshal(b, &gen) == nil, "text fits the schema")
	c := before.BaseColorFactorOrDefault()
	sym.Assert(sym.And(eqFloats(gen.BaseColorFactor[:], c[:]), *gen.MetallicFactor == before.MetallicFactorOrDefault(), *gen.RoughnessFactor == before.RoughnessFactorOrDefault()), "the text defines the factors")
	sym.Reach("done")
}

func symMaterial() *gltf.Material {
	m := &gltf.Material{Name: "m", AlphaMode: gltf.AlphaMask, AlphaCutoff: optFloat("cutoff"), DoubleSided: sym.Bool("double")}
	if f := optVec("emissive", 3); f != nil {
		m.EmissiveFactor = [3]float64{f[0], f[1], f[2]}
	}
	return m
}

func J01_Material() {
	m := symMaterial()
	if sym.Choose("parts", 2) == 1 {
		m.NormalTexture = &gltf.NormalTexture{Index: gltf.Index(sym.Int("normal")), Scale: optFloat("scale")}
		m.OcclusionTexture = &gltf.OcclusionTexture{Index: gltf.Index(sym.Int("occlusion")), Strength: optFloat("strength")}
		m.EmissiveTexture = &gltf.TextureInfo{Index: sym.Int("emissive index")}
		m.PBRMetallicRoughness = &gltf.PBRMetallicRoughness{MetallicFactor: optFloat("metallic")}
	}
	cut, em := m.AlphaCutoffOrDefault(), m.EmissiveFactor
	var back gltf.Material
	b := roundTrip(m, &back)
	sym.Assert(back.AlphaCutoffOrDefault() == cut, "cutoff")
	sym.Assert(eqFloats(back.EmissiveFactor[:], em[:]), "emissive factor")
	sym.Assert(sym.And(back.DoubleSided == m.DoubleSided, back.AlphaMode == gltf.AlphaMask, back.Name == "m"), "plain fields")
	sym.Assert(sym.And(m.AlphaCutoffOrDefault() == cut, eqFloats(m.EmissiveFactor[:], em[:])), "the marshalled value is unchanged")
	gen := struct {
		AlphaCutoff    float64
		EmissiveFactor [3]float64
		DoubleSided    bool
	}{AlphaCutoff: 0.5}
	sym.Assert(json.Unmarshal(b, &gen) == nil, "text fits the schema")
	sym.Assert(sym.And(gen.AlphaCutoff == cut, eqFloats(gen.EmissiveFactor[:], em[:]), gen.DoubleSided == m.DoubleSided), "the text defines the material")
	sym.Assert((back.NormalTexture == nil) == (m.NormalTexture == nil) && (back.OcclusionTexture == nil) == (m.OcclusionTexture == nil), "textures present")
	if m.NormalTexture != nil && back.NormalTexture != nil && back.OcclusionTexture != nil {
		sym.Assert(back.NormalTexture.ScaleOrDefault() == m.NormalTexture.ScaleOrDefault(), "nested normal scale")
		sym.Assert(back.OcclusionTexture.StrengthOrDefault() == m.OcclusionTexture.StrengthOrDefault(), "nested strength")
		sym.Assert(sym.And(sym.DeepEqual(back.NormalTexture.Index, m.NormalTexture.Index), sym.DeepEqual(back.OcclusionTexture.Index, m.OcclusionTexture.Index), sym.DeepEqual(back.EmissiveTexture, m.EmissiveTexture)), "nested indices")
	}
	sym.Assert(samePBR(m.PBRMetallicRoughness, back.PBRMetallicRoughness), "nested factors")
	sym.Reach("done")
}

func J01_Textures() {
	if sym.Choose("type", 2) == 0 {
		n := &gltf.NormalTexture{TexCoord: sym.Int("coord"), Scale: optFloat("scale")}
		if sym.Choose("index", 2) == 1 {
			n.Index = gltf.Index(sym.Int("index"))
		}
		want := n.ScaleOrDefault()
		var back gltf.NormalTexture
		b := roundTrip(n, &back)
		sym.Assert(back.ScaleOrDefault() == want, "scale")
		sym.Assert(sym.And(back.TexCoord == n.TexCoord, sym.DeepEqual(back.Index, n.Index)), "texture reference")
		sym.Assert(n.ScaleOrDefault() == want, "the marshalled value is unchanged")
		gen := struct{ Scale float64 }{1}
		sym.Assert(json.Unmarshal(b, &gen) == nil && gen.Scale == want, "the text defines the scale")
	} else {
		n := &gltf.OcclusionTexture{TexCoord: sym.Int("coord"), Strength: optFloat("strength")}
		if sym.Choose("index", 2) == 1 {
			n.Index = gltf.Index(sym.Int("index"))
		}
		want := n.StrengthOrDefault()
		var back gltf.OcclusionTexture
		b := roundTrip(n, &back)
		sym.Assert(back.StrengthOrDefault() == want, "strength")
		sym.Assert(sym.And(back.TexCoord == n.TexCoord, sym.DeepEqual(back.Index, n.Index)), "texture reference")
		sym.Assert(n.StrengthOrDefault() == want, "the marshalled value is unchanged")
		gen := struct{ Strength float64 }{1}
		sym.Assert(json.Unmarshal(b, &gen) == nil && gen.Strength == want, "the text defines the strength")
	}
	sym.Reach("done")
}

func J01_Camera() {
	c := &gltf.Camera{Name: "c"}
	kind := sym.Choose("kind", 3)
	f := finFloats("f", 4)
	switch kind {
	case 0:
		c.Perspective = &gltf.Perspective{AspectRatio: optFloat("aspect"), Yfov: f[0], Zfar: optFloat("zfar"), Znear: f[1]}
	case 1:
		c.Orthographic = &gltf.Orthographic{Xmag: f[0], Ymag: f[1], Zfar: f[2], Znear: f[3]}
	case 2:
		_, err := json.Marshal(c)
		sym.Assert(err != nil, "a camera without projection is an error")
		sym.Reach("error")
		return
	}
	var back gltf.Camera
	b := roundTrip(c, &back)
	var gen struct{ Type string }
	sym.Assert(json.Unmarshal(b, &gen) == nil, "text is an object")
	sym.Assert(gen.Type == []string{"perspective", "orthographic"}[kind], "type")
	sym.Assert(sym.DeepEqual(*c, back), "same camera")
	sym.Reach("done")
}

func J01_Asset() {
	a := &gltf.Asset{}
	n := sym.Choose("version", 3)
	a.Version = sym.StrAlphabet("version", n, "2.01")
	a.MinVersion = sym.StrAlphabet("min", sym.Choose("min", 2), "2.0")
	a.Generator = sym.StrAlphabet("generator", sym.Choose("generator", 3), "a\"\\<\n")
	a.Copyright = sym.StrAlphabet("copyright", sym.Choose("copyright", 2), "c\t>/")
	v := a.Version
	if v == "" {
		v = "2.0"
	}
	var back gltf.Asset
	b := roundTrip(a, &back)
	sym.Assert(back.Version == v, "version")
	sym.Assert(back.MinVersion == a.MinVersion && back.Generator == a.Generator && back.Copyright == a.Copyright, "strings")
	sym.Assert(len(a.Version) == n, "the marshalled value is unchanged")
	_, ok := jobj(b)["version"]
	sym.Assert(ok, "the text has a version")
	sym.Reach("done")
}

// J01_Text: factors read from text, absent ones read as the default.
func J01_Text() {
	f := finFloats("f", 4)
	set := sym.Choose("set", 2) == 1
	txt := "{}"
	switch sym.Choose("object", 6) {
	case 0:
		want := 0.5
		if set {
			txt, want = `{"alphaCutoff":`+num(f[0])+`}`, f[0]
		}
		var o gltf.Material
		sym.Assert(json.Unmarshal([]byte(txt), &o) == nil && o.AlphaCutoffOrDefault() == want && o.AlphaMode == gltf.AlphaOpaque, "cutoff")
	case 1:
		want := 1.0
		if set {
			txt, want = `{"scale":`+num(f[0])+`}`, f[0]
		}
		var o gltf.NormalTexture
		sym.Assert(json.Unmarshal([]byte(txt), &o) == nil && o.ScaleOrDefault() == want && o.Index == nil, "scale")
	case 2:
		want := 1.0
		if set {
			txt, want = `{"strength":`+num(f[0])+`}`, f[0]
		}
		var o gltf.OcclusionTexture
		sym.Assert(json.Unmarshal([]byte(txt), &o) == nil && o.StrengthOrDefault() == want && o.Index == nil, "strength")
	case 3:
		want := []float64{1, 1, 1, 1, 1, 1}
		switch sym.Choose("which", 4) {
		case 0:
			txt, want[4] = `{"metallicFactor":`+num(f[0])+`}`, f[0]
		case 1:
			txt, want[5] = `{"roughnessFactor":`+num(f[0])+`}`, f[0]
		case 2:
			txt = `{"baseColorFactor":` + nums(f) + `}`
			copy(want, f)
		}
		var o gltf.PBRMetallicRoughness
		sym.Assert(json.Unmarshal([]byte(txt), &o) == nil, "unmarshals")
		c := o.BaseColorFactorOrDefault()
		sym.Assert(sym.And(eqFloats(c[:], want[:4]), o.MetallicFactorOrDefault() == want[4], o.RoughnessFactorOrDefault() == want[5]), "factors")
	case 4:
		var o gltf.Asset
		want := "2.0"
		if set {
			txt, want = `{"version":"2.1"}`, "2.1"
		}
		sym.Assert(json.Unmarshal([]byte(txt), &o) == nil && o.Version == want, "version")
	case 5:
		want := []float64{0, 0, 0}
		if set {
			txt, want = `{"emissiveFactor":`+nums(f[:3])+`}`, f[:3]
		}
		var o gltf.Material
		sym.Assert(json.Unmarshal([]byte(txt), &o) == nil && eqFloats(o.EmissiveFactor[:], want), "emissive")
	}
	sym.Reach("done")
}
