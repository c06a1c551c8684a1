package h

import (
	"encoding/json"
	"reflect"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/ext/lightspunctual"
	"github.com/qmuntal/gltf/ext/specular"
	"github.com/qmuntal/gltf/ext/texturetransform"
	"github.com/qmuntal/gltf/zzverif/sym"
)

// decoded gives a fresh value of one kind of object decoded from text, and a function that overwrites everything
// reachable from it that the decoder has made.
func decoded(kind int, js string) (v any, scribble func(f float64, i int)) {
	set := func(p *float64, f float64) {
		if p != nil {
			*p = f
		}
	}
	switch kind {
	case 0:
		m := new(gltf.Material)
		sym.Assert(json.Unmarshal([]byte(js), m) == nil, "decodes")
		return m, func(f float64, i int) {
			set(m.AlphaCutoff, f)
			if p := m.PBRMetallicRoughness; p != nil {
				set(p.MetallicFactor, f)
				set(p.RoughnessFactor, f)
				if p.BaseColorFactor != nil {
					*p.BaseColorFactor = [4]float64{f, f, f, f}
				}
			}
			if n := m.NormalTexture; n != nil {
				set(n.Scale, f)
			}
			if o := m.OcclusionTexture; o != nil {
				set(o.Strength, f)
			}
		}
	case 1:
		p := new(gltf.PBRMetallicRoughness)
		sym.Assert(json.Unmarshal([]byte(js), p) == nil, "decodes")
		return p, func(f float64, i int) {
			set(p.MetallicFactor, f)
			set(p.RoughnessFactor, f)
			if p.BaseColorFactor != nil {
				*p.BaseColorFactor = [4]float64{f, f, f, f}
			}
		}
	case 2:
		n := new(gltf.Node)
		sym.Assert(json.Unmarshal([]byte(js), n) == nil, "decodes")
		return n, func(f float64, i int) {
			for k := range n.Matrix {
				n.Matrix[k] = f
			}
			n.Rotation, n.Scale, n.Translation = [4]float64{f, f, f, f}, [3]float64{f, f, f}, [3]float64{f, f, f}
			if n.Extensions != nil {
				n.Extensions["x"] = i
			}
		}
	case 3:
		e, err := specular.Unmarshal([]byte(js))
		sym.Assert(err == nil, "decodes")
		p := e.(*specular.PBRSpecularGlossiness)
		return p, func(f float64, i int) {
			set(p.GlossinessFactor, f)
			if p.DiffuseFactor != nil {
				*p.DiffuseFactor = [4]float64{f, f, f, f}
			}
			if p.SpecularFactor != nil {
				*p.SpecularFactor = [3]float64{f, f, f}
			}
		}
	case 4:
		l := new(lightspunctual.Light)
		sym.Assert(json.Unmarshal([]byte(js), l) == nil, "decodes")
		return l, func(f float64, i int) {
			set(l.Intensity, f)
			set(l.Range, f)
			if l.Color != nil {
				*l.Color = [3]float64{f, f, f}
			}
			if l.Spot != nil {
				set(l.Spot.OuterConeAngle, f)
			}
		}
	case 5:
		e, err := texturetransform.Unmarshal([]byte(js))
		sym.Assert(err == nil, "decodes")
		t := e.(*texturetransform.TextureTranform)
		return t, func(f float64, i int) {
			t.Offset, t.Scale = [2]float64{f, f}, [2]float64{f, f}
			if t.TexCoord != nil {
				*t.TexCoord = i
			}
		}
	}
	d := new(gltf.Document)
	sym.Assert(json.Unmarshal([]byte(js), d) == nil, "decodes")
	return d, func(f float64, i int) {
		d.Asset.Version = "x"
		for _, m := range d.Materials {
			set(m.AlphaCutoff, f)
		}
		for _, n := range d.Nodes {
			n.Matrix[0], n.Scale[0], n.Rotation[0] = f, f, f
			for k := range n.Extensions {
				delete(n.Extensions, k)
			}
		}
	}
}

var aliasTexts = []string{
	`{"pbrMetallicRoughness":{},"normalTexture":{},"occlusionTexture":{}}`,
	`{}`,
	`{"extensions":{"a":1}}`,
	`{}`,
	`{"type":"spot","spot":{}}`,
	`{"rotation":1}`,
	`{"asset":{},"materials":[{},{}],"nodes":[{},{"extensions":{"KHR_materials_unlit":{}}}]}`,
}

// J06_Separate: changing a decoded value changes no other one, decoded before or after.
func J06_Separate() {
	k := sym.Choose("kind", len(aliasTexts))
	a, change := decoded(k, aliasTexts[k])
	b, _ := decoded(k, aliasTexts[k])
	c, _ := decoded(k, aliasTexts[k])
	sym.Assert(reflect.DeepEqual(b, c), "equal texts give equal values")
	f := finFloats("value", 1)[0]
	change(f, sym.Int("index"))
	_ = a
	d, _ := decoded(k, aliasTexts[k])
	sym.Assert(reflect.DeepEqual(b, c), "values decoded before are unchanged")
	sym.Assert(reflect.DeepEqual(b, d), "values decoded later are unchanged")
	sym.Reach("done")
}

// J06_Within: the objects of one document share nothing.
func J06_Within() {
	js := `{"asset":{},"materials":[{"pbrMetallicRoughness":{}},{"pbrMetallicRoughness":{}}],"nodes":[{"extensions":{}},{"extensions":{}}]}`
	d := new(gltf.Document)
	sym.Assert(json.Unmarshal([]byte(js), d) == nil, "decodes")
	f := finFloats("value", 1)[0]
	p, q := d.Materials[0], d.Materials[1]
	*p.AlphaCutoff = f
	*p.PBRMetallicRoughness.MetallicFactor = f
	p.PBRMetallicRoughness.BaseColorFactor[3] = f
	sym.Assert(*q.AlphaCutoff == 0.5 && *q.PBRMetallicRoughness.MetallicFactor == 1 && *q.PBRMetallicRoughness.RoughnessFactor == 1, "factors")
	sym.Assert(*p.PBRMetallicRoughness.RoughnessFactor == 1, "factors of one object")
	sym.Assert(*q.PBRMetallicRoughness.BaseColorFactor == [4]float64{1, 1, 1, 1}, "colors")
	d.Nodes[0].Extensions["x"] = 1
	sym.Assert(len(d.Nodes[1].Extensions) == 0, "extensions")
	d.Nodes[0].Matrix[0], d.Nodes[0].Scale[1] = f, f
	sym.Assert(d.Nodes[1].Matrix == gltf.DefaultMatrix && d.Nodes[1].Scale == gltf.DefaultScale, "transforms")
	sym.Reach("done")
}

// J06_Defaults: changing what an OrDefault accessor returned changes no later result.
func J06_Defaults() {
	f := finFloats("value", 1)[0]
	n := &gltf.Node{}
	m, r, s := n.MatrixOrDefault(), n.RotationOrDefault(), n.ScaleOrDefault()
	m[0], r[0], s[0] = f, f, f
	p := &gltf.PBRMetallicRoughness{}
	c := p.BaseColorFactorOrDefault()
	c[1] = f
	l := &lightspunctual.Light{}
	lc := l.ColorOrDefault()
	lc[2] = f
	t := &texturetransform.TextureTranform{}
	ts := t.ScaleOrDefault()
	ts[0] = f
	o := &gltf.Node{}
	sym.Assert(o.MatrixOrDefault() == [16]float64{1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1} && o.RotationOrDefault() == [4]float64{0, 0, 0, 1} && o.ScaleOrDefault() == [3]float64{1, 1, 1}, "node")
	sym.Assert(new(gltf.PBRMetallicRoughness).BaseColorFactorOrDefault() == [4]float64{1, 1, 1, 1}, "base color")
	sym.Assert(new(lightspunctual.Light).ColorOrDefault() == [3]float64{1, 1, 1}, "light color")
	sym.Assert(new(texturetransform.TextureTranform).ScaleOrDefault() == [2]float64{1, 1}, "scale")
	sym.Reach("done")
}

// J06_Raw: raw extension values do not alias the input text.
func J06_Raw() {
	s := sym.StrAlphabet("text", 3, "abc")
	text := []byte(`{"extensions":{"a":"` + s + `"},"extras":"` + s + `"}`)
	var n gltf.Node
	sym.Assert(json.Unmarshal(text, &n) == nil, "decodes")
	for i := range text {
		text[i] = 'z'
	}
	raw, ok := n.Extensions["a"].(json.RawMessage)
	sym.Assert(ok && sym.StrEq(string(raw), `"`+s+`"`), "the extension keeps its text")
	x, ok := n.Extras.(string)
	sym.Assert(ok && sym.StrEq(x, s), "the extras keep their text")
	sym.Reach("done")
}
