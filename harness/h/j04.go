package h

import (
	"encoding/json"
	"reflect"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/ext/lightspunctual"
	"github.com/qmuntal/gltf/ext/specular"
	"github.com/qmuntal/gltf/ext/texturetransform"
	"github.com/qmuntal/gltf/ext/unlit"
	"github.com/qmuntal/gltf/zzverif/sym"
)

const punct = "\",:{}[]\\<1 "

// text is a short string over JSON punctuation.
func text(name string, max int) string {
	return sym.StrAlphabet(name, sym.Choose(name+" len", max+1), punct)
}

// deepNums compares values, numbers by ==.
func same(a, b interface{}) bool { return reflect.DeepEqual(a, b) }

// symExtras gives decoded JSON values of several shapes with arbitrary strings and numbers inside.
func symExtras(kinds int) any {
	switch sym.Choose("extras", kinds) {
	case 1:
		return text("s", 2)
	case 2:
		return map[string]any{"a": text("s", 2), "k": finFloats("n", 1)[0]}
	case 3:
		return []any{text("s", 1), nil, true, finFloats("n", 1)[0], []any{}, map[string]any{"": false}}
	case 4:
		// what a textual edit of the JSON would stumble over
		return map[string]any{"diffuseFactor": []any{1.0, 1.0, 1.0, 1.0}, "glossinessFactor": 12.0, "specularFactor": []any{1.0, 1.0, 1.0}, "s": ",,{,,}" + text("s", 1)}
	case 5:
		return map[string]any{"scale": []any{1.0, 1.0}, "offset": []any{0.0, 0.0}, text("key", 1): map[string]any{"x": []any{text("s", 1)}}}
	}
	return nil
}

func orVec(p *[4]float64) []float64 {
	if p == nil {
		return []float64{1, 1, 1, 1}
	}
	return p[:]
}

func or3(p *[3]float64) []float64 {
	if p == nil {
		return []float64{1, 1, 1}
	}
	return p[:]
}

func orOne(p *float64) float64 {
	if p == nil {
		return 1
	}
	return *p
}

func J04_Specular() {
	p := &specular.PBRSpecularGlossiness{GlossinessFactor: optFloat("glossiness")}
	if f := optVec("diffuse", 4); f != nil {
		p.DiffuseFactor = &[4]float64{f[0], f[1], f[2], f[3]}
	}
	if f := optVec("specular", 3); f != nil {
		p.SpecularFactor = &[3]float64{f[0], f[1], f[2]}
	}
	before := *p
	m := &gltf.Material{Extensions: gltf.Extensions{specular.ExtensionName: p}}
	var back gltf.Material
	roundTrip(m, &back)
	q, ok := back.Extensions[specular.ExtensionName].(*specular.PBRSpecularGlossiness)
	sym.Assert(ok, "decodes to its type")
	sym.Assert(eqFloats(orVec(q.DiffuseFactor), orVec(before.DiffuseFactor)), "diffuse")
	sym.Assert(eqFloats(or3(q.SpecularFactor), or3(before.SpecularFactor)), "specular")
	sym.Assert(orOne(q.GlossinessFactor) == orOne(before.GlossinessFactor), "glossiness")
	sym.Assert(q.DiffuseTexture == nil && q.SpecularGlossinessTexture == nil, "no textures")
	sym.Assert(p.DiffuseFactor == before.DiffuseFactor && p.SpecularFactor == before.SpecularFactor && p.GlossinessFactor == before.GlossinessFactor, "the marshalled value is unchanged")
	sym.Reach("done")
}

// J04_SpecularNested: textures with extras and extensions inside a specular-glossiness extension.
func J04_SpecularNested() {
	p := &specular.PBRSpecularGlossiness{}
	if sym.Choose("defaults", 2) == 1 {
		p.DiffuseFactor, p.SpecularFactor, p.GlossinessFactor = &[4]float64{1, 1, 1, 1}, &[3]float64{1, 1, 1}, gltf.Float(1)
	}
	t := &gltf.TextureInfo{Index: sym.Int("index"), TexCoord: sym.Int("coord"), Extras: symExtras(6)}
	if sym.Choose("transform", 2) == 1 {
		t.Extensions = gltf.Extensions{texturetransform.ExtensionName: &texturetransform.TextureTranform{Scale: [2]float64{1, 1}, TexCoord: gltf.Index(sym.Int("tc"))}}
	}
	if sym.Choose("where", 2) == 0 {
		p.DiffuseTexture = t
	} else {
		p.SpecularGlossinessTexture = t
	}
	m := &gltf.Material{Extensions: gltf.Extensions{specular.ExtensionName: p}}
	var back gltf.Material
	roundTrip(m, &back)
	q, ok := back.Extensions[specular.ExtensionName].(*specular.PBRSpecularGlossiness)
	sym.Assert(ok, "decodes to its type")
	sym.Assert(same(q.DiffuseTexture, p.DiffuseTexture) && same(q.SpecularGlossinessTexture, p.SpecularGlossinessTexture), "textures")
	sym.Assert(sym.And(eqFloats(orVec(q.DiffuseFactor), orVec(nil)), eqFloats(or3(q.SpecularFactor), or3(nil)), orOne(q.GlossinessFactor) == 1), "default factors")
	sym.Reach("done")
}

func J04_Transform() {
	f := finFloats("f", 5)
	t := &texturetransform.TextureTranform{}
	which := sym.Choose("set", 8)
	if which&1 != 0 {
		t.Offset = [2]float64{f[0], f[1]}
	}
	if which&2 != 0 {
		t.Rotation = f[2]
	}
	if which&4 != 0 {
		t.Scale = [2]float64{f[3], f[4]}
	}
	if sym.Choose("texcoord", 2) == 1 {
		t.TexCoord = gltf.Index(sym.Int("coord"))
	}
	before := *t
	info := &gltf.TextureInfo{Index: 1, Extensions: gltf.Extensions{texturetransform.ExtensionName: t}}
	var back gltf.TextureInfo
	roundTrip(info, &back)
	q, ok := back.Extensions[texturetransform.ExtensionName].(*texturetransform.TextureTranform)
	sym.Assert(ok, "decodes to its type")
	sym.Assert(sym.And(q.Offset[0] == before.Offset[0], q.Offset[1] == before.Offset[1], q.Rotation == before.Rotation), "offset and rotation")
	a, b := q.ScaleOrDefault(), before.ScaleOrDefault()
	sym.Assert(eqFloats(a[:], b[:]), "scale")
	sym.Assert(same(q.TexCoord, before.TexCoord), "texture coordinate")
	sym.Assert(sym.And(t.Offset == before.Offset, t.Scale == before.Scale, t.Rotation == before.Rotation), "the marshalled value is unchanged")
	sym.Reach("done")
}

func symLight() *lightspunctual.Light {
	l := &lightspunctual.Light{Type: lightspunctual.TypePoint, Name: text("name", 1), Intensity: optFloat("intensity"), Range: optFloat("range")}
	if f := optVec("color", 3); f != nil {
		l.Color = &[3]float64{f[0], f[1], f[2]}
	}
	return l
}

func sameLight(a, b *lightspunctual.Light) bool {
	ac, bc := a.ColorOrDefault(), b.ColorOrDefault()
	r := sym.And(a.Type == b.Type, a.Name == b.Name, eqFloats(ac[:], bc[:]), a.IntensityOrDefault() == b.IntensityOrDefault(), (a.Spot == nil) == (b.Spot == nil))
	if a.Spot != nil && b.Spot != nil {
		r = sym.And(r, a.Spot.InnerConeAngle == b.Spot.InnerConeAngle, a.Spot.OuterConeAngleOrDefault() == b.Spot.OuterConeAngleOrDefault())
	}
	// no range means infinite
	return sym.And(r, rangeOf(a) == rangeOf(b))
}

func rangeOf(l *lightspunctual.Light) float64 {
	if l.Range == nil {
		return inf
	}
	return *l.Range
}

// J04_Light: one light of each kind, alone.
func J04_Light() {
	l := symLight()
	if sym.Choose("spot", 2) == 1 {
		l.Type = lightspunctual.TypeSpot
		l.Spot = &lightspunctual.Spot{InnerConeAngle: finFloats("inner", 1)[0], OuterConeAngle: optFloat("outer")}
	}
	if sym.Choose("infinite", 2) == 1 {
		l.Range = gltf.Float(inf)
	}
	var back lightspunctual.Light
	roundTrip(l, &back)
	sym.Assert(sameLight(l, &back), "same light")
	sym.Reach("done")
}

// J04_Lights: the lists of lights of a document and the references of its nodes, encoded and decoded twice.
func J04_Lights() {
	n := sym.Choose("lights", 3)
	ls := make(lightspunctual.Lights, n)
	for i := range ls {
		ls[i] = &lightspunctual.Light{Type: lightspunctual.TypeDirectional, Name: text("name", 1), Intensity: gltf.Float(finFloats("intensity", 1)[0])}
	}
	idx := lightspunctual.LightIndex(sym.Int("light"))
	doc := &gltf.Document{Asset: gltf.Asset{Version: "2.0"}, Extensions: gltf.Extensions{lightspunctual.ExtensionName: ls},
		Nodes: []*gltf.Node{{Extensions: gltf.Extensions{lightspunctual.ExtensionName: idx}}}}
	for round := 0; round < 2; round++ {
		var back gltf.Document
		b := roundTrip(doc, &back)
		got, ok := back.Extensions[lightspunctual.ExtensionName].(lightspunctual.Lights)
		sym.Assert(ok, "decodes to lights")
		sym.Assert(len(got) == n, "number of lights")
		for i := range got {
			sym.Assert(sameLight(got[i], ls[i]), "same light")
		}
		ref, ok := back.Nodes[0].Extensions[lightspunctual.ExtensionName].(lightspunctual.LightIndex)
		sym.Assert(ok && ref == idx, "light of the node")
		var gen struct {
			Extensions struct {
				KHR_lights_punctual struct {
					Lights []struct{ Type string }
				}
			}
			Nodes []struct {
				Extensions struct {
					KHR_lights_punctual struct{ Light *int }
				}
			}
		}
		sym.Assert(json.Unmarshal(b, &gen) == nil, "text fits the schema")
		sym.Assert(len(gen.Extensions.KHR_lights_punctual.Lights) == n, "the text has the lights")
		l := gen.Nodes[0].Extensions.KHR_lights_punctual.Light
		sym.Assert(l != nil && *l == int(idx), "the text has the light index")
		doc = &back
	}
	sym.Reach("done")
}

// J04_Unlit: the extension object is kept, whatever it contains.
func J04_Unlit() {
	m := &gltf.Material{Extensions: gltf.Extensions{unlit.ExtensionName: &unlit.Unlit{}}}
	ex := symExtras(5)
	if ex != nil {
		(*m.Extensions[unlit.ExtensionName].(*unlit.Unlit))["extras"] = ex
	}
	for round := 0; round < 2; round++ {
		var back gltf.Material
		roundTrip(m, &back)
		u, ok := back.Extensions[unlit.ExtensionName].(*unlit.Unlit)
		sym.Assert(ok, "decodes to its type")
		if ex == nil {
			sym.Assert(len(*u) == 0, "empty")
		} else {
			raw, ok := (*u)["extras"].(json.RawMessage)
			sym.Assert(ok && len(*u) == 1, "has the property")
			var v any
			sym.Assert(json.Unmarshal(raw, &v) == nil && same(v, ex), "same property")
		}
		m = &back
	}
	sym.Reach("done")
}

type custom struct {
	Text string  `json:"text"`
	N    float64 `json:"n,omitempty"`
}

// J04_Places: extras, unknown and registered extensions survive in every kind of object.
func J04_Places() {
	gltf.RegisterExtension("H_custom", func(b []byte) (any, error) {
		c := new(custom)
		err := json.Unmarshal(b, c)
		return c, err
	})
	doc := fullDoc(fixedInt, fixedFloat)
	ps := places(doc)
	at := sym.Choose("place", len(ps))
	mode := sym.Choose("what", 4)
	s := text("text", 1)
	switch mode {
	case 0:
		*ps[at].ex = map[string]any{"t": s}
	case 1:
		*ps[at].ext = gltf.Extensions{"H_custom": &custom{Text: s, N: finFloats("n", 1)[0]}}
	case 2:
		*ps[at].ext = gltf.Extensions{"H_unknown": map[string]any{"t": s}}
	case 3:
		// registered, but of another shape: kept as it is
		*ps[at].ext = gltf.Extensions{"H_custom": []any{s}, unlit.ExtensionName: &unlit.Unlit{}}
	}
	for round := 0; round < 2; round++ {
		var back gltf.Document
		roundTrip(doc, &back)
		qs := places(&back)
		sym.Assert(len(qs) == len(ps), "same objects")
		for i := range qs {
			if i != at {
				sym.Assert(*qs[i].ex == nil && len(*qs[i].ext) == 0, "nothing elsewhere")
			}
		}
		q := qs[at]
		switch mode {
		case 0:
			sym.Assert(same(*q.ex, map[string]any{"t": s}) && len(*q.ext) == 0, "extras")
		case 1:
			c, ok := (*q.ext)["H_custom"].(*custom)
			sym.Assert(ok && *q.ex == nil && len(*q.ext) == 1, "registered extension")
			sym.Assert(same(c, (*ps[at].ext)["H_custom"]), "value of the registered extension")
		case 2, 3:
			key, want := "H_unknown", any(map[string]any{"t": s})
			if mode == 3 {
				key, want = "H_custom", []any{s}
				_, ok := (*q.ext)[unlit.ExtensionName].(*unlit.Unlit)
				sym.Assert(ok && len(*q.ext) == 2, "other extension")
			} else {
				sym.Assert(len(*q.ext) == 1, "one extension")
			}
			raw, ok := (*q.ext)[key].(json.RawMessage)
			sym.Assert(ok && *q.ex == nil, "kept as text")
			var v any
			sym.Assert(json.Unmarshal(raw, &v) == nil && same(v, want), "same value")
		}
		doc = &back
	}
	sym.Reach("done")
}

// J04_Extras: extras of any shape on an object with custom marshalling and on one without.
func J04_Extras() {
	ex := symExtras(6)
	switch sym.Choose("object", 4) {
	case 0:
		var back gltf.Node
		roundTrip(&gltf.Node{Extras: ex}, &back)
		sym.Assert(same(back.Extras, ex), "node extras")
	case 1:
		var back gltf.Material
		roundTrip(&gltf.Material{Extras: ex}, &back)
		sym.Assert(same(back.Extras, ex), "material extras")
	case 2:
		var back gltf.Buffer
		roundTrip(&gltf.Buffer{Extras: ex}, &back)
		sym.Assert(same(back.Extras, ex), "buffer extras")
	case 3:
		var back gltf.Camera
		roundTrip(&gltf.Camera{Extras: ex, Orthographic: &gltf.Orthographic{Extras: ex}}, &back)
		sym.Assert(same(back.Extras, ex) && same(back.Orthographic.Extras, ex), "camera extras")
	}
	sym.Reach("done")
}

// J04_Values: unknown extensions of any JSON kind, null included, keep their value; several do not get mixed up.
func J04_Values() {
	x, y := symExtras(6), any(nil)
	switch sym.Choose("other", 4) {
	case 1:
		y = sym.Bool("flag")
	case 2:
		y = []any{nil, true, text("text", 1)}
	case 3:
		y = finFloats("number", 1)[0]
	}
	e := gltf.Extensions{"H_x": x, "H_y": y}
	for round := 0; round < 2; round++ {
		var got gltf.Extensions
		switch sym.Choose("object", 3) {
		case 0:
			var back gltf.Node
			roundTrip(&gltf.Node{Extensions: e}, &back)
			got = back.Extensions
		case 1:
			var back gltf.Material
			roundTrip(&gltf.Material{Extensions: e}, &back)
			got = back.Extensions
		case 2:
			var back gltf.Buffer
			roundTrip(&gltf.Buffer{Extensions: e}, &back)
			got = back.Extensions
		}
		sym.Assert(len(got) == 2, "both extensions")
		for k, want := range map[string]any{"H_x": x, "H_y": y} {
			raw, ok := got[k].(json.RawMessage)
			sym.Assert(ok, "kept as text")
			var v any
			sym.Assert(json.Unmarshal(raw, &v) == nil && same(v, want), "same value")
		}
		e = got
	}
	sym.Reach("done")
}

// J04_IllTyped: a known extension with a member of a wrong JSON kind is either an error or keeps its value.
func J04_IllTyped() {
	name, js := "", ""
	switch sym.Choose("extension", 5) {
	case 0:
		name, js = specular.ExtensionName, `{"diffuseFactor":[0.5,1,1,1],"diffuseTexture":{"index":1,"texCoord":2},"specularFactor":[0.5,0.5,0.5],"glossinessFactor":0.5}`
	case 1:
		name, js = texturetransform.ExtensionName, `{"offset":[0.5,0.5],"rotation":0.5,"scale":[2,0.5],"texCoord":1}`
	case 2:
		name, js = lightspunctual.ExtensionName, `{"lights":[{"type":"spot","name":"a","color":[1,0.5,1],"intensity":0.5,"range":0.5,"spot":{"innerConeAngle":0.5,"outerConeAngle":0.25}}]}`
	case 3:
		name, js = lightspunctual.ExtensionName, `{"light":1}`
	case 4:
		name, js = unlit.ExtensionName, `{}`
	}
	var tree any
	if json.Unmarshal([]byte(`{"extensions":{"`+name+`":`+js+`}}`), &tree) != nil {
		panic("own text")
	}
	ss := slots("", tree, func(x any) { tree = x })[2:]
	s := ss[sym.Choose("slot", len(ss))]
	var v any
	kind := sym.Choose("kind", 5)
	switch kind {
	case 0:
		v = text("s", 1)
	case 1:
		v = finFloats("f", 1)[0]
	case 2:
		v = sym.Bool("b")
	case 3:
		v = []any{1.5}
	case 4:
		v = map[string]any{"x": 1.5}
	}
	if kind == jsonKind(s.v) {
		return
	}
	s.set(v)
	b, err := json.Marshal(tree)
	if err != nil {
		panic(err)
	}
	var back gltf.Material
	if json.Unmarshal(b, &back) == nil {
		b, err = json.Marshal(&back)
		sym.Assert(err == nil, "can be encoded")
		var got any
		sym.Assert(json.Unmarshal(b, &got) == nil && same(got, tree), "same value")
		sym.Reach("kept")
	}
	sym.Reach("done")
}
