package h

import (
	"encoding/json"
	"errors"
	"math"
	"sort"
	"strings"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/ext/lightspunctual"
	"github.com/qmuntal/gltf/ext/specular"
	"github.com/qmuntal/gltf/ext/texturetransform"
	"github.com/qmuntal/gltf/zzverif/sym"
)

// encodes reports whether the document can be encoded. If not, nothing has been written.
func encodes(d *gltf.Document) bool {
	m := &memFS{}
	out := &faultySink{f: &m.f}
	e := gltf.NewEncoderFS(out, m)
	e.AsBinary = sym.Choose("binary", 2) == 1
	if sym.Choose("indent", 2) == 1 {
		e.SetJSONIndent("", " ")
	}
	err := e.Encode(d)
	sym.Assert(err == nil || len(out.b) == 0 && len(m.created) == 0, "nothing is written on an error")
	return err == nil
}

var floatFields = []string{"weight", "matrix", "rotation", "scale", "translation", "max", "min", "aspect", "yfov", "zfar", "znear", "xmag", "ymag", "emissive", "color",
	"metallic", "roughness", "cutoff", "normal scale", "strength", "mesh weight"}

func withFile(d *gltf.Document) *gltf.Document {
	d.Buffers = append(d.Buffers, &gltf.Buffer{URI: "a.bin", ByteLength: 1, Data: []byte{1}})
	return d
}

// J07_Numbers: any number of a document; exactly those that are not finite are reported.
func J07_Numbers() {
	at := sym.Choose("field", len(floatFields))
	f := sym.F64("f")
	d := withFile(fullDoc(fixedInt, func(s string) float64 {
		if s == floatFields[at] {
			return f
		}
		return 0.75
	}))
	sym.Assert(encodes(d) == fin(f), "finite numbers can be encoded, others are reported")
	sym.Reach("done")
}

// J07_Extensions: the same for the numbers of the known extensions.
func J07_Extensions() {
	f := sym.F64("f")
	d := withFile(fullDoc(fixedInt, fixedFloat))
	m := &d.Materials[0].Extensions
	t := &d.Materials[0].EmissiveTexture.Extensions
	light := &lightspunctual.Light{Type: lightspunctual.TypeSpot, Spot: &lightspunctual.Spot{InnerConeAngle: 0.5}}
	switch sym.Choose("field", 12) {
	case 0:
		*m = gltf.Extensions{specular.ExtensionName: &specular.PBRSpecularGlossiness{DiffuseFactor: &[4]float64{1, 1, f, 1}}}
	case 1:
		*m = gltf.Extensions{specular.ExtensionName: &specular.PBRSpecularGlossiness{SpecularFactor: &[3]float64{1, 1, f}}}
	case 2:
		*m = gltf.Extensions{specular.ExtensionName: &specular.PBRSpecularGlossiness{GlossinessFactor: &f}}
	case 3:
		*t = gltf.Extensions{texturetransform.ExtensionName: &texturetransform.TextureTranform{Offset: [2]float64{f, 1}}}
	case 4:
		*t = gltf.Extensions{texturetransform.ExtensionName: &texturetransform.TextureTranform{Rotation: f}}
	case 5:
		*t = gltf.Extensions{texturetransform.ExtensionName: &texturetransform.TextureTranform{Scale: [2]float64{1, f}}}
	case 6:
		light.Color = &[3]float64{1, f, 1}
	case 7:
		light.Intensity = &f
	case 8:
		light.Range = &f
	case 9:
		light.Spot.InnerConeAngle = f
	case 10:
		light.Spot.OuterConeAngle = &f
	case 11:
		d.Nodes[0].Extras = []any{map[string]any{"f": f}}
	}
	d.Extensions = gltf.Extensions{lightspunctual.ExtensionName: lightspunctual.Lights{light}}
	want := fin(f)
	if light.Range != nil && f > 0 && !want {
		want = true // the default
	}
	sym.Assert(encodes(d) == want, "finite numbers can be encoded, others are reported")
	sym.Reach("done")
}

type failing struct{ fail bool }

func (f failing) MarshalJSON() ([]byte, error) {
	if f.fail {
		return nil, errors.New("failing")
	}
	return []byte("1"), nil
}

// J07_Values: extras and extensions of any place whose values have no JSON form, or whose text is no JSON.
func J07_Values() {
	d := withFile(fullDoc(fixedInt, fixedFloat))
	ps := places(d)
	at := sym.Choose("place", len(ps))
	var v any
	ok := false
	switch sym.Choose("what", 4) {
	case 0:
		v = failing{!ok}
		if sym.Bool("ok") {
			v, ok = failing{}, true
		}
	case 1:
		v = make(chan int)
	case 2:
		v = map[string]any{"f": func() {}}
	case 3:
		raw := []byte(text("raw", 2))
		v, ok = json.RawMessage(raw), json.Valid(raw)
	}
	if sym.Choose("extension", 2) == 1 {
		*ps[at].ext = gltf.Extensions{"H_x": v}
	} else {
		*ps[at].ex = v
	}
	sym.Assert(encodes(d) == ok, "values without JSON form are reported")
	sym.Reach("done")
}

// J07_Camera: a camera needs a projection.
func J07_Camera() {
	d := withFile(fullDoc(fixedInt, fixedFloat))
	at := sym.Choose("camera", 3)
	if at < 2 {
		d.Cameras[at].Perspective, d.Cameras[at].Orthographic = nil, nil
	}
	sym.Assert(encodes(d) == (at == 2), "a camera without projection is reported")
	sym.Reach("done")
}

// slot is a value within a JSON text.
type slot struct {
	path string
	v    any
	set  func(any)
}

func slots(path string, v any, set func(any)) (out []slot) {
	out = append(out, slot{path, v, set})
	switch v := v.(type) {
	case map[string]any:
		var keys []string
		for k := range v {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			k := k
			out = append(out, slots(path+"/"+k, v[k], func(x any) { v[k] = x })...)
		}
	case []any:
		for i := range v {
			i := i
			out = append(out, slots(path+"/"+pad(i), v[i], func(x any) { v[i] = x })...)
		}
	}
	return out
}

func jsonKind(v any) int {
	switch v.(type) {
	case string:
		return 0
	case float64:
		return 1
	case bool:
		return 2
	case []any:
		return 3
	}
	return 4
}

// J07_Kinds: a member of any object has a value of a wrong JSON kind, or no integer where one is needed.
func J07_Kinds() {
	full := fullDoc(fixedInt, fixedFloat)
	for _, p := range places(full) {
		*p.ext = gltf.Extensions{"H_x": map[string]any{}}
	}
	var tree any
	if json.Unmarshal(encodeDoc(full, false, &memFS{}), &tree) != nil {
		panic("own text")
	}
	ss := slots("", tree, func(x any) { tree = x })
	s := ss[sym.Choose("slot", len(ss))]
	if strings.HasPrefix(s.path, "/cameras/") && strings.HasSuffix(s.path, "/type") {
		return // not used
	}
	kind := sym.Choose("kind", 6)
	if strings.HasSuffix(s.path, "/H_x") {
		return
	}
	if kind == jsonKind(s.v) {
		f, ok := s.v.(float64)
		if !ok || f != math.Trunc(f) || strings.Contains(s.path, "/matrix/") || strings.Contains(s.path, "/rotation/") ||
			strings.Contains(s.path, "/scale/") || strings.Contains(s.path, "/translation/") {
			return // the right kind
		}
	}
	var v any
	switch kind {
	case 0:
		v = text("s", 1)
	case 1:
		f := finFloats("f", 1)[0]
		sym.Assume(f != math.Trunc(f) || f >= 1e21)
		v = f
	case 2:
		v = sym.Bool("b")
	case 3:
		v = []any{}
	case 4:
		v = map[string]any{}
	case 5:
		v = s.v // unchanged
	}
	s.set(v)
	b, err := json.Marshal(tree)
	if err != nil {
		panic(err)
	}
	var d gltf.Document
	err = gltf.NewDecoder(&source{b: b}).Decode(&d)
	sym.Assert((err == nil) == (kind == 5), "a value of the wrong kind is reported")
	sym.Reach("done")
}
