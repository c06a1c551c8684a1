package h

import (
	"reflect"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/zzverif/sym"
)

// twins gives two equal documents that share no memory.
func twins() (*gltf.Document, *gltf.Document) {
	group := fieldGroups[sym.Choose("group", len(fieldGroups))]
	in, fl := map[string]int{}, map[string]float64{}
	for _, g := range group {
		in[g] = sym.Int(g)
		fl[g] = finFloats(g, 1)[0]
	}
	build := func() *gltf.Document {
		return fullDoc(func(n string) int {
			if v, ok := in[n]; ok {
				return v
			}
			return 3
		}, func(n string) float64 {
			if v, ok := fl[n]; ok {
				return v
			}
			return 0.75
		})
	}
	return build(), build()
}

// G07_Document: a document with every kind of object, buffers of every kind, any history of encodings.
func G07_Document() {
	a, b := twins()
	mem := sym.Bytes("memory", 12)
	k := sym.Choose("buffers", 5)
	for _, d := range []*gltf.Document{a, b} {
		d.Buffers = nil
		own := append([]byte(nil), mem...)
		for i := 0; i <= k && i < 4; i++ {
			// Each buffer has spare capacity behind its data.
			buf := &gltf.Buffer{Name: "n" + pad(i), ByteLength: 2, Data: own[3*i : 3*i+2 : 3*i+3], Extras: "e", Extensions: gltf.Extensions{"x": "y"}}
			switch (i + k) % 4 {
			case 1:
				buf.URI = "%20f" + pad(i) + ".bin"
			case 2:
				buf.URI = octetPrefix + "AAAA"
			case 3:
				buf.URI = ".\\b.bin"
				buf.Data = nil
			}
			d.Buffers = append(d.Buffers, buf)
		}
	}
	var outs [2][]byte
	for i := 0; i < 3; i++ {
		m := &memFS{}
		out := &faultySink{f: &m.f}
		bin := sym.Choose("binary", 2)
		if i == 0 {
			m.f.on, m.f.kinds, m.f.max = true, opWrite|opCreate|opFileWrite|opClose, 1
		}
		e := gltf.NewEncoderFS(out, m)
		e.AsBinary = bin == 1
		err := e.Encode(a)
		sym.Assert((err == nil) == (m.f.hit == 0), "only faults are errors")
		sym.Assert(reflect.DeepEqual(a, b), "the document is unchanged")
		for j := range a.Buffers {
			if a.Buffers[j].Data != nil {
				sym.Assert(cap(a.Buffers[j].Data) == 3 && sym.BytesEq(a.Buffers[j].Data[:3], b.Buffers[j].Data[:3]), "memory behind the data is unchanged")
			}
		}
		if err == nil {
			if outs[bin] != nil {
				sym.Assert(sym.BytesEq(out.b, outs[bin]), "same bytes again")
				sym.Reach("again")
			}
			outs[bin] = out.b
		} else {
			sym.Reach("fault")
		}
	}
	sym.Reach("done")
}

// G07_Optional: documents with optional parts unset or at their defaults.
func G07_Optional() {
	var g gen
	a := optionalDoc(&g)
	g.rewind()
	b := optionalDoc(&g)
	if sym.Choose("zero", 2) == 1 {
		// Values that stand for defaults, spelled out or left zero.
		for _, d := range []*gltf.Document{a, b} {
			d.Asset.Version = ""
			d.Nodes = append(d.Nodes, &gltf.Node{})
			d.Materials = append(d.Materials, &gltf.Material{PBRMetallicRoughness: &gltf.PBRMetallicRoughness{}, NormalTexture: &gltf.NormalTexture{}, OcclusionTexture: &gltf.OcclusionTexture{}})
			d.Accessors = append(d.Accessors, &gltf.Accessor{})
		}
	}
	var outs [2][]byte
	for i := 0; i < 2; i++ {
		bin := sym.Choose("binary", 2)
		var out sink
		e := gltf.NewEncoder(&out)
		e.AsBinary = bin == 1
		sym.Assert(e.Encode(a) == nil, "encodes")
		sym.Assert(reflect.DeepEqual(a, b), "the document is unchanged")
		if outs[bin] != nil {
			sym.Assert(sym.BytesEq(out.b, outs[bin]), "same bytes again")
		}
		outs[bin] = out.b
	}
	sym.Reach("done")
}

// G07_Lengths: encoding changes nothing whatever the declared lengths of the buffers, and fails or succeeds alike.
func G07_Lengths() {
	length, n := sym.Int("length"), sym.Choose("data", 4)
	if length >= 0 && length <= 4 {
		length = sym.Concrete(length)
	}
	mem := sym.Bytes("memory", 4)
	kind := sym.Choose("kind", 4)
	first := sym.Choose("first", 2) == 1
	build := func() *gltf.Document {
		own := append([]byte(nil), mem...)
		buf := &gltf.Buffer{ByteLength: length, Data: own[:n:4]}
		switch kind {
		case 1:
			buf.URI = "f.bin"
		case 2:
			buf.URI = octetPrefix + "AAAA"
		case 3:
			buf.Data = nil
		}
		d := &gltf.Document{Buffers: []*gltf.Buffer{buf}}
		if !first {
			d.Buffers = []*gltf.Buffer{{ByteLength: 1, Data: []byte{7}}, buf}
		}
		return d
	}
	a, b := build(), build()
	var outs [2][]byte
	var fails [2]int
	for i := 0; i < 3; i++ {
		m := &memFS{}
		var out sink
		bin := sym.Choose("binary", 2)
		e := gltf.NewEncoderFS(&out, m)
		e.AsBinary = bin == 1
		r := 1
		if e.Encode(a) != nil {
			r = 2
		}
		sym.Assert(reflect.DeepEqual(a, b), "the document is unchanged")
		if kind != 3 {
			x, y := a.Buffers[len(a.Buffers)-1].Data, b.Buffers[len(b.Buffers)-1].Data
			sym.Assert(cap(x) == 4 && sym.BytesEq(x[:4], y[:4]), "memory behind the data is unchanged")
		}
		sym.Assert(fails[bin] == 0 || fails[bin] == r, "the same outcome again")
		if fails[bin] == 1 {
			sym.Assert(sym.BytesEq(out.b, outs[bin]), "same bytes again")
			sym.Reach("again")
		}
		fails[bin], outs[bin] = r, out.b
	}
	sym.Reach("done")
}
