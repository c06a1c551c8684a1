package h

import (
	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/zzverif/sym"
)

// mixedDoc has a buffer without URI (a BIN chunk or embedded) and buffers of other kinds.
func mixedDoc(generators int) *gltf.Document {
	doc := &gltf.Document{Asset: gltf.Asset{Version: "2.0", Generator: pad(sym.Choose("generator", generators))}}
	if sym.Choose("chunk", 2) == 1 {
		n := 1 + sym.Choose("bin length", 4)
		doc.Buffers = append(doc.Buffers, &gltf.Buffer{ByteLength: n, Data: sym.Bytes("bin", n)})
	}
	for i := sym.Choose("external", 3); i > 0; i-- {
		doc.Buffers = append(doc.Buffers, &gltf.Buffer{ByteLength: 3, URI: pad(i) + ".bin", Data: sym.Bytes("ext", 3)})
	}
	return doc
}

// G04_Encode: any write, creation or close fails, once or several times.
func G04_Encode() {
	doc := mixedDoc(4)
	binary := sym.Choose("binary", 2) == 1
	indent := sym.Choose("indent", 2) == 1
	encode := func(out *faultySink, m *memFS) error {
		e := gltf.NewEncoderFS(out, m)
		e.AsBinary = binary
		if indent {
			e.SetJSONIndent(">", " ")
		}
		return e.Encode(doc)
	}
	var want faultySink
	want.f = &faults{}
	var wantFS memFS
	sym.Assert(encode(&want, &wantFS) == nil, "encodes without faults")

	m := &memFS{}
	m.f.on, m.f.kinds = true, opWrite|opCreate|opFileWrite|opClose
	out := &faultySink{f: &m.f}
	err := encode(out, m)
	sym.Assert(m.open == 0 && !m.twice, "every created file is closed once")
	sym.Assert(!m.late, "nothing is written to a closed file")
	if m.f.hit > 0 {
		sym.Assert(err != nil, "a fault is reported")
		sym.Reach("fault")
		return
	}
	sym.Assert(err == nil, "no fault, no error")
	sym.Assert(sym.BytesEq(out.b, want.b), "all bytes are written")
	sym.Assert(len(m.files) == len(wantFS.files), "all files are written")
	for i, f := range m.files {
		sym.Assert(f.name == wantFS.files[i].name && sym.BytesEq(f.data, wantFS.files[i].data), "with all bytes")
	}
	sym.Reach("no fault")
}

// G04_Decode: any read of the input, or opening or reading of a file fails, once or for good.
func G04_Decode() {
	doc := mixedDoc(1)
	binary := sym.Choose("binary", 2) == 1
	m := &memFS{}
	out := encodeDoc(doc, binary, m)

	needed := len(out)
	if binary {
		needed -= 3 // at most padding
	}
	m.f.on, m.f.kinds, m.f.max = true, opOpen|opRead, 2
	src := &faultySource{b: out, size: []int{len(out), 64, 25, 20, 7}[sym.Choose("size", 5)], f: &faults{on: true, kinds: opRead, max: 2}, sticky: sym.Choose("sticky", 2) == 1, needed: needed}
	var back gltf.Document
	err := gltf.NewDecoderFS(src, m).Decode(&back)
	sym.Assert(m.open == 0 && !m.twice, "every opened file is closed once")
	if m.f.hit > 0 {
		sym.Assert(err != nil, "a fault of an external resource is reported")
		sym.Reach("external fault")
	}
	if src.early {
		sym.Assert(err != nil, "a fault of the input is reported")
		sym.Reach("fault")
	}
	if m.f.hit == 0 && src.f.hit == 0 {
		sym.Assert(err == nil, "no fault, no error")
		sym.Reach("no fault")
	}
	if err != nil {
		return
	}
	sym.Assert(len(back.Buffers) == len(doc.Buffers), "number of buffers")
	for i := range doc.Buffers {
		sym.Assert(sym.BytesEq(back.Buffers[i].Data, doc.Buffers[i].Data), "same data")
	}
	sym.Reach("decoded")
}

// G04_Camera: a document that cannot be encoded gives an error and touches nothing.
func G04_Camera() {
	doc := mixedDoc(1)
	doc.Cameras = []*gltf.Camera{{}}
	m := &memFS{}
	m.f.on, m.f.kinds = true, opWrite|opCreate|opFileWrite|opClose
	out := &faultySink{f: &m.f}
	e := gltf.NewEncoderFS(out, m)
	e.AsBinary = sym.Choose("binary", 2) == 1
	sym.Assert(e.Encode(doc) != nil, "the error of the JSON encoder is reported")
	sym.Assert(len(out.b) == 0 && len(m.created) == 0, "nothing is written")
	sym.Reach("done")
}
