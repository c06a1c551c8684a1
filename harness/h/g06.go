package h

import (
	"bytes"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/zzverif/sym"
)

func readDoc(out []byte, m *memFS) (*gltf.Document, error) {
	var back gltf.Document
	err := gltf.NewDecoderFS(bytes.NewReader(out), m).Decode(&back)
	return &back, err
}

// plainURI says that a text has no character that means something in a URI.
func plainURI(s string) bool {
	ok := true
	for i := 0; i < len(s); i++ {
		ok = sym.And(ok, s[i] != '%', s[i] != '/', s[i] != '.', s[i] != '\\', s[i] != ':', s[i] != '?', s[i] != '#')
	}
	return ok
}

// G06_URI: one buffer with any short relative URI.
func G06_URI() {
	max := 4
	if sym.Tier() > 0 {
		max = 5
	}
	pre := []string{"", "d/", "./", "d/./", "a%20", "%41", "d\\"}[sym.Choose("prefix", 7)]
	if pre != "" {
		max--
	}
	mid := sym.StrAlphabet("uri", sym.Choose("length", max), `a% 2/.\+?#&`)
	uri := pre + mid + ".b"
	n := sym.Choose("bytes", 3) + 1
	data := sym.Bytes("data", n)
	doc := &gltf.Document{Asset: gltf.Asset{Version: "2.0"}, Buffers: []*gltf.Buffer{{ByteLength: n, URI: uri, Data: data}}}
	m := &memFS{}
	var out sink
	e := gltf.NewEncoderFS(&out, m)
	e.AsBinary = sym.Choose("binary", 2) == 1
	err := e.Encode(doc)
	if err != nil {
		sym.Assert(sym.Not(plainURI(mid)), "plain names are accepted")
		sym.Assert(len(m.created) == 0, "nothing is created")
		sym.Reach("rejected")
		return
	}
	sym.Assert(len(m.files) == 1 && m.files[0].closed, "one file is written")
	sym.Assert(sym.BytesEq(m.files[0].data, data), "with the data of the buffer")
	if plainURI(mid) && (pre == "" || pre == "d/") {
		sym.Assert(sym.StrEq(m.files[0].name, uri), "under the given name")
		sym.Reach("plain")
	}
	back, err := readDoc(out.b, m)
	sym.Assert(err == nil, "decodes")
	sym.Assert(len(m.opened) == 1 && sym.StrEq(m.opened[0], m.files[0].name), "the same file is opened")
	sym.Assert(len(back.Buffers) == 1 && sym.BytesEq(back.Buffers[0].Data, data), "same data")
	sym.Assert(m.open == 0 && !m.twice, "files are closed")
	sym.Reach("done")
}

// G06_Kinds: up to three buffers of every kind.
func G06_Kinds() {
	doc := &gltf.Document{Asset: gltf.Asset{Version: "2.0"}}
	binary := sym.Choose("binary", 2) == 1
	k := 1 + sym.Choose("buffers", 3)
	var files []int
	for i := 0; i < k; i++ {
		n := 1 + sym.Choose("bytes", 2)
		b := &gltf.Buffer{Name: pad(i), ByteLength: n, Data: sym.Bytes("data", n)}
		switch sym.Choose("kind", 5) {
		case 0:
			b.URI = "dir/f" + pad(i) + ".bin"
			files = append(files, i)
		case 1:
			b.URI = "https://h/" + pad(i) + ".bin"
		case 2:
			b.EmbeddedResource()
		case 3:
			b.URI = "f" + pad(i) + ".bin"
			b.Data = nil
		case 4: // BIN chunk or embedded
		}
		doc.Buffers = append(doc.Buffers, b)
	}
	m := &memFS{}
	out := encodeDoc(doc, binary, m)
	sym.Assert(len(m.files) == len(files), "one file for each external buffer")
	for j, i := range files {
		sym.Assert(m.files[j].name == doc.Buffers[i].URI, "under its name")
		sym.Assert(sym.BytesEq(m.files[j].data, doc.Buffers[i].Data), "with its data")
	}
	m.all = []byte{1}
	back, err := readDoc(out, m)
	sym.Assert(err == nil, "decodes")
	sym.Assert(len(back.Buffers) == k, "number of buffers")
	for i, b := range back.Buffers {
		a := doc.Buffers[i]
		if a.URI != "" {
			sym.Assert(sym.StrEq(a.URI, b.URI), "same URI")
		}
		switch {
		case len(a.Data) == 0:
			sym.Assert(len(b.Data) == 1, "read from its own file")
		case sym.HasPrefix(a.URI, "https:"):
			sym.Assert(len(b.Data) == 0, "absolute URIs are not read")
		default:
			sym.Assert(sym.BytesEq(a.Data, b.Data), "same data")
		}
	}
	for _, name := range m.opened {
		sym.Assert(!sym.HasPrefix(name, "http"), "absolute URIs are not opened")
	}
	sym.Assert(m.open == 0 && !m.twice && !m.late, "files are closed")
	sym.Reach("done")
}

// G06_Cut: a file longer or shorter than the byte length.
func G06_Cut() {
	n := sym.Choose("bytes", 6)
	data := sym.Bytes("data", n)
	bl := sym.Int("byteLength")
	sym.Assume(bl > 0)
	doc := &gltf.Document{Asset: gltf.Asset{Version: "2.0"}, Buffers: []*gltf.Buffer{{ByteLength: bl, URI: "a.bin"}, {ByteLength: 2, URI: "b.bin"}}}
	m := &memFS{}
	out := encodeDoc(doc, sym.Choose("binary", 2) == 1, m)
	sym.Assert(len(m.created) == 0, "no data, no file")
	other := sym.Bytes("other", 3)
	m.files = []*memFile{{fs: m, name: "a.bin", data: data}, {fs: m, name: "b.bin", data: other}}
	back, err := readDoc(out, m)
	sym.Assert(err == nil, "decodes")
	b := back.Buffers[0]
	sym.Assert(b.ByteLength == bl, "same length")
	k := sym.Concrete(sym.IteInt(bl < n, bl, n))
	sym.Assert(sym.BytesEq(b.Data, data[:k]), "same data, cut")
	sym.Assert(sym.BytesEq(back.Buffers[1].Data, other[:2]), "other data, cut")
	// Appending to a cut buffer must not reveal or change what was cut.
	b.Data = append(b.Data, 9)
	sym.Assert(sym.BytesEq(m.files[0].data, data), "the file is not touched")
	sym.Reach("done")
}

// G06_NoFS: without a file system nothing happens to external buffers.
func G06_NoFS() {
	n := 1 + sym.Choose("bytes", 3)
	doc := &gltf.Document{Asset: gltf.Asset{Version: "2.0"}, Buffers: []*gltf.Buffer{{ByteLength: n, URI: "a.bin", Data: sym.Bytes("data", n)}}}
	var out sink
	e := gltf.NewEncoder(&out)
	e.AsBinary = sym.Choose("binary", 2) == 1
	sym.Assert(e.Encode(doc) == nil, "encodes")
	var back gltf.Document
	sym.Assert(gltf.NewDecoder(bytes.NewReader(out.b)).Decode(&back) == nil, "decodes")
	sym.Assert(len(back.Buffers) == 1 && back.Buffers[0].URI == "a.bin" && len(back.Buffers[0].Data) == 0 && back.Buffers[0].ByteLength == n, "the reference stays")
	sym.Reach("done")
}

// G06_Image: the URI of an image is decoded like the one of a buffer; embedded images keep theirs.
func G06_Image() {
	pre := []string{"", "d/", "./", "d/./", "a%20", "%41", "d\\", "x:"}[sym.Choose("prefix", 8)]
	max := 4
	if pre != "" {
		max--
	}
	mid := sym.StrAlphabet("uri", sym.Choose("length", max), `a% 2/.\+?#&`)
	uri := pre + mid + ".b"
	embedded := []string{"data:image/png;base64,", "data:image/jpeg;base64,"}[sym.Choose("type", 2)] + b64(sym.Bytes("image", 3))
	doc := &gltf.Document{Asset: gltf.Asset{Version: "2.0"}, Buffers: []*gltf.Buffer{{ByteLength: 1, URI: uri}}, Images: []*gltf.Image{{URI: embedded}, {URI: uri}, {URI: "a%2Fb.png"}}}
	m := &memFS{all: []byte{1}}
	var out sink
	e := gltf.NewEncoderFS(&out, m)
	e.AsBinary = false
	sym.Assert(e.Encode(doc) == nil, "encodes")
	back, err := readDoc(out.b, m)
	if err != nil {
		sym.Reach("rejected")
		return
	}
	sym.Assert(len(back.Images) == 3, "number of images")
	sym.Assert(sym.StrEq(back.Images[0].URI, embedded), "embedded images keep their URI")
	sym.Assert(sym.StrEq(back.Images[1].URI, back.Buffers[0].URI), "same URI, same name")
	sym.Assert(back.Images[2].URI == "a/b.png", "escapes are decoded")
	if pre == "x:" {
		sym.Assert(sym.Or(len(m.opened) == 0, sym.Not(plainURI(mid))), "absolute URIs are not opened")
	} else {
		sym.Assert(len(m.opened) == 1 && sym.StrEq(m.opened[0], back.Images[1].URI), "the image has the name of the file")
	}
	if plainURI(mid) && pre == "a%20" {
		sym.Assert(sym.StrEq(back.Images[1].URI, "a "+mid+".b"), "escapes are decoded")
	}
	sym.Reach("done")
}
