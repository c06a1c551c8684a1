package h

import (
	"bytes"
	"io"
	"strconv"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/zzverif/sym"
)

func put32(b []byte, v int) []byte {
	return append(b, byte(v), byte(v>>8), byte(v>>16), byte(v>>24))
}

// glb puts together a container; lengths are those of the parts.
func glb(js string, bin []byte) []byte {
	out := []byte("glTF\x02\x00\x00\x00")
	n := 20 + len(js)
	if bin != nil {
		n += 8 + len(bin)
	}
	out = put32(out, n)
	out = put32(out, len(js))
	out = append(out, "JSON"...)
	out = append(out, js...)
	if bin != nil {
		out = put32(out, len(bin))
		out = append(out, "BIN\x00"...)
		out = append(out, bin...)
	}
	return out
}

// G03_Header: every value of the 12-byte header and of the JSON chunk header in front of a sound rest.
func G03_Header() {
	js := `{"asset":{},"buffers":[{"byteLength":5}]}` + "   "
	data := sym.Bytes("data", 8)
	out := glb(js, data)
	head := sym.Bytes("header", 20)
	if k := sym.Choose("wrong magic", 5); k > 0 {
		// One byte of the magic number is wrong: the file is not a container, and not JSON either.
		c := head[k-1]
		sym.Assume(c != out[k-1])
		copy(head, out[:20])
		head[k-1] = c
	} else {
		copy(head, "glTF")
	}
	copy(out, head)
	jl := le32(head[12:])
	// Within the text the length decides what the JSON decoder sees; look at each of those lengths alone.
	if jl < len(out)+8 {
		jl = sym.Concrete(jl)
		copy(out[12:16], put32(nil, jl))
	}
	var doc gltf.Document
	err := gltf.NewDecoder(bytes.NewReader(out)).Decode(&doc)
	sound := sym.And(string(head[:4]) == "glTF", string(head[16:20]) == "JSON", uint64(jl)+20 <= uint64(le32(head[8:])))
	if err != nil {
		sym.Assert(sym.Not(sym.And(sound, jl == len(js))), "a sound header is accepted")
		sym.Reach("rejected")
		return
	}
	sym.Assert(sound, "an unsound header is rejected")
	sym.Assert(len(doc.Buffers) == 1 && len(doc.Buffers[0].Data) == 5, "one buffer of 5 bytes")
	if jl == len(js) {
		sym.Assert(sym.BytesEq(doc.Buffers[0].Data, data[:5]), "same data")
		sym.Reach("decoded")
	}
}

// G03_Plain: a JSON text that does not start with the magic number is not taken for a container.
func G03_Plain() {
	s := text("generator", 3)
	out := []byte(`{"asset":{"version":"2.0","generator":"`)
	out = append(out, sym.Bytes("filler", sym.Choose("filler", 3))...)
	_ = s
	for i := 39; i < len(out); i++ {
		c := out[i]
		sym.Assume(sym.And(c >= 'a', c <= 'z'))
	}
	out = append(out, `"}}`...)
	var doc gltf.Document
	sym.Assert(gltf.NewDecoder(bytes.NewReader(out)).Decode(&doc) == nil, "decodes")
	sym.Assert(doc.Asset.Generator == string(out[39:len(out)-3]), "same text")
	sym.Reach("done")
}

// G03_Bin: every BIN chunk header and every byte length, with any amount of data present.
func G03_Bin() {
	bl := sym.Int("byteLength")
	js := `{"asset":{},"buffers":[{"byteLength":` + strconv.Itoa(bl) + `}]}` + pad(0)
	for len(js)%4 != 0 {
		js += " "
	}
	n := sym.Choose("present", 10)
	data := sym.Bytes("data", n)
	out := glb(js, data)
	head := sym.Bytes("header", 8)
	copy(out[20+len(js):], head)
	if n == 0 {
		out = out[:20+len(js)+sym.Choose("header bytes", 9)]
	}
	whole := len(out) >= 28+len(js)
	cl := le32(head)
	sym.AllocLimit(cl + 1<<16)
	var doc gltf.Document
	err := gltf.NewDecoder(bytes.NewReader(out)).Decode(&doc)
	sym.AllocEnd()
	sound := sym.And(whole, string(head[4:]) == "BIN\x00", bl > 0, bl <= cl, bl <= n)
	if err != nil {
		sym.Assert(sym.Not(sound), "sound data is accepted")
		sym.Reach("rejected")
		return
	}
	sym.Assert(sound, "unsound data is rejected")
	sym.Assert(len(doc.Buffers) == 1 && doc.Buffers[0].ByteLength == bl, "same length")
	bl = sym.Concrete(bl)
	sym.Assert(len(doc.Buffers[0].Data) == bl, "as many bytes as declared")
	sym.Assert(sym.BytesEq(doc.Buffers[0].Data, data[:bl]), "same data")
	sym.Reach("decoded")
}

// G03_Lengths: any byte length for embedded, external and missing data, after a BIN chunk or in JSON.
func G03_Lengths() {
	bl := sym.Int("byteLength")
	n := sym.Choose("present", 5)
	data := sym.Bytes("data", n)
	uri := ""
	m := &memFS{}
	kind := sym.Choose("kind", 5)
	switch kind {
	case 0:
		uri = octetPrefix + b64(data)
	case 1:
		uri = "a.bin"
		m.files = []*memFile{{fs: m, name: "a.bin", data: data}}
	case 2:
		uri = "missing.bin"
	case 3:
		uri = "http://a/b.bin"
	}
	js := `{"byteLength":` + strconv.Itoa(bl) + `,"uri":"` + uri + `"}]}`
	binary := sym.Choose("binary", 2) == 1
	at := 0
	var out []byte
	if binary {
		at = 1
		js = `{"asset":{},"buffers":[{"byteLength":1},` + js
		for len(js)%4 != 0 {
			js += " "
		}
		out = glb(js, []byte{7, 0, 0, 0})
	} else {
		out = []byte(`{"asset":{},"buffers":[` + js)
	}
	var doc gltf.Document
	err := gltf.NewDecoderFS(bytes.NewReader(out), m).Decode(&doc)
	sym.Assert(m.open == 0, "files are closed")
	if err != nil {
		sym.Assert(sym.Or(bl <= 0, kind == 2, kind == 4), "sound data is accepted")
		sym.Reach("rejected")
		return
	}
	sym.Assert(sym.And(bl > 0, kind != 2, kind != 4), "unsound data is rejected")
	b := doc.Buffers[at]
	sym.Assert(b.ByteLength == bl, "same length")
	switch kind {
	case 0:
		sym.Assert(sym.BytesEq(b.Data, data), "same data")
	case 1:
		k := sym.Concrete(sym.IteInt(bl < n, bl, n))
		sym.Assert(sym.BytesEq(b.Data, data[:k]), "same data, cut")
	case 3:
		sym.Assert(len(b.Data) == 0 && len(m.opened) == 0, "absolute URIs are left alone")
	}
	sym.Reach("decoded")
}

// G03_Null: null in place of anything.
func G03_Null() {
	keys := []string{"accessors", "animations", "bufferViews", "cameras", "images", "materials", "meshes", "nodes", "samplers", "scenes", "skins", "textures", "buffers"}
	forms := []string{`null`, `[null]`, `[]`, `[{}]`, `{}`, `[[]]`, `3`, `"a"`, `true`}
	k := sym.Choose("key", len(keys))
	f := sym.Choose("form", len(forms))
	v := forms[f]
	if f == 3 && sym.Choose("inner", 2) == 1 {
		inner := []string{"name", "sparse", "sampler", "target", "channels", "samplers", "perspective", "uri", "pbrMetallicRoughness", "normalTexture", "primitives", "mesh", "matrix", "nodes", "joints", "extensions", "extras", "byteLength", "type", "componentType", "alphaMode", "mode", "wrapS", "weights"}
		v = `[{"` + inner[sym.Choose("inner key", len(inner))] + `":` + forms[sym.Choose("inner form", len(forms))] + `}]`
	}
	js := `{"asset":{},"` + keys[k] + `":` + v + `}`
	var out []byte
	binary := sym.Choose("binary", 2) == 1
	if binary {
		for len(js)%4 != 0 {
			js += " "
		}
		out = glb(js, sym.Bytes("data", 4))
	} else {
		out = []byte(js)
	}
	var doc gltf.Document
	err := gltf.NewDecoder(bytes.NewReader(out)).Decode(&doc)
	if err == nil {
		for _, b := range doc.Buffers {
			sym.Assert(b != nil && b.ByteLength > 0, "buffers have a length")
		}
		for _, im := range doc.Images {
			sym.Assert(im != nil, "no null images")
		}
		sym.Reach("decoded")
	} else {
		sym.Reach("rejected")
	}
}

// G03_Truncated: a sound document cut anywhere.
func G03_Truncated() {
	doc := chunkDoc()
	binary := sym.Choose("binary", 2) == 1
	out := encodeDoc(doc, binary, &memFS{})
	n := sym.Choose("cut", len(out))
	src := &source{b: out[:n], eofWithData: sym.Choose("eof", 2) == 1}
	if sym.Choose("fault", 2) == 1 {
		src.err = io.ErrClosedPipe
	}
	var back gltf.Document
	err := gltf.NewDecoder(src).Decode(&back)
	if err != nil {
		// Only padding at the very end may be missing.
		sym.Assert(n < len(out)-3 || !binary, "padding is not needed")
		sym.Reach("rejected")
		return
	}
	sym.Assert(binary && n >= len(out)-3, "missing bytes are noticed")
	sym.Assert(len(back.Buffers) == 2, "number of buffers")
	for i := range doc.Buffers {
		sym.Assert(sym.BytesEq(back.Buffers[i].Data, doc.Buffers[i].Data), "same data")
	}
	sym.Reach("decoded")
}

// G03_Garbage: any few bytes.
func G03_Garbage() {
	max := 5
	if sym.Tier() > 0 {
		max = 6
	}
	in := []byte(sym.StrAlphabet("text", sym.Choose("length", max), `{}[]",:an0-\ `))
	var out []byte
	switch sym.Choose("where", 4) {
	case 0:
		out = in
	case 1:
		out = append(append([]byte(`{"buffers":`), in...), '}')
	case 2:
		out = append(append([]byte(`{"buffers":[`), in...), "]}"...)
	case 3:
		out = append(append([]byte(`{"buffers":[{"byteLength":1,"uri":"data:application/octet-stream;base64,`), in...), `"}]}`...)
	}
	var doc gltf.Document
	err := gltf.NewDecoder(bytes.NewReader(out)).Decode(&doc)
	if err == nil {
		for _, b := range doc.Buffers {
			sym.Assert(b != nil && b.ByteLength > 0, "buffers have a length")
		}
		sym.Reach("decoded")
	} else {
		sym.Reach("rejected")
	}
}
