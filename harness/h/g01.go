package h

import (
	"encoding/json"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/zzverif/sym"
)

// glbDoc builds a document whose JSON text has any length modulo 4 and whose first buffer is the BIN chunk.
func pad(n int) string { return "abcdefghijklmnopqrstuvwxyz"[:n] }

// checkGLB asserts that out is a GLB container with the given BIN data (nil: no BIN chunk) and returns its JSON text.
func checkGLB(out, bin []byte, hasBin bool) []byte {
	sym.Assert(len(out) >= 20, "has a header")
	sym.Assert(string(out[:4]) == "glTF", "magic")
	sym.Assert(le32(out[4:]) == 2, "version")
	sym.Assert(le32(out[8:]) == len(out), "the total length is the number of bytes")
	jl := le32(out[12:])
	sym.Assert(string(out[16:20]) == "JSON", "first chunk is JSON")
	sym.Assert(jl%4 == 0, "JSON chunk length is a multiple of 4")
	sym.Assert(20+jl <= len(out), "JSON chunk fits")
	jl = sym.Concrete(jl)
	js := out[20 : 20+jl]
	n := len(js)
	for n > 0 && js[n-1] == ' ' {
		n--
	}
	sym.Assert(jl-n <= 3, "at most 3 bytes of JSON padding")
	sym.Assert(n > 0 && js[n-1] == '}', "padded with spaces")
	sym.Assert(json.Valid(js[:n]), "JSON chunk is JSON")
	rest := out[20+jl:]
	if !hasBin {
		sym.Assert(len(rest) == 0, "no BIN chunk")
		return js[:n]
	}
	sym.Assert(len(rest) >= 8, "BIN chunk header")
	bl := le32(rest)
	sym.Assert(string(rest[4:8]) == "BIN\x00", "second chunk is BIN")
	sym.Assert(bl%4 == 0, "BIN chunk length is a multiple of 4")
	sym.Assert(8+bl == len(rest), "BIN chunk ends the file")
	sym.Assert(bl-len(bin) >= 0 && bl-len(bin) <= 3, "at most 3 bytes of BIN padding")
	sym.Assert(sym.BytesEq(rest[8:8+len(bin)], bin), "the BIN chunk starts with the buffer")
	for _, c := range rest[8+len(bin):] {
		sym.Assert(c == 0, "BIN padding is zero")
	}
	return js[:n]
}

func maxBin() int {
	if sym.Tier() > 0 {
		return 17
	}
	return 9
}

// G01_Container: every JSON text length modulo 4, every small BIN length, further buffers, indentation.
func G01_Container() {
	doc := &gltf.Document{Asset: gltf.Asset{Version: "2.0", Generator: pad(sym.Choose("generator", 5))}}
	var bin []byte
	hasBin := false
	switch sym.Choose("first buffer", 4) {
	case 1:
		n := sym.Choose("bin length", maxBin())
		bin = sym.Bytes("bin", n)
		doc.Buffers = append(doc.Buffers, &gltf.Buffer{Name: "first", ByteLength: n, Data: bin})
		hasBin = true
	case 2:
		doc.Buffers = append(doc.Buffers, &gltf.Buffer{Name: "first", ByteLength: 3, URI: "a.bin", Data: sym.Bytes("data", 3)})
	case 3:
		doc.Buffers = append(doc.Buffers, &gltf.Buffer{Name: "first", ByteLength: 3, URI: octetPrefix + "AAAA", Data: []byte{0, 0, 0}})
	}
	switch sym.Choose("more buffers", 3) {
	case 1:
		if len(doc.Buffers) > 0 {
			doc.Buffers = append(doc.Buffers, &gltf.Buffer{ByteLength: 2, Data: sym.Bytes("more", 2)})
		}
	case 2:
		if len(doc.Buffers) > 0 {
			doc.Buffers = append(doc.Buffers, &gltf.Buffer{ByteLength: 5, URI: "b.bin", Data: sym.Bytes("more", 5)}, &gltf.Buffer{ByteLength: 1, URI: "c.bin"})
		}
	}
	var out sink
	e := gltf.NewEncoderFS(&out, &memFS{})
	if sym.Choose("indent", 2) == 1 {
		e.SetJSONIndent("", "  ")
	}
	err := e.Encode(doc)
	sym.Assert(err == nil, "encodes")
	checkGLB(out.b, bin, hasBin)
	sym.Reach("done")
}

// G01_Mismatch: a first buffer whose byte length is not the number of its bytes gives an error or a consistent file.
func G01_Mismatch() {
	n := sym.Choose("bytes", 6)
	data := sym.Bytes("data", n)
	bl := sym.Int("byteLength")
	doc := &gltf.Document{Asset: gltf.Asset{Version: "2.0", Generator: pad(sym.Choose("generator", 4))}, Buffers: []*gltf.Buffer{{ByteLength: bl, Data: data}}}
	var out sink
	err := gltf.NewEncoder(&out).Encode(doc)
	if err != nil {
		sym.Assert(bl != n, "a consistent buffer is encoded")
		sym.Reach("rejected")
		return
	}
	sym.Assert(bl >= 0 && bl <= n, "the file has as many bytes as declared")
	checkGLB(out.b, data[:sym.Concrete(bl)], true)
	sym.Reach("encoded")
}

// segSink keeps the slices written to it, so that writes of any size can be followed.
type segSink struct {
	segs [][]byte
	n    int
}

func (s *segSink) Write(p []byte) (int, error) {
	s.segs = append(s.segs, p)
	s.n += len(p)
	return len(p), nil
}

// head returns the first n bytes of the output.
func (s *segSink) head(n int) []byte {
	var b []byte
	for _, p := range s.segs {
		for i := 0; len(b) < n && i < len(p); i++ {
			b = append(b, p[i])
		}
	}
	return b
}

// G01_Big: buffers of any length up to beyond 4 GiB.
func G01_Big() {
	data := sym.BigBytes("data", 1<<32+100)
	n := len(data)
	doc := &gltf.Document{Asset: gltf.Asset{Version: "2.0", Generator: pad(sym.Choose("generator", 4))}, Buffers: []*gltf.Buffer{{ByteLength: n, Data: data}}}
	var out segSink
	err := gltf.NewEncoder(&out).Encode(doc)
	if err != nil {
		sym.Assert(n > 1<<32-1024, "only impossible sizes are rejected")
		sym.Reach("too large")
		return
	}
	h := out.head(20)
	sym.Assert(le32(h[8:]) == out.n, "the total length is the number of bytes")
	sym.Assert(string(h[16:20]) == "JSON", "first chunk is JSON")
	sym.Reach("encoded")
}
