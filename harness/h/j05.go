package h

import (
	"bytes"
	"encoding/json"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/zzverif/sym"
)

const octetPrefix = "data:application/octet-stream;base64,"

// b64char is the base64 character of a 6-bit value.
func b64char(s int) byte {
	return byte(sym.IteInt(s < 26, s+'A', sym.IteInt(s < 52, s-26+'a', sym.IteInt(s < 62, s-52+'0', sym.IteInt(s == 62, '+', '/')))))
}

// b64 is padded standard base64, written down independently of encoding/base64.
func b64(data []byte) string {
	var out []byte
	for i := 0; i < len(data); i += 3 {
		var v, n int
		for j := 0; j < 3; j++ {
			v <<= 8
			if i+j < len(data) {
				v |= int(data[i+j])
				n++
			}
		}
		for j := 0; j < 4; j++ {
			if j <= n {
				out = append(out, b64char(v>>(18-6*uint(j))&63))
			} else {
				out = append(out, '=')
			}
		}
	}
	return string(out)
}

// b64value decodes one character; the second result is false outside the alphabet.
func b64value(c byte) (int, bool) {
	x := int(c)
	up, lo, di := sym.And(x >= 'A', x <= 'Z'), sym.And(x >= 'a', x <= 'z'), sym.And(x >= '0', x <= '9')
	v := sym.IteInt(up, x-'A', sym.IteInt(lo, x-'a'+26, sym.IteInt(di, x-'0'+52, sym.IteInt(x == '+', 62, 63))))
	return v, sym.Or(up, lo, di, x == '+', x == '/')
}

// b64ok is the set of texts that padded base64 decoding accepts, and their bytes; line breaks are ignored (RFC 2045,
// as encoding/base64 documents), unused bits of the last character are not checked.
func b64decode(s string) (out []byte, ok bool) {
	var cs []byte
	for i := 0; i < len(s); i++ {
		if s[i] != '\n' && s[i] != '\r' {
			cs = append(cs, s[i])
		}
	}
	if len(cs)%4 != 0 {
		return nil, false
	}
	pad := 0
	if n := len(cs); n > 0 && cs[n-1] == '=' {
		pad = 1
		if cs[n-2] == '=' {
			pad = 2
		}
	}
	ok = true
	for i := 0; i < len(cs); i += 4 {
		v := 0
		for j := 0; j < 4; j++ {
			x := 0
			if i+j < len(cs)-pad {
				var good bool
				x, good = b64value(cs[i+j])
				ok = sym.And(ok, good)
			}
			v = v<<6 | x
		}
		for j := 0; j < 3; j++ {
			out = append(out, byte(v>>(16-8*uint(j))))
		}
	}
	return out[:len(out)-pad], ok
}

func dataLen(name string) int {
	sizes := []int{1, 2, 3, 4, 5, 6, 7, 8, 9}
	if sym.Tier() > 0 {
		sizes = append(sizes, 10, 11, 12, 32, 64)
	}
	return sizes[sym.Choose(name, len(sizes))]
}

// J05_Embed: the data URI is standard base64 and decodes to the same bytes.
func J05_Embed() {
	n := dataLen("len")
	data := sym.Bytes("data", n)
	b := &gltf.Buffer{ByteLength: n, Data: data}
	if sym.Choose("old uri", 2) == 1 {
		b.URI = "old.bin"
	}
	b.EmbeddedResource()
	want := octetPrefix + b64(data)
	sym.Assert(sym.StrEq(b.URI, want), "the URI is base64 of the data")
	sym.Assert(b.IsEmbeddedResource(), "recognised as embedded")
	sym.Assert(sym.BytesEq(b.Data, data) && b.ByteLength == n, "data untouched")
	sym.Reach("done")
}

// J05_Decode: an embedded buffer of a document decodes to the encoded bytes.
func J05_Decode() {
	n := dataLen("len")
	data := sym.Bytes("data", n)
	before := append([]byte(nil), data...)
	doc := gltf.NewDocument()
	doc.Buffers = []*gltf.Buffer{{ByteLength: 1, URI: octetPrefix + "AA=="}, {ByteLength: n, Data: data}}
	if sym.Choose("embedded by", 2) == 0 {
		doc.Buffers[1].EmbeddedResource()
	} else {
		doc.Buffers[1].URI = octetPrefix + b64(data)
	}
	txt, err := json.Marshal(doc)
	sym.Assert(err == nil, "marshals")
	var back gltf.Document
	err = gltf.NewDecoder(bytes.NewReader(txt)).Decode(&back)
	sym.Assert(err == nil, "decodes")
	sym.Assert(len(back.Buffers) == 2, "two buffers")
	sym.Assert(sym.BytesEq(back.Buffers[1].Data, before), "same bytes")
	sym.Assert(sym.BytesEq(back.Buffers[0].Data, []byte{0}), "other buffer")
	sym.Assert(sym.StrEq(back.Buffers[1].URI, doc.Buffers[1].URI), "same URI")
	sym.Reach("done")
}

// J05_Image: the data of embedded images of both types.
func J05_Image() {
	n := 0
	if sym.Choose("empty", 2) == 0 {
		n = dataLen("len")
	}
	data := sym.Bytes("data", n)
	im := &gltf.Image{URI: []string{"data:image/png;base64,", "data:image/jpeg;base64,"}[sym.Choose("type", 2)] + b64(data)}
	uri := im.URI
	sym.Assert(im.IsEmbeddedResource(), "recognised as embedded")
	got, err := im.MarshalData()
	sym.Assert(err == nil, "decodes")
	sym.Assert(sym.BytesEq(got, data), "same bytes")
	sym.Assert(sym.StrEq(im.URI, uri), "URI untouched")
	sym.Reach("done")
}

// J05_Malformed: arbitrary base64 text gives its bytes or an error.
func J05_Malformed() {
	max := 6
	if sym.Tier() > 0 {
		max = 9
	}
	n := sym.Choose("len", max)
	tail := sym.Str("tail", n)
	im := &gltf.Image{URI: []string{"data:image/png;base64,", "data:image/jpeg;base64,"}[sym.Choose("type", 2)] + tail}
	got, err := im.MarshalData()
	want, ok := b64decode(tail)
	if err != nil {
		sym.Assert(!ok, "well-formed data is accepted")
		sym.Reach("rejected")
	} else {
		sym.Assert(ok, "malformed data is rejected")
		sym.Assert(sym.BytesEq(got, want), "the bytes of the text")
		sym.Reach("accepted")
	}
}

// J05_Truncated: data URIs cut at any point.
func J05_Truncated() {
	switch sym.Choose("kind", 3) {
	case 0, 1:
		full := []string{"data:image/png;base64,AAECAw==", "data:image/jpeg;base64,AAECAw=="}[sym.Choose("type", 2)]
		n := sym.Choose("cut", len(full)+1)
		im := &gltf.Image{URI: full[:n]}
		got, err := im.MarshalData()
		comma := len(full) - 8
		switch {
		case n < comma-1:
			sym.Assert(err == nil && len(got) == 0, "not an embedded image")
		case n == comma-1:
			sym.Assert(err != nil && len(got) == 0, "no content")
		case n == comma:
			sym.Assert(err == nil && len(got) == 0, "empty content")
		case n == comma+4:
			sym.Assert(err == nil && bytes.Equal(got, []byte{0, 1, 2}), "first bytes")
		case n == comma+8:
			sym.Assert(err == nil && bytes.Equal(got, []byte{0, 1, 2, 3}), "all bytes")
		default:
			sym.Assert(err != nil, "incomplete group")
		}
	case 2:
		full := octetPrefix + "AAECAw=="
		n := len(octetPrefix) - 1 + sym.Choose("cut", 10)
		var back gltf.Document
		err := gltf.NewDecoder(bytes.NewReader([]byte(`{"asset":{},"buffers":[{"byteLength":4,"uri":"` + full[:n] + `"}]}`))).Decode(&back)
		var got []byte
		if len(back.Buffers) == 1 {
			got = back.Buffers[0].Data
		}
		switch n - len(octetPrefix) {
		case -1:
			sym.Assert(err != nil && got == nil, "no content")
		case 0:
			sym.Assert(len(got) == 0, "empty content")
		case 4:
			sym.Assert(err != nil || bytes.Equal(got, []byte{0, 1, 2}), "first bytes")
		case 8:
			sym.Assert(err == nil && bytes.Equal(got, []byte{0, 1, 2, 3}), "all bytes")
		default:
			sym.Assert(err != nil && got == nil, "incomplete group")
		}
	}
	sym.Reach("done")
}

// J05_BufferText: arbitrary base64 text (characters that need no JSON escape) as buffer content.
func J05_BufferText() {
	n := sym.Choose("len", 6)
	tail := sym.StrAlphabet("tail", n, "AQz09+/=-_ .")
	var back gltf.Document
	err := gltf.NewDecoder(bytes.NewReader([]byte(`{"asset":{},"buffers":[{"byteLength":4,"uri":"` + octetPrefix + tail + `"}]}`))).Decode(&back)
	want, ok := b64decode(tail)
	sym.Assert(len(back.Buffers) == 1, "one buffer")
	got := back.Buffers[0].Data
	if err != nil {
		sym.Assert(!ok, "well-formed data is accepted")
		sym.Assert(len(got) == 0, "no data with an error")
		sym.Reach("rejected")
	} else {
		sym.Assert(ok, "malformed data is rejected")
		sym.Assert(sym.BytesEq(got, want), "the bytes of the text")
		sym.Reach("accepted")
	}
}
