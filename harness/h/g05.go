package h

import (
	"bytes"
	"encoding/json"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/zzverif/sym"
)

// local says that a slash separated name is relative and does not climb above where it starts.
func local(name string) bool {
	if len(name) == 0 {
		return false
	}
	const start, dot, dotdot, other = 0, 1, 2, 3
	ok := name[0] != '/'
	state, depth := start, 0
	end := func() {
		depth += sym.IteInt(state == other, 1, sym.IteInt(state == dotdot, -1, 0))
		ok = sym.And(ok, depth >= 0)
		state = start
	}
	for i := 0; i < len(name); i++ {
		if name[i] == '/' {
			end()
			continue
		}
		next := sym.IteInt(state == start, dot, sym.IteInt(state == dot, dotdot, other))
		state = sym.IteInt(name[i] == '.', next, other)
	}
	end()
	return ok
}

// schemed says that a text starts with a letter and has a colon.
func schemed(s string) bool {
	colon := false
	for i := 1; i < len(s); i++ {
		colon = sym.Or(colon, s[i] == ':')
	}
	if len(s) == 0 {
		return false
	}
	c := s[0] | 0x20
	// A leading "./" is dropped before parsing.
	return sym.And(colon, sym.Or(sym.And(c >= 'a', c <= 'z'), s[0] == '.'))
}

// symURI is any short text over the characters that path handling treats specially, alone or behind a prefix.
func symURI() string {
	prefixes := []string{"", "../", "a/", "%2e", "..%2F", "a:", "\\", "./", "%", "/.", "a/../", "a\\..%2f"}
	max := 4
	if sym.Tier() > 0 {
		max = 5
	}
	p := prefixes[sym.Choose("prefix", len(prefixes))]
	if p != "" {
		max--
	}
	return p + sym.StrAlphabet("uri", 1+sym.Choose("length", max), "./\\%2eaFC5:?#")
}

func checkNames(uri string, names []string, err error) {
	sym.Assert(len(names) <= 1, "one file at most")
	for _, n := range names {
		sym.Assert(local(n), "the name is local")
		sym.Reach("used")
	}
	if len(names) == 0 {
		if err == nil {
			sym.Assert(schemed(uri), "unusable URIs are reported")
			sym.Reach("absolute")
		} else {
			sym.Reach("rejected")
		}
	}
}

// G05_Decode: what is opened for any URI.
func G05_Decode() {
	uri := symURI()
	b, err := json.Marshal(uri)
	sym.Assert(err == nil, "marshals")
	js := append(append([]byte(`{"asset":{},"buffers":[{"byteLength":2,"uri":`), b...), `}]}`...)
	m := &memFS{all: []byte{1, 2, 3}}
	var doc gltf.Document
	err = gltf.NewDecoderFS(bytes.NewReader(js), m).Decode(&doc)
	checkNames(uri, m.opened, err)
	sym.Assert(len(m.created) == 0, "nothing is created")
	if len(m.opened) == 1 {
		sym.Assert(err == nil && len(doc.Buffers[0].Data) == 2, "data is read")
	}
}

// G05_Encode: what is created for any URI.
func G05_Encode() {
	uri := symURI()
	doc := &gltf.Document{Asset: gltf.Asset{Version: "2.0"}, Buffers: []*gltf.Buffer{{ByteLength: 2, URI: uri, Data: []byte{1, 2}}}}
	m := &memFS{}
	var out sink
	e := gltf.NewEncoderFS(&out, m)
	e.AsBinary = len(uri) < 4 && sym.Choose("binary", 2) == 1
	err := e.Encode(doc)
	checkNames(uri, m.created, err)
	sym.Assert(len(m.opened) == 0, "nothing is opened")
	for _, f := range m.files {
		sym.Assert(len(f.data) == 2 && f.closed, "data is written")
	}
}
