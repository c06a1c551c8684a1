package h

import (
	"os"
	"reflect"
	"sort"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/zzverif/sym"
)

// scratch makes a directory root/in/ with a subdirectory "sub" and a neighbour root/out/, and gives root.
func scratch() string {
	root, err := os.MkdirTemp("", "gosym")
	if err != nil {
		panic(err)
	}
	for _, d := range []string{"in", "in/sub", "out"} {
		if os.Mkdir(root+"/"+d, 0o755) != nil {
			panic("mkdir")
		}
	}
	return root
}

func putFile(name string, b []byte) {
	if os.WriteFile(name, b, 0o644) != nil {
		panic("write")
	}
}

func save(d *gltf.Document, name string, bin bool) error {
	if bin {
		return gltf.SaveBinary(d, name)
	}
	return gltf.Save(d, name)
}

var saveNames = []string{"a.gltf", "sub/b.glb", "noext", "./c.gltf", "sub//d.bin.glb", "sub/../sub/e.gltf"}

// cleanNames are the same names as Tree lists them.
var cleanNames = []string{"a.gltf", "sub/b.glb", "noext", "c.gltf", "sub/d.bin.glb", "sub/e.gltf"}

func dirOf(name string) string {
	if len(name) > 4 && name[:4] == "sub/" {
		return "sub/"
	}
	return ""
}

// savable gives a document whose buffers are kept in all ways, and the external files it needs by name.
func savable(k int, mem []byte) (*gltf.Document, map[string][]byte) {
	d := &gltf.Document{Asset: gltf.Asset{Version: "2.0"}, Scenes: []*gltf.Scene{{Name: "s"}}}
	files := map[string][]byte{}
	add := func(uri, file string, b []byte) {
		d.Buffers = append(d.Buffers, &gltf.Buffer{URI: uri, ByteLength: len(b), Data: b})
		if file != "" {
			files[file] = b
		}
	}
	switch k {
	case 1:
		add("", "", mem[:3])
	case 2:
		add("data.bin", "data.bin", mem[:5])
	case 3:
		add("", "", mem[:2])
		add("x%20y.bin", "x y.bin", mem[2:3])
	case 4:
		add("a%2Eb", "a.b", mem[:1])
		add("z", "z", mem[1:4])
	}
	return d, files
}

// G08_SaveOpen: what is saved is found again, in the directory of the name, and nothing else changes.
func G08_SaveOpen() {
	root := scratch()
	defer os.RemoveAll(root)
	in := root + "/in/"
	mem := sym.Bytes("data", 5)
	d, files := savable(sym.Choose("buffers", 5), mem)
	which := sym.Choose("name", len(saveNames))
	name, clean := saveNames[which], cleanNames[which]
	bin := sym.Choose("binary", 2) == 1
	keep := sym.Bytes("other", 2)
	putFile(root+"/in/keep", keep)
	putFile(root+"/out/data.bin", keep)
	want := []string{"in/", "in/keep", "in/sub/", "out/", "out/data.bin"}
	if sym.Choose("before", 2) == 1 {
		// Longer files of the same names are there already.
		old := make([]byte, 1500)
		putFile(in+name, old)
		for f := range files {
			putFile(in+dirOf(clean)+f, old)
		}
	}
	want = append(want, "in/"+clean)
	for f := range files {
		want = append(want, "in/"+dirOf(clean)+f)
	}
	sort.Strings(want)
	relative := sym.Choose("relative", 2) == 1
	prefix := in
	if relative {
		old, err := os.Getwd()
		if err != nil || os.Chdir(in) != nil {
			panic("chdir")
		}
		defer os.Chdir(old)
		prefix = ""
	}
	sym.Assert(save(d, prefix+name, bin) == nil, "saves")
	sym.Assert(reflect.DeepEqual(sym.Tree(root), want), "exactly the document and its files")
	var out sink
	enc := gltf.NewEncoderFS(&out, &memFS{})
	enc.AsBinary = bin
	sym.Assert(enc.Encode(d) == nil, "encodes")
	all, err := os.ReadFile(in + clean)
	sym.Assert(err == nil && sym.BytesEq(all, out.b), "the file is exactly the encoding")
	for f, b := range files {
		got, err := os.ReadFile(in + dirOf(clean) + f)
		sym.Assert(err == nil && sym.BytesEq(got, b), "content of the external file")
	}
	got, err := os.ReadFile(root + "/out/data.bin")
	sym.Assert(err == nil && sym.BytesEq(got, keep), "other files are unchanged")
	back, err := gltf.Open(prefix + name)
	sym.Assert(err == nil && back != nil, "opens")
	sym.Assert(len(back.Buffers) == len(d.Buffers), "same number of buffers")
	for i, b := range d.Buffers {
		sym.Assert(back.Buffers[i].ByteLength == b.ByteLength && sym.BytesEq(back.Buffers[i].Data, b.Data), "same data")
	}
	sym.Assert(len(back.Scenes) == 1 && back.Scenes[0].Name == "s" && back.Asset.Version == "2.0", "same document")
	sym.Assert(sym.OpenFiles(root) == 0, "no file stays open")
	sym.Assert(reflect.DeepEqual(sym.Tree(root), want), "opening creates nothing")
	if relative {
		sym.Reach("relative")
	}
	sym.Reach("done")
}

// G08_SaveFails: what cannot be written is an error, and nothing is written elsewhere.
func G08_SaveFails() {
	root := scratch()
	defer os.RemoveAll(root)
	in := root + "/in/"
	mem := sym.Bytes("data", 3)
	d := &gltf.Document{Asset: gltf.Asset{Version: "2.0"}, Buffers: []*gltf.Buffer{{ByteLength: 1, Data: mem[:1]}, {URI: "f.bin", ByteLength: 2, Data: mem[1:]}}}
	name := "sub/a.gltf"
	putFile(root+"/out/x", mem)
	putFile(root+"/x", mem)
	must, full := true, false
	ext := d.Buffers[1]
	switch sym.Choose("what", 13) {
	case 0:
		name = "nowhere/a.gltf"
	case 1:
		name = "sub"
	case 2:
		name = ""
	case 3:
		name = "../x/a.gltf"
	case 4:
		ext.URI = "no/f.bin"
	case 5:
		ext.URI = "../x"
	case 6:
		ext.URI = "%2e%2e/x"
	case 7:
		ext.URI = "..\\x"
	case 8:
		ext.URI = root + "/out/x"
	case 10:
		ext.URI = "/../../out/x"
	case 11:
		// The device that has no space left.
		must, full = false, true
		if os.Symlink("/dev/full", in+name) != nil {
			panic("symlink")
		}
	case 12:
		must, full = false, true
		if os.Symlink("/dev/full", in+"sub/f.bin") != nil {
			panic("symlink")
		}
	case 9:
		ext.URI = "d"
		if os.Mkdir(in+"sub/d", 0o755) != nil {
			panic("mkdir")
		}
	}
	err := save(d, in+name, sym.Choose("binary", 2) == 1)
	if name == "" && err == nil {
		sym.Assert(false, "an empty name is an error")
	}
	if must {
		sym.Assert(err != nil, "reported")
	}
	if full && err == nil {
		// Not the device any more; then all must be there.
		back, err := gltf.Open(in + name)
		sym.Assert(err == nil && back != nil && sym.BytesEq(back.Buffers[1].Data, mem[1:]), "written in spite of the full device")
	}
	for _, x := range []string{"/x", "/out/x"} {
		got, err := os.ReadFile(root + x)
		sym.Assert(err == nil && sym.BytesEq(got, mem), "files elsewhere are unchanged")
	}
	for _, p := range sym.Tree(root) {
		sym.Assert(p == "x" || p == "out/" || p == "out/x" || len(p) > 2 && p[:3] == "in/", "nothing new elsewhere")
	}
	sym.Assert(sym.OpenFiles(root) == 0, "no file stays open")
	sym.Reach("done")
}

// G08_OpenFails: what cannot be read is an error without a document.
func G08_OpenFails() {
	root := scratch()
	defer os.RemoveAll(root)
	in := root + "/in/"
	mem := sym.Bytes("data", 4)
	putFile(root+"/out/f.bin", mem)
	putFile(root+"/f.bin", mem)
	json := func(uri string) []byte {
		return []byte(`{"asset":{"version":"2.0"},"buffers":[{"byteLength":4,"uri":"` + uri + `"}]}`)
	}
	name, text, uri := "a.gltf", []byte(nil), ""
	what := sym.Choose("what", 13)
	switch what {
	case 0:
		name = "missing.gltf"
	case 1:
		name = "sub"
	case 2:
		name = "nowhere/a.gltf"
	case 3:
		sym.Assume(mem[0] == '[')
		text = mem
	case 4:
		text = []byte{}
	case 5:
		uri = "f.bin"
	case 6:
		uri = "sub"
	case 7:
		uri = "../f.bin"
	case 8:
		uri = "%2e%2e/f.bin"
	case 9:
		uri = "../out/f.bin"
	case 10:
		uri = "sub/../../f.bin"
	case 11:
		uri = "..\\\\f.bin"
	case 12:
		uri = "g.bin"
		putFile(in+"g.bin", mem)
	}
	if uri != "" {
		text = json(uri)
	}
	if text != nil {
		putFile(in+name, text)
	}
	d, err := gltf.Open(in + name)
	if what == 12 {
		sym.Assert(err == nil && d != nil && sym.BytesEq(d.Buffers[0].Data, mem), "opens")
		sym.Reach("opened")
	} else {
		sym.Assert(err != nil, "reported")
		sym.Assert(d == nil, "no document")
	}
	sym.Assert(sym.OpenFiles(root) == 0, "no file stays open")
	sym.Reach("done")
}
