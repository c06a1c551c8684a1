package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A model of the operating system's files: a tree of directories and regular files, and the device that is always full.
// There are no symbolic links except to that device, no permissions, and no other processes.

type vnode struct {
	dir, full bool
	data      []*Term
	kids      map[string]*vnode
}

type vfile struct {
	name        string
	node        *vnode
	pos         int
	rd, wr, app bool
	closed      bool
	path        string
}

type vfs struct {
	root *vnode
	cwd  string
	open []*vfile
	temp int
}

func newDir() *vnode { return &vnode{dir: true, kids: map[string]*vnode{}} }

func (st *State) vfs() *vfs {
	if st.fs == nil {
		v := &vfs{root: newDir(), cwd: "/cwd"}
		for _, d := range []string{"tmp", "cwd", "dev"} {
			v.root.kids[d] = newDir()
		}
		v.root.kids["dev"].kids["full"] = &vnode{full: true}
		st.fs = v
	}
	return st.fs.(*vfs)
}

// Error numbers of linux.
const (
	eNOENT    = 2
	eBADF     = 9
	eEXIST    = 17
	eNOTDIR   = 20
	eISDIR    = 21
	eINVAL    = 22
	eNOSPC    = 28
	eNAMELONG = 36
	eNOTEMPTY = 39
)

// walk finds the directory and the last name of a path; the node is nil if there is none.
func (v *vfs) walk(p string) (dir *vnode, last, abs string, n *vnode, errno int) {
	if p == "" {
		return nil, "", "", nil, eNOENT
	}
	if strings.IndexByte(p, 0) >= 0 {
		return nil, "", "", nil, eINVAL
	}
	mustDir := strings.HasSuffix(p, "/") || strings.HasSuffix(p, "/.") || p == "."
	if p[0] != '/' {
		p = v.cwd + "/" + p
	}
	var stack []*vnode
	var names []string
	cur := v.root
	parts := strings.Split(p, "/")
	k := len(parts)
	for k > 0 && (parts[k-1] == "" || parts[k-1] == ".") {
		k--
	}
	parts = parts[:k]
	for i, c := range parts {
		if c == "" || c == "." {
			continue
		}
		if cur == nil {
			return nil, "", "", nil, eNOENT
		}
		if !cur.dir {
			return nil, "", "", nil, eNOTDIR
		}
		if len(c) > 255 {
			return nil, "", "", nil, eNAMELONG
		}
		if c == ".." {
			if len(stack) > 0 {
				cur, stack, names = stack[len(stack)-1], stack[:len(stack)-1], names[:len(names)-1]
			}
			continue
		}
		next := cur.kids[c]
		if next == nil && i < len(parts)-1 {
			return nil, "", "", nil, eNOENT
		}
		stack, names = append(stack, cur), append(names, c)
		cur = next
	}
	if cur != nil && !cur.dir && mustDir {
		return nil, "", "", nil, eNOTDIR
	}
	if cur == nil && mustDir {
		return nil, "", "", nil, eNOENT
	}
	abs = "/" + strings.Join(names, "/")
	if len(stack) == 0 {
		return nil, "", abs, cur, 0
	}
	return stack[len(stack)-1], names[len(names)-1], abs, cur, 0
}

func (st *State) errnoIface(no int) Iface {
	return Iface{st.pkgType("syscall", "Errno"), st.c64(uint64(no))}
}

func (st *State) pathError(op, path string, err Iface) Iface {
	t := st.pkgType("io/fs", "PathError")
	o := st.newObj(sizeof(t), "PathError")
	st.storeAt(o, 0, t, Agg{Str{s: op}, Str{s: path}, err})
	return Iface{ptrTo(t), Ptr{o, st.zero64}}
}

func (st *State) errnoErr(op, path string, no int) Iface {
	return st.pathError(op, path, st.errnoIface(no))
}

// storeBytes writes terms into a byte slice.
func (st *State) storeBytes(s Slice, b []*Term) {
	if len(b) == 0 {
		return
	}
	src := st.newBytes(b, "file data")
	st.copyElems(s.obj, s.off, src.obj, src.off, st.ci(len(b)), 1)
}

func (n *vnode) write(st *State, at int, b []*Term) {
	for len(n.data) < at+len(b) {
		n.data = append(n.data, st.T.Const(8, 0))
	}
	// Data slices are never shared between paths: each path runs from the start.
	copy(n.data[at:], b)
}

func (n *vnode) paths(prefix string, out []string) []string {
	for k, c := range n.kids {
		if c.dir {
			out = append(out, prefix+k+"/")
			out = c.paths(prefix+k+"/", out)
		} else {
			out = append(out, prefix+k)
		}
	}
	return out
}

func initOS(m map[string]modelFn) {
	ok := Iface{}
	openFile := func(st *State, name string, flag uint64) (Value, Iface) {
		v := st.vfs()
		dir, last, abs, n, no := v.walk(name)
		acc := flag & 3
		if no == 0 {
			switch {
			case n == nil && flag&0x40 == 0:
				no = eNOENT
			case n == nil:
				n = &vnode{}
				dir.kids[last] = n
			case flag&0xc0 == 0xc0:
				no = eEXIST
			case n.dir && (acc != 0 || flag&0x40 != 0):
				no = eISDIR
			}
		}
		if no != 0 {
			return Ptr{nil, st.zero64}, st.errnoErr("open", name, no)
		}
		if flag&0x200 != 0 && acc != 0 {
			n.data = nil
		}
		f := &vfile{name: name, node: n, rd: acc != 1, wr: acc != 0, app: flag&0x400 != 0, path: abs}
		if n.full {
			f.path = "/dev/full"
		}
		v.open = append(v.open, f)
		o := st.newObj(sizeof(st.pkgType("os", "File")), "os.File")
		st.modelObjs[o] = f
		return Ptr{o, st.zero64}, ok
	}
	m["os.OpenFile"] = func(st *State, fn *ssa.Function, a []Value) Value {
		f, err := openFile(st, st.strConcrete(a[0].(Str)), st.concretize(a[1].(*Term), "open flags"))
		return tup(f, err)
	}
	m["os.Open"] = func(st *State, fn *ssa.Function, a []Value) Value {
		f, err := openFile(st, st.strConcrete(a[0].(Str)), 0)
		return tup(f, err)
	}
	m["os.Create"] = func(st *State, fn *ssa.Function, a []Value) Value {
		f, err := openFile(st, st.strConcrete(a[0].(Str)), 2|0x40|0x200)
		return tup(f, err)
	}
	m["os.ReadFile"] = func(st *State, fn *ssa.Function, a []Value) Value {
		name := st.strConcrete(a[0].(Str))
		_, _, _, n, no := st.vfs().walk(name)
		if no == 0 && n == nil {
			no = eNOENT
		}
		if no != 0 {
			return tup(Slice{nil, st.zero64, st.zero64, st.zero64}, st.errnoErr("open", name, no))
		}
		if n.dir {
			return tup(Slice{nil, st.zero64, st.zero64, st.zero64}, st.errnoErr("read", name, eISDIR))
		}
		if n.full {
			unsup("reading %s entirely", name)
		}
		// os.ReadFile leaves spare capacity.
		d := append(append([]*Term(nil), n.data...), make([]*Term, 512)...)
		for i := len(n.data); i < len(d); i++ {
			d[i] = st.T.Const(8, 0)
		}
		s := st.newBytes(d, "os.ReadFile")
		s.len = st.ci(len(n.data))
		return tup(s, ok)
	}
	m["os.MkdirTemp"] = func(st *State, fn *ssa.Function, a []Value) Value {
		v := st.vfs()
		dir, pat := st.strConcrete(a[0].(Str)), st.strConcrete(a[1].(Str))
		if dir == "" {
			dir = "/tmp"
		}
		v.temp++
		k := strings.LastIndexByte(pat, '*')
		if k < 0 {
			pat += "*"
			k = len(pat) - 1
		}
		name := dir + "/" + pat[:k] + fmt.Sprint(900000000+v.temp) + pat[k+1:]
		d, last, _, n, no := v.walk(name)
		if no != 0 || n != nil {
			return tup(Str{}, st.errnoErr("mkdir", name, eNOENT))
		}
		d.kids[last] = newDir()
		return tup(Str{s: name}, ok)
	}
	m["os.TempDir"] = func(st *State, fn *ssa.Function, a []Value) Value { return Str{s: "/tmp"} }
	m["os.Mkdir"] = func(st *State, fn *ssa.Function, a []Value) Value {
		name := st.strConcrete(a[0].(Str))
		d, last, _, n, no := st.vfs().walk(strings.TrimRight(name, "/"))
		if no == 0 && n != nil {
			no = eEXIST
		}
		if no != 0 {
			return st.errnoErr("mkdir", name, no)
		}
		d.kids[last] = newDir()
		return ok
	}
	m["os.MkdirAll"] = func(st *State, fn *ssa.Function, a []Value) Value {
		name := st.strConcrete(a[0].(Str))
		v := st.vfs()
		for i := 1; i <= len(name); i++ {
			if i < len(name) && name[i] != '/' {
				continue
			}
			d, last, _, n, no := v.walk(strings.TrimRight(name[:i], "/"))
			if no == 0 && n != nil && !n.dir {
				no = eNOTDIR
			}
			if no != 0 {
				return st.errnoErr("mkdir", name[:i], no)
			}
			if n == nil {
				d.kids[last] = newDir()
			}
		}
		return ok
	}
	remove := func(all bool) modelFn {
		return func(st *State, fn *ssa.Function, a []Value) Value {
			name := st.strConcrete(a[0].(Str))
			d, last, _, n, no := st.vfs().walk(name)
			if no == 0 && n == nil {
				no = eNOENT
			}
			if all && no == eNOENT {
				return ok
			}
			if no == 0 && !all && n.dir && len(n.kids) > 0 {
				no = eNOTEMPTY
			}
			if no == 0 && d == nil {
				no = eINVAL
			}
			if no != 0 {
				return st.errnoErr("remove", name, no)
			}
			delete(d.kids, last)
			return ok
		}
	}
	m["os.Remove"] = remove(false)
	m["os.RemoveAll"] = remove(true)
	m["os.Rename"] = func(st *State, fn *ssa.Function, a []Value) Value {
		x, y := st.strConcrete(a[0].(Str)), st.strConcrete(a[1].(Str))
		d1, l1, _, n1, no := st.vfs().walk(x)
		d2, l2, _, n2, no2 := st.vfs().walk(y)
		if no == 0 {
			no = no2
		}
		if no == 0 && n1 == nil {
			no = eNOENT
		}
		if no == 0 && n2 != nil && n2.dir && !n1.dir {
			no = eEXIST
		}
		if no == 0 && (n1.dir || n2 != nil && n2.dir) {
			unsup("renaming directories")
		}
		if no != 0 {
			t := st.pkgType("os", "LinkError")
			o := st.newObj(sizeof(t), "LinkError")
			st.storeAt(o, 0, t, Agg{Str{s: "rename"}, Str{s: x}, Str{s: y}, st.errnoIface(no)})
			return Iface{ptrTo(t), Ptr{o, st.zero64}}
		}
		delete(d1.kids, l1)
		d2.kids[l2] = n1
		return ok
	}
	m["os.Symlink"] = func(st *State, fn *ssa.Function, a []Value) Value {
		if st.strConcrete(a[0].(Str)) != "/dev/full" {
			unsup("symbolic link")
		}
		name := st.strConcrete(a[1].(Str))
		d, last, _, n, no := st.vfs().walk(name)
		if no != 0 || n != nil {
			return st.errnoErr("symlink", name, eEXIST)
		}
		d.kids[last] = &vnode{full: true}
		return ok
	}
	m["os.Chdir"] = func(st *State, fn *ssa.Function, a []Value) Value {
		v := st.vfs()
		name := st.strConcrete(a[0].(Str))
		_, _, abs, n, no := v.walk(name)
		if no == 0 && n == nil {
			no = eNOENT
		}
		if no == 0 && !n.dir {
			no = eNOTDIR
		}
		if no != 0 {
			return st.errnoErr("chdir", name, no)
		}
		v.cwd = abs
		return ok
	}
	m["os.Getwd"] = func(st *State, fn *ssa.Function, a []Value) Value { return tup(Str{s: st.vfs().cwd}, ok) }
	info := func(st *State, name string, n *vnode) Value {
		t := st.pkgType("os", "fileStat")
		s := under(t).(*types.Struct)
		o := st.newObj(sizeof(t), "fileStat")
		for i := 0; i < s.NumFields(); i++ {
			var v Value
			switch s.Field(i).Name() {
			case "name":
				v = Str{s: name[strings.LastIndexByte(name, '/')+1:]}
			case "size":
				v = st.ci(len(n.data))
			case "mode":
				k := uint64(0o644)
				if n.dir {
					k = 1<<31 | 0o755
				}
				if n.full {
					k = 1<<26 | 1<<21 | 0o666
				}
				v = st.T.Const(32, k)
			default:
				continue
			}
			st.storeAt(o, int64(structLayout(s).offs[i]), s.Field(i).Type(), v)
		}
		return Iface{ptrTo(t), Ptr{o, st.zero64}}
	}
	stat := func(op string) modelFn {
		return func(st *State, fn *ssa.Function, a []Value) Value {
			name := st.strConcrete(a[0].(Str))
			_, _, _, n, no := st.vfs().walk(name)
			if no == 0 && n == nil {
				no = eNOENT
			}
			if no != 0 {
				return tup(Iface{}, st.errnoErr(op, name, no))
			}
			return tup(info(st, name, n), ok)
		}
	}
	m["os.Stat"] = stat("stat")
	m["os.Lstat"] = stat("lstat")
	// ---- methods of os.File ----
	F := func(name string, op string, f func(st *State, v *vfile, a []Value) (Value, Iface)) {
		m["(*os.File)."+name] = func(st *State, fn *ssa.Function, a []Value) Value {
			p := a[0].(Ptr)
			var err Iface
			var r Value
			v, isModel := (*vfile)(nil), false
			if p.obj != nil {
				v, isModel = st.modelObjs[p.obj].(*vfile)
				if !isModel {
					unsup("os.File of another kind")
				}
			}
			switch {
			case p.obj == nil:
				err = st.ioErr("io/fs", "ErrInvalid")
			case v.closed:
				err = st.pathError(op, v.name, st.ioErr("io/fs", "ErrClosed"))
			default:
				r, err = f(st, v, a)
			}
			res := fn.Signature.Results()
			if res.Len() == 1 {
				return err
			}
			if r == nil {
				r = st.zero(res.At(0).Type())
			}
			return tup(r, err)
		}
	}
	fail := func(st *State, v *vfile, op string, no int) (Value, Iface) {
		return nil, st.errnoErr(op, v.name, no)
	}
	write := func(st *State, v *vfile, at int, b []*Term) (Value, Iface) {
		switch {
		case !v.wr:
			return fail(st, v, "write", eBADF)
		case v.node.full && len(b) > 0:
			return fail(st, v, "write", eNOSPC)
		}
		v.node.write(st, at, b)
		return st.ci(len(b)), ok
	}
	seqWrite := func(st *State, v *vfile, b []*Term) (Value, Iface) {
		if v.app {
			v.pos = len(v.node.data)
		}
		r, err := write(st, v, v.pos, b)
		if err.t == nil {
			v.pos += len(b)
		}
		return r, err
	}
	F("Write", "write", func(st *State, v *vfile, a []Value) (Value, Iface) {
		return seqWrite(st, v, st.sliceBytes(a[1].(Slice), "file data"))
	})
	F("WriteString", "write", func(st *State, v *vfile, a []Value) (Value, Iface) {
		return seqWrite(st, v, st.strBytes(a[1].(Str)))
	})
	F("WriteAt", "write", func(st *State, v *vfile, a []Value) (Value, Iface) {
		return write(st, v, int(st.concretize(a[2].(*Term), "file offset")), st.sliceBytes(a[1].(Slice), "file data"))
	})
	read := func(st *State, v *vfile, at int, s Slice, whole bool) (Value, Iface) {
		n := int(st.concretize(s.len, "read size"))
		switch {
		case !v.rd:
			return fail(st, v, "read", eBADF)
		case v.node.dir:
			return fail(st, v, "read", eISDIR)
		case n == 0:
			return nil, ok
		case v.node.full:
			z := make([]*Term, n)
			for i := range z {
				z[i] = st.T.Const(8, 0)
			}
			st.storeBytes(s, z)
			return st.ci(n), ok
		case at >= len(v.node.data):
			return nil, st.ioErr("io", "EOF")
		}
		b := v.node.data[at:]
		if len(b) > n {
			b = b[:n]
		}
		st.storeBytes(s, b)
		if whole && len(b) < n {
			return st.ci(len(b)), st.ioErr("io", "EOF")
		}
		return st.ci(len(b)), ok
	}
	F("Read", "read", func(st *State, v *vfile, a []Value) (Value, Iface) {
		r, err := read(st, v, v.pos, a[1].(Slice), false)
		if t, isT := r.(*Term); isT {
			v.pos += int(t.k)
		}
		return r, err
	})
	F("ReadAt", "read", func(st *State, v *vfile, a []Value) (Value, Iface) {
		return read(st, v, int(st.concretize(a[2].(*Term), "file offset")), a[1].(Slice), true)
	})
	F("Close", "close", func(st *State, v *vfile, a []Value) (Value, Iface) {
		v.closed = true
		return nil, ok
	})
	F("Sync", "sync", func(st *State, v *vfile, a []Value) (Value, Iface) { return nil, ok })
	F("Chmod", "chmod", func(st *State, v *vfile, a []Value) (Value, Iface) { return nil, ok })
	F("Stat", "stat", func(st *State, v *vfile, a []Value) (Value, Iface) { return info(st, v.name, v.node), ok })
	F("Truncate", "truncate", func(st *State, v *vfile, a []Value) (Value, Iface) {
		n := int(st.concretize(a[1].(*Term), "file size"))
		if !v.wr || n < 0 {
			return fail(st, v, "truncate", eINVAL)
		}
		if n < len(v.node.data) {
			v.node.data = v.node.data[:n]
		}
		v.node.write(st, n, nil)
		return nil, ok
	})
	F("Seek", "seek", func(st *State, v *vfile, a []Value) (Value, Iface) {
		off, wh := int(st.concretize(a[1].(*Term), "file offset")), st.concretize(a[2].(*Term), "whence")
		switch wh {
		case 1:
			off += v.pos
		case 2:
			off += len(v.node.data)
		}
		if off < 0 || wh > 2 {
			return fail(st, v, "seek", eINVAL)
		}
		v.pos = off
		return st.ci(off), ok
	})
	m["(*os.File).Name"] = func(st *State, fn *ssa.Function, a []Value) Value {
		if v, is := st.modelObjs[a[0].(Ptr).obj].(*vfile); is {
			return Str{s: v.name}
		}
		unsup("os.File of another kind")
		return nil
	}
	m["(*os.File).readFrom"] = func(st *State, fn *ssa.Function, a []Value) Value { return tup(st.zero64, st.T.ff, ok) }
	m["(*os.File).writeTo"] = m["(*os.File).readFrom"]
	// ---- observation by the harness ----
	m[symPath+".Tree"] = func(st *State, fn *ssa.Function, a []Value) Value {
		_, _, _, n, no := st.vfs().walk(st.strConcrete(a[0].(Str)))
		if no != 0 || n == nil {
			return Slice{nil, st.zero64, st.zero64, st.zero64}
		}
		l := n.paths("", nil)
		sort.Strings(l)
		et := types.Typ[types.String]
		s := st.makeSlice(et, st.ci(len(l)), st.ci(len(l)))
		for i, x := range l {
			st.storeAt(s.obj, int64(16*i), et, Str{s: x})
		}
		return s
	}
	m[symPath+".OpenFiles"] = func(st *State, fn *ssa.Function, a []Value) Value {
		dir := st.strConcrete(a[0].(Str))
		k := 0
		for _, f := range st.vfs().open {
			if !f.closed && strings.HasPrefix(f.path, dir+"/") {
				k++
			}
		}
		return st.ci(k)
	}
}
