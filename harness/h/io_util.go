package h

import (
	"errors"
	"io"
	"io/fs"
	"time"

	"github.com/qmuntal/gltf/zzverif/sym"
)

var errFault = errors.New("injected fault")

// sink collects what is written to it.
type sink struct{ b []byte }

func (s *sink) Write(p []byte) (int, error) {
	s.b = append(s.b, p...)
	return len(p), nil
}

// source hands out data in pieces: the i-th read returns at most cuts[i] bytes, later ones everything. With eofWithData
// the end of the data is reported together with the last bytes.
type source struct {
	b           []byte
	cuts        []int
	all         int
	eofWithData bool
	err         error // returned instead of io.EOF at the end
	reads       int
}

func (s *source) Read(p []byte) (int, error) {
	n := len(p)
	if n > len(s.b) {
		n = len(s.b)
	}
	k := s.all
	if s.reads < len(s.cuts) {
		k = s.cuts[s.reads]
	}
	s.reads++
	if k > 0 && n > k {
		n = k
	}
	end := s.err
	if end == nil {
		end = io.EOF
	}
	if n == 0 && len(p) > 0 {
		return 0, end
	}
	copy(p, s.b[:n])
	s.b = s.b[n:]
	if s.eofWithData && len(s.b) == 0 {
		return n, end
	}
	return n, nil
}

// faults decides which operations fail.
type faults struct {
	on    bool
	kinds int // operations that may fail, as bits
	hit   int // number of failed operations
	max   int // how many may fail, 0 for all
	ops   int
}

const (
	opWrite = 1 << iota
	opCreate
	opFileWrite
	opClose
	opOpen
	opRead
	opFileClose
)

func (f *faults) fails(op int) bool {
	f.ops++
	if !f.on || f.kinds&op == 0 || f.max > 0 && f.hit >= f.max {
		return false
	}
	if sym.Choose("fail", 2) == 1 {
		f.hit++
		return true
	}
	return false
}

// faultySink is a writer whose writes may fail, having taken any part of the data.
type faultySink struct {
	sink
	f *faults
}

func (s *faultySink) Write(p []byte) (int, error) {
	if s.f.fails(opWrite) {
		n := partial(len(p))
		s.b = append(s.b, p[:n]...)
		return n, errFault
	}
	return s.sink.Write(p)
}

// partial chooses how much of n bytes a failing operation has transferred: nothing, a part or everything.
func partial(n int) int {
	switch sym.Choose("partial", 3) {
	case 1:
		return n / 2
	case 2:
		return n
	}
	return 0
}

// faultySource is a reader whose reads may fail once or for good, having delivered any part of the data.
type faultySource struct {
	b      []byte
	size   int // of the pieces
	f      *faults
	sticky bool
	dead   bool
	needed int  // bytes at the end of which nothing is missing any more
	early  bool // a read failed before the needed bytes were delivered
}

func (s *faultySource) Read(p []byte) (int, error) {
	n := len(p)
	if n > len(s.b) {
		n = len(s.b)
	}
	if n > s.size {
		n = s.size
	}
	if s.dead {
		return 0, errFault
	}
	bad := s.f.fails(opRead)
	if bad {
		n = partial(n)
		s.dead = s.sticky
	}
	copy(p, s.b[:n])
	s.b = s.b[n:]
	s.needed -= n
	if bad {
		s.early = s.early || s.needed > 0
		return n, errFault
	}
	if n == 0 && len(p) > 0 {
		return 0, io.EOF
	}
	return n, nil
}

// memFS is a file system that records what is done to it.
type memFS struct {
	f       faults
	files   []*memFile
	opened  []string
	created []string
	open    int // files created and not closed yet
	twice   bool
	late    bool   // written after closing
	all     []byte // content of files that do not exist, if not nil
}

type memFile struct {
	fs     *memFS
	name   string
	data   []byte
	closed bool
}

func (m *memFS) Create(name string) (io.WriteCloser, error) {
	m.created = append(m.created, name)
	if m.f.fails(opCreate) {
		return nil, errFault
	}
	f := &memFile{fs: m, name: name}
	m.files = append(m.files, f)
	m.open++
	return f, nil
}

func (f *memFile) Write(p []byte) (int, error) {
	if f.closed {
		f.fs.late = true
	}
	if f.fs.f.fails(opFileWrite) {
		n := partial(len(p))
		f.data = append(f.data, p[:n]...)
		return n, errFault
	}
	f.data = append(f.data, p...)
	return len(p), nil
}

func (f *memFile) Close() error {
	if f.closed {
		f.fs.twice = true
	} else {
		f.fs.open--
	}
	f.closed = true
	if f.fs.f.fails(opClose) {
		return errFault
	}
	return nil
}

// file returns the last file created under a name.
func (m *memFS) file(name string) *memFile {
	for i := len(m.files) - 1; i >= 0; i-- {
		if m.files[i].name == name {
			return m.files[i]
		}
	}
	return nil
}

type memReader struct {
	f    *memFile
	off  int
	done bool
}

func (m *memFS) Open(name string) (fs.File, error) {
	m.opened = append(m.opened, name)
	if m.f.fails(opOpen) {
		return nil, errFault
	}
	f := m.file(name)
	if f == nil && m.all != nil {
		f = &memFile{fs: m, name: name, data: m.all}
	}
	if f == nil {
		return nil, fs.ErrNotExist
	}
	m.open++
	return &memReader{f: f}, nil
}

func (r *memReader) Stat() (fs.FileInfo, error) { return r, nil }
func (r *memReader) Name() string               { return r.f.name }
func (r *memReader) Size() int64                { return int64(len(r.f.data)) }
func (r *memReader) Mode() fs.FileMode          { return 0o644 }
func (r *memReader) ModTime() time.Time         { return time.Time{} }
func (r *memReader) IsDir() bool                { return false }
func (r *memReader) Sys() any                   { return nil }

func (r *memReader) Read(p []byte) (int, error) {
	if r.f.fs.f.fails(opRead) {
		n := copy(p, r.f.data[r.off:r.off+partial(len(r.f.data)-r.off)])
		r.off += n
		return n, errFault
	}
	n := copy(p, r.f.data[r.off:])
	r.off += n
	if n == 0 && len(p) > 0 {
		return 0, io.EOF
	}
	return n, nil
}

func (r *memReader) Close() error {
	if r.done {
		r.f.fs.twice = true
	} else {
		r.f.fs.open--
	}
	r.done = true
	return nil
}

func le32(b []byte) int { return int(b[0]) | int(b[1])<<8 | int(b[2])<<16 | int(b[3])<<24 }
