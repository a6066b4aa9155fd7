package verifsimrt

import (
	"errors"
	"io"
	iofs "io/fs"
	"os"
	"path/filepath"
	"sort"
	"syscall"
	"time"
)

// ---- simulated file system and terminal ------------------------------------

// Fault kinds a FaultFn may ask for.
const (
	FNone  = iota
	FErr   // fail with Errno
	FShort // transfer only N bytes, then fail with Errno (writes) / deliver N bytes (reads)
	FCrash // transfer only N bytes, then the process dies
)

// Fault describes one injected fault.
type Fault struct {
	Kind  int
	Errno error
	N     int
}

// Crash is panicked when an injected crash kills the simulated process.
type Crash struct{ Op string }

// FaultFn decides about each operation; nil means no faults. size is the
// number of bytes the operation would transfer.
var FaultFn func(op, path string, size int) Fault

// OpHook observes every operation after the fault decision.
var OpHook func(op, path string, n int, err error)

type inode struct {
	data []byte
	dir  bool
	mode os.FileMode
}

// File is a simulated open file.
type File struct {
	name   string
	ino    *inode
	off    int
	flag   int
	closed bool
	std    int // 1 stdin, 2 stdout, 3 stderr
}

var (
	files   map[string]*inode
	nopen   int
	opened  int
	Stdin   = &File{name: "/dev/stdin", std: 1}
	Stdout  = &File{name: "/dev/stdout", std: 2}
	Stderr  = &File{name: "/dev/stderr", std: 3}
	Out     []byte // what was written to Stdout and Stderr
	In      []byte // remaining terminal input
	InErr   error  // error after In is exhausted (nil: EOF)
	InEOFs  int    // number of end-of-file results delivered
	InChunk func(n int) int
	Quota   int = -1 // bytes of disk space left (-1: unlimited)
	tempSeq int
)

// ResetFS empties the file system.
func ResetFS() {
	files = map[string]*inode{"/": {dir: true}, "/work": {dir: true}, "/tmp": {dir: true}}
	nopen, opened = 0, 0
	Out, In, InErr, InEOFs, InChunk = nil, nil, nil, 0, nil
	Quota = -1
	FaultFn, OpHook = nil, nil
	tempSeq = 0
}

// CrashFS forgets everything that does not survive the death of the process.
func CrashFS() {
	nopen = 0
	Exited = false
}

// OpenFiles returns the number of files open now.
func OpenFiles() int { return nopen }

func abs(p string) string {
	if p == "" {
		return ""
	}
	if !filepath.IsAbs(p) {
		p = "/work/" + p
	}
	return filepath.Clean(p)
}

// PutFile, GetFile, DelFile, ListFiles are for the harness.
func PutFile(p string, data []byte) {
	files[abs(p)] = &inode{data: append([]byte(nil), data...), mode: 0644}
}
func PutDir(p string) { files[abs(p)] = &inode{dir: true} }
func GetFile(p string) ([]byte, bool) {
	f := files[abs(p)]
	if f == nil || f.dir {
		return nil, false
	}
	return f.data, true
}
func DelFile(p string) { delete(files, abs(p)) }
func ListFiles() []string {
	var l []string
	for p, f := range files {
		if !f.dir {
			l = append(l, p)
		}
	}
	sort.Strings(l)
	return l
}

func pe(op, p string, err error) error { return &os.PathError{Op: op, Path: p, Err: err} }

func fault(op, path string, size int) Fault {
	if Exited {
		return Fault{Kind: FErr, Errno: errors.New("process has exited")}
	}
	if FaultFn == nil {
		return Fault{}
	}
	return FaultFn(op, path, size)
}

func note(op, path string, n int, err error) {
	if OpHook != nil {
		OpHook(op, path, n, err)
	}
}

func die(op string) {
	Exited = true
	panic(Crash{op})
}

// OpenFile opens a simulated file.
func OpenFile(name string, flag int, perm os.FileMode) (f *File, err error) {
	op := "open"
	if flag&os.O_CREATE != 0 {
		op = "create"
	}
	defer func() { note(op, name, 0, err) }()
	ft := fault(op, name, 0)
	if ft.Kind == FCrash {
		if ft.N == 0 {
			die(op)
		}
	} else if ft.Kind != FNone {
		return nil, pe("open", name, ft.Errno)
	}
	p := abs(name)
	if p == "" {
		return nil, pe("open", name, syscall.ENOENT)
	}
	ino := files[p]
	wr := flag&(os.O_WRONLY|os.O_RDWR) != 0
	if ino != nil && ino.dir && (wr || flag&os.O_CREATE != 0) {
		return nil, pe("open", name, syscall.EISDIR)
	}
	if ino == nil {
		if flag&os.O_CREATE == 0 {
			return nil, pe("open", name, syscall.ENOENT)
		}
		if d := files[filepath.Dir(p)]; d == nil || !d.dir {
			return nil, pe("open", name, syscall.ENOENT)
		}
		ino = &inode{mode: perm}
		files[p] = ino
	} else if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
		return nil, pe("open", name, syscall.EEXIST)
	}
	if flag&os.O_TRUNC != 0 && wr {
		if Quota >= 0 {
			Quota += len(ino.data)
		}
		ino.data = nil
	}
	if ft.Kind == FCrash {
		die(op)
	}
	nopen++
	opened++
	return &File{name: name, ino: ino, flag: flag}, nil
}

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr  { return 3 }

func (f *File) Read(b []byte) (n int, err error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	defer func() { note("read", f.name, n, err) }()
	if f.std == 1 {
		if len(In) == 0 {
			if InErr != nil {
				return 0, InErr
			}
			InEOFs++
			return 0, io.EOF
		}
		n = len(b)
		if n > len(In) {
			n = len(In)
		}
		if InChunk != nil && n > 1 {
			n = 1 + InChunk(n)
		}
		copy(b, In[:n])
		In = In[n:]
		return n, nil
	}
	if f.closed {
		return 0, pe("read", f.name, os.ErrClosed)
	}
	if f.std != 0 || f.flag&(os.O_WRONLY) != 0 {
		return 0, pe("read", f.name, syscall.EBADF)
	}
	if f.ino.dir {
		return 0, pe("read", f.name, syscall.EISDIR)
	}
	if len(b) == 0 {
		return 0, nil
	}
	avail := 0
	if f.off < len(f.ino.data) {
		avail = len(f.ino.data) - f.off
	}
	n = len(b)
	if n > avail {
		n = avail
	}
	ft := fault("read", f.name, n)
	switch ft.Kind {
	case FErr:
		return 0, pe("read", f.name, ft.Errno)
	case FCrash:
		die("read")
	case FShort:
		if ft.N < n && ft.N > 0 {
			n = ft.N
		}
	}
	if n == 0 {
		return 0, io.EOF
	}
	copy(b, f.ino.data[f.off:f.off+n])
	f.off += n
	return n, nil
}

func (f *File) Write(b []byte) (n int, err error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	if f.std != 0 {
		if !Exited {
			Out = append(Out, b...)
		}
		return len(b), nil
	}
	defer func() { note("write", f.name, n, err) }()
	if f.closed {
		return 0, pe("write", f.name, os.ErrClosed)
	}
	if f.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, pe("write", f.name, syscall.EBADF)
	}
	n = len(b)
	ft := fault("write", f.name, n)
	switch ft.Kind {
	case FErr:
		return 0, pe("write", f.name, ft.Errno)
	case FShort, FCrash:
		if ft.N < n {
			n = ft.N
		}
		err = pe("write", f.name, ft.Errno)
	}
	if Quota >= 0 && n > Quota {
		n = Quota
		err = pe("write", f.name, syscall.ENOSPC)
	}
	if Quota >= 0 {
		Quota -= n
	}
	if f.flag&os.O_APPEND != 0 {
		f.off = len(f.ino.data)
	}
	for len(f.ino.data) < f.off {
		f.ino.data = append(f.ino.data, 0)
	}
	f.ino.data = append(f.ino.data[:f.off], append(append([]byte(nil), b[:n]...), tail(f.ino.data, f.off+n)...)...)
	f.off += n
	if ft.Kind == FCrash {
		die("write")
	}
	return n, err
}

func tail(b []byte, off int) []byte {
	if off >= len(b) {
		return nil
	}
	return append([]byte(nil), b[off:]...)
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) Close() (err error) {
	if f == nil {
		return os.ErrInvalid
	}
	if f.std != 0 {
		return nil
	}
	if f.closed {
		return pe("close", f.name, os.ErrClosed)
	}
	defer func() { note("close", f.name, 0, err) }()
	op := "close"
	if f.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		op = "closeread" // a failure loses nothing
	}
	ft := fault(op, f.name, 0)
	if Exited {
		return nil
	}
	f.closed = true
	nopen--
	switch ft.Kind {
	case FCrash:
		die(op)
	case FErr, FShort:
		return pe("close", f.name, ft.Errno)
	}
	return nil
}

func (f *File) Sync() (err error) {
	if f.std != 0 {
		return nil
	}
	if f.closed {
		return pe("sync", f.name, os.ErrClosed)
	}
	defer func() { note("sync", f.name, 0, err) }()
	ft := fault("sync", f.name, 0)
	switch ft.Kind {
	case FCrash:
		die("sync")
	case FErr, FShort:
		return pe("sync", f.name, ft.Errno)
	}
	return nil
}

func (f *File) Seek(offset int64, whence int) (int64, error) {
	if f.std != 0 {
		return 0, pe("seek", f.name, syscall.ESPIPE)
	}
	base := 0
	switch whence {
	case 1:
		base = f.off
	case 2:
		base = len(f.ino.data)
	}
	if base+int(offset) < 0 {
		return 0, pe("seek", f.name, syscall.EINVAL)
	}
	f.off = base + int(offset)
	return int64(f.off), nil
}

func (f *File) Truncate(size int64) error {
	if int(size) <= len(f.ino.data) {
		f.ino.data = f.ino.data[:size]
	} else {
		f.ino.data = append(f.ino.data, make([]byte, int(size)-len(f.ino.data))...)
	}
	return nil
}

type info struct {
	name string
	ino  *inode
}

func (i info) Name() string { return i.name }
func (i info) Size() int64  { return int64(len(i.ino.data)) }
func (i info) Mode() os.FileMode {
	if i.ino.dir {
		return os.ModeDir | 0755
	}
	return i.ino.mode
}
func (i info) ModTime() time.Time { return epoch }
func (i info) IsDir() bool        { return i.ino.dir }
func (i info) Sys() interface{}   { return nil }

func (f *File) Stat() (os.FileInfo, error) {
	if f.std != 0 {
		return info{f.name, &inode{mode: os.ModeCharDevice}}, nil
	}
	return info{filepath.Base(f.name), f.ino}, nil
}

func (f *File) Chmod(os.FileMode) error { return nil }

func Stat(name string) (fi os.FileInfo, err error) {
	defer func() { note("stat", name, 0, err) }()
	ft := fault("stat", name, 0)
	if ft.Kind == FCrash {
		die("stat")
	}
	if ft.Kind != FNone {
		return nil, pe("stat", name, ft.Errno)
	}
	p := abs(name)
	if ino := files[p]; p != "" && ino != nil {
		return info{filepath.Base(p), ino}, nil
	}
	return nil, pe("stat", name, syscall.ENOENT)
}

func Rename(from, to string) (err error) {
	defer func() { note("rename", to, 0, err) }()
	ft := fault("rename", to, 0)
	if ft.Kind == FCrash && ft.N == 0 {
		die("rename")
	}
	if ft.Kind == FErr || ft.Kind == FShort {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: ft.Errno}
	}
	a, b := abs(from), abs(to)
	if files[a] == nil {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: syscall.ENOENT}
	}
	if files[b] != nil && files[b].dir {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: syscall.EEXIST}
	}
	files[b] = files[a]
	if a != b {
		delete(files, a)
	}
	if ft.Kind == FCrash {
		die("rename")
	}
	return nil
}

func Remove(name string) (err error) {
	defer func() { note("remove", name, 0, err) }()
	ft := fault("remove", name, 0)
	if ft.Kind == FCrash {
		die("remove")
	}
	if ft.Kind != FNone {
		return pe("remove", name, ft.Errno)
	}
	p := abs(name)
	if files[p] == nil {
		return pe("remove", name, syscall.ENOENT)
	}
	if Quota >= 0 {
		Quota += len(files[p].data)
	}
	delete(files, p)
	return nil
}

func Mkdir(name string, _ os.FileMode) error {
	p := abs(name)
	if files[p] != nil {
		return pe("mkdir", name, syscall.EEXIST)
	}
	files[p] = &inode{dir: true}
	return nil
}

func MkdirAll(name string, m os.FileMode) error {
	for p := abs(name); p != "/"; p = filepath.Dir(p) {
		if files[p] == nil {
			files[p] = &inode{dir: true}
		} else if !files[p].dir {
			return pe("mkdir", name, syscall.ENOTDIR)
		}
	}
	return nil
}

func TempName(dir, pattern string) string {
	if dir == "" {
		dir = "/tmp"
	}
	tempSeq++
	s := ""
	for n := tempSeq; n > 0; n /= 10 {
		s = string(rune('0'+n%10)) + s
	}
	for i := len(pattern) - 1; i >= 0; i-- {
		if pattern[i] == '*' {
			return filepath.Join(dir, pattern[:i]+s+pattern[i+1:])
		}
	}
	return filepath.Join(dir, pattern+s)
}

func ReadFile(name string) ([]byte, error) {
	f, err := OpenFile(name, os.O_RDONLY, 0)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return readAll(f)
}

func readAll(r io.Reader) ([]byte, error) {
	var out []byte
	buf := make([]byte, 512)
	for {
		n, err := r.Read(buf)
		out = append(out, buf[:n]...)
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return out, err
		}
	}
}

func WriteFile(name string, data []byte, perm os.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if e := f.Close(); e != nil && err == nil {
		err = e
	}
	return err
}

// SameFile tells whether two infos describe the same simulated file.
func SameFile(a, b os.FileInfo) bool {
	x, ok := a.(info)
	y, ok2 := b.(info)
	return ok && ok2 && x.ino == y.ino
}

// ReadDir lists a simulated directory.
func ReadDir(name string) ([]os.DirEntry, error) {
	p := abs(name)
	if d := files[p]; d == nil {
		return nil, pe("open", name, syscall.ENOENT)
	} else if !d.dir {
		return nil, pe("readdirent", name, syscall.ENOTDIR)
	}
	var names []string
	for q := range files {
		if q != p && filepath.Dir(q) == p {
			names = append(names, q)
		}
	}
	sort.Strings(names)
	var l []os.DirEntry
	for _, q := range names {
		l = append(l, iofs.FileInfoToDirEntry(info{filepath.Base(q), files[q]}))
	}
	return l, nil
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	old := f.off
	defer func() { f.off = old }()
	f.off = int(off)
	n := 0
	for n < len(b) {
		k, err := f.Read(b[n:])
		n += k
		if err != nil {
			return n, err
		}
	}
	return n, nil
}

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	old := f.off
	defer func() { f.off = old }()
	f.off = int(off)
	return f.Write(b)
}

func (f *File) ReadDir(n int) ([]os.DirEntry, error) { return ReadDir(f.name) }
