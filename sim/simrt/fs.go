package simrt

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
)

// FS is the in-memory file system of one simulated process.
type FS struct {
	files map[string]*inode
	tmpN  int
	// Fault, if set, is asked before every operation.
	Fault func(op, path string) error
	// Ops counts operations.
	Ops int
	// Events, if set, is told about every mutation.
	Events func(op, path string)
}

type inode struct {
	dir  bool
	data []byte
	mode fs.FileMode
	mod  time.Time
}

// NewFS returns a file system with / and /tmp.
func NewFS() *FS {
	return &FS{files: map[string]*inode{"/": {dir: true, mode: 0755 | fs.ModeDir}, "/tmp": {dir: true, mode: 0777 | fs.ModeDir}}}
}

// Put creates a file and its directories (harness).
func (f *FS) Put(path, data string) {
	f.MkdirAll(filepath.Dir(path))
	f.files[path] = &inode{data: []byte(data), mode: 0644}
}

// MkdirAll creates directories (harness).
func (f *FS) MkdirAll(p string) {
	for d := p; d != "/" && d != "."; d = filepath.Dir(d) {
		if _, ok := f.files[d]; !ok {
			f.files[d] = &inode{dir: true, mode: 0755 | fs.ModeDir}
		}
	}
}

// Get returns a file's content.
func (f *FS) Get(path string) (string, bool) {
	n, ok := f.files[path]
	if !ok || n.dir {
		return "", false
	}
	return string(n.data), true
}

// Mode returns the permissions of a path.
func (f *FS) Mode(path string) fs.FileMode {
	if n, ok := f.files[path]; ok {
		return n.mode.Perm()
	}
	return 0
}

// List returns all paths under prefix.
func (f *FS) List(prefix string) []string {
	var out []string
	for p := range f.files {
		if strings.HasPrefix(p, prefix) {
			out = append(out, p)
		}
	}
	sort.Strings(out)
	return out
}

func (f *FS) fault(op, path string) error {
	f.Ops++
	if f.Fault != nil {
		if err := f.Fault(op, path); err != nil {
			return &fs.PathError{Op: op, Path: path, Err: err}
		}
	}
	return nil
}

func fsAbs(p string) (*FS, string, *Node) {
	n := CurNode()
	if n == nil {
		return NewFS(), p, nil
	}
	if !filepath.IsAbs(p) {
		p = filepath.Join(n.Cwd, p)
	}
	return n.FS, filepath.Clean(p), n
}

var errDead = errors.New("process is dead")

// File is os.File.
type File struct {
	name   string
	path   string
	n      *inode
	fs     *FS
	off    int64
	flag   int
	closed bool
	std    int // 1 stdout 2 stderr 3 stdin
}

// Standard streams of the current process.
var (
	Stdin  = &File{name: "/dev/stdin", std: 3}
	Stdout = &File{name: "/dev/stdout", std: 1}
	Stderr = &File{name: "/dev/stderr", std: 2}
)

func OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	if Dead() {
		return nil, errDead
	}
	P()
	f, p, _ := fsAbs(name)
	if err := f.fault("open", name); err != nil {
		return nil, err
	}
	n, ok := f.files[p]
	if !ok {
		if flag&os.O_CREATE == 0 {
			return nil, &fs.PathError{Op: "open", Path: name, Err: syscall.ENOENT}
		}
		if d, ok := f.files[filepath.Dir(p)]; !ok || !d.dir {
			return nil, &fs.PathError{Op: "open", Path: name, Err: syscall.ENOENT}
		}
		n = &inode{mode: perm, mod: Now()}
		f.files[p] = n
		if f.Events != nil {
			f.Events("create", p)
		}
	} else if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
		return nil, &fs.PathError{Op: "open", Path: name, Err: syscall.EEXIST}
	}
	if n.dir && flag&(os.O_WRONLY|os.O_RDWR) != 0 {
		return nil, &fs.PathError{Op: "open", Path: name, Err: syscall.EISDIR}
	}
	if flag&os.O_TRUNC != 0 {
		n.data = nil
	}
	return &File{name: name, path: p, n: n, fs: f, flag: flag}, nil
}

func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr  { return uintptr(f.std) }

func (f *File) ok(op string) error {
	if Dead() {
		return errDead
	}
	if f == nil {
		return os.ErrInvalid
	}
	if f.closed {
		return &fs.PathError{Op: op, Path: f.name, Err: os.ErrClosed}
	}
	return nil
}

func (f *File) Write(b []byte) (int, error) {
	if err := f.ok("write"); err != nil {
		return 0, err
	}
	if f.std != 0 {
		Output(b)
		return len(b), nil
	}
	if f.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, &fs.PathError{Op: "write", Path: f.name, Err: syscall.EBADF}
	}
	if err := f.fs.fault("write", f.path); err != nil {
		k := len(b) / 2 // short write
		f.put(b[:k])
		return k, err
	}
	f.put(b)
	if f.fs.Events != nil {
		f.fs.Events("write", f.path)
	}
	return len(b), nil
}

func (f *File) put(b []byte) {
	if f.flag&os.O_APPEND != 0 {
		f.off = int64(len(f.n.data))
	}
	end := f.off + int64(len(b))
	if end > int64(len(f.n.data)) {
		f.n.data = append(f.n.data, make([]byte, end-int64(len(f.n.data)))...)
	}
	copy(f.n.data[f.off:], b)
	f.off = end
	f.n.mod = Now()
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) Read(b []byte) (int, error) {
	if err := f.ok("read"); err != nil {
		return 0, err
	}
	if f.std != 0 {
		return 0, io.EOF
	}
	if err := f.fs.fault("read", f.path); err != nil {
		return 0, err
	}
	if f.n.dir {
		return 0, &fs.PathError{Op: "read", Path: f.name, Err: syscall.EISDIR}
	}
	if len(b) == 0 {
		return 0, nil
	}
	if f.off >= int64(len(f.n.data)) {
		return 0, io.EOF
	}
	n := copy(b, f.n.data[f.off:])
	f.off += int64(n)
	return n, nil
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if err := f.ok("read"); err != nil {
		return 0, err
	}
	if off >= int64(len(f.n.data)) {
		return 0, io.EOF
	}
	n := copy(b, f.n.data[off:])
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if err := f.ok("write"); err != nil {
		return 0, err
	}
	save := f.off
	f.off = off
	f.put(b)
	f.off = save
	return len(b), nil
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.ok("seek"); err != nil {
		return 0, err
	}
	switch whence {
	case io.SeekStart:
		f.off = off
	case io.SeekCurrent:
		f.off += off
	case io.SeekEnd:
		f.off = int64(len(f.n.data)) + off
	}
	return f.off, nil
}

func (f *File) Truncate(n int64) error {
	if err := f.ok("truncate"); err != nil {
		return err
	}
	if n <= int64(len(f.n.data)) {
		f.n.data = f.n.data[:n]
	} else {
		f.n.data = append(f.n.data, make([]byte, n-int64(len(f.n.data)))...)
	}
	return nil
}

func (f *File) Sync() error             { return f.ok("sync") }
func (f *File) Chmod(fs.FileMode) error { return f.ok("chmod") }

func (f *File) Close() error {
	if err := f.ok("close"); err != nil {
		return err
	}
	if f.std == 0 {
		f.closed = true
		return f.fs.fault("close", f.path)
	}
	return nil
}

func (f *File) Stat() (fs.FileInfo, error) {
	if err := f.ok("stat"); err != nil {
		return nil, err
	}
	if f.std != 0 {
		return finfo{name: f.name, mode: fs.ModeCharDevice}, nil
	}
	return finfo{filepath.Base(f.path), int64(len(f.n.data)), f.n.mode, f.n.mod}, nil
}

type finfo struct {
	name string
	size int64
	mode fs.FileMode
	mod  time.Time
}

func (i finfo) Name() string       { return i.name }
func (i finfo) Size() int64        { return i.size }
func (i finfo) Mode() fs.FileMode  { return i.mode }
func (i finfo) ModTime() time.Time { return i.mod }
func (i finfo) IsDir() bool        { return i.mode.IsDir() }
func (i finfo) Sys() any           { return nil }

func Stat(name string) (fs.FileInfo, error) {
	if Dead() {
		return nil, errDead
	}
	P()
	f, p, _ := fsAbs(name)
	if err := f.fault("stat", name); err != nil {
		return nil, err
	}
	n, ok := f.files[p]
	if !ok {
		return nil, &fs.PathError{Op: "stat", Path: name, Err: syscall.ENOENT}
	}
	return finfo{filepath.Base(p), int64(len(n.data)), n.mode, n.mod}, nil
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if f.n.dir {
		return nil, &fs.PathError{Op: "read", Path: name, Err: syscall.EISDIR}
	}
	if err := f.fs.fault("read", f.path); err != nil {
		return nil, err
	}
	return append([]byte{}, f.n.data...), nil
}

func WriteFile(name string, b []byte, perm fs.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(b)
	if e := f.Close(); err == nil {
		err = e
	}
	return err
}

func Mkdir(name string, perm fs.FileMode) error {
	if Dead() {
		return errDead
	}
	P()
	f, p, _ := fsAbs(name)
	if err := f.fault("mkdir", name); err != nil {
		return err
	}
	if _, ok := f.files[p]; ok {
		return &fs.PathError{Op: "mkdir", Path: name, Err: syscall.EEXIST}
	}
	if d, ok := f.files[filepath.Dir(p)]; !ok || !d.dir {
		return &fs.PathError{Op: "mkdir", Path: name, Err: syscall.ENOENT}
	}
	f.files[p] = &inode{dir: true, mode: perm | fs.ModeDir, mod: Now()}
	if f.Events != nil {
		f.Events("mkdir", p)
	}
	return nil
}

func MkdirAll(name string, perm fs.FileMode) error {
	if Dead() {
		return errDead
	}
	f, p, _ := fsAbs(name)
	if err := f.fault("mkdir", name); err != nil {
		return err
	}
	f.MkdirAll(p)
	return nil
}

func tempName(dir, pattern string, i int) string {
	pre, suf := pattern, ""
	if k := strings.LastIndex(pattern, "*"); k >= 0 {
		pre, suf = pattern[:k], pattern[k+1:]
	}
	return filepath.Join(dir, pre+itoa(100000+i)+suf)
}

func itoa(i int) string {
	if i == 0 {
		return "0"
	}
	s := ""
	for ; i > 0; i /= 10 {
		s = string(rune('0'+i%10)) + s
	}
	return s
}

func MkdirTemp(dir, pattern string) (string, error) {
	if Dead() {
		return "", errDead
	}
	if dir == "" {
		dir = "/tmp"
	}
	f, _, _ := fsAbs("/")
	f.tmpN++
	p := tempName(dir, pattern, f.tmpN)
	return p, Mkdir(p, 0700)
}

func CreateTemp(dir, pattern string) (*File, error) {
	if Dead() {
		return nil, errDead
	}
	if dir == "" {
		dir = "/tmp"
	}
	f, _, _ := fsAbs("/")
	f.tmpN++
	return OpenFile(tempName(dir, pattern, f.tmpN), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
}

func Remove(name string) error {
	if Dead() {
		return errDead
	}
	P()
	f, p, _ := fsAbs(name)
	if err := f.fault("remove", name); err != nil {
		return err
	}
	n, ok := f.files[p]
	if !ok {
		return &fs.PathError{Op: "remove", Path: name, Err: syscall.ENOENT}
	}
	if n.dir && len(f.List(p+"/")) > 0 {
		return &fs.PathError{Op: "remove", Path: name, Err: syscall.ENOTEMPTY}
	}
	delete(f.files, p)
	if f.Events != nil {
		f.Events("remove", p)
	}
	return nil
}

func RemoveAll(name string) error {
	if Dead() {
		return errDead
	}
	P()
	f, p, _ := fsAbs(name)
	if err := f.fault("remove", name); err != nil {
		return err
	}
	if p == "/" {
		return nil
	}
	for _, q := range f.List(p + "/") {
		delete(f.files, q)
	}
	delete(f.files, p)
	if f.Events != nil {
		f.Events("removeall", p)
	}
	return nil
}

func Rename(a, b string) error {
	if Dead() {
		return errDead
	}
	P()
	f, p, _ := fsAbs(a)
	_, q, _ := fsAbs(b)
	if err := f.fault("rename", a); err != nil {
		return err
	}
	n, ok := f.files[p]
	if !ok {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: syscall.ENOENT}
	}
	delete(f.files, p)
	f.files[q] = n
	return nil
}

func ReadDir(name string) ([]fs.DirEntry, error) {
	f, p, _ := fsAbs(name)
	n, ok := f.files[p]
	if !ok || !n.dir {
		return nil, &fs.PathError{Op: "open", Path: name, Err: syscall.ENOENT}
	}
	var out []fs.DirEntry
	for _, q := range f.List(strings.TrimSuffix(p, "/") + "/") {
		if filepath.Dir(q) == p && q != p {
			m := f.files[q]
			out = append(out, fs.FileInfoToDirEntry(finfo{filepath.Base(q), int64(len(m.data)), m.mode, m.mod}))
		}
	}
	return out, nil
}

func Chdir(dir string) error {
	if Dead() {
		return errDead
	}
	f, p, n := fsAbs(dir)
	d, ok := f.files[p]
	if !ok {
		return &fs.PathError{Op: "chdir", Path: dir, Err: syscall.ENOENT}
	}
	if !d.dir {
		return &fs.PathError{Op: "chdir", Path: dir, Err: syscall.ENOTDIR}
	}
	if n != nil {
		n.Cwd = p
	}
	return nil
}

func Getwd() (string, error) {
	if n := CurNode(); n != nil {
		return n.Cwd, nil
	}
	return "/", nil
}

func Chmod(name string, m fs.FileMode) error {
	f, p, _ := fsAbs(name)
	n, ok := f.files[p]
	if !ok {
		return &fs.PathError{Op: "chmod", Path: name, Err: syscall.ENOENT}
	}
	n.mode = m
	return nil
}
