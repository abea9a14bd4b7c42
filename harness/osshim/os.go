// Package os is an in-memory stand-in for the os package: same API, no real file
// system, with crash and fault injection.
package os

import (
	"errors"
	"io"
	"io/fs"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"github.com/rdimitrov/go-tuf-metadata/zzverif/vp"
)

type (
	FileMode  = fs.FileMode
	FileInfo  = fs.FileInfo
	DirEntry  = fs.DirEntry
	PathError = fs.PathError
)

const (
	O_RDONLY int = 0
	O_WRONLY int = 1
	O_RDWR   int = 2
	O_APPEND int = 0x400
	O_CREATE int = 0x40
	O_EXCL   int = 0x80
	O_SYNC   int = 0x101000
	O_TRUNC  int = 0x200

	ModeDir        = fs.ModeDir
	ModePerm       = fs.ModePerm
	ModeSymlink    = fs.ModeSymlink
	ModeType       = fs.ModeType
	ModeAppend     = fs.ModeAppend
	ModeExclusive  = fs.ModeExclusive
	ModeTemporary  = fs.ModeTemporary
	ModeDevice     = fs.ModeDevice
	ModeNamedPipe  = fs.ModeNamedPipe
	ModeSocket     = fs.ModeSocket
	ModeSetuid     = fs.ModeSetuid
	ModeSetgid     = fs.ModeSetgid
	ModeCharDevice = fs.ModeCharDevice
	ModeSticky     = fs.ModeSticky
	ModeIrregular  = fs.ModeIrregular

	PathSeparator     = '/'
	PathListSeparator = ':'
	DevNull           = "/dev/null"

	SEEK_SET int = 0
	SEEK_CUR int = 1
	SEEK_END int = 2
)

var (
	ErrInvalid          = fs.ErrInvalid
	ErrPermission       = fs.ErrPermission
	ErrExist            = fs.ErrExist
	ErrNotExist         = fs.ErrNotExist
	ErrClosed           = fs.ErrClosed
	ErrProcessDone      = errors.New("os: process already finished")
	ErrDeadlineExceeded = errors.New("i/o timeout")
	ErrNoDeadline       = errors.New("file type does not support deadline")

	errNotDir   = errors.New("not a directory")
	errIsDir    = errors.New("is a directory")
	errNotEmpty = errors.New("directory not empty")
	errCrossDev = errors.New("invalid cross-device link")
	errInject   = errors.New("input/output error")

	Args   = []string{"prog"}
	Stdin  = &File{name: "/dev/stdin", sink: true}
	Stdout = &File{name: "/dev/stdout", sink: true}
	Stderr = &File{name: "/dev/stderr", sink: true}
)

type SyscallError struct {
	Syscall string
	Err     error
}

func (e *SyscallError) Error() string { return e.Syscall + ": " + e.Err.Error() }
func (e *SyscallError) Unwrap() error { return e.Err }

type LinkError struct {
	Op, Old, New string
	Err          error
}

func (e *LinkError) Error() string { return e.Op + " " + e.Old + " " + e.New + ": " + e.Err.Error() }
func (e *LinkError) Unwrap() error { return e.Err }

// ---- state

type node struct {
	dir  bool
	data []byte
	mode FileMode
}

type entry struct {
	path string
	n    *node
}

// VPOp is one operation performed by the code under test.
type VPOp struct {
	Op, Path, To string
}

type crashSignal struct{}

var (
	tab     []entry
	cwd     string
	mounts  []string
	ops     []VPOp
	tempN   int
	opN     int
	crashAt int
	failAt  int
	crashed bool
	partial int // what a write does at the crash point: 0 nothing, 1 everything, 2 a proper prefix
	failOp  string
	open    int
	env     []string
	beforeN int
	before  func()
)

func init() { vp.OnReset(VPReset) }

// VPReset empties the file system.
func VPReset() {
	tab = []entry{{"/", &node{dir: true, mode: 0755}}}
	cwd = "/"
	mounts, ops, env = nil, nil, nil
	tempN, opN, crashAt, failAt, partial, open = 0, 0, 0, 0, 0, 0
	failOp = ""
	crashed = false
	beforeN, before = 0, nil
	VPOnExit = nil
}

// VPDir reports whether a directory exists.
func VPDir(p string) bool {
	n := find(filepath.Clean(p))
	return n != nil && n.dir
}

// VPMkdir creates a directory and its parents without recording an operation.
func VPMkdir(p string) {
	p = filepath.Clean(p)
	if find(p) != nil {
		return
	}
	VPMkdir(filepath.Dir(p))
	tab = append(tab, entry{p, &node{dir: true, mode: 0755}})
}

// VPPut stores a file without recording an operation.
func VPPut(p string, data []byte) {
	p = filepath.Clean(p)
	VPMkdir(filepath.Dir(p))
	if n := find(p); n != nil {
		n.data = data
		return
	}
	tab = append(tab, entry{p, &node{data: data, mode: 0644}})
}

// VPGet returns the content of a file.
func VPGet(p string) ([]byte, bool) {
	n := find(filepath.Clean(p))
	if n == nil || n.dir {
		return nil, false
	}
	return n.data, true
}

// VPPaths lists all regular files.
func VPPaths() []string {
	var out []string
	for _, e := range tab {
		if !e.n.dir {
			out = append(out, e.path)
		}
	}
	return out
}

// VPOps lists the operations so far; VPClearOps forgets them.
func VPOps() []VPOp     { return ops }
func VPClearOps()       { ops = nil }
func VPOpCount() int    { return opN }
func VPOpenFiles() int  { return open }
func VPChdir(p string)  { VPMkdir(p); cwd = p }
func VPMount(p string)  { mounts = append(mounts, p) }
func VPCrashed() bool   { return crashed }
func VPFailAt(n int)    { failAt = opN + n; partial = 0 }
func VPFailOp(o string) { failOp = o }

// VPFailAtHow makes the n-th following operation fail; a failing write leaves what
// how says (0 nothing, 1 everything, 2 a proper prefix).
func VPFailAtHow(n, how int) { failAt, partial = opN+n, how }

// VPCrashAt makes the n-th following operation the crash point.
func VPCrashAt(n int, how int) { crashAt, partial = opN+n, how }

// VPBefore runs f, as another process would, right before the n-th following operation.
func VPBefore(n int, f func()) { beforeN, before = opN+n, f }

// VPRun runs f and reports whether it was cut short by the crash point. Afterwards
// the file system is usable again, as after a restart.
func VPRun(f func()) (crash bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(crashSignal); !ok {
				panic(r)
			}
			crash = true
		}
		crashed = false
		crashAt = 0
	}()
	f()
	return false
}

// step accounts for one operation; it reports whether it must fail.
func step(op, p, to string) bool {
	if crashed {
		// deferred calls of a crashed process have no effect
		panic(crashSignal{})
	}
	if before != nil && opN+1 == beforeN {
		f := before
		before = nil
		n := opN
		f()
		opN = n
	}
	opN++
	ops = append(ops, VPOp{op, p, to})
	if crashAt != 0 && opN == crashAt && op != "write" {
		crashed = true
		panic(crashSignal{})
	}
	if failOp != "" && failOp == op {
		return true
	}
	return failAt != 0 && opN == failAt
}

func abs(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = cwd + "/" + p
	}
	return filepath.Clean(p)
}

func find(p string) *node {
	for i := range tab {
		if tab[i].path == p {
			return tab[i].n
		}
	}
	return nil
}

func perr(op, p string, err error) error { return &PathError{Op: op, Path: p, Err: err} }

// parent checks that the directory holding p exists.
func parent(p string) error {
	n := find(filepath.Dir(p))
	if n == nil {
		return ErrNotExist
	}
	if !n.dir {
		return errNotDir
	}
	return nil
}

func mountOf(p string) string {
	best := ""
	for _, m := range mounts {
		if (p == m || strings.HasPrefix(p, m+"/")) && len(m) > len(best) {
			best = m
		}
	}
	return best
}

// ---- files

type File struct {
	name   string
	path   string
	n      *node
	off    int
	flag   int
	closed bool
	sink   bool
	all    bool
}

func Open(name string) (*File, error)   { return OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0666) }

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	if name == "" {
		return nil, perr("open", name, ErrNotExist)
	}
	p := abs(name)
	op := "open"
	if flag&(O_WRONLY|O_RDWR) != 0 {
		op = "openw"
	}
	if step(op, p, "") {
		return nil, perr("open", name, errInject)
	}
	if err := parent(p); err != nil {
		return nil, perr("open", name, err)
	}
	n := find(p)
	if n == nil {
		if flag&O_CREATE == 0 {
			return nil, perr("open", name, ErrNotExist)
		}
		n = &node{mode: perm}
		tab = append(tab, entry{p, n})
	} else {
		if flag&O_EXCL != 0 && flag&O_CREATE != 0 {
			return nil, perr("open", name, ErrExist)
		}
		if n.dir && flag&(O_WRONLY|O_RDWR) != 0 {
			return nil, perr("open", name, errIsDir)
		}
		if flag&O_TRUNC != 0 && !n.dir {
			n.data = nil
		}
	}
	open++
	return &File{name: name, path: p, n: n, flag: flag}, nil
}

func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = TempDir()
	}
	tempN++
	nm := pattern + strconv.Itoa(100000+tempN)
	if i := strings.LastIndex(pattern, "*"); i >= 0 {
		nm = pattern[:i] + strconv.Itoa(100000+tempN) + pattern[i+1:]
	}
	if strings.Contains(pattern, "/") {
		return nil, perr("createtemp", pattern, errors.New("pattern contains path separator"))
	}
	return OpenFile(filepath.Join(dir, nm), O_RDWR|O_CREATE|O_EXCL, 0600)
}

func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = TempDir()
	}
	tempN++
	nm := filepath.Join(dir, strings.ReplaceAll(pattern, "*", "")+strconv.Itoa(100000+tempN))
	if err := Mkdir(nm, 0700); err != nil {
		return "", err
	}
	return nm, nil
}

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr  { return 3 }

func (f *File) check(op string) error {
	if f == nil {
		return ErrInvalid
	}
	if f.closed {
		return perr(op, f.name, ErrClosed)
	}
	return nil
}

func (f *File) Write(b []byte) (int, error) {
	if f != nil && f.sink {
		return len(b), nil
	}
	if err := f.check("write"); err != nil {
		return 0, err
	}
	if f.flag&(O_WRONLY|O_RDWR) == 0 {
		return 0, perr("write", f.name, errors.New("bad file descriptor"))
	}
	fail := step("write", f.path, "")
	if crashAt != 0 && opN == crashAt {
		switch partial {
		case 1:
			f.append(b)
		case 2:
			k := vp.Int64In("write.prefix", 1, 1<<20)
			vp.Assume(k < vp.Len64(b))
			f.append(b[:k])
		}
		crashed = true
		panic(crashSignal{})
	}
	if fail {
		switch {
		case failAt == 0 || opN != failAt || partial == 0:
			return 0, perr("write", f.name, errInject)
		case partial == 1:
			f.append(b)
			return len(b), perr("write", f.name, errInject)
		}
		k := vp.Int64In("write.prefix", 1, 1<<20)
		vp.Assume(k < vp.Len64(b))
		f.append(b[:k])
		return 1, perr("write", f.name, errInject)
	}
	f.append(b)
	return len(b), nil
}

func (f *File) append(b []byte) {
	if f.off == 0 || f.flag&O_APPEND != 0 || f.all || f.off >= len(f.n.data) {
		if f.off == 0 && f.flag&O_APPEND == 0 && !f.all {
			old := f.n.data
			f.n.data = append([]byte(nil), b...)
			// what is longer stays behind it
			if len(old) > 0 && vp.Len64(old) > vp.Len64(b) {
				if vp.Plain(old) && vp.Plain(b) {
					f.n.data = append(f.n.data, old[len(b):]...)
				} else {
					f.n.data = vp.Opaque("overwritten", vp.Len64(old))
				}
				f.off = len(b)
				return
			}
		} else {
			f.n.data = append(f.n.data, b...)
		}
		f.all = true
		f.off = len(f.n.data)
		return
	}
	k := copy(f.n.data[f.off:], b)
	f.n.data = append(f.n.data, b[k:]...)
	f.off += len(b)
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) Read(b []byte) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	// reading a whole file counts as one operation, however it is done
	if f.off == 0 && step("read", f.path, "") {
		return 0, perr("read", f.name, errInject)
	}
	if f.n.dir {
		return 0, perr("read", f.name, errIsDir)
	}
	if f.off >= len(f.n.data) {
		return 0, io.EOF
	}
	k := copy(b, f.n.data[f.off:])
	f.off += k
	return k, nil
}

// VPReadAll is what io.ReadAll returns for the file in the engine.
func (f *File) VPReadAll() ([]byte, error) {
	if err := f.check("read"); err != nil {
		return nil, err
	}
	if step("read", f.path, "") {
		return nil, perr("read", f.name, errInject)
	}
	if f.n.dir {
		return nil, perr("read", f.name, errIsDir)
	}
	d := f.n.data
	if f.off > 0 {
		d = d[f.off:]
	}
	f.off = len(f.n.data)
	if d == nil {
		d = []byte{}
	}
	return d, nil
}

func (f *File) Seek(offset int64, whence int) (int64, error) {
	if err := f.check("seek"); err != nil {
		return 0, err
	}
	switch whence {
	case 0:
		f.off = int(offset)
	case 1:
		f.off += int(offset)
	case 2:
		f.off = len(f.n.data) + int(offset)
	}
	f.all = false
	return int64(f.off), nil
}

func (f *File) Truncate(size int64) error {
	if err := f.check("truncate"); err != nil {
		return err
	}
	step("truncate", f.path, "")
	f.n.data = f.n.data[:size]
	return nil
}

func (f *File) Close() error {
	if f != nil && f.sink {
		return nil
	}
	if crashed {
		panic(crashSignal{})
	}
	if err := f.check("close"); err != nil {
		return err
	}
	f.closed = true
	open--
	return nil
}

func (f *File) Sync() error {
	if err := f.check("sync"); err != nil {
		return err
	}
	if step("sync", f.path, "") {
		return perr("sync", f.name, errInject)
	}
	return nil
}

func (f *File) Chmod(mode FileMode) error {
	if err := f.check("chmod"); err != nil {
		return err
	}
	f.n.mode = mode
	return nil
}

func (f *File) Chown(uid, gid int) error           { return f.check("chown") }
func (f *File) SetDeadline(t time.Time) error      { return ErrNoDeadline }
func (f *File) SetReadDeadline(t time.Time) error  { return ErrNoDeadline }
func (f *File) SetWriteDeadline(t time.Time) error { return ErrNoDeadline }
func (f *File) ReadDir(n int) ([]DirEntry, error)  { return ReadDir(f.path) }
func (f *File) Readdirnames(n int) ([]string, error) {
	l, err := ReadDir(f.path)
	if err != nil {
		return nil, err
	}
	var out []string
	for _, e := range l {
		out = append(out, e.Name())
	}
	return out, nil
}
func (f *File) Readdir(n int) ([]FileInfo, error) {
	l, err := ReadDir(f.path)
	if err != nil {
		return nil, err
	}
	var out []FileInfo
	for _, e := range l {
		i, _ := e.Info()
		out = append(out, i)
	}
	return out, nil
}
func (f *File) Chdir() error { return Chdir(f.path) }
func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if step("read", f.path, "") {
		return 0, perr("read", f.name, errInject)
	}
	if off >= int64(len(f.n.data)) {
		return 0, io.EOF
	}
	k := copy(b, f.n.data[off:])
	if k < len(b) {
		return k, io.EOF
	}
	return k, nil
}
func (f *File) WriteAt(b []byte, off int64) (int, error) {
	o := f.off
	f.off, f.all = int(off), false
	n, err := f.Write(b)
	f.off = o
	return n, err
}

// ReadFrom writes what r holds, in one piece.
func (f *File) ReadFrom(r io.Reader) (int64, error) {
	b, err := io.ReadAll(r)
	n, err1 := f.Write(b)
	if err == nil {
		err = err1
	}
	return int64(n), err
}

func (f *File) WriteTo(w io.Writer) (int64, error) {
	b, err := f.VPReadAll()
	if err != nil {
		return 0, err
	}
	n, err := w.Write(b)
	return int64(n), err
}

func (f *File) Stat() (FileInfo, error) {
	if err := f.check("stat"); err != nil {
		return nil, err
	}
	return &info{filepath.Base(f.path), f.n}, nil
}

type info struct {
	name string
	n    *node
}

func (i *info) Name() string { return i.name }
func (i *info) Size() int64  { return int64(len(i.n.data)) }
func (i *info) Mode() FileMode {
	if i.n.dir {
		return i.n.mode | ModeDir
	}
	return i.n.mode
}
func (i *info) ModTime() time.Time      { return time.Time{} }
func (i *info) IsDir() bool             { return i.n.dir }
func (i *info) Sys() any                { return nil }
func (i *info) Type() FileMode          { return i.Mode() & ModeType }
func (i *info) Info() (FileInfo, error) { return i, nil }

// ---- functions

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	d, err := f.VPReadAll()
	if err != nil {
		return nil, err
	}
	return append([]byte{}, d...), nil
}

func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func Rename(oldpath, newpath string) error {
	o, n := abs(oldpath), abs(newpath)
	if step("rename", o, n) {
		return &LinkError{"rename", oldpath, newpath, errInject}
	}
	src := find(o)
	if src == nil {
		return &LinkError{"rename", oldpath, newpath, ErrNotExist}
	}
	if err := parent(n); err != nil {
		return &LinkError{"rename", oldpath, newpath, err}
	}
	if mountOf(o) != mountOf(n) {
		return &LinkError{"rename", oldpath, newpath, errCrossDev}
	}
	if o == n {
		return nil
	}
	if dst := find(n); dst != nil {
		if dst.dir {
			return &LinkError{"rename", oldpath, newpath, ErrExist}
		}
		if src.dir {
			return &LinkError{"rename", oldpath, newpath, errNotDir}
		}
		drop(n)
	}
	for i := range tab {
		if tab[i].path == o {
			tab[i].path = n
		} else if strings.HasPrefix(tab[i].path, o+"/") {
			tab[i].path = n + tab[i].path[len(o):]
		}
	}
	return nil
}

func drop(p string) {
	var t []entry
	for _, e := range tab {
		if e.path != p {
			t = append(t, e)
		}
	}
	tab = t
}

func Remove(name string) error {
	p := abs(name)
	if step("remove", p, "") {
		return perr("remove", name, errInject)
	}
	n := find(p)
	if n == nil {
		return perr("remove", name, ErrNotExist)
	}
	if n.dir {
		for _, e := range tab {
			if strings.HasPrefix(e.path, p+"/") {
				return perr("remove", name, errNotEmpty)
			}
		}
	}
	drop(p)
	return nil
}

func RemoveAll(path string) error {
	p := abs(path)
	if step("removeall", p, "") {
		return perr("removeall", path, errInject)
	}
	var t []entry
	for _, e := range tab {
		if e.path != p && !strings.HasPrefix(e.path, strings.TrimSuffix(p, "/")+"/") {
			t = append(t, e)
		}
	}
	tab = t
	return nil
}

func Mkdir(name string, perm FileMode) error {
	p := abs(name)
	if step("mkdir", p, "") {
		return perr("mkdir", name, errInject)
	}
	if find(p) != nil {
		return perr("mkdir", name, ErrExist)
	}
	if err := parent(p); err != nil {
		return perr("mkdir", name, err)
	}
	tab = append(tab, entry{p, &node{dir: true, mode: perm}})
	return nil
}

func MkdirAll(path string, perm FileMode) error {
	if path == "" {
		return perr("mkdir", path, ErrNotExist)
	}
	p := abs(path)
	if step("mkdirall", p, "") {
		return perr("mkdir", path, errInject)
	}
	return mkdirAll(p, path, perm)
}

func mkdirAll(p, path string, perm FileMode) error {
	if n := find(p); n != nil {
		if n.dir {
			return nil
		}
		return perr("mkdir", path, errNotDir)
	}
	if err := mkdirAll(filepath.Dir(p), path, perm); err != nil {
		return err
	}
	tab = append(tab, entry{p, &node{dir: true, mode: perm}})
	return nil
}

func Stat(name string) (FileInfo, error) {
	p := abs(name)
	if step("stat", p, "") {
		return nil, perr("stat", name, errInject)
	}
	if name == "" {
		return nil, perr("stat", name, ErrNotExist)
	}
	n := find(p)
	if n == nil {
		return nil, perr("stat", name, ErrNotExist)
	}
	return &info{filepath.Base(p), n}, nil
}

func Lstat(name string) (FileInfo, error) { return Stat(name) }

func ReadDir(name string) ([]DirEntry, error) {
	p := abs(name)
	if step("readdir", p, "") {
		return nil, perr("open", name, errInject)
	}
	n := find(p)
	if n == nil {
		return nil, perr("open", name, ErrNotExist)
	}
	if !n.dir {
		return nil, perr("readdirent", name, errNotDir)
	}
	var out []DirEntry
	for _, e := range tab {
		if e.path != p && filepath.Dir(e.path) == p {
			out = append(out, &info{filepath.Base(e.path), e.n})
		}
	}
	for i := 1; i < len(out); i++ {
		for j := i; j > 0 && out[j].Name() < out[j-1].Name(); j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return out, nil
}

func Chmod(name string, mode FileMode) error {
	n := find(abs(name))
	if n == nil {
		return perr("chmod", name, ErrNotExist)
	}
	n.mode = mode
	return nil
}

func Truncate(name string, size int64) error {
	n := find(abs(name))
	if n == nil {
		return perr("truncate", name, ErrNotExist)
	}
	n.data = n.data[:size]
	return nil
}

func Chdir(dir string) error {
	p := abs(dir)
	if n := find(p); n == nil || !n.dir {
		return perr("chdir", dir, ErrNotExist)
	}
	cwd = p
	return nil
}

func Chown(name string, uid, gid int) error  { return exists("chown", name) }
func Lchown(name string, uid, gid int) error { return exists("lchown", name) }
func Chtimes(name string, atime, mtime time.Time) error {
	return exists("chtimes", name)
}
func exists(op, name string) error {
	if find(abs(name)) == nil {
		return perr(op, name, ErrNotExist)
	}
	return nil
}

// Link makes a second name of a file.
func Link(oldname, newname string) error {
	o, n := abs(oldname), abs(newname)
	if step("link", o, n) {
		return &LinkError{"link", oldname, newname, errInject}
	}
	src := find(o)
	if src == nil || src.dir {
		return &LinkError{"link", oldname, newname, ErrNotExist}
	}
	if err := parent(n); err != nil {
		return &LinkError{"link", oldname, newname, err}
	}
	if mountOf(o) != mountOf(n) {
		return &LinkError{"link", oldname, newname, errCrossDev}
	}
	if find(n) != nil {
		return &LinkError{"link", oldname, newname, ErrExist}
	}
	tab = append(tab, entry{n, src})
	return nil
}

func Symlink(oldname, newname string) error {
	return &LinkError{"symlink", oldname, newname, ErrPermission}
}
func Readlink(name string) (string, error) {
	if err := exists("readlink", name); err != nil {
		return "", err
	}
	return "", perr("readlink", name, ErrInvalid)
}

// dirFS is DirFS.
type dirFS string

func (d dirFS) Open(name string) (fs.File, error) {
	if !fs.ValidPath(name) {
		return nil, perr("open", name, ErrInvalid)
	}
	f, err := Open(string(d) + "/" + name)
	if err != nil {
		return nil, err
	}
	return f, nil
}
func (d dirFS) ReadFile(name string) ([]byte, error) {
	if !fs.ValidPath(name) {
		return nil, perr("readfile", name, ErrInvalid)
	}
	return ReadFile(string(d) + "/" + name)
}
func (d dirFS) ReadDir(name string) ([]DirEntry, error) {
	if !fs.ValidPath(name) {
		return nil, perr("readdir", name, ErrInvalid)
	}
	return ReadDir(string(d) + "/" + name)
}
func (d dirFS) Stat(name string) (FileInfo, error) {
	if !fs.ValidPath(name) {
		return nil, perr("stat", name, ErrInvalid)
	}
	return Stat(string(d) + "/" + name)
}

func DirFS(dir string) fs.FS { return dirFS(dir) }

// Root is a directory no name leads out of.
type Root struct{ dir string }

func OpenRoot(name string) (*Root, error) {
	i, err := Stat(name)
	if err != nil {
		return nil, err
	}
	if !i.IsDir() {
		return nil, perr("open", name, errNotDir)
	}
	return &Root{abs(name)}, nil
}

func OpenInRoot(dir, name string) (*File, error) {
	r, err := OpenRoot(dir)
	if err != nil {
		return nil, err
	}
	return r.Open(name)
}

func (r *Root) path(op, name string) (string, error) {
	if !filepath.IsLocal(name) {
		return "", perr(op, name, errors.New("path escapes from parent"))
	}
	return r.dir + "/" + name, nil
}
func (r *Root) Name() string                    { return r.dir }
func (r *Root) Close() error                    { return nil }
func (r *Root) FS() fs.FS                       { return dirFS(r.dir) }
func (r *Root) Open(name string) (*File, error) { return r.OpenFile(name, O_RDONLY, 0) }
func (r *Root) Create(name string) (*File, error) {
	return r.OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0666)
}
func (r *Root) OpenFile(name string, flag int, perm FileMode) (*File, error) {
	p, err := r.path("openat", name)
	if err != nil {
		return nil, err
	}
	return OpenFile(p, flag, perm)
}
func (r *Root) Mkdir(name string, perm FileMode) error {
	p, err := r.path("mkdirat", name)
	if err != nil {
		return err
	}
	return Mkdir(p, perm)
}
func (r *Root) MkdirAll(name string, perm FileMode) error {
	p, err := r.path("mkdirat", name)
	if err != nil {
		return err
	}
	return MkdirAll(p, perm)
}
func (r *Root) ReadFile(name string) ([]byte, error) {
	p, err := r.path("openat", name)
	if err != nil {
		return nil, err
	}
	return ReadFile(p)
}
func (r *Root) WriteFile(name string, data []byte, perm FileMode) error {
	p, err := r.path("openat", name)
	if err != nil {
		return err
	}
	return WriteFile(p, data, perm)
}
func (r *Root) Remove(name string) error {
	p, err := r.path("unlinkat", name)
	if err != nil {
		return err
	}
	return Remove(p)
}
func (r *Root) RemoveAll(name string) error {
	p, err := r.path("unlinkat", name)
	if err != nil {
		return err
	}
	return RemoveAll(p)
}
func (r *Root) Rename(o, n string) error {
	p, err := r.path("renameat", o)
	if err != nil {
		return err
	}
	q, err := r.path("renameat", n)
	if err != nil {
		return err
	}
	return Rename(p, q)
}
func (r *Root) Stat(name string) (FileInfo, error) {
	p, err := r.path("statat", name)
	if err != nil {
		return nil, err
	}
	return Stat(p)
}
func (r *Root) Lstat(name string) (FileInfo, error) { return r.Stat(name) }
func (r *Root) OpenRoot(name string) (*Root, error) {
	p, err := r.path("openat", name)
	if err != nil {
		return nil, err
	}
	return OpenRoot(p)
}

func Executable() (string, error) { return "/usr/bin/prog", nil }
func Expand(s string, f func(string) string) string {
	out := ""
	for i := 0; i < len(s); {
		if s[i] != '$' || i+1 == len(s) {
			out += s[i : i+1]
			i++
			continue
		}
		j := i + 1
		if s[j] == '{' {
			for j < len(s) && s[j] != '}' {
				j++
			}
			out += f(s[i+2 : j])
			i = j + 1
			continue
		}
		for j < len(s) && (s[j] == '_' || s[j] >= '0' && s[j] <= '9' || s[j] >= 'a' && s[j] <= 'z' || s[j] >= 'A' && s[j] <= 'Z') {
			j++
		}
		out += f(s[i+1 : j])
		i = j
	}
	return out
}
func ExpandEnv(s string) string { return Expand(s, Getenv) }
func Clearenv()                 { env = nil }
func Getegid() int              { return 1000 }
func Geteuid() int              { return 1000 }
func Getgid() int               { return 1000 }
func Getppid() int              { return 4241 }
func Getpagesize() int          { return 4096 }
func Getgroups() ([]int, error) { return []int{1000}, nil }
func NewSyscallError(syscall string, err error) error {
	if err == nil {
		return nil
	}
	return &SyscallError{syscall, err}
}

func Getwd() (string, error)       { return cwd, nil }
func TempDir() string              { return "/tmp" }
func UserHomeDir() (string, error) { return "/home/user", nil }
func UserCacheDir() (string, error) {
	return "/home/user/.cache", nil
}
func UserConfigDir() (string, error) { return "/home/user/.config", nil }
func Hostname() (string, error)      { return "host", nil }
func Getpid() int                    { return 4242 }
func Getuid() int                    { return 1000 }
func Getenv(k string) string {
	v, _ := LookupEnv(k)
	return v
}
func LookupEnv(k string) (string, bool) {
	for i := 0; i+1 < len(env); i += 2 {
		if env[i] == k {
			return env[i+1], true
		}
	}
	return "", false
}
func Setenv(k, v string) error {
	env = append([]string{k, v}, env...)
	return nil
}
func Unsetenv(k string) error { return nil }
func Environ() []string       { return nil }

// VPOnExit runs before the process exits.
var VPOnExit func(code int)

func Exit(code int) {
	if VPOnExit != nil {
		VPOnExit(code)
	}
	vp.Exit(code)
}
func SameFile(a, b FileInfo) bool {
	x, ok1 := a.(*info)
	y, ok2 := b.(*info)
	return ok1 && ok2 && x.n == y.n
}

func under(err error) error {
	switch e := err.(type) {
	case *PathError:
		return e.Err
	case *LinkError:
		return e.Err
	case *SyscallError:
		return e.Err
	}
	return err
}

func IsNotExist(err error) bool    { return under(err) == ErrNotExist }
func IsExist(err error) bool       { return under(err) == ErrExist || under(err) == errNotEmpty }
func IsPermission(err error) bool  { return under(err) == ErrPermission }
func IsTimeout(err error) bool     { return false }
func IsPathSeparator(c uint8) bool { return c == '/' }
