// Package simos stands in for package os: same API, on the simulated machine.
package simos

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"

	"dst/sim"
	"dst/vfs"
)

type (
	FileInfo     = os.FileInfo
	FileMode     = os.FileMode
	PathError    = os.PathError
	LinkError    = os.LinkError
	SyscallError = os.SyscallError
	DirEntry     = os.DirEntry
	Signal       = os.Signal
)

const DevNull = "/dev/null"

const stdBase = 1000

// File is an open file of the simulated machine, or a standard stream.
type File struct {
	h    *vfs.Handle
	name string
	std  int // 1 + fd for standard streams
	rest []byte
}

var (
	Stdin  = &File{name: "/dev/stdin", std: 1}
	Stdout = &File{name: "/dev/stdout", std: 2}
	Stderr = &File{name: "/dev/stderr", std: 3}
)

func perr(op, p string, err error) error {
	if err == nil {
		return nil
	}
	return &PathError{Op: op, Path: p, Err: err}
}

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	if flag&O_APPEND != 0 && false {
		return nil, nil
	}
	if name == DevNull {
		return &File{name: name, std: 9}, nil
	}
	h, err := vfs.Get().Open(name, flag, uint32(perm.Perm()))
	if err != nil {
		return nil, perr("open", name, err)
	}
	return &File{h: h, name: name}, nil
}

func Open(name string) (*File, error)   { return OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0666) }

func NewFile(fd uintptr, name string) *File {
	if fd <= 2 {
		return &File{name: name, std: 1 + int(fd)}
	}
	return nil
}

func (f *File) valid() error {
	if f == nil {
		return ErrInvalid
	}
	return nil
}

func (f *File) Name() string { return f.name }

func (f *File) Fd() uintptr {
	if f == nil {
		return ^uintptr(0)
	}
	if f.std > 0 {
		return uintptr(f.std - 1)
	}
	return uintptr(f.h.Fd)
}

func mapErr(err error) error {
	if err == syscall.EBADF {
		return ErrClosed
	}
	return err
}

func (f *File) Read(b []byte) (int, error) {
	if f == nil {
		return 0, ErrInvalid
	}
	if f.std == 9 {
		return 0, io.EOF
	}
	if f.std > 0 {
		return readStdin(b)
	}
	if len(b) == 0 {
		return 0, nil
	}
	n, err := f.h.Read(b, -1)
	if err != nil {
		return n, perr("read", f.name, mapErr(err))
	}
	if n == 0 {
		return 0, io.EOF
	}
	return n, nil
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if f == nil {
		return 0, ErrInvalid
	}
	if off < 0 {
		return 0, perr("readat", f.name, errors.New("negative offset"))
	}
	got := 0
	for got < len(b) {
		n, err := f.h.Read(b[got:], int(off)+got)
		if err != nil {
			return got, perr("read", f.name, mapErr(err))
		}
		if n == 0 {
			return got, io.EOF
		}
		got += n
	}
	return got, nil
}

func (f *File) Write(b []byte) (int, error) {
	if f == nil {
		return 0, ErrInvalid
	}
	if f.std == 9 {
		return len(b), nil
	}
	if f.std > 0 {
		return writeStd(f.std-1, b)
	}
	n, err := f.h.Write(b, -1)
	if err != nil {
		return n, perr("write", f.name, mapErr(err))
	}
	return n, nil
}

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if f == nil {
		return 0, ErrInvalid
	}
	n, err := f.h.Write(b, int(off))
	if err != nil {
		return n, perr("write", f.name, mapErr(err))
	}
	return n, nil
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{f}, r)
}

func (f *File) WriteTo(w io.Writer) (int64, error) {
	return io.Copy(w, struct{ io.Reader }{f})
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	if f == nil {
		return 0, ErrInvalid
	}
	if f.h == nil {
		return 0, perr("seek", f.name, syscall.ESPIPE)
	}
	n, err := f.h.Seek(off, whence)
	return n, perr("seek", f.name, err)
}

func (f *File) Sync() error {
	if f == nil {
		return ErrInvalid
	}
	if f.h == nil {
		return perr("sync", f.name, syscall.EINVAL)
	}
	return perr("sync", f.name, mapErr(f.h.Sync()))
}

func (f *File) Close() error {
	if f == nil {
		return ErrInvalid
	}
	if f.h == nil {
		return nil
	}
	return perr("close", f.name, mapErr(f.h.Close()))
}

func (f *File) Chmod(mode FileMode) error {
	if f == nil {
		return ErrInvalid
	}
	if f.h == nil {
		return nil
	}
	return perr("chmod", f.name, mapErr(f.h.Chmod(uint32(mode.Perm()))))
}

func (f *File) Chown(uid, gid int) error              { return nil }
func (f *File) SetDeadline(t time.Time) error         { return ErrNoDeadline }
func (f *File) SetReadDeadline(t time.Time) error     { return ErrNoDeadline }
func (f *File) SetWriteDeadline(t time.Time) error    { return ErrNoDeadline }
func (f *File) SyscallConn() (syscall.RawConn, error) { return nil, ErrInvalid }
func (f *File) Chdir() error                          { return nil }
func (f *File) Truncate(n int64) error {
	if f == nil {
		return ErrInvalid
	}
	return perr("truncate", f.name, mapErr(f.h.Truncate(n)))
}

func (f *File) Stat() (FileInfo, error) {
	if f == nil {
		return nil, ErrInvalid
	}
	if f.h == nil {
		return fileInfo{name: path.Base(f.name), mode: fs.ModeCharDevice | fs.ModeDevice | 0620}, nil
	}
	if sim.Dying() {
		return nil, perr("stat", f.name, vfs.ErrDead)
	}
	if f.h.Closed {
		return nil, perr("stat", f.name, ErrClosed)
	}
	return infoOf(path.Base(f.name), f.h.In), nil
}

func (f *File) ReadDir(n int) ([]DirEntry, error) {
	if f == nil || f.h == nil {
		return nil, ErrInvalid
	}
	es, err := f.h.List(n)
	if err != nil {
		return nil, perr("readdirent", f.name, mapErr(err))
	}
	var r []DirEntry
	for _, e := range es {
		r = append(r, dirEntry{infoOf(e.Name, e.In)})
	}
	if n > 0 && len(r) == 0 {
		return nil, io.EOF
	}
	return r, nil
}

func (f *File) Readdir(n int) ([]FileInfo, error) {
	es, err := f.ReadDir(n)
	var r []FileInfo
	for _, e := range es {
		i, _ := e.Info()
		r = append(r, i)
	}
	return r, err
}

func (f *File) Readdirnames(n int) ([]string, error) {
	es, err := f.ReadDir(n)
	var r []string
	for _, e := range es {
		r = append(r, e.Name())
	}
	return r, err
}

type fileInfo struct {
	name  string
	size  int64
	mode  FileMode
	mtime time.Time
	in    *vfs.Inode
}

func (i fileInfo) Name() string       { return i.name }
func (i fileInfo) Size() int64        { return i.size }
func (i fileInfo) Mode() FileMode     { return i.mode }
func (i fileInfo) ModTime() time.Time { return i.mtime }
func (i fileInfo) IsDir() bool        { return i.mode.IsDir() }
func (i fileInfo) Sys() any           { return nil }

type dirEntry struct{ i fileInfo }

func (d dirEntry) Name() string            { return d.i.name }
func (d dirEntry) IsDir() bool             { return d.i.IsDir() }
func (d dirEntry) Type() FileMode          { return d.i.mode.Type() }
func (d dirEntry) Info() (FileInfo, error) { return d.i, nil }

func infoOf(name string, in *vfs.Inode) fileInfo {
	m := FileMode(in.Mode)
	sz := int64(len(in.Data))
	switch in.Kind {
	case vfs.KDir:
		m |= ModeDir
		sz = 4096
	case vfs.KLink:
		m |= ModeSymlink
		sz = int64(len(in.Target))
	}
	return fileInfo{name, sz, m, time.Unix(0, in.Mtime), in}
}

func SameFile(a, b FileInfo) bool {
	x, ok1 := a.(fileInfo)
	y, ok2 := b.(fileInfo)
	return ok1 && ok2 && x.in != nil && x.in == y.in
}

func Stat(name string) (FileInfo, error) {
	in, err := vfs.Get().Stat(name, true)
	if err != nil {
		return nil, perr("stat", name, err)
	}
	return infoOf(path.Base(name), in), nil
}

func Lstat(name string) (FileInfo, error) {
	in, err := vfs.Get().Stat(name, false)
	if err != nil {
		return nil, perr("lstat", name, err)
	}
	return infoOf(path.Base(name), in), nil
}

func Mkdir(name string, perm FileMode) error {
	return perr("mkdir", name, vfs.Get().Mkdir(name, uint32(perm.Perm())))
}

func MkdirAll(p string, perm FileMode) error {
	i, err := Stat(p)
	if err == nil {
		if i.IsDir() {
			return nil
		}
		return perr("mkdir", p, syscall.ENOTDIR)
	}
	d := strings.TrimRight(p, "/")
	if k := strings.LastIndex(d, "/"); k > 0 {
		if err := MkdirAll(d[:k], perm); err != nil {
			return err
		}
	}
	err = Mkdir(p, perm)
	if err != nil {
		i, err1 := Lstat(p)
		if err1 == nil && i.IsDir() {
			return nil
		}
		return err
	}
	return nil
}

func Remove(name string) error {
	return perr("remove", name, vfs.Get().Remove(name, 2))
}

func RemoveAll(p string) error {
	err := vfs.Get().Remove(p, 2)
	if err == nil || err == syscall.ENOENT {
		return nil
	}
	if err != syscall.ENOTEMPTY {
		return perr("unlinkat", p, err)
	}
	es, err := ReadDir(p)
	if err != nil {
		return err
	}
	for _, e := range es {
		if err := RemoveAll(p + "/" + e.Name()); err != nil {
			return err
		}
	}
	return perr("unlinkat", p, vfs.Get().Remove(p, 2))
}

func Rename(a, b string) error {
	if err := vfs.Get().Rename(a, b); err != nil {
		return &LinkError{Op: "rename", Old: a, New: b, Err: err}
	}
	return nil
}

func Symlink(a, b string) error {
	if err := vfs.Get().Symlink(a, b); err != nil {
		return &LinkError{Op: "symlink", Old: a, New: b, Err: err}
	}
	return nil
}

func Link(a, b string) error {
	if err := vfs.Get().Link(a, b); err != nil {
		return &LinkError{Op: "link", Old: a, New: b, Err: err}
	}
	return nil
}

func Readlink(name string) (string, error) {
	t, err := vfs.Get().Readlink(name)
	return t, perr("readlink", name, err)
}

func Chmod(name string, mode FileMode) error {
	return perr("chmod", name, vfs.Get().Chmod(name, uint32(mode.Perm())))
}

func Chown(name string, uid, gid int) error     { return nil }
func Lchown(name string, uid, gid int) error    { return nil }
func Chtimes(name string, a, m time.Time) error { _, err := Stat(name); return err }
func Truncate(name string, n int64) error {
	return perr("truncate", name, vfs.Get().Truncate(name, n))
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var out []byte
	buf := make([]byte, 512)
	for {
		n, err := f.Read(buf)
		out = append(out, buf[:n]...)
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return out, err
		}
	}
}

func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func ReadDir(name string) ([]DirEntry, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	es, err := f.ReadDir(-1)
	sort.Slice(es, func(i, j int) bool { return es[i].Name() < es[j].Name() })
	return es, err
}

func TempDir() string {
	return "/tmp"
}

func tempName(dir, pattern string) (string, string, error) {
	if dir == "" {
		dir = TempDir()
	}
	if strings.Contains(pattern, "/") {
		return "", "", errors.New("pattern contains path separator")
	}
	prefix, suffix := pattern, ""
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		prefix, suffix = pattern[:i], pattern[i+1:]
	}
	return dir + "/" + prefix, suffix, nil
}

func CreateTemp(dir, pattern string) (*File, error) {
	prefix, suffix, err := tempName(dir, pattern)
	if err != nil {
		return nil, perr("createtemp", pattern, err)
	}
	for try := 0; ; try++ {
		name := prefix + itoa(sim.W.TempNumber()) + suffix
		f, err := OpenFile(name, O_RDWR|O_CREATE|O_EXCL, 0600)
		if IsExist(err) && try < 10000 {
			continue
		}
		return f, err
	}
}

func MkdirTemp(dir, pattern string) (string, error) {
	prefix, suffix, err := tempName(dir, pattern)
	if err != nil {
		return "", perr("mkdirtemp", pattern, err)
	}
	for try := 0; ; try++ {
		name := prefix + itoa(sim.W.TempNumber()) + suffix
		err := Mkdir(name, 0700)
		if IsExist(err) && try < 10000 {
			continue
		}
		if err != nil {
			return "", err
		}
		return name, nil
	}
}

func itoa(n int) string {
	if n == 0 {
		return "0"
	}
	s := ""
	for n > 0 {
		s = string(rune('0'+n%10)) + s
		n /= 10
	}
	return s
}

// ---------------------------------------------------------------- process

func Exit(code int) { sim.Exit(code) }

func Getpid() int {
	if p := sim.CurProc(); p != nil {
		return p.Pid
	}
	return 1
}

func Getppid() int { return 1 }
func Getuid() int  { return 0 }
func Geteuid() int { return 0 }
func Getgid() int  { return 0 }
func Getegid() int { return 0 }

func Hostname() (string, error)      { return "sim", nil }
func Getwd() (string, error)         { return "/", nil }
func Chdir(string) error             { return nil }
func UserHomeDir() (string, error)   { return "/root", nil }
func UserConfigDir() (string, error) { return "/root/.config", nil }
func UserCacheDir() (string, error)  { return "/root/.cache", nil }
func Executable() (string, error)    { return "/usr/bin/sim", nil }
func Getpagesize() int               { return 4096 }

func env() map[string]string {
	return sim.Local("env", func() map[string]string {
		return map[string]string{"HOME": "/root", "PATH": "/usr/bin:/bin", "USER": "root"}
	})
}

func Getenv(k string) string            { return env()[k] }
func LookupEnv(k string) (string, bool) { v, ok := env()[k]; return v, ok }
func Setenv(k, v string) error          { env()[k] = v; return nil }
func Unsetenv(k string) error           { delete(env(), k); return nil }
func Clearenv() {
	e := env()
	for k := range e {
		delete(e, k)
	}
}
func Environ() []string {
	e := env()
	var r []string
	for _, k := range sim.SortedKeys(e) {
		r = append(r, k+"="+e[k])
	}
	return r
}

// Args is per process: the rewriting turns uses of os.Args into this variable,
// which the simulator swaps with the process (see init).
var Args []string

func init() {
	sim.RegisterPackage("os", func() {
		Stdin = &File{name: "/dev/stdin", std: 1}
		Stdout = &File{name: "/dev/stdout", std: 2}
		Stderr = &File{name: "/dev/stderr", std: 3}
		Args = nil
		if p := sim.CurProc(); p != nil {
			Args = p.Args
		}
	}, func() func() {
		a, i, o, e := Args, Stdin, Stdout, Stderr
		return func() { Args, Stdin, Stdout, Stderr = a, i, o, e }
	})
}

// The terminal hands out at most one typed line per read.
func readStdin(b []byte) (int, error) {
	p := sim.CurProc()
	if p == nil || sim.Dying() {
		return 0, io.EOF
	}
	sim.Point()
	fsys := vfs.Get()
	fsys.Terminal("tty-read")
	for len(p.Stdin) > 0 && len(p.Stdin[0]) == 0 {
		p.Stdin = p.Stdin[1:]
	}
	if len(p.Stdin) == 0 {
		return 0, io.EOF
	}
	n := copy(b, p.Stdin[0])
	p.Stdin[0] = p.Stdin[0][n:]
	return n, nil
}

func writeStd(fd int, b []byte) (int, error) {
	p := sim.CurProc()
	if p == nil {
		return len(b), nil
	}
	if sim.Dying() {
		return 0, vfs.ErrDead
	}
	if p.FailOut != nil {
		if n, err := p.FailOut(len(b)); err != nil {
			p.Out.Write(b[:n])
			return n, err
		}
	}
	if fd == 2 {
		p.Err.Write(b)
	} else {
		p.Out.Write(b)
	}
	return len(b), nil
}
