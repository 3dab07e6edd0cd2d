// Package os is a drop-in replacement for the standard os package whose file
// operations act on the simulated world.
package os

import (
	"io"
	"io/fs"
	ros "os"
	"sort"
	"syscall"
	"time"

	"github.com/KarmaPenny/pdfparser/zzsim/rt"
)

// unchanged parts of the package -------------------------------------------------

type (
	DirEntry     = ros.DirEntry
	FileInfo     = ros.FileInfo
	FileMode     = ros.FileMode
	LinkError    = ros.LinkError
	PathError    = ros.PathError
	Signal       = ros.Signal
	SyscallError = ros.SyscallError
)

const (
	DevNull           = ros.DevNull
	ModeAppend        = ros.ModeAppend
	ModeCharDevice    = ros.ModeCharDevice
	ModeDevice        = ros.ModeDevice
	ModeDir           = ros.ModeDir
	ModeExclusive     = ros.ModeExclusive
	ModeIrregular     = ros.ModeIrregular
	ModeNamedPipe     = ros.ModeNamedPipe
	ModePerm          = ros.ModePerm
	ModeSetgid        = ros.ModeSetgid
	ModeSetuid        = ros.ModeSetuid
	ModeSocket        = ros.ModeSocket
	ModeSticky        = ros.ModeSticky
	ModeSymlink       = ros.ModeSymlink
	ModeTemporary     = ros.ModeTemporary
	ModeType          = ros.ModeType
	O_APPEND          = ros.O_APPEND
	O_CREATE          = ros.O_CREATE
	O_EXCL            = ros.O_EXCL
	O_RDONLY          = ros.O_RDONLY
	O_RDWR            = ros.O_RDWR
	O_SYNC            = ros.O_SYNC
	O_TRUNC           = ros.O_TRUNC
	O_WRONLY          = ros.O_WRONLY
	PathListSeparator = ros.PathListSeparator
	PathSeparator     = ros.PathSeparator
	SEEK_CUR          = 1
	SEEK_END          = 2
	SEEK_SET          = 0
)

var (
	ErrClosed           = ros.ErrClosed
	ErrDeadlineExceeded = ros.ErrDeadlineExceeded
	ErrExist            = ros.ErrExist
	ErrInvalid          = ros.ErrInvalid
	ErrNoDeadline       = ros.ErrNoDeadline
	ErrNotExist         = ros.ErrNotExist
	ErrPermission       = ros.ErrPermission
	ErrProcessDone      = ros.ErrProcessDone
	Interrupt           = ros.Interrupt
	Kill                = ros.Kill

	IsExist         = ros.IsExist
	IsNotExist      = ros.IsNotExist
	IsPathSeparator = ros.IsPathSeparator
	IsPermission    = ros.IsPermission
	IsTimeout       = ros.IsTimeout
	NewSyscallError = ros.NewSyscallError
	Expand          = ros.Expand
	Getpagesize     = ros.Getpagesize
)

var Args = ros.Args

func Getpid() int                                { return 4242 }
func Getppid() int                               { return 1 }
func Getuid() int                                { return 1000 }
func Geteuid() int                               { return 1000 }
func Getgid() int                                { return 1000 }
func Getegid() int                               { return 1000 }
func Hostname() (string, error)                  { return "sim", nil }
func Getenv(string) string                       { return "" }
func LookupEnv(string) (string, bool)            { return "", false }
func Environ() []string                          { return nil }
func Setenv(string, string) error                { return nil }
func Unsetenv(string) error                      { return nil }
func ExpandEnv(s string) string                  { return Expand(s, func(string) string { return "" }) }
func TempDir() string                            { return "/tmp" }
func Getwd() (string, error)                     { return fsys().Cwd, nil }
func UserHomeDir() (string, error)               { return "/work", nil }
func UserCacheDir() (string, error)              { return "/tmp", nil }
func UserConfigDir() (string, error)             { return "/tmp", nil }
func Executable() (string, error)                { return "/bin/pdfparser", nil }
func Chdir(dir string) error                     { fsys().Cwd = fsys().Abs(dir); return nil }
func Chown(string, int, int) error               { return nil }
func Lchown(string, int, int) error              { return nil }
func Chtimes(string, time.Time, time.Time) error { return nil }
func Readlink(name string) (string, error)       { return fsys().Readlink(name) }
func Symlink(o, n string) error                  { return fsys().Symlink(o, n) }
func Link(o, n string) error                     { return &LinkError{Op: "link", Old: o, New: n, Err: syscall.EPERM} }

func Exit(code int) { rt.Exit(code) }

// files ---------------------------------------------------------------------------

var (
	Stdin  = &File{h: rt.StdHandle(3)}
	Stdout = &File{h: rt.StdHandle(1)}
	Stderr = &File{h: rt.StdHandle(2)}
)

func fsys() *rt.FS {
	if rt.W == nil {
		panic("zzsim: file system used outside a simulated run")
	}
	return rt.W.FS
}

type File struct{ h *rt.Handle }

func (f *File) bad() error {
	if f == nil || f.h == nil {
		return ErrInvalid
	}
	return nil
}

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	h, err := fsys().Open(name, flag, perm)
	if err != nil {
		return nil, err
	}
	return &File{h}, nil
}

func Open(name string) (*File, error)   { return OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0666) }

func (f *File) Read(b []byte) (int, error) {
	if e := f.bad(); e != nil {
		return 0, e
	}
	return f.h.Read(b)
}
func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if e := f.bad(); e != nil {
		return 0, e
	}
	return f.h.ReadAt(b, off)
}
func (f *File) Write(b []byte) (int, error) {
	if e := f.bad(); e != nil {
		return 0, e
	}
	return f.h.Write(b)
}
func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if e := f.bad(); e != nil {
		return 0, e
	}
	return f.h.WriteAt(b, off)
}
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }
func (f *File) ReadFrom(r io.Reader) (int64, error) {
	if e := f.bad(); e != nil {
		return 0, e
	}
	return io.Copy(writerOnly{f}, r)
}
func (f *File) WriteTo(w io.Writer) (int64, error) {
	if e := f.bad(); e != nil {
		return 0, e
	}
	return io.Copy(w, readerOnly{f})
}

type writerOnly struct{ io.Writer }
type readerOnly struct{ io.Reader }

func (f *File) Seek(off int64, whence int) (int64, error) {
	if e := f.bad(); e != nil {
		return 0, e
	}
	return f.h.Seek(off, whence)
}
func (f *File) Close() error {
	if e := f.bad(); e != nil {
		return e
	}
	return f.h.Close()
}
func (f *File) Sync() error {
	if e := f.bad(); e != nil {
		return e
	}
	return f.h.Sync()
}
func (f *File) Truncate(n int64) error {
	if e := f.bad(); e != nil {
		return e
	}
	return f.h.Truncate(n)
}
func (f *File) Name() string                     { return f.h.Name() }
func (f *File) Fd() uintptr                      { return uintptr(f.h.ID + 3) }
func (f *File) Chmod(FileMode) error             { return f.bad() }
func (f *File) Chown(int, int) error             { return f.bad() }
func (f *File) Chdir() error                     { return f.bad() }
func (f *File) SetDeadline(time.Time) error      { return ErrNoDeadline }
func (f *File) SetReadDeadline(time.Time) error  { return ErrNoDeadline }
func (f *File) SetWriteDeadline(time.Time) error { return ErrNoDeadline }
func (f *File) Stat() (FileInfo, error) {
	if e := f.bad(); e != nil {
		return nil, e
	}
	if f.h.Std > 0 {
		return info{name: f.h.Name()}, nil
	}
	n, err := f.h.Stat()
	if err != nil {
		return nil, err
	}
	return infoOf(f.h.Name(), n), nil
}
func (f *File) ReadDir(n int) ([]DirEntry, error) { return ReadDir(f.h.Path()) }
func (f *File) Readdir(n int) ([]FileInfo, error) {
	es, err := ReadDir(f.h.Path())
	var out []FileInfo
	for _, e := range es {
		i, _ := e.Info()
		out = append(out, i)
	}
	return out, err
}
func (f *File) Readdirnames(n int) ([]string, error) { return fsys().List(f.h.Path()) }

type info struct {
	name string
	size int64
	mode FileMode
	node *rt.Node
}

func (i info) Name() string       { return i.name }
func (i info) Size() int64        { return i.size }
func (i info) Mode() FileMode     { return i.mode }
func (i info) ModTime() time.Time { return time.Unix(1000000000, 0) }
func (i info) IsDir() bool        { return i.mode.IsDir() }
func (i info) Sys() any           { return nil }

func infoOf(name string, n *rt.Node) info {
	m := n.Mode
	if n.Dir {
		m |= ModeDir
	}
	if n.Link != "" {
		m |= ModeSymlink
	}
	b := fsys().Abs(name)
	for j := len(b) - 1; j >= 0; j-- {
		if b[j] == '/' {
			b = b[j+1:]
			break
		}
	}
	return info{b, int64(len(n.Data)), m, n}
}

func SameFile(a, b FileInfo) bool {
	x, ok1 := a.(info)
	y, ok2 := b.(info)
	return ok1 && ok2 && x.node != nil && x.node == y.node
}

func Stat(name string) (FileInfo, error) {
	n, err := fsys().Stat(name)
	if err != nil {
		return nil, err
	}
	return infoOf(name, n), nil
}
func Lstat(name string) (FileInfo, error) {
	n, err := fsys().Lstat(name)
	if err != nil {
		return nil, err
	}
	return infoOf(name, n), nil
}
func Mkdir(name string, m FileMode) error    { return fsys().Mkdir(name, m) }
func MkdirAll(name string, m FileMode) error { return fsys().MkdirAll(name, m) }
func Remove(name string) error               { return fsys().Remove(name) }
func RemoveAll(name string) error            { return fsys().RemoveAll(name) }
func Rename(a, b string) error               { return fsys().Rename(a, b) }
func Truncate(name string, n int64) error    { return fsys().Truncate(name, n) }
func Chmod(name string, m FileMode) error    { return fsys().Chmod(name, m) }
func DirFS(dir string) fs.FS                 { return ros.DirFS("/nonexistent-simulated") }
func CreateTemp(dir, pat string) (*File, error) {
	return OpenFile(fsys().TempName(dir, pat), O_RDWR|O_CREATE|O_EXCL, 0600)
}
func MkdirTemp(dir, pat string) (string, error) {
	n := fsys().TempName(dir, pat)
	return n, Mkdir(n, 0700)
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

type entry struct{ info }

func (e entry) Type() FileMode          { return e.mode.Type() }
func (e entry) Info() (FileInfo, error) { return e.info, nil }
func (e entry) String() string          { return fs.FormatDirEntry(e) }

func ReadDir(name string) ([]DirEntry, error) {
	names, err := fsys().List(name)
	if err != nil {
		return nil, err
	}
	sort.Strings(names)
	var out []DirEntry
	for _, n := range names {
		d, _ := fsys().Real(fsys().Abs(name), true)
		p := d + "/" + n
		out = append(out, entry{infoOf(p, fsys().Nodes[fsys().Abs(p)])})
	}
	return out, nil
}
