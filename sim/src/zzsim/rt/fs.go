package rt

import (
	"io"
	"io/fs"
	"path"
	"runtime"
	"sort"
	"strings"
	"syscall"
)

// maxOps bounds the log of operations: beyond it reads and seeks are only counted.
const maxOps = 1 << 19

// FS is the simulated file system: a tree of nodes, a handle table, a log of
// every operation, and the fault plan applied to them.
type FS struct {
	w       *World
	Nodes   map[string]*Node // by clean absolute path
	Cwd     string
	Ops     []Op // what was done, the first maxOps reads at most
	seq     int  // how many operations there were
	last    Op
	Handles []*Handle
	Faults  []Fault
	CrashAt int // operation number at which the process dies; 0 = never
	// CrashTorn is how many bytes of the crashing write still reach the file.
	CrashTorn int
	Delivery  Delivery
	// From operation SwapAt on the file SwapPath has other content: someone
	// writes it, truncates it or copies another over it while it is read.
	SwapAt    int
	SwapPath  string
	SwapData  []byte
	Fired     map[string]int // fault kind -> times it took effect
	FailedOps int            // operations that returned an injected error
	SilentBad int
	tempSeq   int
	readR     *R
	reads     int
	Stdout    []byte
	Stderr    []byte
}

type Node struct {
	Dir   bool
	Data  []byte
	Mode  fs.FileMode
	Ver   int // bumped on every change
	Input bool
	Link  string // a symbolic link to this path
}

type Op struct {
	Seq    int    `json:"seq"`
	Client int    `json:"client,omitempty"`
	Kind   string `json:"kind"`
	Path   string `json:"path"`
	N      int    `json:"n,omitempty"`
	Err    string `json:"err,omitempty"`
	Fault  bool   `json:"fault,omitempty"`
}

// Fault makes operation number At fail. With Repeat every later operation of
// the same kind on the same path fails too.
type Fault struct {
	At     int    `json:"at"`
	Err    string `json:"err"`
	Done   int    `json:"done,omitempty"` // bytes processed before the failure
	Repeat bool   `json:"repeat,omitempty"`
	// Instead of At: the Nth operation of this kind on this path.
	OnKind string `json:"on_kind,omitempty"`
	OnPath string `json:"on_path,omitempty"`
	Nth    int    `json:"nth,omitempty"`
	kind   string
	path   string
	at     int
}

// Delivery decides how reads of input files are divided.
type Delivery struct {
	Mode     string  `json:"mode,omitempty"` // "" whole, "fixed", "random", "bounds"
	Max      int     `json:"max,omitempty"`  // fixed/random: largest read
	Seed     uint64  `json:"seed,omitempty"`
	Bounds   []int64 `json:"bounds,omitempty"`    // file offsets no read crosses
	EOFWith  bool    `json:"eof_with,omitempty"`  // io.EOF together with the last bytes
	ZeroPct  int     `json:"zero_pct,omitempty"`  // percentage of empty reads
	ShortPct int     `json:"short_pct,omitempty"` // random: percentage of reads that are short (0 = all)
}

var Errnos = map[string]error{
	"EIO": syscall.EIO, "ENOSPC": syscall.ENOSPC, "EACCES": syscall.EACCES, "ENOENT": syscall.ENOENT,
	"EMFILE": syscall.EMFILE, "EROFS": syscall.EROFS, "EDQUOT": syscall.EDQUOT, "EBUSY": syscall.EBUSY,
	"ESPIPE": syscall.ESPIPE, "ESTALE": syscall.ESTALE, "EINVAL": syscall.EINVAL, "EEXIST": syscall.EEXIST,
	"ENOTDIR": syscall.ENOTDIR, "EISDIR": syscall.EISDIR, "ENOTEMPTY": syscall.ENOTEMPTY, "EPERM": syscall.EPERM,
	"EFBIG": syscall.EFBIG, "ENOMEM": syscall.ENOMEM, "ENXIO": syscall.ENXIO,
}

func NewFS(w *World) *FS {
	f := &FS{w: w, Nodes: map[string]*Node{}, Cwd: "/work", Fired: map[string]int{}}
	for _, d := range []string{"/", "/work", "/tmp", "/in", "/etc"} {
		f.Nodes[d] = &Node{Dir: true, Mode: 0755}
	}
	return f
}

func (f *FS) Abs(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = f.Cwd + "/" + p
	}
	return path.Clean(p)
}

// Put installs a file (and its parents) without going through the fault plan.
func (f *FS) Put(p string, data []byte, input bool) {
	p = f.Abs(p)
	f.putDir(path.Dir(p))
	f.Nodes[p] = &Node{Data: data, Mode: 0644, Input: input}
}

func (f *FS) putDir(p string) {
	for ; p != "/"; p = path.Dir(p) {
		if f.Nodes[p] == nil {
			f.Nodes[p] = &Node{Dir: true, Mode: 0755}
		}
	}
}

// PutLink installs a symbolic link.
func (f *FS) PutLink(p, target string) {
	p = f.Abs(p)
	f.putDir(path.Dir(p))
	f.Nodes[p] = &Node{Mode: 0777, Link: target}
}

// Real resolves the symbolic links in p, with follow also one p itself is. What
// is missing stays as it is.
func (f *FS) Real(p string, follow bool) (string, syscall.Errno) {
	for hops := 0; ; hops++ {
		again := false
		for i := 1; i <= len(p); i++ {
			if i < len(p) && p[i] != '/' || i == len(p) && !follow {
				continue
			}
			if n := f.Nodes[p[:i]]; n != nil && n.Link != "" {
				t := n.Link
				if !path.IsAbs(t) {
					t = path.Dir(p[:i]) + "/" + t
				}
				p, again = path.Clean(t+p[i:]), true
				break
			}
		}
		if !again {
			return p, 0
		}
		if hops > 40 {
			return p, syscall.ELOOP
		}
	}
}

func (f *FS) PutDir(p string) { f.putDir(f.Abs(p)) }

// Tree returns path -> content for all files below dir (relative names).
func (f *FS) Tree(dir string) map[string][]byte {
	out := map[string][]byte{}
	p, _ := f.Real(f.Abs(dir), true)
	pre := strings.TrimSuffix(p, "/") + "/"
	for p, n := range f.Nodes {
		if strings.HasPrefix(p, pre) {
			if n.Dir {
				out[p[len(pre):]+"/"] = nil
			} else if n.Link != "" {
				out[p[len(pre):]] = []byte("a link to " + n.Link)
			} else {
				out[p[len(pre):]] = n.Data
			}
		}
	}
	return out
}

// op begins an operation: logs it, applies crash and fault plans. It returns
// the injected error, if any, and how many bytes are processed regardless.
func (f *FS) op(kind, p string, n int) (error, int, *Op) {
	if f.w.Stopped {
		runtime.Goexit()
	}
	if f.w == W {
		Step()
	}
	f.seq++
	seq := f.seq
	op := &f.last
	*op = Op{Seq: seq, Client: f.w.CurID(), Kind: kind, Path: p, N: n}
	// a parse that reads a file byte by byte over and over must not fill the
	// memory with the record of it
	if len(f.Ops) < maxOps || kind != "read" && kind != "seek" {
		f.Ops = append(f.Ops, *op)
		op = &f.Ops[len(f.Ops)-1]
	}
	if f.SwapAt > 0 && seq >= f.SwapAt {
		f.SwapAt = 0
		if n := f.Nodes[f.SwapPath]; n != nil {
			n.Data = f.SwapData
			f.Fired["input_changed:"+kind]++
		}
	}
	for i := range f.Faults {
		ft := &f.Faults[i]
		hit := ft.At == seq && ft.OnKind == ""
		if ft.OnKind == kind && ft.OnPath == p {
			ft.Nth--
			hit = ft.Nth == 0
		}
		if hit {
			ft.kind, ft.path, ft.at = kind, p, seq
		} else if ft.Repeat && ft.at > 0 && ft.kind == kind && ft.path == p && kind != "close" {
			hit = true
		}
		if hit {
			errno := Errnos[ft.Err]
			if errno == nil {
				errno = syscall.EIO
			}
			f.Fired[kind+":"+ft.Err]++
			f.FailedOps++
			op.Err, op.Fault = ft.Err, true
			return errno, ft.Done, op
		}
	}
	if f.CrashAt > 0 && seq == f.CrashAt {
		f.Fired["crash:"+kind]++
		op.Err = "CRASH"
		return errCrash, f.CrashTorn, op
	}
	return nil, 0, op
}

type crashError struct{}

func (crashError) Error() string { return "crash" }

var errCrash error = crashError{}

func (f *FS) die() {
	f.w.Stopped = true
	runtime.Goexit()
}

func perr(op, p string, err error) error { return &fs.PathError{Op: op, Path: p, Err: err} }

// Handle is an open file.
type Handle struct {
	fs     *FS
	node   *Node
	path   string
	name   string
	pos    int64
	flag   int
	Closed int // number of close calls
	After  int // operations attempted after close
	Std    int // 1 stdout, 2 stderr, 3 stdin
	ID     int
	dirPos int
	eio    bool // an injected close failure lost this file's data
	fail   error
}

func (h *Handle) Path() string { return h.path }
func (h *Handle) Name() string { return h.name }

const (
	O_WRONLY = syscall.O_WRONLY
	O_RDWR   = syscall.O_RDWR
	O_CREATE = syscall.O_CREAT
	O_EXCL   = syscall.O_EXCL
	O_TRUNC  = syscall.O_TRUNC
	O_APPEND = syscall.O_APPEND
)

func (f *FS) Open(name string, flag int, mode fs.FileMode) (*Handle, error) {
	p, loop := f.Real(f.Abs(name), flag&O_CREATE == 0 || flag&O_EXCL == 0)
	kind := "open"
	if flag&O_CREATE != 0 {
		kind = "create"
	}
	err, _, op := f.op(kind, p, 0)
	if err == errCrash {
		f.die()
	}
	if err != nil {
		return nil, perr("open", name, err)
	}
	fail := func(e syscall.Errno) (*Handle, error) {
		op.Err = e.Error()
		return nil, perr("open", name, e)
	}
	if name == "" {
		return fail(syscall.ENOENT)
	}
	if loop != 0 {
		return fail(loop)
	}
	if strings.IndexByte(name, 0) >= 0 {
		return fail(syscall.EINVAL)
	}
	if e := f.parentErr(p); e != 0 {
		return fail(e)
	}
	n := f.Nodes[p]
	write := flag&(O_WRONLY|O_RDWR) != 0
	if n == nil {
		if flag&O_CREATE == 0 {
			return fail(syscall.ENOENT)
		}
		if strings.HasSuffix(name, "/") {
			return fail(syscall.EISDIR)
		}
		n = &Node{Mode: mode}
		f.Nodes[p] = n
	} else {
		if flag&O_CREATE != 0 && flag&O_EXCL != 0 {
			return fail(syscall.EEXIST)
		}
		if n.Dir && write {
			return fail(syscall.EISDIR)
		}
		if !n.Dir && strings.HasSuffix(name, "/") {
			return fail(syscall.ENOTDIR)
		}
		if flag&O_TRUNC != 0 && !n.Dir {
			n.Data = nil
			n.Ver++
		}
	}
	h := &Handle{fs: f, node: n, path: p, name: name, flag: flag, ID: len(f.Handles)}
	f.Handles = append(f.Handles, h)
	return h, nil
}

func (f *FS) parentErr(p string) syscall.Errno {
	if p == "/" {
		return 0
	}
	for d := path.Dir(p); ; d = path.Dir(d) {
		n := f.Nodes[d]
		if n != nil && !n.Dir {
			return syscall.ENOTDIR
		}
		if n == nil {
			// a missing ancestor may still hide a non-directory above it
			for e := d; e != "/"; e = path.Dir(e) {
				if m := f.Nodes[e]; m != nil && !m.Dir {
					return syscall.ENOTDIR
				}
			}
			return syscall.ENOENT
		}
		if d == "/" {
			return 0
		}
	}
}

func (h *Handle) dead() bool {
	if h.Closed > 0 {
		h.After++
		return true
	}
	return false
}

func (h *Handle) Read(b []byte) (int, error) {
	f := h.fs
	if h.Std > 0 {
		return 0, io.EOF
	}
	if h.dead() {
		return 0, perr("read", h.name, fs.ErrClosed)
	}
	err, done, op := f.op("read", h.path, len(b))
	if err == errCrash {
		f.die()
	}
	if h.node.Dir {
		return 0, perr("read", h.name, syscall.EISDIR)
	}
	if h.flag&O_WRONLY != 0 {
		return 0, perr("read", h.name, syscall.EBADF)
	}
	avail := int64(len(h.node.Data)) - h.pos
	if avail < 0 {
		avail = 0
	}
	if err != nil {
		n := min(int64(done), avail, int64(len(b)))
		copy(b, h.node.Data[min(h.pos, int64(len(h.node.Data))):][:n])
		h.pos += n
		return int(n), perr("read", h.name, err)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if avail == 0 {
		return 0, io.EOF
	}
	n := min(avail, int64(len(b)))
	if h.node.Input {
		n = f.deliver(h.pos, n)
	}
	copy(b, h.node.Data[h.pos:h.pos+n])
	h.pos += n
	op.N = int(n)
	if f.Delivery.EOFWith && h.node.Input && n == avail {
		f.Fired["eof_with_data"]++
		return int(n), io.EOF
	}
	return int(n), nil
}

// deliver decides how much of a possible n-byte read at pos is returned.
func (f *FS) deliver(pos, n int64) int64 {
	d := &f.Delivery
	if d.Mode == "" && d.ZeroPct == 0 {
		return n
	}
	if f.readR == nil {
		f.readR = NewR(d.Seed)
	}
	if d.ZeroPct > 0 && f.readR.N(100) < d.ZeroPct {
		f.Fired["zero_read"]++
		return 0
	}
	m := n
	switch d.Mode {
	case "fixed":
		m = min(n, int64(max(1, d.Max)))
	case "random":
		if d.ShortPct == 0 || f.readR.N(100) < d.ShortPct {
			m = min(n, int64(1+f.readR.N(max(1, d.Max))))
		}
	case "bounds":
		for _, b := range d.Bounds {
			if b > pos && b-pos < m {
				m = b - pos
			}
		}
	}
	if m < n {
		f.Fired["short_read"]++
	}
	return m
}

func (h *Handle) ReadAt(b []byte, off int64) (int, error) {
	if h.dead() {
		return 0, perr("read", h.name, fs.ErrClosed)
	}
	err, _, _ := h.fs.op("read", h.path, len(b))
	if err == errCrash {
		h.fs.die()
	}
	if err != nil {
		return 0, perr("read", h.name, err)
	}
	if off < 0 {
		return 0, perr("readat", h.name, syscall.EINVAL)
	}
	if off >= int64(len(h.node.Data)) {
		return 0, io.EOF
	}
	n := copy(b, h.node.Data[off:])
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

func (h *Handle) Seek(off int64, whence int) (int64, error) {
	if h.Std > 0 {
		return 0, perr("seek", h.name, syscall.ESPIPE)
	}
	if h.dead() {
		return 0, perr("seek", h.name, fs.ErrClosed)
	}
	err, _, _ := h.fs.op("seek", h.path, 0)
	if err == errCrash {
		h.fs.die()
	}
	if err != nil {
		return 0, perr("seek", h.name, err)
	}
	var base int64
	switch whence {
	case io.SeekStart:
	case io.SeekCurrent:
		base = h.pos
	case io.SeekEnd:
		base = int64(len(h.node.Data))
	default:
		return 0, perr("seek", h.name, syscall.EINVAL)
	}
	if base+off < 0 {
		return 0, perr("seek", h.name, syscall.EINVAL)
	}
	h.pos = base + off
	return h.pos, nil
}

func (h *Handle) Write(b []byte) (int, error) {
	f := h.fs
	if h.Std > 0 && f == stdSink {
		return len(b), nil
	}
	switch h.Std {
	case 1:
		f.Stdout = append(f.Stdout, b...)
		return len(b), nil
	case 2:
		f.Stderr = append(f.Stderr, b...)
		return len(b), nil
	}
	if h.dead() {
		return 0, perr("write", h.name, fs.ErrClosed)
	}
	err, done, _ := f.op("write", h.path, len(b))
	if h.flag&(O_WRONLY|O_RDWR) == 0 {
		return 0, perr("write", h.name, syscall.EBADF)
	}
	n := len(b)
	if err != nil {
		n = min(done, len(b))
	}
	if h.flag&O_APPEND != 0 {
		h.pos = int64(len(h.node.Data))
	}
	h.writeAt(b[:n], h.pos)
	h.pos += int64(n)
	if err == errCrash {
		f.die()
	}
	if err != nil {
		return n, perr("write", h.name, err)
	}
	return n, nil
}

func (h *Handle) writeAt(b []byte, off int64) {
	if len(b) == 0 {
		return
	}
	nd := h.node
	nd.Ver++
	end := off + int64(len(b))
	if off == int64(len(nd.Data)) {
		nd.Data = append(nd.Data, b...)
		return
	}
	d := make([]byte, max(end, int64(len(nd.Data))))
	copy(d, nd.Data)
	copy(d[off:], b)
	nd.Data = d
}

func (h *Handle) WriteAt(b []byte, off int64) (int, error) {
	if h.dead() {
		return 0, perr("write", h.name, fs.ErrClosed)
	}
	err, done, _ := h.fs.op("write", h.path, len(b))
	n := len(b)
	if err != nil {
		n = min(done, len(b))
	}
	h.writeAt(b[:n], off)
	if err == errCrash {
		h.fs.die()
	}
	if err != nil {
		return n, perr("write", h.name, err)
	}
	return n, nil
}

func (h *Handle) Close() error {
	if h.Std > 0 {
		return nil
	}
	if h.Closed > 0 {
		h.Closed++
		return perr("close", h.name, fs.ErrClosed)
	}
	err, done, _ := h.fs.op("close", h.path, 0)
	if err == errCrash {
		h.fs.die()
	}
	h.Closed++
	if err != nil {
		// deferred write-back failed: the tail of the data never reached the disk
		if h.flag&(O_WRONLY|O_RDWR) != 0 && done < len(h.node.Data) {
			h.node.Data = append([]byte(nil), h.node.Data[:done]...)
			h.node.Ver++
		}
		return perr("close", h.name, err)
	}
	return nil
}

func (h *Handle) Sync() error {
	if h.dead() {
		return perr("sync", h.name, fs.ErrClosed)
	}
	err, _, _ := h.fs.op("sync", h.path, 0)
	if err == errCrash {
		h.fs.die()
	}
	if err != nil {
		return perr("sync", h.name, err)
	}
	return nil
}

func (h *Handle) Truncate(n int64) error {
	if h.dead() {
		return perr("truncate", h.name, fs.ErrClosed)
	}
	err, _, _ := h.fs.op("truncate", h.path, int(n))
	if err == errCrash {
		h.fs.die()
	}
	if err != nil {
		return perr("truncate", h.name, err)
	}
	h.node.resize(n)
	return nil
}

func (n *Node) resize(size int64) {
	n.Ver++
	d := make([]byte, size)
	copy(d, n.Data)
	n.Data = d
}

func (h *Handle) Node() *Node { return h.node }

func (h *Handle) Stat() (*Node, error) {
	err, _, _ := h.fs.op("stat", h.path, 0)
	if err == errCrash {
		h.fs.die()
	}
	if err != nil {
		return nil, perr("stat", h.name, err)
	}
	return h.node, nil
}

// simple path operations ----------------------------------------------------

// do runs a one-shot path operation with fault handling.
func (f *FS) do(kind, verb, name string, follow bool, fn func(p string) error) error {
	p, loop := f.Real(f.Abs(name), follow)
	err, _, op := f.op(kind, p, 0)
	if err == errCrash {
		f.die()
	}
	if err == nil && loop != 0 {
		op.Err = loop.Error()
		err = loop
	}
	if err != nil {
		return perr(verb, name, err)
	}
	if e := fn(p); e != nil {
		op.Err = e.Error()
		return perr(verb, name, e)
	}
	return nil
}

func (f *FS) Stat(name string) (*Node, error) { return f.stat("stat", name, true) }

func (f *FS) Lstat(name string) (*Node, error) {
	return f.stat("lstat", name, strings.HasSuffix(name, "/"))
}

func (f *FS) stat(verb, name string, follow bool) (*Node, error) {
	var n *Node
	err := f.do("stat", verb, name, follow, func(p string) error {
		if e := f.parentErr(p); e != 0 {
			return e
		}
		n = f.Nodes[p]
		if n == nil || name == "" {
			return syscall.ENOENT
		}
		if !n.Dir && strings.HasSuffix(name, "/") {
			return syscall.ENOTDIR
		}
		return nil
	})
	if err != nil {
		return nil, err
	}
	return n, nil
}

func (f *FS) Mkdir(name string, mode fs.FileMode) error {
	return f.do("mkdir", "mkdir", name, false, func(p string) error {
		if name == "" {
			return syscall.ENOENT
		}
		if e := f.parentErr(p); e != 0 {
			return e
		}
		if f.Nodes[p] != nil {
			return syscall.EEXIST
		}
		f.Nodes[p] = &Node{Dir: true, Mode: mode}
		return nil
	})
}

func (f *FS) MkdirAll(name string, mode fs.FileMode) error {
	return f.do("mkdir", "mkdir", name, true, func(p string) error {
		if name == "" {
			return syscall.ENOENT
		}
		// a link that leads nowhere is in the way
		if q, _ := f.Real(f.Abs(name), false); f.Nodes[q] != nil && f.Nodes[q].Link != "" && f.Nodes[p] == nil {
			return syscall.EEXIST
		}
		var miss []string
		for d := p; ; d = path.Dir(d) {
			if n := f.Nodes[d]; n != nil {
				if !n.Dir {
					return syscall.ENOTDIR
				}
				break
			}
			miss = append(miss, d)
		}
		for _, d := range miss {
			f.Nodes[d] = &Node{Dir: true, Mode: mode}
		}
		return nil
	})
}

func (f *FS) children(p string) []string {
	pre := strings.TrimSuffix(p, "/") + "/"
	var out []string
	for q := range f.Nodes {
		if strings.HasPrefix(q, pre) && q != p {
			out = append(out, q)
		}
	}
	sort.Strings(out)
	return out
}

func (f *FS) Remove(name string) error {
	return f.do("remove", "remove", name, false, func(p string) error {
		if f.Nodes[p] == nil {
			return syscall.ENOENT
		}
		if len(f.children(p)) > 0 {
			return syscall.ENOTEMPTY
		}
		delete(f.Nodes, p)
		return nil
	})
}

// RemoveAll removes a tree; an injected failure stops it half-way.
func (f *FS) RemoveAll(name string) error {
	p, loop := f.Real(f.Abs(name), false)
	err, done, op := f.op("removeall", p, 0)
	if err == nil && loop != 0 {
		err, done = loop, 0
	}
	if name == "" {
		return nil
	}
	if strings.HasSuffix(name, "/.") || name == "." {
		op.Err = "invalid argument"
		return perr("RemoveAll", name, syscall.EINVAL)
	}
	list := f.children(p)
	// depth first, leaves before their directories
	sort.SliceStable(list, func(i, j int) bool {
		return strings.Count(list[i], "/") > strings.Count(list[j], "/")
	})
	list = append(list, p)
	for i, q := range list {
		if err != nil && i >= done {
			break
		}
		delete(f.Nodes, q)
	}
	if err == errCrash {
		f.die()
	}
	if err != nil {
		return perr("unlinkat", name, err)
	}
	return nil
}

func (f *FS) Rename(from, to string) error {
	return f.do("rename", "rename", from, false, func(p string) error {
		q, _ := f.Real(f.Abs(to), false)
		n := f.Nodes[p]
		if n == nil {
			return syscall.ENOENT
		}
		if e := f.parentErr(q); e != 0 {
			return e
		}
		f.seq++
		f.Ops = append(f.Ops, Op{Seq: f.seq, Client: f.w.CurID(), Kind: "rename", Path: q})
		kids := f.children(p)
		delete(f.Nodes, p)
		f.Nodes[q] = n
		n.Ver++
		for _, k := range kids {
			f.Nodes[q+k[len(p):]] = f.Nodes[k]
			delete(f.Nodes, k)
		}
		return nil
	})
}

func (f *FS) Truncate(name string, size int64) error {
	return f.do("truncate", "truncate", name, true, func(p string) error {
		n := f.Nodes[p]
		if n == nil {
			return syscall.ENOENT
		}
		n.resize(size)
		return nil
	})
}

func (f *FS) Chmod(name string, mode fs.FileMode) error {
	return f.do("chmod", "chmod", name, true, func(p string) error {
		n := f.Nodes[p]
		if n == nil {
			return syscall.ENOENT
		}
		n.Mode = mode
		n.Ver++
		return nil
	})
}

func (f *FS) Readlink(name string) (string, error) {
	to := ""
	err := f.do("readlink", "readlink", name, false, func(p string) error {
		n := f.Nodes[p]
		if n == nil {
			return syscall.ENOENT
		}
		if n.Link == "" {
			return syscall.EINVAL
		}
		to = n.Link
		return nil
	})
	return to, err
}

func (f *FS) Symlink(target, name string) error {
	return f.do("create", "symlink", name, false, func(p string) error {
		if e := f.parentErr(p); e != 0 {
			return e
		}
		if f.Nodes[p] != nil {
			return syscall.EEXIST
		}
		f.Nodes[p] = &Node{Mode: 0777, Link: target}
		return nil
	})
}

func (f *FS) List(name string) ([]string, error) {
	var out []string
	err := f.do("readdir", "open", name, true, func(p string) error {
		n := f.Nodes[p]
		if n == nil {
			return syscall.ENOENT
		}
		if !n.Dir {
			return syscall.ENOTDIR
		}
		pre := strings.TrimSuffix(p, "/") + "/"
		for _, q := range f.children(p) {
			if !strings.Contains(q[len(pre):], "/") {
				out = append(out, q[len(pre):])
			}
		}
		return nil
	})
	return out, err
}

func (f *FS) TempName(dir, pattern string) string {
	if dir == "" {
		dir = "/tmp"
	}
	f.tempSeq++
	pre, suf := pattern, ""
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	num := "1000" + string(rune('0'+f.tempSeq%10)) + string(rune('0'+f.tempSeq/10%10)) + string(rune('0'+f.tempSeq/100%10))
	return path.Join(dir, pre+num+suf)
}

// Leaks reports handle misuse: never closed, closed twice, used after close.
func (f *FS) Leaks() (open, double, after []string) {
	for _, h := range f.Handles {
		if h.Closed == 0 {
			open = append(open, h.path)
		}
		if h.Closed > 1 {
			double = append(double, h.path)
		}
		if h.After > 0 {
			after = append(after, h.path)
		}
	}
	return
}
