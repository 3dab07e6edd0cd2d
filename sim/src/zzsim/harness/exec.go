package main

import (
	"bytes"
	"fmt"
	"hash/fnv"
	"sort"
	"strings"

	"github.com/KarmaPenny/pdfparser/pdf"
	"github.com/KarmaPenny/pdfparser/zzsim/gen"
	simos "github.com/KarmaPenny/pdfparser/zzsim/os"
	"github.com/KarmaPenny/pdfparser/zzsim/rt"
)

const (
	inPath  = "/in/doc.pdf"
	outPath = "/work/out"
)

var reports = []string{"commands.txt", "contents.txt", "errors.txt", "files.txt", "javascript.js", "raw.pdf", "urls.txt"}

// Env is the world one parse runs in.
type Env struct {
	InDir     bool // the input is a directory
	Pw        string
	MapSeed   uint64
	Del       rt.Delivery
	Faults    []rt.Fault
	CrashAt   int
	CrashTorn int
	SwapAt    int                 // operation at which the input file changes under the parse
	Swap      []byte              // to this
	Nodes     map[string]*rt.Node // file system to start from, nil = empty
	Out       string
	Verbose   int // 0 unset, 1 false, 2 true
	Budget    uint64
}

// swap lets the input change while it is read, at an operation of the probe run.
func swap(s *Scn, e *Env, data []byte, ops []rt.Op) {
	if _, ok := s.N["swapAt"]; !ok || len(ops) == 0 {
		return
	}
	r := rt.NewR(uint64(s.n("swap")))
	e.SwapAt = 1 + s.n("swapAt")%len(ops)
	switch r.N(6) {
	case 0:
		e.Swap = nil
	case 1:
		e.Swap = data[:r.N(len(data)+1)]
	case 2:
		e.Swap = append(append([]byte(nil), data...), data...)
	case 3:
		k := r.N(len(data) + 1)
		e.Swap = append(append([]byte(nil), data[k:]...), data[:k]...)
	case 4:
		e.Swap = append(r.Bytes(r.N(5000)), data...)
	default:
		e.Swap = mutate(data, randMuts(r, 8))
	}
}

// Out is everything a parse left behind.
type Out struct {
	Done  bool   `json:"done"` // the call returned
	OK    bool   `json:"ok"`   // it returned nil
	Err   string `json:"err"`
	Panic string `json:"panic,omitempty"`
	Stack string `json:"stack,omitempty"`
	Over  string `json:"over,omitempty"` // ran out of budget
	Tree  map[string][]byte
	Ops   []rt.Op `json:"-"`
	Steps uint64
	Open  []string
	Twice []string
	After []string
	FS    *rt.FS `json:"-"`
	// counters
	Fired  map[string]int
	Ranges uint64
}

func budget(size int) uint64 {
	s := uint64(size)
	q := min(s, 16000)
	return 60_000_000 + 2*q*q + 2000*s
}

func newWorld(data []byte, e *Env) *rt.World {
	w := rt.NewWorld()
	w.MapSeed = e.MapSeed
	w.StepBudget = e.Budget
	if w.StepBudget == 0 {
		w.StepBudget = budget(max(len(data), len(e.Swap)))
	}
	w.AllocLimit = int64(1<<24 + 64*max(len(data), len(e.Swap)))
	if e.Nodes != nil {
		w.FS.Nodes = e.Nodes
	}
	w.FS.Put(inPath, data, true)
	if e.InDir {
		w.FS.Nodes[inPath] = &rt.Node{Dir: true, Mode: 0755}
	}
	w.FS.Faults = append([]rt.Fault(nil), e.Faults...)
	w.FS.CrashAt, w.FS.CrashTorn = e.CrashAt, e.CrashTorn
	w.FS.SwapAt, w.FS.SwapPath, w.FS.SwapData = e.SwapAt, inPath, e.Swap
	w.FS.Delivery = e.Del
	return w
}

func setVerbose(v int) {
	switch v {
	case 0:
		pdf.Verbose = nil
	case 1:
		b := false
		pdf.Verbose = &b
	default:
		b := true
		pdf.Verbose = &b
	}
}

// parse runs pdf.Parse in a world of its own.
func parse(data []byte, e *Env) *Out {
	w := newWorld(data, e)
	out := e.Out
	if out == "" {
		out = outPath
	}
	setVerbose(e.Verbose)
	o := &Out{}
	cl := w.Run(func() {
		err := pdf.Parse(inPath, e.Pw, out)
		o.Done = true
		o.OK = err == nil
		if err != nil {
			o.Err = err.Error()
		}
	})
	fillOut(o, w, cl[0], out)
	return o
}

func fillOut(o *Out, w *rt.World, c *rt.Client, out string) {
	o.Panic, o.Stack = c.Panic, c.Stack
	if w.OverBudget {
		o.Over = fmt.Sprintf("more than %d steps", w.StepBudget)
	} else if w.OverAlloc > 0 && c.Panic == "" {
		o.Over = fmt.Sprintf("allocation of %d elements", w.OverAlloc)
	}
	o.Tree = w.FS.Tree(out)
	o.Ops = w.FS.Ops
	o.Steps = w.Steps
	o.Open, o.Twice, o.After = w.FS.Leaks()
	o.FS = w.FS
	o.Fired = w.FS.Fired
	o.Ranges = w.MapRanges
}

// died describes an abnormal end, "" if the parse returned.
func (o *Out) died() string {
	switch {
	case o.Panic != "":
		return "panic: " + o.Panic + " at " + o.Stack
	case o.Over != "":
		return "did not finish: " + o.Over
	case !o.Done:
		return "did not return"
	}
	return ""
}

// ObjView is one object as the library returns it.
type ObjView struct {
	Canon  string
	Stream []byte
	Gen    int
}

// LibOut is what reading a document object by object gave.
type LibOut struct {
	Out
	Objs map[int]ObjView
	Nums []int // keys of the cross-reference map
}

func canonObj(o pdf.Object) string {
	var b strings.Builder
	canon(&b, o, 0)
	return b.String()
}

func canon(b *strings.Builder, o pdf.Object, depth int) {
	if depth > 20000 {
		b.WriteString("...")
		return
	}
	switch x := o.(type) {
	case nil:
		b.WriteString("<nil>")
	case pdf.Keyword:
		if x == pdf.KEYWORD_NULL || x == "" {
			b.WriteString("null")
		} else {
			b.WriteString(string(x))
		}
	case pdf.Number:
		b.WriteString(gen.CanonNum(float64(x)))
	case pdf.Name:
		fmt.Fprintf(b, "/%x", string(x))
	case pdf.String:
		fmt.Fprintf(b, "(%x)", string(x))
	case *pdf.Reference:
		fmt.Fprintf(b, "%d-%d-R", x.Number, x.Generation)
	case pdf.Array:
		b.WriteString("[")
		for _, e := range x {
			canon(b, e, depth+1)
			b.WriteString(" ")
		}
		b.WriteString("]")
	case pdf.Dictionary:
		ks := make([]string, 0, len(x))
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		b.WriteString("<<")
		for _, k := range ks {
			fmt.Fprintf(b, "/%x ", k)
			canon(b, x[k], depth+1)
			b.WriteString(" ")
		}
		b.WriteString(">>")
	default:
		fmt.Fprintf(b, "%T(%s)", o, o.String())
	}
}

func view(o *pdf.IndirectObject) ObjView {
	return ObjView{canonObj(o.Value), o.Stream, o.Generation}
}

// library loads the document and reads the given objects in order. With nums
// nil it reads every object of the cross-reference map.
func library(data []byte, e *Env, nums []int) *LibOut {
	w := newWorld(data, e)
	setVerbose(e.Verbose)
	lo := &LibOut{Objs: map[int]ObjView{}}
	cl := w.Run(func() {
		f, err := simos.Open(inPath)
		if err != nil {
			lo.Done, lo.Err = true, err.Error()
			return
		}
		defer f.Close()
		p := pdf.NewParser(f, nil)
		if err := p.Load(e.Pw); err != nil {
			lo.Done, lo.Err = true, err.Error()
			return
		}
		for n := range p.Xref {
			lo.Nums = append(lo.Nums, n)
		}
		sort.Ints(lo.Nums)
		if nums == nil {
			nums = lo.Nums
			if len(nums) > 400 {
				nums = nums[:400]
			}
		}
		for _, n := range nums {
			lo.Objs[n] = view(p.GetObject(n))
		}
		lo.Done, lo.OK = true, true
	})
	fillOut(&lo.Out, w, cl[0], outPath)
	return lo
}

// hashing -----------------------------------------------------------------------

type hasher struct{ h uint64 }

func (h *hasher) add(parts ...string) {
	f := fnv.New64a()
	var b [8]byte
	for i := range b {
		b[i] = byte(h.h >> (8 * uint(i)))
	}
	f.Write(b[:])
	for _, p := range parts {
		f.Write([]byte(p))
		f.Write([]byte{0})
	}
	h.h = f.Sum64()
}

func (h *hasher) out(o *Out) {
	h.add(fmt.Sprint(o.Done, o.OK, o.Err, o.Panic, o.Over))
	for _, op := range o.Ops {
		h.add(op.Kind, op.Path, fmt.Sprint(op.N), op.Err)
	}
	h.tree(o.Tree)
}

func (h *hasher) tree(t map[string][]byte) {
	for _, k := range keys(t) {
		h.add(k, string(t[k]))
	}
}

func (h *hasher) lib(l *LibOut) {
	h.out(&l.Out)
	var ns []int
	for n := range l.Objs {
		ns = append(ns, n)
	}
	sort.Ints(ns)
	for _, n := range ns {
		h.add(fmt.Sprint(n), l.Objs[n].Canon, string(l.Objs[n].Stream))
	}
}

func keys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func diffTrees(a, b map[string][]byte) string {
	for _, k := range keys(a) {
		v, ok := b[k]
		if !ok {
			return fmt.Sprintf("%s is missing", k)
		}
		if !bytes.Equal(a[k], v) {
			return fmt.Sprintf("%s differs: %s", k, diffBytes(a[k], v))
		}
	}
	for _, k := range keys(b) {
		if _, ok := a[k]; !ok {
			return fmt.Sprintf("%s should not exist", k)
		}
	}
	return ""
}

func diffBytes(want, got []byte) string {
	i := 0
	for i < len(want) && i < len(got) && want[i] == got[i] {
		i++
	}
	lo := max(0, i-20)
	return fmt.Sprintf("at byte %d of %d/%d: want %q got %q", i, len(want), len(got), cut(want[min(lo, len(want)):], 60), cut(got[min(lo, len(got)):], 60))
}

func cut(b []byte, n int) []byte {
	if len(b) > n {
		return b[:n]
	}
	return b
}
