package main

import (
	"fmt"

	"github.com/KarmaPenny/pdfparser/zzsim/gen"
	"github.com/KarmaPenny/pdfparser/zzsim/rt"
)

// Scn is one run, written out: nothing else influences what happens in it.
// Every index into a run-time list is taken modulo its length, so that any
// reduction of a scenario is again a scenario.
type Scn struct {
	Prop  string         `json:"prop"`
	Kind  string         `json:"kind,omitempty"`
	Docs  []*gen.Doc     `json:"docs,omitempty"`
	Maps  []uint64       `json:"maps,omitempty"` // map-order schedules
	Dels  []rt.Delivery  `json:"dels,omitempty"` // read schedules
	Muts  []Mut          `json:"muts,omitempty"` // damage to the bytes
	Sels  []Sel          `json:"sels,omitempty"` // I/O faults
	Crash []Sel          `json:"crash,omitempty"`
	Dam   []Act          `json:"dam,omitempty"` // damage to the cross-reference data
	Acts  []Act          `json:"acts,omitempty"`
	Sw    []Switch       `json:"sw,omitempty"` // preemptions
	Pw    string         `json:"pw,omitempty"`
	PwSet bool           `json:"pwset,omitempty"`
	Raw   []byte         `json:"raw,omitempty"` // literal file content
	N     map[string]int `json:"n,omitempty"`
	Seed  uint64         `json:"seed,omitempty"`
}

// Mut is one piece of byte damage.
type Mut struct {
	K   string `json:"k"` // flip zero ins del dup cut set swap
	At  int    `json:"at"`
	Len int    `json:"len,omitempty"`
	B   []byte `json:"b,omitempty"`
}

// Sel selects an operation of the fault-free run and says how it fails.
type Sel struct {
	Kind   string `json:"kind,omitempty"` // operation kind, "" = any
	Nth    int    `json:"nth"`
	Err    string `json:"err,omitempty"`
	Done   int    `json:"done,omitempty"` // percent of the operation carried out
	Repeat bool   `json:"repeat,omitempty"`
}

// Act is one step of a history, or one piece of structural damage.
type Act struct {
	K string `json:"k"`
	A int    `json:"a,omitempty"`
	B int    `json:"b,omitempty"`
	C int    `json:"c,omitempty"`
}

// Switch moves control to client To after the fraction At (of 2^20) of the
// total work.
type Switch struct {
	At int `json:"at"`
	To int `json:"to"`
}

func (s *Scn) n(k string) int { return s.N[k] }
func (s *Scn) mapSeed(i int) uint64 {
	if i < len(s.Maps) {
		return s.Maps[i]
	}
	return 0
}
func (s *Scn) del(i int) rt.Delivery {
	if i < len(s.Dels) {
		return s.Dels[i]
	}
	return rt.Delivery{}
}

// Res is the result of one run.
type Res struct {
	Class  string // violation class, "" = none
	Msg    string
	Trace  uint64
	Steps  uint64
	Fired  map[string]int
	Probe  map[string]int
	Parses int
	Skip   bool // the scenario did not apply
	h      hasher
}

func newRes() *Res { return &Res{Fired: map[string]int{}, Probe: map[string]int{}} }

func (r *Res) fail(class, format string, a ...interface{}) *Res {
	if r.Class == "" {
		r.Class, r.Msg = class, fmt.Sprintf(format, a...)
	}
	return r
}

// note accounts for one parse.
func (r *Res) note(o *Out) *Out {
	r.Parses++
	r.Steps += o.Steps
	for k, v := range o.Fired {
		r.Fired[k] += v
	}
	r.h.out(o)
	return o
}

func (r *Res) lib(l *LibOut) *LibOut {
	r.Parses++
	r.Steps += l.Steps
	for k, v := range l.Fired {
		r.Fired[k] += v
	}
	r.h.lib(l)
	return l
}

func (r *Res) probe(k string) { r.Probe[k]++ }

// mutate applies byte damage.
func mutate(data []byte, muts []Mut) []byte {
	d := append([]byte(nil), data...)
	for _, m := range muts {
		if len(d) == 0 {
			return d
		}
		at := m.At % len(d)
		n := min(max(1, m.Len), len(d)-at)
		switch m.K {
		case "flip":
			d[at] ^= 1 << uint(m.Len&7)
		case "zero":
			for i := at; i < at+n; i++ {
				d[i] = 0
			}
		case "set":
			copy(d[at:], m.B)
		case "ins":
			d = append(d[:at:at], append(append([]byte(nil), m.B...), d[at:]...)...)
		case "del":
			d = append(d[:at:at], d[at+n:]...)
		case "dup":
			d = append(d[:at+n:at+n], append(append([]byte(nil), d[at:at+n]...), d[at+n:]...)...)
		case "cut":
			d = d[:at]
		case "swap":
			b := (at + len(d)/2) % len(d)
			n = min(n, len(d)-b)
			for i := 0; i < n; i++ {
				d[at+i], d[b+i] = d[b+i], d[at+i]
			}
		}
	}
	return d
}

var mutTokens = []string{"<<", ">>", "[", "]", "(", ")", "<", ">", "/", "%", "\n", "\r", " ", "\x00", "obj", "endobj", "stream\n", "endstream", "xref\n", "trailer", "startxref", "%%EOF", "R", "0", "-1", "99999999999999999999", "2147483648", "1 0 R", "1 0 obj", "/Type /XRef", "/Length 5 0 R", "/Prev 0", "/Kids[1 0 R]", "BT", "ET", "Tj", "#", "\\", "\\8", "\\777", "null", "true", "f", "n", "/Filter/FlateDecode", "/W[1 2 1]", "/Index[0 9]"}

func randMuts(r *rt.R, max int) []Mut {
	var ms []Mut
	for n := r.In(1, max); n > 0; n-- {
		m := Mut{At: r.N(1 << 24)}
		switch r.N(9) {
		case 0, 1:
			m.K, m.Len = "flip", r.N(8)
		case 2:
			m.K, m.Len = "zero", r.In(1, 40)
		case 3, 4:
			m.K, m.B = "ins", []byte(mutTokens[r.N(len(mutTokens))])
		case 5:
			m.K, m.Len = "del", r.In(1, 60)
		case 6:
			m.K, m.Len = "dup", r.In(1, 200)
		case 7:
			m.K, m.B = "set", []byte(mutTokens[r.N(len(mutTokens))])
		case 8:
			m.K, m.Len = "swap", r.In(1, 40)
			if r.P(1, 2) {
				m.K = "cut"
			}
		}
		ms = append(ms, m)
	}
	return ms
}

func randDelivery(r *rt.R) rt.Delivery {
	d := rt.Delivery{Seed: r.U64() >> 1, EOFWith: r.P(1, 3)}
	switch r.N(6) {
	case 0:
		d.Mode, d.Max = "fixed", 1
	case 1:
		d.Mode, d.Max = "fixed", []int{2, 3, 5, 7, 8, 9, 10, 16, 64, 255, 256, 257, 511, 1024, 4095}[r.N(15)]
	case 2:
		d.Mode, d.Max = "random", []int{2, 8, 16, 100, 4096}[r.N(5)]
	case 3:
		d.Mode, d.Max, d.ShortPct = "random", 64, 20
	case 4, 5:
		d.Mode = "bounds"
		for i := r.In(1, 12); i > 0; i-- {
			d.Bounds = append(d.Bounds, int64(r.N(8000)))
		}
	}
	if r.P(1, 6) {
		d.ZeroPct = 15
	}
	return d
}

// boundsAt is a delivery whose reads end at structure boundaries of the document.
func boundsAt(r *rt.R, b *gen.Built) rt.Delivery {
	d := rt.Delivery{Mode: "bounds", EOFWith: r.P(1, 4), Seed: r.U64() >> 1}
	near := func(p int) {
		d.Bounds = append(d.Bounds, int64(max(1, p+r.In(-2, 12))))
	}
	for i := r.In(1, 40); i > 0; i-- {
		switch r.N(6) {
		case 0:
			near(b.Sections[r.N(len(b.Sections))].Start)
		case 1:
			near(b.Starts[r.N(len(b.Starts))].Kw)
		case 2:
			near(b.Sections[r.N(len(b.Sections))].TrailKw)
		default:
			if len(b.Objs) == 0 {
				continue
			}
			o := b.Objs[r.N(len(b.Objs))]
			switch k := r.N(6); {
			case k == 0:
				near(o.Start)
			case k == 1:
				near(o.ValStart)
			case k == 2 && o.StreamKw > 0:
				near(o.StreamKw)
			case k == 3 && o.StreamKw > 0:
				near(o.StreamEnd)
			case len(o.Spans) > 0:
				s := o.Spans[r.N(len(o.Spans))]
				if r.P(1, 2) {
					near(s.Start)
				} else {
					near(s.End - 3)
				}
			}
		}
	}
	return d
}

func randDels(r *rt.R, b *gen.Built) rt.Delivery {
	if b != nil && r.P(1, 2) {
		return boundsAt(r, b)
	}
	return randDelivery(r)
}

func randMap(r *rt.R) uint64 {
	switch r.N(4) {
	case 0:
		return 0
	case 1:
		return 1
	}
	return r.U64()>>1 | 2
}

var errnoNames = []string{"EIO", "ENOSPC", "EACCES", "EMFILE", "EROFS", "EDQUOT", "EBUSY", "ENOENT", "EINVAL", "ESTALE"}

func randSel(r *rt.R) Sel {
	s := Sel{Nth: r.N(1 << 20), Err: errnoNames[r.N(len(errnoNames))]}
	s.Kind = r.Pick("", "*", "open", "read", "read", "seek", "seek", "create", "create", "write", "write", "write", "write", "close", "close", "mkdir", "removeall", "stat")
	if r.P(1, 2) {
		s.Done = r.N(100)
	}
	s.Repeat = r.P(1, 3)
	return s
}

// pick resolves a selection against the operations of the fault-free run.
func (s Sel) pick(ops []rt.Op) (rt.Fault, bool) {
	var idx []int
	if s.Kind == "*" { // any kind that occurs, however rare
		var kinds []string
		for _, o := range ops {
			if !has(kinds, o.Kind) {
				kinds = append(kinds, o.Kind)
			}
		}
		if len(kinds) > 0 {
			s.Kind = kinds[s.Nth>>8%len(kinds)]
		}
	}
	for i, o := range ops {
		if s.Kind == "" || o.Kind == s.Kind {
			idx = append(idx, i)
		}
	}
	if len(idx) == 0 {
		return rt.Fault{}, false
	}
	k := s.Nth % len(idx)
	// half of the selections favour the ends, where little else happens
	if len(idx) > 8 && s.Nth&(1<<19) != 0 {
		if k%2 == 0 {
			k = len(idx) - 1 - (k/2)%4
		} else {
			k = (k / 2) % 4
		}
	}
	o := ops[idx[k]]
	n := o.N
	if o.Kind == "removeall" || o.Kind == "close" {
		n = 10
	}
	return rt.Fault{At: o.Seq, Err: s.Err, Done: n * s.Done / 100, Repeat: s.Repeat}, true
}

func faults(sels []Sel, ops []rt.Op) []rt.Fault {
	var fs []rt.Fault
	for _, s := range sels {
		if f, ok := s.pick(ops); ok {
			fs = append(fs, f)
		}
	}
	return fs
}

func has(list []string, s string) bool {
	for _, x := range list {
		if x == s {
			return true
		}
	}
	return false
}
