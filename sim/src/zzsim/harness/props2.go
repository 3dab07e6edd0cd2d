package main

import (
	"bytes"
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/KarmaPenny/pdfparser/pdf"
	"github.com/KarmaPenny/pdfparser/zzsim/gen"
	simos "github.com/KarmaPenny/pdfparser/zzsim/os"
	"github.com/KarmaPenny/pdfparser/zzsim/rt"
)

// C04 ---------------------------------------------------------------------------

func genC04(r *rt.R, tier string) *Scn {
	s := &Scn{Prop: "C04", Kind: r.Pick("mut", "mut", "mut", "hostile", "hostile", "hostile", "soup", "fault", "moving")}
	s.Maps = []uint64{randMap(r)}
	s.Seed = r.U64() >> 1
	switch s.Kind {
	case "mut", "fault", "moving":
		o := fullOpt()
		o.Enc = 35
		o.Kinds = append([]string{"cycle", "stream", "page", "xfa"}, gen.AllKinds...)
		s.Docs = []*gen.Doc{anyDoc(r, o)}
		if s.Kind == "fault" {
			s.Sels = randSels(r, 4)
			if r.P(1, 2) {
				s.Muts = randMuts(r, 3)
			}
		} else if s.Kind == "moving" {
			s.N = map[string]int{"swapAt": r.N(1 << 20), "swap": r.N(1 << 30)}
		} else {
			s.Muts = randMuts(r, []int{1, 3, 8, 30}[r.N(4)])
			if r.P(1, 4) {
				s.Sels = []Sel{randSel(r)}
			}
		}
		if r.P(1, 6) {
			s.Pw, s.PwSet = string(r.Bytes(r.N(40))), true
		}
	case "hostile":
		s.N = map[string]int{"t": r.N(len(hostile)), "gens": r.N(3)}
		if r.P(1, 4) {
			s.Muts = randMuts(r, 3)
		}
	case "soup":
		var b bytes.Buffer
		if r.P(1, 2) {
			b.WriteString("%PDF-1.4\n")
		}
		for i := r.In(1, 400); i > 0; i-- {
			t := mutTokens[r.N(len(mutTokens))]
			if r.P(1, 6) {
				t = fmt.Sprintf("%d 0 obj", r.N(9))
			}
			b.WriteString(t)
			if r.P(2, 3) {
				b.WriteByte(" \n\r"[r.N(3)])
			}
		}
		s.Raw = b.Bytes()
	}
	if r.P(1, 6) {
		s.Dels = []rt.Delivery{randDelivery(r)}
	}
	return s
}

func runC04(s *Scn) *Res {
	res := newRes()
	var data []byte
	e := &Env{MapSeed: s.mapSeed(0), Del: s.del(0), Pw: s.Pw}
	what := s.Kind
	switch s.Kind {
	case "hostile":
		h := hostile[s.n("t")%len(hostile)]
		data = hostileBytes(s)
		what = "hostile file " + h.name
		res.probe("hostile:" + h.name)
	case "soup":
		data = s.Raw
	default:
		b := s.Docs[0].Build()
		data = b.Data
		e.Pw = pwOf(s, b)
	}
	data = mutate(data, s.Muts)
	if len(s.Sels) > 0 || s.Kind == "moving" {
		clean := res.note(parse(data, e))
		if d := clean.died(); d != "" {
			return res.fail("died", "%s: %s", what, d)
		}
		e.Faults = faults(s.Sels, clean.Ops)
		swap(s, e, data, clean.Ops)
	}
	o := res.note(parse(data, e))
	if d := o.died(); d != "" {
		return res.fail("died", "%s (%s): %s", what, faultText(o), d)
	}
	res.probe("nontrivial")
	if o.OK {
		res.probe("parsed")
	}
	if len(s.Sels) == 0 {
		l := res.lib(library(data, e, nil))
		if d := l.died(); d != "" {
			return res.fail("died", "reading objects of %s: %s", what, d)
		}
	}
	return res
}

// C09 ---------------------------------------------------------------------------

func genC09(r *rt.R, tier string) *Scn {
	s := &Scn{Prop: "C09"}
	o := fullOpt()
	o.MaxF, o.MaxRev, o.Enc, o.Order = 8, 5, 15, 25
	if tier == "thorough" && r.P(1, 4) {
		o.MaxF, o.MaxRev = 16, 9
	}
	d := anyDoc(r, o)
	if len(d.Revs) == 1 && r.P(3, 4) {
		d.Revs = append(d.Revs, d.Revs[0])
		for i := range d.Feats {
			if r.P(1, 2) {
				d.Feats[i].Upd = []int{1}
			} else if r.P(1, 2) {
				d.Feats[i].Del, d.Feats[i].Dang = 1, r.P(1, 2)
			}
		}
	}
	for i := range d.Revs {
		d.Revs[i].Whole = r.P(1, 5)
		d.Revs[i].Early = r.P(1, 3)
		d.Revs[i].FreeG = r.N(3)
	}
	s.Docs = []*gen.Doc{d}
	s.Maps = []uint64{randMap(r)}
	if r.P(1, 4) {
		s.Dels = []rt.Delivery{randDelivery(r)}
	}
	return s
}

func allNums(b *gen.Built) []int {
	var ns []int
	for n := range b.Hist {
		if !isXrefNum(b, n) {
			ns = append(ns, n)
		}
	}
	sort.Ints(ns)
	return ns
}

func isXrefNum(b *gen.Built, n int) bool {
	for _, x := range b.XrefN {
		if x == n {
			return true
		}
	}
	return false
}

// full checks everything a parse and the library give against the model.
func full(res *Res, b *gen.Built, data []byte, e *Env, aspects int, what string) bool {
	o := res.note(parse(data, e))
	if c, m := checkParse(b, b.Last(), o, aspects); c != "" {
		res.fail(c, "%s%s", what, m)
		return false
	}
	l := res.lib(library(data, e, allNums(b)))
	if c, m := checkObjs(b.Last(), l, nil); c != "" {
		res.fail("library-"+c, "%s%s", what, m)
		return false
	}
	return true
}

func runC09(s *Scn) *Res {
	res := newRes()
	b := s.Docs[0].Build()
	full(res, b, b.Data, &Env{Pw: pwOf(s, b), MapSeed: s.mapSeed(0), Del: s.del(0)}, aArtefacts|aTree, "")
	if len(s.Docs[0].Revs) > 1 {
		res.probe("nontrivial")
	}
	if len(s.Docs[0].Order) > 0 {
		res.probe("out-of-order")
	}
	if len(b.Last().Freed) > 0 {
		res.probe("deletions")
	}
	for n := range b.Hist {
		if len(b.Hist[n]) > 1 {
			res.probe("superseded")
			break
		}
	}
	return res
}

// C10 ---------------------------------------------------------------------------

func genC10(r *rt.R, tier string) *Scn {
	s := &Scn{Prop: "C10"}
	o := fullOpt()
	o.MaxRev, o.Enc, o.Del = 3, 0, r.P(1, 3)
	if r.P(1, 5) {
		o.Enc = 100
	}
	if r.P(1, 2) {
		o.Tables = true
	}
	d := anyDoc(r, o)
	s.Docs = []*gen.Doc{d}
	s.Maps = []uint64{randMap(r)}
	n := 1
	if r.P(1, 2) {
		n = r.In(2, 5)
	}
	for ; n > 0; n-- {
		k := r.Pick("offset", "offset", "offset", "entry", "entry", "block", "startx", "startkw", "kw", "section", "trailer", "tail", "xstm", "xstm", "row", "row", "prev", "prev", "alltables", "shift", "shift")
		if d.EncS != 0 {
			// every trailer has to survive
			k = r.Pick("offset", "offset", "offset", "startx", "startx", "startkw", "row", "shift")
		}
		if k == "row" {
			for i := range d.Revs {
				if d.Revs[i].XF != "" && r.P(1, 2) {
					d.Revs[i].XF = ""
				}
				d.Revs[i].Wide = r.P(1, 2)
			}
		}
		s.Acts = append(s.Acts, Act{K: k, A: r.N(1 << 20), B: r.N(1 << 20), C: r.N(1 << 12)})
	}
	return s
}

var junkFill = []string{" ", "~", "\x00", "%", "x", "-"}

// xdam is a document with damaged cross-reference data.
type xdam struct {
	b      *gen.Built
	data   []byte
	bad    map[[2]int]bool // damaged entries by section and position
	target map[[2]int]int  // what a damaged entry now says
	lost   map[int]bool    // sections of which nothing remains
	all    bool            // no cross-reference data remains at all
	p, k   int             // bytes inserted before old position p
	prevs  [][2]int        // damaged links to an older section
	skip   string
}

func (x *xdam) shifted(pos int) int {
	if x.k > 0 && pos >= x.p {
		return pos + x.k
	}
	return pos
}

func fill(d []byte, lo, hi int, with string) {
	for i := lo; i < hi && i < len(d); i++ {
		if with == "%" && i > lo {
			d[i] = '.'
		} else {
			d[i] = with[0]
		}
	}
}

func damageXref(b *gen.Built, acts []Act) *xdam {
	x := &xdam{b: b, data: append([]byte(nil), b.Data...), bad: map[[2]int]bool{}, target: map[[2]int]int{}, lost: map[int]bool{}}
	d := x.data
	loseSec := func(i int) {
		x.lost[i] = true
		for j := range b.Sections[i].Entries {
			x.bad[[2]int{i, j}] = true
		}
	}
	for _, a := range acts {
		r := rt.NewR(uint64(a.B)*1000003 + uint64(a.A))
		fl := junkFill[a.C%len(junkFill)]
		switch a.K {
		case "offset":
			var c [][2]int
			for i, sec := range b.Sections {
				if sec.Kind == "table" && !x.lost[i] {
					for j, e := range sec.Entries {
						if !e.Free {
							c = append(c, [2]int{i, j})
						}
					}
				}
			}
			if len(c) == 0 {
				continue
			}
			id := c[a.A%len(c)]
			e := b.Sections[id[0]].Entries[id[1]]
			old := string(d[e.Pos : e.Pos+10])
			switch r.N(4) {
			case 0:
				copy(d[e.Pos:], fmt.Sprintf("%010d", r.N(len(d)+500)))
			case 1:
				copy(d[e.Pos:], fmt.Sprintf("%010d", max(0, e.Target+r.In(-12, 12))))
			case 2:
				copy(d[e.Pos:], fmt.Sprintf("%010d", b.Objs[r.N(len(b.Objs))].Start))
			default:
				for n := r.In(1, 4); n > 0; n-- {
					d[e.Pos+r.N(10)] = byte('0' + r.N(10))
				}
			}
			if string(d[e.Pos:e.Pos+10]) == old {
				continue
			}
			x.bad[id] = true
			x.target[id], _ = strconv.Atoi(string(d[e.Pos : e.Pos+10]))
		case "entry", "block":
			// storage damage to bytes of one entry, or of several that follow each other
			var c [][2]int
			for i, sec := range b.Sections {
				if sec.Kind == "table" && !x.lost[i] {
					for j, e := range sec.Entries {
						if !e.Free || a.K == "block" {
							c = append(c, [2]int{i, j})
						}
					}
				}
			}
			if len(c) == 0 {
				continue
			}
			id := c[a.A%len(c)]
			es := b.Sections[id[0]].Entries
			lo := es[id[1]].Pos + r.N(18)
			hi := min(lo+r.In(1, 18), es[id[1]].Pos+18)
			if a.K == "block" {
				last := id[1]
				for last+1 < len(es) && es[last+1].Pos == es[last].Pos+20 {
					last++
				}
				hi = lo + r.In(1, es[last].Pos+18-lo)
			}
			junk := []string{"\x00", " ", "\xff", "~", "x", "-", "%", "n", "0"}[r.N(9)]
			if a.K == "block" && junk == "0" {
				junk = "z" // digits would join entries to one
			}
			if old := string(d[lo:hi]); old == strings.Repeat(junk, hi-lo) {
				continue
			}
			fill(d, lo, hi, junk)
			for j := id[1]; j < len(es) && es[j].Pos < hi && es[j].Pos >= es[id[1]].Pos; j++ {
				x.bad[[2]int{id[0], j}] = true
				delete(x.target, [2]int{id[0], j})
				if m := entryRe.FindSubmatch(d[es[j].Pos : es[j].Pos+20]); m != nil {
					if string(m[3]) == "f" && !es[j].Free {
						x.skip = "damaged entry says the object is deleted"
					}
					x.target[[2]int{id[0], j}], _ = strconv.Atoi(string(m[1]))
				}
			}
		case "row":
			// bytes of an entry of a cross-reference stream without a filter
			var c [][2]int
			for i, sec := range b.Sections {
				if sec.Kind == "stream" && b.Doc.Revs[sec.Rev].XF == "" && !x.lost[i] {
					for j, e := range sec.Entries {
						if !e.Free {
							c = append(c, [2]int{i, j})
						}
					}
				}
			}
			if len(c) == 0 {
				continue
			}
			id := c[a.A%len(c)]
			for _, o := range b.Objs {
				if !o.IsXref || o.Start != b.Sections[id[0]].Start {
					continue
				}
				ws, _ := o.Obj.V.(*gen.Dict).Get("W").(gen.Arr)
				w0, w1, w2 := ws[0].(int), ws[1].(int), ws[2].(int)
				p := o.StreamStart + id[1]*(w0+w1+w2)
				row := d[p : p+w0+w1+w2]
				old := string(row)
				if r.P(1, 3) {
					fill(row, w0, w0+w1, "\xff")
				} else {
					for n := r.In(1, 3); n > 0; n-- {
						row[w0+r.N(w1)] = []byte{0, 0xff, 0x80, byte(r.N(256))}[r.N(4)]
					}
				}
				if string(row) == old {
					continue
				}
				x.bad[id] = true
				x.target[id] = 0
				for _, v := range row[w0 : w0+w1] {
					x.target[id] = x.target[id]<<8 | int(v)
				}
			}
		case "prev":
			for n := range b.Sections {
				sec := b.Sections[(a.A+n)%len(b.Sections)]
				if sec.Kind != "table" || sec.Rev == 0 {
					continue
				}
				m := prevRe.FindSubmatchIndex(d[sec.TrailKw:sec.TrailEnd])
				if m == nil {
					continue
				}
				for i := sec.TrailKw + m[2]; i < sec.TrailKw+m[3]; i++ {
					d[i] = byte('0' + r.N(10))
				}
				if r.P(1, 2) {
					d[sec.TrailKw+m[2]] = []byte("-9-x/")[r.N(5)]
				}
				x.prevs = append(x.prevs, [2]int{sec.TrailKw + m[2], sec.TrailKw + m[3]})
				break
			}
		case "startx":
			sx := b.Starts[len(b.Starts)-1-a.A%2*(a.A/2%len(b.Starts))]
			if r.P(1, 2) {
				for i := sx.NumStart; i < sx.NumEnd; i++ {
					d[i] = byte('0' + r.N(10))
				}
			} else if r.P(1, 2) && len(b.Objs) > 0 {
				v := fmt.Sprint(b.Objs[r.N(len(b.Objs))].Start)
				if len(v) <= sx.NumEnd-sx.NumStart {
					copy(d[sx.NumStart:], fmt.Sprintf("%0*s", sx.NumEnd-sx.NumStart, v))
				}
			} else {
				fill(d, sx.NumStart, sx.NumEnd, fl)
			}
		case "startkw":
			sx := b.Starts[len(b.Starts)-1-a.A%2*(a.A/2%len(b.Starts))]
			fill(d, sx.Kw, sx.Kw+r.In(1, 9), fl)
		case "kw":
			i := a.A % len(b.Sections)
			if b.Sections[i].Kind == "table" {
				at := b.Sections[i].Start + r.N(4)
				fill(d, at, b.Sections[i].Start+4, fl)
				if string(d[b.Sections[i].Start:b.Sections[i].Start+4]) == "xref" {
					continue
				}
			} else {
				fill(d, b.Sections[i].Start, b.Sections[i].End, fl)
			}
			loseSec(i)
		case "section":
			i := a.A % len(b.Sections)
			sec := b.Sections[i]
			end := sec.End
			if sec.Kind == "table" && r.P(1, 2) {
				end = sec.TrailKw
			}
			fill(d, sec.Start, end, fl)
			loseSec(i)
		case "xstm":
			// a cross-reference stream that no longer inflates
			for n := range b.Sections {
				i := (a.A + n) % len(b.Sections)
				sec := b.Sections[i]
				spec := b.Doc.Revs[sec.Rev]
				if sec.Kind != "stream" || spec.XF != "flate" && spec.XF != "png" || x.lost[i] {
					continue
				}
				for _, o := range b.Objs {
					if o.IsXref && o.Start == sec.Start {
						d[o.StreamStart] = "\xf8\x01\x00q"[r.N(4)]
						loseSec(i)
					}
				}
				break
			}
		case "trailer":
			sec := b.Sections[a.A%len(b.Sections)]
			if sec.Kind == "table" {
				fill(d, sec.TrailKw, sec.TrailEnd, fl)
			}
		case "alltables":
			for i, sec := range b.Sections {
				fill(d, sec.Start, sec.End, fl)
				loseSec(i)
			}
			for _, sx := range b.Starts {
				fill(d, sx.Kw, sx.NumEnd, fl)
			}
		}
	}
	// what changes the length comes last
	for _, a := range acts {
		i := len(b.Sections) - 1
		if a.K == "tail" && len(x.data) == len(b.Data) {
			sec := b.Sections[i]
			end := sec.Start
			if n := len(b.Objs); n > 0 && b.Objs[n-1].End > end && !b.Objs[n-1].IsXref {
				end = b.Objs[n-1].End // the section precedes the objects
			} else {
				loseSec(i)
			}
			x.data = x.data[:end:end]
		}
	}
	for _, a := range acts {
		if a.K == "shift" && x.k == 0 {
			r := rt.NewR(uint64(a.B)*1000003 + uint64(a.A))
			var at []int
			for _, o := range b.Objs {
				at = append(at, o.Start)
			}
			for _, sec := range b.Sections {
				if sec.Kind == "table" {
					at = append(at, sec.Start)
				}
			}
			x.p = at[a.A%len(at)]
			if x.p > len(x.data) {
				x.p = at[0]
			}
			ins := []byte(strings.Repeat([]string{"\n", " ", "\r\n", "\x00"}[r.N(4)], r.In(1, 30)))
			if r.P(1, 3) {
				ins = append([]byte("%"+strings.Repeat("q", r.N(3000))), '\n')
			}
			x.k = len(ins)
			x.data = append(x.data[:x.p:x.p], append(ins, x.data[x.p:]...)...)
			for i, sec := range b.Sections {
				for j, e := range sec.Entries {
					if !e.Free && e.Target >= x.p {
						x.bad[[2]int{i, j}] = true
						if _, ok := x.target[[2]int{i, j}]; !ok {
							x.target[[2]int{i, j}] = e.Target
						}
					}
				}
			}
		}
	}
	x.aliases()
	return x
}

var prevRe = regexp.MustCompile(`/Prev\s*([+0-9]+)`)
var entryRe = regexp.MustCompile(`^[\s\x00]*(\d+)[\s\x00]+(\d+)[\s\x00]+([nf])`)
var startxRe = regexp.MustCompile(`startxref\s*(\d+)\s*%%EOF`)
var headRe = regexp.MustCompile(`^(\d+)(?:[\s\x00]|%[^\r\n]*[\r\n])+(\d+)(?:[\s\x00]|%[^\r\n]*[\r\n])+obj`)

func skipWS(d []byte, p int) int {
	for p >= 0 && p < len(d) {
		if d[p] == '%' {
			for p < len(d) && d[p] != '\n' && d[p] != '\r' {
				p++
			}
		} else if bytes.IndexByte([]byte("\x00\t\n\f\r "), d[p]) >= 0 {
			p++
		} else {
			break
		}
	}
	return p
}

func headerAt(d []byte, p int) (int, bool) {
	if p < 0 || p >= len(d) {
		return 0, false
	}
	if p > 0 && d[p-1] >= '0' && d[p-1] <= '9' && d[p] >= '0' && d[p] <= '9' {
		return 0, false // inside a number
	}
	p = skipWS(d, p)
	m := headRe.FindSubmatch(d[p:])
	if m == nil {
		return 0, false
	}
	n, err := strconv.Atoi(string(m[1]))
	return n, err == nil
}

// aliases finds damage nobody could recognise as such: an entry that names a
// place where an object of that number begins, or a start pointer that names an
// intact older section.
func (x *xdam) aliases() {
	for id, t := range x.target {
		e := x.b.Sections[id[0]].Entries[id[1]]
		if n, ok := headerAt(x.data, t); ok && n == e.Num {
			x.skip = "damaged entry points at an object with that number"
			return
		}
	}
	for _, p := range x.prevs {
		at0 := x.shifted(p[0])
		if at0+p[1]-p[0] > len(x.data) {
			continue
		}
		if v, err := strconv.Atoi(string(x.data[at0 : at0+p[1]-p[0]])); err == nil && v < len(x.data) {
			at := skipWS(x.data, v)
			for i, sec := range x.b.Sections {
				if st := x.shifted(sec.Start); !x.lost[i] && (st == at || sec.Kind == "stream" && st <= at && at < st+5) {
					x.skip = "damaged link names another section"
					return
				}
			}
		}
	}
	tail := x.data[max(0, len(x.data)-256):]
	ms := startxRe.FindAllSubmatch(tail, -1)
	if ms == nil {
		return
	}
	v, err := strconv.Atoi(string(ms[len(ms)-1][1]))
	if err != nil || v >= len(x.data) {
		return
	}
	newest := -1
	for i := range x.b.Sections {
		if !x.lost[i] {
			newest = i
		}
	}
	at := skipWS(x.data, v)
	for i, sec := range x.b.Sections {
		if !x.lost[i] && i != newest && x.shifted(sec.Start) == at {
			x.skip = "start pointer names an older section"
		}
	}
}

// verdict says which copies of an object may be returned. settled: exactly the
// final one.
func (x *xdam) verdict(n int) (allowed []*gen.ObjPos, settled bool) {
	copies := x.b.Hist[n]
	if len(copies) == 0 {
		return nil, false
	}
	last := copies[len(copies)-1]
	at := func(t int) *gen.ObjPos {
		for _, c := range copies {
			if c.Start == t {
				return c
			}
		}
		return nil
	}
	newest := true
	var older []*gen.ObjPos
entries:
	for i := len(x.b.Sections) - 1; i >= 0; i-- {
		for j := len(x.b.Sections[i].Entries) - 1; j >= 0; j-- {
			e := x.b.Sections[i].Entries[j]
			if e.Num != n {
				continue
			}
			if e.Free {
				if newest && !x.bad[[2]int{i, j}] {
					return nil, true // deleted, and an intact entry says so
				}
				if len(older) == 0 {
					return nil, false
				}
				break entries // what was there before it was deleted does not come back
			}
			c := at(e.Target)
			if c == nil {
				return nil, false
			}
			if !x.bad[[2]int{i, j}] {
				if newest {
					return []*gen.ObjPos{c}, c == last
				}
				if len(older) == 0 {
					older = append(older, c)
				}
			}
			newest = false
		}
	}
	if len(older) == 0 {
		return []*gen.ObjPos{last}, true
	}
	return []*gen.ObjPos{last, older[0]}, older[0] == last
}

func runC10(s *Scn) *Res {
	res := newRes()
	b := s.Docs[0].Build()
	x := damageXref(b, s.Acts)
	if x.skip != "" {
		res.Skip = true
		return res
	}
	if !bytes.Equal(x.data, b.Data) {
		res.probe("nontrivial")
	}
	for _, a := range s.Acts {
		res.probe("damage:" + a.K)
	}
	e := &Env{Pw: pwOf(s, b), MapSeed: s.mapSeed(0)}
	nums := allNums(b)
	l := res.lib(library(x.data, e, nums))
	if d := l.died(); d != "" {
		return res.fail("died", "%s", d)
	}
	if !l.OK {
		return res.fail("error", "loading failed: %s", l.Err)
	}
	exp := b.Last()
	all := true
	unsettled := map[int]bool{}
	for _, n := range nums {
		if _, settled := x.verdict(n); !settled && n != b.EncN {
			all = false
			unsettled[n] = true
		}
	}
	// a copy of an older revision may meet helper objects of a newer one
	mixed := map[int]bool{}
	for _, n := range nums {
		mixed[n] = unsettled[n] || len(b.Hist[n]) > 1 || exp.Objs[n] == nil
	}
	for _, n := range nums {
		allowed, settled := x.verdict(n)
		if len(allowed) == 0 && settled && exp.Objs[n] == nil && !isXrefNum(b, n) {
			res.probe("deleted")
			if v := l.Objs[n]; v.Canon != "null" || len(v.Stream) > 0 {
				return res.fail("deleted", "object %d, which an intact entry says is deleted, reads as %s", n, cut([]byte(v.Canon), 200))
			}
		}
		if len(allowed) == 0 || exp.Objs[n] == nil {
			continue
		}
		ok, why := false, ""
		for _, c := range allowed {
			helpers := unsettled
			if hist := b.Hist[n]; c != hist[len(hist)-1] {
				helpers = mixed
			}
			d := diffCopy(c.Obj, l.Objs[n], helpers)
			if d == "" {
				ok = true
				break
			}
			if why == "" {
				why = d
			}
		}
		if !ok {
			return res.fail("object", "object %d, whose body is intact: %s", n, why)
		}
	}
	if all && len(exp.Freed) == 0 {
		res.probe("all-settled")
		if c, m := checkParse(b, exp, res.note(parse(x.data, e)), aArtefacts|aTree); c != "" {
			return res.fail(c, "every object is recoverable, but %s", m)
		}
	}
	return res
}

// diffCopy is diffObj for a copy whose helper objects may come from another
// revision.
func diffCopy(o *gen.Obj, v ObjView, unsettled map[int]bool) string {
	if o.IsStream && (o.FiltObj != nil && unsettled[o.FiltObj.Num] || o.ParmObj != nil && unsettled[o.ParmObj.Num] ||
		o.Len != nil && unsettled[o.Len.Num]) {
		if w := gen.Canon(o.Full); w != v.Canon {
			return "value " + diffBytes([]byte(w), []byte(v.Canon))
		}
		return ""
	}
	return diffObj(o, v)
}

// C11 ---------------------------------------------------------------------------

func genC11(r *rt.R, tier string) *Scn {
	s := &Scn{Prop: "C11"}
	o := fullOpt()
	o.MaxRev, o.Enc, o.MaxF = 3, 25, 6
	d := anyDoc(r, o)
	if len(d.Revs) == 1 {
		d.Revs = append(d.Revs, gen.RevSpec{Xref: r.Pick("table", "table", "stream"), First: r.P(1, 4), Touch: r.N(4)})
		for i := range d.Feats {
			if r.P(1, 2) {
				d.Feats[i].Upd = []int{1}
			} else if r.P(1, 4) {
				d.Feats[i].Del, d.Feats[i].Dang = 1, r.P(1, 2)
			} else if r.P(1, 4) {
				d.Feats[i].Rev = 1
			}
		}
	}
	s.Docs = []*gen.Doc{d}
	s.Maps = []uint64{randMap(r)}
	s.N = map[string]int{"cut": r.N(1 << 24), "near": r.N(4)}
	if r.P(1, 4) {
		s.Dels = []rt.Delivery{randDelivery(r)}
	}
	return s
}

// tornAt picks the cut: anywhere, or close to a structure of the update.
func tornAt(s *Scn, b *gen.Built) int {
	k := len(b.RevEnd) - 1
	lo, hi := b.RevEnd[k-1], b.RevEnd[k]
	c := s.n("cut")
	if s.n("near") == 0 {
		return lo + 1 + c%(hi-lo-1)
	}
	var at []int
	for _, o := range b.Objs {
		// inside a value that is a single token, or a reference
		if o.Rev == k && s.n("near") == 3 && o.Obj != nil {
			if _, ok := o.Obj.Full.(gen.Ref); ok {
				at = append(at, o.ValStart+c%(o.ValEnd-o.ValStart+3))
			} else if o.ValEnd-o.ValStart < 20 && c%7 == 0 {
				at = append(at, o.ValStart+c%(o.ValEnd-o.ValStart+3))
			}
		}
	}
	if n := len(at); n > 0 && at[c%n] > lo && at[c%n] < hi {
		return at[c%n]
	}
	at = nil
	for _, o := range b.Objs {
		if o.Rev == k {
			at = append(at, o.Start, o.ValStart, o.ValEnd, o.BodyEnd, o.End)
			if o.StreamKw > 0 {
				at = append(at, o.StreamKw, o.StreamStart, o.StreamEnd)
			}
			for _, sp := range o.Spans {
				at = append(at, sp.End)
			}
		}
	}
	sec := b.Sections[k]
	sx := b.Starts[k]
	at = append(at, sec.Start, sec.TrailKw, sec.TrailEnd, sec.TrailEnd-8, sec.TrailKw+30, sx.Kw, sx.NumStart, sx.NumEnd, hi-2)
	for i, e := range sec.Entries {
		if e.Pos > 0 && i%3 == c%3 {
			at = append(at, e.Pos, e.Pos+10, e.Pos+16, e.Pos+17, e.Pos+18)
		}
	}
	p := at[(c>>4)%len(at)] + (c & 15) - 8
	if p <= lo || p >= hi {
		p = lo + 1 + c%(hi-lo-1)
	}
	return p
}

func runC11(s *Scn) *Res {
	res := newRes()
	b := s.Docs[0].Build()
	k := len(b.RevEnd) - 1
	if k < 1 || b.RevEnd[k]-b.RevEnd[k-1] < 3 {
		res.Skip = true
		return res
	}
	cutAt := tornAt(s, b)
	data := b.Data[:cutAt:cutAt]
	e := &Env{Pw: pwOf(s, b), MapSeed: s.mapSeed(0), Del: s.del(0)}
	prev, next := b.Exp[k-1], b.Exp[k]
	res.probe("nontrivial")
	o := res.note(parse(data, e))
	where := fmt.Sprintf("cut at byte %d of %d (update starts at %d)", cutAt, len(b.Data), b.RevEnd[k-1])
	if d := o.died(); d != "" {
		return res.fail("died", "%s: %s", where, d)
	}
	if !o.OK {
		return res.fail("error", "%s: the parse fails: %s", where, o.Err)
	}
	newCopy := map[int]*gen.ObjPos{}
	for _, p := range b.Objs {
		if p.Rev == k {
			newCopy[p.Num] = p
		}
	}
	freeDone := map[int]bool{}
	for _, en := range b.Sections[k].Entries {
		if en.Free && (en.Pos > 0 && en.Pos+18 <= cutAt || b.Sections[k].Kind == "stream" && b.Sections[k].Start < cutAt) {
			freeDone[en.Num] = true
		}
	}
	// objects whose value is open: helpers of the other version may be used
	open := map[int]bool{}
	for n := range newCopy {
		open[n] = true
	}
	for n := range freeDone {
		open[n] = true
	}
	l := res.lib(library(data, e, objNums(prev)))
	if !l.OK {
		return res.fail("library", "%s: loading fails: %s%s", where, l.Err, l.died())
	}
	mixed := false
	for _, n := range objNums(prev) {
		if n == b.EncN {
			continue
		}
		v := l.Objs[n]
		if diffObj(prev.Objs[n], v) == "" {
			continue
		}
		mixed = true
		oldD := diffCopy(prev.Objs[n], v, open)
		if oldD == "" {
			continue
		}
		if c := newCopy[n]; c != nil && c.BodyEnd <= cutAt && diffCopy(c.Obj, v, open) == "" {
			res.probe("new-value")
			continue
		}
		if v.Canon == "null" && len(v.Stream) == 0 && freeDone[n] {
			continue
		}
		if c := newCopy[n]; c != nil && c.StreamStart > 0 && c.StreamStart < cutAt && c.BodyEnd > cutAt && bytes.Contains(data[c.StreamStart:], []byte("endstream")) {
			continue // the data it is cut off in looks like the end of the stream
		}
		return res.fail("object", "%s: object %d of the previous revision: %s", where, n, oldD)
	}
	// an object that was written may refer to one that was not, or whose entry
	// was not
	if mixed {
		for n, c := range newCopy {
			if c.BodyEnd > cutAt {
				return res
			}
			if v, ok := l.Objs[n]; !ok || diffCopy(c.Obj, v, open) != "" {
				return res
			}
		}
	}
	res.probe("lines")
	// lines both revisions call for
	for _, x := range []struct {
		f    string
		a, b []string
	}{{"urls.txt", prev.URLs, next.URLs}, {"javascript.js", prev.JS, next.JS}, {"commands.txt", trimRight(prev.Cmds), trimRight(next.Cmds)}, {"files.txt", prev.Files, next.Files}} {
		have := map[string]int{}
		got := lines(o.Tree[x.f])
		if x.f == "commands.txt" {
			got = trimRight(got)
		}
		for _, g := range got {
			have[g]++
		}
		inNew := map[string]bool{}
		for _, g := range x.b {
			inNew[g] = true
		}
		for _, g := range x.a {
			if (inNew[g] || !mixed) && have[g] == 0 {
				return res.fail("line", "%s: %s lacks %q, which the previous revision contains", where, x.f, g)
			}
		}
	}
	return res
}

// C12 ---------------------------------------------------------------------------

func genC12(r *rt.R, tier string) *Scn {
	s := &Scn{Prop: "C12"}
	o := fullOpt()
	o.MaxF, o.Enc, o.MaxRev, o.Order = 8, 100, 3, 10
	o.Kinds = append([]string{"embed", "stream", "plain", "meta"}, gen.AllKinds...)
	s.Docs = []*gen.Doc{anyDoc(r, o)}
	s.Maps = []uint64{randMap(r)}
	if r.P(1, 3) {
		s.Dels = []rt.Delivery{randDelivery(r)}
	}
	return s
}

func runC12(s *Scn) *Res {
	res := newRes()
	b := s.Docs[0].Build()
	full(res, b, b.Data, &Env{Pw: pwOf(s, b), MapSeed: s.mapSeed(0), Del: s.del(0)}, aArtefacts|aTree, "")
	if b.Enc != nil {
		res.probe("nontrivial")
		res.probe(fmt.Sprintf("V%d R%d %s/%s", b.Enc.V, b.Enc.R, b.Enc.StmF, b.Enc.StrF))
	}
	return res
}

// C13 ---------------------------------------------------------------------------

func genC13(r *rt.R, tier string) *Scn {
	s := &Scn{Prop: "C13", Kind: r.Pick("pw", "pw", "tweak", "tweak", "tweak")}
	o := fullOpt()
	o.MaxF, o.Enc, o.MaxRev = 5, 100, 2
	d := anyDoc(r, o)
	s.Docs = []*gen.Doc{d}
	s.Maps = []uint64{randMap(r)}
	enc := d.Build().Enc
	if s.Kind == "tweak" {
		t := enc.Tweaks()
		d.Tweak, d.TweakS = t[r.N(len(t))], r.U64()>>1
	} else {
		s.PwSet = true
		s.Pw = wrongPw(r, enc.Pw)
		if r.P(1, 8) {
			d.Tweak, d.TweakS = "U16", r.U64()>>1
		}
		if r.P(1, 3) { // damage that leaves the trailers as they are
			for n := r.In(1, 3); n > 0; n-- {
				s.Acts = append(s.Acts, Act{K: r.Pick("offset", "offset", "startx", "startkw", "shift", "noroot"), A: r.N(1 << 20), B: r.N(1 << 20), C: r.N(1 << 12)})
			}
		}
	}
	return s
}

// wrongPw is a password next to the right one. It can be the same to the
// standard security handler.
func wrongPw(r *rt.R, pw string) string {
	switch r.N(6) {
	case 0:
		return ""
	case 1:
		return pw + "x"
	case 2:
		return "x" + pw
	case 3:
		if pw != "" {
			return pw[:len(pw)-1]
		}
		return pw
	case 4:
		return string(r.Bytes(r.In(1, 40)))
	}
	b := []byte(pw + "0")
	b[r.N(len(b))] ^= byte(1 << uint(r.N(8)))
	return string(b)
}

func runC13(s *Scn) *Res {
	res := newRes()
	d := s.Docs[0]
	b := d.Build()
	if b.Enc == nil || !s.PwSet && d.Tweak == "" || s.PwSet && (d.Tweak == "" || d.Tweak == "U16") && gen.SamePw(s.Pw, b.Enc.Pw) {
		res.Skip = true
		return res
	}
	data := b.Data
	if len(s.Acts) > 0 {
		x := damageXref(b, s.Acts)
		if x.skip != "" {
			res.Skip = true
			return res
		}
		data = x.data
		for _, a := range s.Acts {
			res.probe("damage:" + a.K)
			if a.K == "noroot" {
				data = bytes.ReplaceAll(data, []byte("/Root"), []byte("/Rock"))
			}
		}
	}
	res.probe("nontrivial")
	what := "wrong password"
	if !s.PwSet {
		what = "tweak " + d.Tweak
	} else if d.Tweak != "" {
		what += ", tweak " + d.Tweak
	}
	res.probe(what)
	o := res.note(parse(data, &Env{Pw: pwOf(s, b), MapSeed: s.mapSeed(0)}))
	if x := o.died(); x != "" {
		return res.fail("died", "%s: %s", what, x)
	}
	if o.OK {
		return res.fail("success", "%s: the parse reports success", what)
	}
	missing := map[string]bool{"noO": true, "noU": true, "noP": true, "noID": true, "noV": true, "noR": true, "noFilter": true, "dangling": true, "Onum": true, "Unum": true}
	unsup := map[string]bool{"V0": true, "V3": true, "V5": true, "R1": true, "R5": true, "R6": true, "Filter": true, "Odd": true, "CFM": true, "noCF": true, "StmF": true}
	switch {
	case s.PwSet && d.Tweak == "":
		if o.Err != pdf.EncryptionPasswordError.Error() {
			return res.fail("message", "wrong password gives %q", o.Err)
		}
	case missing[d.Tweak] || unsup[d.Tweak]:
		if o.Err != pdf.EncryptionError.Error() && o.Err != pdf.EncryptionUnsupported.Error() {
			return res.fail("message", "%s gives %q", what, o.Err)
		}
	}
	for _, k := range keys(o.Tree) {
		if k == "errors.txt" {
			continue
		}
		if !isReport(k) || len(o.Tree[k]) > 0 {
			return res.fail("leak", "%s: the parse fails, yet %s holds %q", what, k, cut(o.Tree[k], 80))
		}
	}
	l := res.lib(library(data, &Env{Pw: pwOf(s, b), MapSeed: s.mapSeed(0)}, nil))
	if x := l.died(); x != "" {
		return res.fail("died", "%s: %s", what, x)
	}
	if l.OK {
		return res.fail("load", "%s: loading reports success", what)
	}
	return res
}

// C14 ---------------------------------------------------------------------------

func genC14(r *rt.R, tier string) *Scn {
	s := &Scn{Prop: "C14", Kind: r.Pick("whole", "whole", "cut", "cut")}
	o := gen.DocOpt{Kinds: []string{"stream", "stream", "stream", "plain"}, MinF: 1, MaxF: 4, MaxRev: 2, Lvl: -1, Sparse: 0, Enc: 15, Gens: true, Size: 3000}
	if r.P(1, 12) {
		o.Size = 20000
	}
	d := anyDoc(r, o)
	d.Feats[0].K = "stream"
	if s.Kind == "cut" {
		d.Revs = d.Revs[:1]
		if d.EncS != 0 {
			d.Revs[0] = gen.RevSpec{Xref: "table", First: true}
		}
		for i := range d.Feats {
			d.Feats[i].Rev, d.Feats[i].Upd, d.Feats[i].Del = 0, nil, 0
		}
	}
	for i := range d.Feats {
		d.Feats[i].Max = r.In(1, 5)
	}
	if r.P(1, 3) {
		d.Pad = 4096 - 200 + r.N(400)
	}
	s.Docs = []*gen.Doc{d}
	s.Maps = []uint64{randMap(r)}
	if r.P(1, 2) {
		s.Dels = []rt.Delivery{randDels(r, d.Build())}
	}
	s.N = map[string]int{"cut": r.N(1 << 24), "which": r.N(64), "edge": r.N(4)}
	return s
}

func runC14(s *Scn) *Res {
	res := newRes()
	b := s.Docs[0].Build()
	e := &Env{Pw: pwOf(s, b), MapSeed: s.mapSeed(0), Del: s.del(0)}
	if s.Kind != "cut" {
		l := res.lib(library(b.Data, e, allNums(b)))
		if c, m := checkObjs(b.Last(), l, nil); c != "" {
			return res.fail(c, "%s", m)
		}
		for _, o := range b.Last().Objs {
			if o.IsStream && len(o.Chain) > 0 {
				res.probe("nontrivial")
				for _, f := range o.Chain {
					res.probe("filter:" + f.Kind)
					if f.Pred > 0 {
						res.probe(fmt.Sprintf("predictor:%d", f.Pred))
					}
				}
			}
		}
		return res
	}
	var c []*gen.ObjPos
	for _, o := range b.Objs {
		if o.StreamKw > 0 && !o.IsXref && o.StreamEnd > o.StreamStart {
			c = append(c, o)
		}
	}
	if len(c) == 0 || len(s.Docs[0].Revs) > 1 || b.Enc != nil && !s.Docs[0].Revs[0].First {
		res.Skip = true
		return res
	}
	p := c[s.n("which")%len(c)]
	n := p.StreamEnd - p.StreamStart
	at := p.StreamStart + s.n("cut")%n
	switch s.n("edge") {
	case 0:
		at = p.StreamEnd - s.n("cut")%min(n, 12)
	case 1:
		at = p.StreamStart + s.n("cut")%min(n, 12)
	}
	// helpers written behind the cut are gone
	for _, h := range []*gen.Obj{p.Obj.FiltObj, p.Obj.ParmObj} {
		if h != nil && b.Hist[h.Num][0].End > at {
			res.Skip = true
			return res
		}
	}
	if b.EncN > 0 && b.Enc != nil && len(b.Hist[b.EncN]) > 0 && b.Hist[b.EncN][0].End > at {
		res.Skip = true
		return res
	}
	res.probe("nontrivial")
	l := res.lib(library(b.Data[:at:at], e, []int{p.Num}))
	where := fmt.Sprintf("stream of object %d (%v) cut after %d of %d stored bytes", p.Num, p.Obj.Chain, at-p.StreamStart, n)
	if !l.OK {
		return res.fail("error", "%s: %s%s", where, l.Err, l.died())
	}
	v := l.Objs[p.Num]
	if w := gen.Canon(p.Obj.Full); w != v.Canon {
		return res.fail("value", "%s: value %s", where, diffBytes([]byte(w), []byte(v.Canon)))
	}
	if bytes.HasPrefix(p.Obj.Data, v.Stream) {
		if len(v.Stream) > 0 {
			res.probe("prefix")
		}
		return res
	}
	// data as it stands before a filter, if that filter cannot decode what is left
	for i, d := range p.Stages {
		if i < len(p.Obj.Chain) && bytes.HasPrefix(d, v.Stream) {
			if n := gen.Decodable(p.Obj.Chain[i], v.Stream); n > 0 {
				return res.fail("undecoded", "%s: the result is the data before the filter %v, which can decode %d bytes of it", where, p.Obj.Chain[i], n)
			}
			res.probe("undecodable")
			return res
		}
	}
	return res.fail("prefix", "%s: the result is neither a prefix of the data nor of stored bytes: %s", where, diffBytes(p.Obj.Data, v.Stream))
}

// C15, C16, C17 -------------------------------------------------------------------

func genArt(prop string, kinds []string) func(r *rt.R, tier string) *Scn {
	return func(r *rt.R, tier string) *Scn {
		s := &Scn{Prop: prop, Kind: r.Pick("whole", "whole", "lost")}
		o := fullOpt()
		o.Kinds = kinds
		o.MaxF = 8
		o.Enc, o.Order = 20, 10
		if s.Kind == "lost" {
			// without cross-references the last copy in the file is the newest
			o.Enc, o.Del, o.Order = 0, false, 0
		}
		d := anyDoc(r, o)
		s.Docs = []*gen.Doc{d}
		s.Maps = []uint64{randMap(r)}
		if r.P(1, 2) {
			s.Dels = []rt.Delivery{randDels(r, d.Build())}
		}
		s.Acts = []Act{{K: "alltables", C: r.N(1 << 12)}}
		return s
	}
}

func runArt(s *Scn, aspects int) (*Res, *gen.Built, *Out) {
	res := newRes()
	b := s.Docs[0].Build()
	data := b.Data
	if s.Kind == "lost" && len(b.Last().Freed) == 0 && b.Enc == nil {
		data = damageXref(b, s.Acts).data
		res.probe("lost-xref")
	}
	o := res.note(parse(data, &Env{Pw: pwOf(s, b), MapSeed: s.mapSeed(0), Del: s.del(0)}))
	if c, m := checkParse(b, b.Last(), o, aspects); c != "" {
		res.fail(c, "%s", m)
	}
	return res, b, o
}

var (
	genC15 = genArt("C15", []string{"page", "page", "page", "plain", "stream", "uri"})
	genC16 = genArt("C16", []string{"uri", "uri", "base", "urls", "js", "js", "launch", "launch", "fsurl", "extfile", "embed", "page", "plain"})
	genC17 = genArt("C17", []string{"embed", "embed", "embed", "xfa", "extfile", "fsurl", "launch", "uri", "plain", "stream"})
)

func runC15(s *Scn) *Res {
	res, b, _ := runArt(s, aText)
	if b.Last().Text != "" {
		res.probe("nontrivial")
	}
	return res
}

func runC16(s *Scn) *Res {
	res, b, _ := runArt(s, aURLs|aJS|aCmds)
	if e := b.Last(); len(e.URLs)+len(e.JS)+len(e.Cmds) > 0 {
		res.probe("nontrivial")
	}
	return res
}

func runC17(s *Scn) *Res {
	res, b, _ := runArt(s, aFiles|aTree)
	if len(b.Last().Files) > 0 {
		res.probe("nontrivial")
	}
	return res
}

// C18 ---------------------------------------------------------------------------

var abnKinds = []string{"bad-key", "no-value", "bad-hex", "bad-name-escape", "octal-overflow", "needless-name-escape", "needless-string-escape"}

func genC18(r *rt.R, tier string) *Scn {
	s := &Scn{Prop: "C18", Kind: r.Pick("clean", "abn", "cut", "cut")}
	o := fullOpt()
	o.Lvl = r.N(2)
	o.Del = true
	d := (*gen.Doc)(nil)
	switch s.Kind {
	case "clean":
		d = anyDoc(r, o)
	case "abn":
		d = anyDoc(r, o)
		n := r.In(1, 4)
		same := r.P(1, 2)
		kind := abnKinds[r.N(len(abnKinds))]
		for i := 0; i < n; i++ {
			if !same {
				kind = abnKinds[r.N(len(abnKinds))]
			}
			d.Feats = append(d.Feats, gen.Feat{K: "plain", S: r.U64() >> 1, Abn: kind})
		}
	case "cut":
		o.MaxRev, o.Enc, o.NoFirst = 1, 0, true
		o.Kinds = append([]string{"plain", "stream", "plain"}, gen.AllKinds...)
		o.MaxF = 4
		d = anyDoc(r, o)
	}
	d.BadLen = 0
	s.Docs = []*gen.Doc{d}
	s.Maps = []uint64{randMap(r)}
	s.N = map[string]int{"which": r.N(1 << 20), "cut": r.N(1 << 20), "near": r.N(4)}
	if r.P(1, 4) {
		s.Dels = []rt.Delivery{randDelivery(r)}
	}
	return s
}

func errSet(o *Out) map[string]bool {
	m := map[string]bool{}
	for _, l := range lines(o.Tree["errors.txt"]) {
		m[l] = true
	}
	return m
}

var spanMsg = map[string]string{}

func init() {
	spanMsg["array"] = pdf.UnclosedArray
	spanMsg["dict"] = pdf.UnclosedDictionary
	spanMsg["string"] = pdf.UnclosedString
	spanMsg["esc"] = pdf.UnclosedStringEscape
	spanMsg["oct"] = pdf.UnclosedStringOctal
	spanMsg["hex"] = pdf.UnclosedHexString
	spanMsg["stream"] = pdf.UnclosedStream
}

func runC18(s *Scn) *Res {
	res := newRes()
	b := s.Docs[0].Build()
	e := &Env{Pw: pwOf(s, b), MapSeed: s.mapSeed(0), Del: s.del(0)}
	if s.Kind != "cut" {
		o := res.note(parse(b.Data, e))
		if d := o.died(); d != "" || !o.OK {
			return res.fail("error", "%s%s", d, o.Err)
		}
		want := map[string]int{}
		any := map[string]bool{}
		last := b.Last()
		for _, p := range b.Objs {
			if !p.Planted {
				continue
			}
			if last.Objs[p.Num] == p.Obj {
				want[gen.Abnormal[p.Obj.Abnormal]]++
			}
			any[gen.Abnormal[p.Obj.Abnormal]] = true
		}
		got := errSet(o)
		times := map[string]int{}
		for _, l := range lines(o.Tree["errors.txt"]) {
			times[l]++
		}
		for _, m := range keys(want) {
			if !got[m] {
				return res.fail("silent", "an object contains %q, which errors.txt does not mention", m)
			}
			if times[m] < want[m] {
				return res.fail("few", "%d objects contain %q, which errors.txt mentions %d times", want[m], m, times[m])
			}
		}
		for _, m := range keys(got) {
			if !any[m] {
				return res.fail("false", "errors.txt says %q, but the document has no such flaw", m)
			}
		}
		if len(want) > 0 || len(b.Objs) >= 3 {
			res.probe("nontrivial")
		}
		return res
	}
	if len(b.RevEnd) > 1 || b.Enc != nil || s.Docs[0].Revs[0].First || s.Docs[0].Lvl > 1 {
		res.Skip = true
		return res
	}
	var objs []*gen.ObjPos
	for _, p := range b.Objs {
		if !p.IsXref && len(p.Spans) > 0 {
			objs = append(objs, p)
		}
	}
	if len(objs) == 0 {
		res.Skip = true
		return res
	}
	p := objs[s.n("which")%len(objs)]
	at := p.ValStart + 1 + s.n("cut")%max(1, p.BodyEnd-p.ValStart-1)
	if s.n("near") > 0 {
		sp := p.Spans[(s.n("cut")>>3)%len(p.Spans)]
		if s.n("near") == 1 {
			at = sp.Start + 1 + s.n("cut")&3
		} else if s.n("near") == 2 {
			at = sp.End - 1 - s.n("cut")&1
		}
	}
	open := map[string]bool{}
	inner := gen.Span{Start: -1}
	for _, sp := range p.Spans {
		in := sp.Start < at && at < sp.End
		switch sp.Kind {
		case "oct":
			// an octal escape is open until its third digit or a byte that ends it
			in = sp.Start < at && at <= sp.End && at-sp.Start < 4
			if in && at == sp.Start+1 {
				open[spanMsg["esc"]] = true // only the backslash is there
				if sp.Start > inner.Start {
					inner = gen.Span{Kind: "esc", Start: sp.Start}
				}
				continue
			}
		case "stream":
			in = sp.Start+6 <= at && at < sp.End
		case "key", "name", "pair":
			if in {
				open[pdf.MissingDictionaryValue] = true
			}
			continue
		case "dict":
			if at == sp.Start+1 {
				res.Skip = true // half of "<<"
				return res
			}
			if in {
				// half of a reference, or half of ">>", is not a name
				open[pdf.InvalidDictionaryKeyType] = true
			}
		}
		if !in {
			continue
		}
		open[spanMsg[sp.Kind]] = true
		if sp.Start > inner.Start {
			inner = sp
		}
	}
	if inner.Start < 0 || inner.Kind == "stream" && p.StreamStart < at && bytes.Contains(b.Data[p.StreamStart:at], []byte("endstream")) {
		res.Skip = true // nothing is open, or the data looks like the end of the stream
		return res
	}
	if inner.Kind == "hex" || inner.Kind == "string" || inner.Kind == "esc" || inner.Kind == "oct" {
		open[spanMsg["string"]] = true
	}
	open[pdf.MissingDictionaryValue] = true
	res.probe("nontrivial")
	res.probe("open:" + inner.Kind)
	o := res.note(parse(b.Data[:at:at], e))
	if d := o.died(); d != "" || !o.OK {
		return res.fail("error", "file cut inside object %d: %s%s", p.Num, d, o.Err)
	}
	got := errSet(o)
	where := fmt.Sprintf("file cut at byte %d, inside object %d and its %s", at, p.Num, inner.Kind)
	need := spanMsg[inner.Kind]
	ok := got[need]
	if inner.Kind == "dict" {
		ok = ok || got[pdf.MissingDictionaryValue]
	}
	if !ok {
		return res.fail("unlogged", "%s: errors.txt does not say %q: %q", where, need, cut(o.Tree["errors.txt"], 200))
	}
	for _, m := range keys(got) {
		if !open[m] {
			return res.fail("false", "%s: errors.txt says %q", where, m)
		}
	}
	return res
}

// C19 ---------------------------------------------------------------------------

func genC19(r *rt.R, tier string) *Scn {
	s := &Scn{Prop: "C19"}
	o := fullOpt()
	o.Kinds = append([]string{"cycle", "cycle", "stream", "plain"}, gen.AllKinds...)
	o.MaxF, o.MaxRev, o.Enc = 6, 3, 25
	s.Docs = []*gen.Doc{anyDoc(r, o)}
	s.Maps = []uint64{randMap(r)}
	n := r.In(3, 40)
	for ; n > 0; n-- {
		s.Acts = append(s.Acts, Act{K: r.Pick("get", "get", "get", "res", "res", "stm", "mut", "mut", "rmut", "rmut", "mid", "mid", "dang", "walk", "twice", "ends"), A: r.N(1 << 16), B: r.N(1 << 16), C: r.N(1 << 16)})
	}
	if r.P(1, 5) {
		s.Muts = randMuts(r, 3)
	}
	if r.P(1, 4) {
		s.Dels = []rt.Delivery{randDels(r, s.Docs[0].Build())}
	}
	return s
}

// history performs calls on one parser and records what they return.
func history(data []byte, e *Env, acts []Act, nums []int, pos map[int]int) (*Out, []string) {
	w := newWorld(data, e)
	setVerbose(e.Verbose)
	o := &Out{}
	var rec []string
	pick := func(k int) int { return nums[k%len(nums)] }
	cl := w.Run(func() {
		f, err := simos.Open(inPath)
		if err != nil {
			return
		}
		defer f.Close()
		p := pdf.NewParser(f, nil)
		if err := p.Load(e.Pw); err != nil {
			o.Done, o.Err = true, err.Error()
			return
		}
		obj := func(x *pdf.IndirectObject) string { return canonObj(x.Value) + " stream " + string(x.Stream) }
		for _, a := range acts {
			n := pick(a.A)
			g := a.C % 3
			switch a.K {
			case "get":
				rec = append(rec, obj(p.GetObject(n)))
			case "res":
				rec = append(rec, canonObj(pdf.NewReference(p, n, g).Resolve()))
			case "stm":
				rec = append(rec, string(pdf.NewReference(p, n, g).ResolveStream()))
			case "dang":
				n = 5_000_000 + a.A
				rec = append(rec, canonObj(pdf.NewReference(p, n, g).Resolve())+string(pdf.NewReference(p, n, g).ResolveStream()))
			case "mut":
				x := p.GetObject(n)
				rec = append(rec, obj(x))
				wreck(x.Value, 0)
				for i := range x.Stream {
					x.Stream[i] ^= 0x55
				}
				x.Value = pdf.Name("wrecked")
			case "rmut":
				rf := pdf.NewReference(p, n, g)
				v, st := rf.Resolve(), rf.ResolveStream()
				rec = append(rec, canonObj(v)+" stream "+string(st))
				wreck(v, 0)
				for i := range st {
					st[i] ^= 0x55
				}
				rf.Number, rf.Generation = 1, 77
			case "ends": // between reads at the start, the end, or anywhere
				if a.B%4 == 3 {
					n = 5_000_000 + a.A
				}
				p.Seek([]int64{0, int64(len(data)), int64(a.C*7) % int64(len(data)+1)}[a.B%3], 0)
				o1 := p.CurrentOffset()
				v := canonObj(pdf.NewReference(p, n, g).Resolve())
				o2 := p.CurrentOffset()
				st := string(pdf.NewReference(p, n, g).ResolveStream())
				rec = append(rec, fmt.Sprint(v, " ", st, " ", o1 == o2, o2 == p.CurrentOffset()))
			case "twice":
				rf := pdf.NewReference(p, n, g)
				v0, st0 := rf.Resolve(), rf.ResolveStream()
				v, st := canonObj(v0), string(st0)
				p.GetObject(pick(a.B))
				if a.C/3%2 == 1 {
					wreck(v0, 0)
					for i := range st0 {
						st0[i] ^= 0x55
					}
				}
				rec = append(rec, v+st+string(rf.ResolveStream())+canonObj(rf.Resolve())+fmt.Sprint(rf.Number == n, rf.Generation == g))
			case "walk":
				x := p.GetObject(n)
				rec = append(rec, obj(x))
				if a.B%4 >= 2 {
					if d := getters(x.Value); d != "" {
						rec[len(rec)-1] += d
					}
				}
				var refs []*pdf.Reference
				refsIn(x.Value, &refs, 0)
				for i, rf := range refs {
					if i > 6 {
						break
					}
					v, st := rf.Resolve(), rf.ResolveStream()
					rec = append(rec, canonObj(v)+string(st))
					if a.B%2 == 1 {
						wreck(v, 0)
						for k := range st {
							st[k] ^= 0x55
						}
						if again := canonObj(rf.Resolve()) + string(rf.ResolveStream()); again != rec[len(rec)-1] {
							rec[len(rec)-1] = "when resolved again " + again
						}
					}
				}
			case "mid":
				at, ok := pos[n]
				if !ok {
					rec = append(rec, "-")
					continue
				}
				p.Seek(int64(at), 0)
				i1, ok1 := p.ReadInt()
				o1 := p.CurrentOffset()
				v1 := canonObj(pdf.NewReference(p, pick(a.B), g).Resolve())
				o2 := p.CurrentOffset()
				i2, ok2 := p.ReadInt()
				v2 := string(pdf.NewReference(p, pick(a.C), g).ResolveStream())
				v3 := canonObj(pdf.NewReference(p, pick(a.C), g).Resolve())
				kw := p.ReadKeyword()
				rec = append(rec, fmt.Sprint(i1, ok1, o1 == o2, i2, ok2, kw, " ", v1, " ", v2, " ", v3))
			}
		}
		o.Done, o.OK = true, true
	})
	fillOut(o, w, cl[0], outPath)
	return o, rec
}

// getters reads the references in a dictionary or an array twice and wrecks
// what it got in between.
func getters(v pdf.Object) string {
	bad := ""
	try := func(what string, direct pdf.Object, get func() (pdf.Object, bool)) {
		if _, ok := direct.(*pdf.Reference); !ok {
			return
		}
		a, ok := get()
		s := canonObj(a)
		wreck(a, 0)
		if b, ok2 := get(); canonObj(b) != s || ok != ok2 {
			bad += fmt.Sprintf(" %s first %s then %s", what, s, canonObj(b))
		}
	}
	switch x := v.(type) {
	case pdf.Dictionary:
		for _, k := range sortedKeys(x) {
			try(k, x[k], func() (pdf.Object, bool) { return x.GetObject(k) })
		}
	case pdf.Array:
		for i := range x {
			try(fmt.Sprint(i), x[i], func() (pdf.Object, bool) { return x.GetObject(i) })
		}
	}
	return bad
}

func wreck(v pdf.Object, depth int) {
	if depth > 600 {
		return
	}
	switch x := v.(type) {
	case pdf.Dictionary:
		for _, k := range sortedKeys(x) {
			wreck(x[k], depth+1)
			delete(x, k)
		}
		x["Wrecked"] = pdf.Number(1)
	case pdf.Array:
		for i := range x {
			wreck(x[i], depth+1)
			x[i] = pdf.Name("wrecked")
		}
	case *pdf.Reference:
		x.Number, x.Generation = 1, 77
	}
}

func sortedKeys(d pdf.Dictionary) []string {
	var ks []string
	for k := range d {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func refsIn(v pdf.Object, out *[]*pdf.Reference, depth int) {
	if depth > 600 {
		return
	}
	switch x := v.(type) {
	case pdf.Dictionary:
		for _, k := range sortedKeys(x) {
			refsIn(x[k], out, depth+1)
		}
	case pdf.Array:
		for i := range x {
			refsIn(x[i], out, depth+1)
		}
	case *pdf.Reference:
		*out = append(*out, x)
	}
}

// follow resolves a reference in the model.
func follow(exp *gen.Expect, n int) (gen.Val, []byte) {
	seen := map[int]bool{}
	for {
		o := exp.Objs[n]
		if o == nil || seen[n] {
			return nil, nil
		}
		seen[n] = true
		r, ok := o.Full.(gen.Ref)
		if !ok {
			if o.IsStream {
				return o.Full, o.Data
			}
			return o.Full, nil
		}
		n = r.Num
	}
}

func endsInXref(b *gen.Built, n int) bool {
	exp := b.Last()
	for i := 0; i < 100; i++ {
		if isXrefNum(b, n) {
			return true
		}
		o := exp.Objs[n]
		if o == nil {
			return false
		}
		r, ok := o.Full.(gen.Ref)
		if !ok {
			return false
		}
		n = r.Num
	}
	return false
}

func modelRefs(v gen.Val, out *[]int) {
	switch x := v.(type) {
	case *gen.Dict:
		kvs := append([]gen.KV(nil), x.KVs...)
		sort.Slice(kvs, func(i, j int) bool { return kvs[i].K < kvs[j].K })
		for _, kv := range kvs {
			modelRefs(kv.V, out)
		}
	case gen.Arr:
		for _, e := range x {
			modelRefs(e, out)
		}
	case gen.Ref:
		*out = append(*out, x.Num)
	}
}

func runC19(s *Scn) *Res {
	res := newRes()
	b := s.Docs[0].Build()
	exp := b.Last()
	nums := allNums(b)
	e := &Env{Pw: pwOf(s, b), MapSeed: s.mapSeed(0), Del: s.del(0)}
	pos := map[int]int{}
	for n, h := range b.Hist {
		pos[n] = h[len(h)-1].Start
	}
	if len(s.Muts) > 0 {
		return runC19damaged(s, res, b, e, nums, pos)
	}
	o, rec := history(b.Data, e, s.Acts, nums, pos)
	res.note(o)
	if d := o.died(); d != "" || !o.OK {
		return res.fail("error", "%s%s", d, o.Err)
	}
	want := func(n int) string {
		x := exp.Objs[n]
		if x == nil {
			return "null stream "
		}
		st := ""
		if x.IsStream {
			st = string(x.Data)
		}
		return gen.Canon(x.Full) + " stream " + st
	}
	real := 0
	i := 0
	next := func() string {
		i++
		if i > len(rec) {
			return "<nothing>"
		}
		return rec[i-1]
	}
	check := func(step int, what, w, got string) bool {
		if w != got {
			res.fail("value", "call %d, %s: %s", step, what, diffBytes([]byte(w), []byte(got)))
			return false
		}
		return true
	}
	for k, a := range s.Acts {
		n := nums[a.A%len(nums)]
		v, st := follow(exp, n)
		if a.K != "get" && a.K != "mut" && a.K != "walk" && a.K != "dang" {
			// the model has no cross-reference streams
			if endsInXref(b, n) || a.K == "mid" && (endsInXref(b, nums[a.B%len(nums)]) || endsInXref(b, nums[a.C%len(nums)])) {
				next()
				continue
			}
		}
		what := fmt.Sprintf("%s of object %d", a.K, n)
		if exp.Objs[n] != nil {
			real++
		}
		switch a.K {
		case "get", "mut":
			if !check(k, what, want(n), next()) {
				return res
			}
		case "res":
			if !check(k, what, gen.Canon(v), next()) {
				return res
			}
		case "rmut":
			if !check(k, what, gen.Canon(v)+" stream "+string(st), next()) {
				return res
			}
		case "ends":
			if a.B%4 == 3 {
				v, st = nil, nil
			}
			if !check(k, what, fmt.Sprint(gen.Canon(v), " ", string(st), " ", true, true), next()) {
				return res
			}
		case "twice":
			if !check(k, what, gen.Canon(v)+string(st)+string(st)+gen.Canon(v)+"true true", next()) {
				return res
			}
		case "stm":
			if !check(k, what, string(st), next()) {
				return res
			}
		case "dang":
			if !check(k, "missing reference", "null", next()) {
				return res
			}
		case "walk":
			if !check(k, what, want(n), next()) {
				return res
			}
			var refs []int
			if exp.Objs[n] != nil {
				modelRefs(exp.Objs[n].Full, &refs)
			}
			for j, rn := range refs {
				if j > 6 {
					break
				}
				if endsInXref(b, rn) {
					next()
					continue
				}
				rv, rs := follow(exp, rn)
				if !check(k, fmt.Sprintf("reference to %d inside object %d", rn, n), gen.Canon(rv)+string(rs), next()) {
					return res
				}
			}
		case "mid":
			p := b.Hist[n][len(b.Hist[n])-1]
			vb, _ := follow(exp, nums[a.B%len(nums)])
			vc, sc := follow(exp, nums[a.C%len(nums)])
			w := fmt.Sprint(p.Num, true, true, p.Gen, true, pdf.KEYWORD_OBJ, " ", gen.Canon(vb), " ", string(sc), " ", gen.Canon(vc))
			if !check(k, "reading the header of object "+fmt.Sprint(n)+" while resolving others", w, next()) {
				return res
			}
		}
	}
	if real >= 3 {
		res.probe("nontrivial")
	}
	return res
}

// damaged files have no model: every call must give what it gives as the only
// call.
func runC19damaged(s *Scn, res *Res, b *gen.Built, e *Env, nums []int, pos map[int]int) *Res {
	data := mutate(b.Data, s.Muts)
	o, rec := history(data, e, s.Acts, nums, pos)
	res.note(o)
	if o.died() != "" || !o.OK {
		return res
	}
	i := 0
	for k, a := range s.Acts {
		if k > 14 {
			break
		}
		x, one := history(data, e, []Act{a}, nums, pos)
		res.note(x)
		if d := x.died(); d != "" {
			return res
		}
		for _, w := range one {
			if i < len(rec) && rec[i] != w {
				return res.fail("history", "call %d (%s of object %d) depends on the calls before it: %s", k, a.K, nums[a.A%len(nums)], diffBytes([]byte(w), []byte(rec[i])))
			}
			i++
		}
	}
	res.probe("nontrivial")
	return res
}

// C20 ---------------------------------------------------------------------------

func genC20(r *rt.R, tier string) *Scn {
	s := &Scn{Prop: "C20", Kind: r.Pick("parse", "parse", "parse", "args")}
	o := fullOpt()
	o.MaxF, o.MaxRev, o.Enc = 4, 2, 40
	s.Docs = []*gen.Doc{anyDoc(r, o)}
	s.Maps = []uint64{uint64(r.N(2))}
	s.N = map[string]int{
		"f": r.N(2), "v": r.N(2) * r.N(2), "state": r.N(9), "pw": r.N(5), "out": r.N(4), "style": r.N(4), "pre": r.In(1, 6),
	}
	if s.Kind == "args" {
		s.N["argc"] = []int{0, 1, 3, 4}[r.N(4)]
	}
	if r.P(1, 4) {
		sel := randSel(r)
		sel.Kind = r.Pick("create", "write", "close", "mkdir", "read", "open", "removeall")
		sel.Nth %= 40
		s.Sels = []Sel{sel}
	}
	if r.P(1, 6) {
		s.Muts = randMuts(r, 2)
	}
	return s
}

// C21 ---------------------------------------------------------------------------

func genC21(r *rt.R, tier string) *Scn {
	s := &Scn{Prop: "C21"}
	o := fullOpt()
	o.Plain, o.Enc, o.MaxF, o.Order = true, 35, 8, 15
	s.Docs = []*gen.Doc{anyDoc(r, o)}
	s.Maps = []uint64{randMap(r)}
	if r.P(1, 4) {
		s.Dels = []rt.Delivery{randDelivery(r)}
	}
	return s
}

func runC21(s *Scn) *Res {
	res := newRes()
	b := s.Docs[0].Build()
	if !s.Docs[0].Plain {
		res.Skip = true
		return res
	}
	full(res, b, b.Data, &Env{Pw: pwOf(s, b), MapSeed: s.mapSeed(0), Del: s.del(0)}, aRaw, "")
	if len(b.Last().Objs) >= 2 {
		res.probe("nontrivial")
	}
	return res
}

// C22 ---------------------------------------------------------------------------

func genC22(r *rt.R, tier string) *Scn {
	s := &Scn{Prop: "C22"}
	o := fullOpt()
	o.Lvl, o.Enc, o.MaxF, o.Order = 2, 15, 8, 10
	a := anyDoc(r, o)
	c := *a
	if r.P(1, 2) {
		c.Order = nil
	}
	a.Lvl = r.N(3)
	c.Spell = r.U64()>>1 | 1
	if r.P(1, 2) {
		c.Revs = append([]gen.RevSpec(nil), c.Revs...)
		for i := range c.Revs {
			c.Revs[i].Xref = r.Pick("table", "stream")
			c.Revs[i].XF = r.Pick("", "flate", "png")
			c.Revs[i].First = c.Revs[i].Xref == "table" && r.P(1, 4)
		}
	}
	s.Docs = []*gen.Doc{a, &c}
	s.Maps = []uint64{randMap(r), randMap(r)}
	s.Dels = []rt.Delivery{randDelivery(r), randDelivery(r)}
	return s
}

func runC22(s *Scn) *Res {
	res := newRes()
	var outs []*Out
	var bs []*gen.Built
	for i, d := range s.Docs {
		b := d.Build()
		o := res.note(parse(b.Data, &Env{Pw: pwOf(s, b), MapSeed: s.mapSeed(i), Del: s.del(i)}))
		if c, m := checkParse(b, b.Last(), o, aArtefacts|aTree); c != "" {
			return res.fail(c, "spelling %d: %s", i+1, m)
		}
		outs = append(outs, o)
		bs = append(bs, b)
	}
	if len(outs) == 2 {
		if bytes.Equal(bs[0].Data, bs[1].Data) {
			return res
		}
		res.probe("nontrivial")
		for _, k := range []string{"raw.pdf", "errors.txt"} {
			delete(outs[0].Tree, k)
			delete(outs[1].Tree, k)
		}
		x, y := outs[0].Tree, outs[1].Tree
		for _, t := range []map[string][]byte{x, y} {
			t["commands.txt"] = []byte(strings.Join(trimRight(lines(t["commands.txt"])), "\n") + "\n")
		}
		if d := diffOrderless(x, y); d != "" {
			return res.fail("spelling", "the two spellings give different results: %s", d)
		}
	}
	return res
}

// C23 ---------------------------------------------------------------------------

func genC23(r *rt.R, tier string) *Scn {
	s := &Scn{Prop: "C23"}
	o := fullOpt()
	o.MaxF, o.Enc, o.MaxRev = 5, 90, 2
	d := anyDoc(r, o)
	s.Docs = []*gen.Doc{d}
	s.Maps = []uint64{randMap(r)}
	for n := r.In(2, 14); n > 0; n-- {
		s.Acts = append(s.Acts, Act{K: r.Pick("set", "set", "set", "load", "get", "get", "get", "res", "seek"), A: r.N(1 << 16), B: r.N(1 << 16), C: r.N(1 << 16)})
	}
	if d.EncS != 0 && r.P(1, 4) {
		for n := r.In(1, 2); n > 0; n-- {
			s.Dam = append(s.Dam, Act{K: r.Pick("offset", "startx", "startkw", "shift"), A: r.N(1 << 20), B: r.N(1 << 20), C: r.N(1 << 12)})
		}
	}
	if r.P(1, 4) {
		s.Dels = []rt.Delivery{randDels(r, d.Build())}
	}
	return s
}

// try is the outcome of one call on the parser.
type try struct {
	call string
	num  int
	pw   string
	err  string
	val  string
}

func runC23(s *Scn) *Res {
	res := newRes()
	b := s.Docs[0].Build()
	exp := b.Last()
	nums := allNums(b)
	data := b.Data
	if len(s.Dam) > 0 {
		x := damageXref(b, s.Dam)
		if x.skip != "" {
			res.Skip = true
			return res
		}
		data = x.data
		for _, n := range nums {
			if _, settled := x.verdict(n); !settled {
				res.Skip = true
				return res
			}
		}
	}
	e := &Env{MapSeed: s.mapSeed(0), Del: s.del(0)}
	w := newWorld(data, e)
	o := &Out{}
	var rec []try
	cl := w.Run(func() {
		f, err := simos.Open(inPath)
		if err != nil {
			return
		}
		defer f.Close()
		p := pdf.NewParser(f, nil)
		said := func(t try, err error) {
			if err != nil {
				t.err = err.Error()
			}
			rec = append(rec, t)
		}
		for k, a := range s.Acts {
			pw := fmt.Sprint("any", a.B)
			if b.Enc != nil {
				pw = b.Enc.Pw
				if a.C%2 == 0 {
					pw = wrongPw(rt.NewR(uint64(a.B)), pw)
				}
			}
			n := nums[a.A%len(nums)]
			switch {
			case a.K == "load" || k == 0: // loading comes first
				said(try{call: "load", pw: pw}, p.Load(pw))
			case a.K == "set":
				said(try{call: "set", pw: pw}, p.SetPassword(pw))
			case a.K == "get":
				x := p.GetObject(n)
				rec = append(rec, try{call: "get", num: n, val: canonObj(x.Value) + " stream " + string(x.Stream)})
			case a.K == "res":
				rf := pdf.NewReference(p, n, a.C%3)
				v := canonObj(rf.Resolve())
				rec = append(rec, try{call: "res", num: n, val: v + " stream " + string(rf.ResolveStream())})
			case a.K == "seek":
				p.Seek(int64(a.A%(len(data)+1)), 0)
				p.ReadKeyword()
			}
		}
		o.Done, o.OK = true, true
	})
	fillOut(o, w, cl[0], outPath)
	res.note(o)
	if d := o.died(); d != "" {
		return res.fail("died", "%s", d)
	}
	open := b.Enc == nil
	wrong, late, reads := 0, 0, 0
	for k, t := range rec {
		switch t.call {
		case "load", "set":
			want := ""
			switch {
			case b.Enc == nil:
				if t.call == "set" {
					want = pdf.EncryptionError.Error()
				}
			case gen.SamePw(t.pw, b.Enc.Pw):
				open = true
			default:
				want = pdf.EncryptionPasswordError.Error()
				wrong++
				if open {
					late++
				}
			}
			if t.err != want {
				return res.fail("answer", "call %d (%s with password %q, right is %q): error %q, want %q", k, t.call, t.pw, pwOf(s, b), t.err, want)
			}
		default:
			x := exp.Objs[t.num]
			if !open || x == nil && len(s.Dam) > 0 {
				continue
			}
			want := "null stream "
			if t.call == "res" {
				if endsInXref(b, t.num) {
					continue
				}
				v, st := follow(exp, t.num)
				want = gen.Canon(v) + " stream " + string(st)
			} else if x != nil {
				want = gen.Canon(x.Full) + " stream "
				if x.IsStream {
					want += string(x.Data)
				}
			}
			if want != t.val {
				return res.fail("value", "call %d (%s of object %d after %d wrong passwords, %d of them after the right one): %s", k, t.call, t.num, wrong, late, diffBytes([]byte(want), []byte(t.val)))
			}
			reads++
		}
	}
	if wrong > 0 && reads > 0 {
		res.probe("nontrivial")
	}
	if late > 0 {
		res.probe("wrong after right")
	}
	return res
}

// C24 ---------------------------------------------------------------------------

// marks is how often the bytes contain something that is read as the start of
// an object or of an index: damage that adds one changes more than one object.
func marks(d []byte) int {
	n := 0
	for _, k := range []string{"obj", "xref", "XRef", "trailer"} {
		n += bytes.Count(d, []byte(k))
	}
	return n - bytes.Count(d, []byte("endobj"))
}

var header = regexp.MustCompile(`^[+-]?\d+(?:[\s\x00]|%[^\r\n]*[\r\n])+[+-]?\d+(?:[\s\x00]|%[^\r\n]*[\r\n])*obj`)

// borrows tells whether something in the damaged object, followed by the
// start of the next one, is read as the start of an object: a number before a
// comment that no longer ends.
func borrows(data []byte, h *gen.ObjPos) bool {
	for i := h.Start; i < h.End && i < len(data); i++ {
		if c := data[i]; c >= '0' && c <= '9' {
			if m := header.FindIndex(data[i:min(len(data), h.End+600)]); m != nil && i+m[1] > h.End {
				return true
			}
		}
	}
	return false
}

// hurt overwrites bytes between lo and hi.
func hurt(d []byte, lo, hi int, a Act) {
	r := rt.NewR(uint64(a.C))
	at := lo + a.A%(hi-lo)
	n := min(1+a.B%[]int{1, 4, 16, 64, 1 << 16}[a.B>>20%5], hi-at)
	switch a.K {
	case "flip":
		d[at] ^= 1 << r.N(8)
	case "bytes":
		copy(d[at:at+n], r.Bytes(n))
	case "fill":
		c := r.Pick("\x00", " ", "(", "<", "[", "%", "\n", "9", "/", "\xff")[0]
		for i := at; i < at+n; i++ {
			d[i] = c
		}
	case "word":
		w := r.Pick("(((", "<<<<", ">>", "%", "[", "]", ")", "<", ">", "stream\n", "\nendstream\n", "null", " R ", "#", "\\", "-", "true", " 0 R", "/Length 9", "/Kids", "/Next", "/Parent", "/Filter", "/F", "\n", "endobj", "BT", "9999999999")
		for p := 0; p < r.In(1, 3) && p*len(w) < hi-at; p++ {
			copy(d[at+p*len(w):hi], w)
		}
	case "deep":
		w := r.Pick("[", "<<", "[<<", "<</K", "(")
		copy(d[min(lo+8+r.N(12), hi):hi], strings.Repeat(w, (hi-lo)/len(w)+1))
	case "all":
		c := r.Pick("\x00", "\x00", "\x00", " ", "\xff", "\n", "0", "(", "%")[0]
		for i := lo; i < hi; i++ {
			d[i] = c
		}
	case "noise":
		copy(d[lo:hi], r.Bytes(hi-lo))
	case "move":
		copy(d[at:at+n], append([]byte(nil), d[lo+r.N(hi-lo):hi]...))
	}
}

func genC24(r *rt.R, tier string) *Scn {
	s := &Scn{Prop: "C24"}
	o := fullOpt()
	o.MaxF, o.MaxRev = 8, 3
	if r.P(1, 6) {
		o.Size = 9000
	}
	d := anyDoc(r, o)
	for len(d.Feats) < 2 {
		d = anyDoc(r, o)
	}
	s.Docs = []*gen.Doc{d}
	s.Maps = []uint64{randMap(r)}
	s.N = map[string]int{"obj": r.N(1 << 20)}
	if r.P(1, 4) {
		s.Kind = "block"
		s.N["at"], s.N["size"], s.N["align"] = r.N(1<<20), []int{8, 64, 512, 512, 4096}[r.N(5)], []int{1, 1, 16, 512}[r.N(4)]
		s.Acts = []Act{{K: "all", C: r.N(1 << 24)}}
		if r.P(1, 3) {
			s.Acts[0].K = "noise"
		}
	}
	n := 1
	if s.Kind == "block" {
		n = r.N(2)
	}
	if r.P(1, 3) {
		n = r.In(2, 5)
	}
	for ; n > 0; n-- {
		s.Acts = append(s.Acts, Act{K: r.Pick("flip", "flip", "bytes", "fill", "word", "word", "word", "move", "deep"), A: r.N(1 << 24), B: r.N(1 << 24), C: r.N(1 << 24)})
	}
	if r.P(1, 4) {
		s.Dels = []rt.Delivery{randDels(r, d.Build())}
	}
	return s
}

// endKnown says whether the end of a stream can be told without its length,
// although the length entry gives the value said.
func endKnown(b *gen.Built, n int, said string) bool {
	h := b.Hist[n][len(b.Hist[n])-1]
	data := b.Data[h.StreamStart:]
	if l, err := strconv.ParseFloat(said, 64); err == nil {
		i := int(max(0, min(l, float64(len(data)))))
		if at := bytes.TrimPrefix(bytes.TrimPrefix(data[i:], []byte("\r")), []byte("\n")); bytes.HasPrefix(at, []byte("endstream")) {
			return false
		}
	}
	end := bytes.Index(data, []byte("endstream"))
	if end < h.StreamEnd-h.StreamStart {
		return false
	}
	raw := data[:end]
	if bytes.HasSuffix(raw, []byte("\r\n")) {
		raw = raw[:end-2]
	} else if bytes.HasSuffix(raw, []byte("\n")) || bytes.HasSuffix(raw, []byte("\r")) {
		raw = raw[:end-1]
	}
	return len(raw) == h.StreamEnd-h.StreamStart
}

// hurtSome damages one copy of one object, or a block of the file, and returns
// the copies that were hit.
func hurtSome(s *Scn, b *gen.Built) ([]*gen.ObjPos, []byte) {
	var all []*gen.ObjPos
	for _, n := range allNums(b) {
		if n != b.EncN {
			all = append(all, b.Hist[n]...)
		}
	}
	hit := all[s.n("obj")%len(all)]
	lo, hi := hit.Start, hit.End
	if s.Kind == "block" {
		lo, hi = block(b, lo+s.n("at")%(hi-lo), s.n("size"), s.n("align"))
	}
	data := append([]byte(nil), b.Data...)
	for _, a := range s.Acts {
		if lo < hi {
			hurt(data, lo, hi, a)
		}
	}
	var hits []*gen.ObjPos
	for _, o := range all {
		if o.Start < hi && o.End > lo && !bytes.Equal(data[o.Start:o.End], b.Data[o.Start:o.End]) {
			hits = append(hits, o)
		}
	}
	return hits, data
}

// block is the part of a block of the file around a position that holds no
// cross-reference data, encryption dictionary, or start pointer.
func block(b *gen.Built, at, size, align int) (int, int) {
	lo := at - at%align
	hi := min(lo+size, len(b.Data))
	lo = max(lo, 20)
	keep := func(x, y int) {
		switch {
		case y <= at:
			lo = max(lo, y)
		case x > at:
			hi = min(hi, x)
		default:
			hi = lo
		}
	}
	for _, sec := range b.Sections {
		keep(sec.Start, max(sec.End, sec.TrailEnd))
	}
	for _, st := range b.Starts {
		keep(st.Kw, st.NumEnd+8)
	}
	for _, o := range b.Objs {
		if o.IsXref || o.Num == b.EncN {
			keep(o.Start, o.End)
		}
	}
	return lo, hi
}

// checkItems wants what does not depend on lost objects to be in the reports.
func checkItems(res *Res, b *gen.Built, exp *gen.Expect, l *LibOut, o *Out, lost map[int]bool, what string) *Res {
	pages, slots := true, true
	feats := map[string]bool{}
	for n := range lost {
		key := b.Owner[n]
		switch {
		case strings.Contains(key, "#"):
			feats[key[:strings.Index(key, ".")]] = true
		case key == "info":
		case strings.HasPrefix(key, "rootfont"):
			pages = false
		default:
			pages, slots = false, false
		}
	}
	for _, it := range exp.Items {
		fine, soft := true, false
		for n := range lost {
			v := l.Objs[n]
			fine = fine && !it.Deps[n] && (!it.Soft[n] || v.Canon == "null" && len(v.Stream) == 0)
			soft = soft || it.Soft[n]
		}
		if !fine || !pages && it.Kind == "page" || !slots && it.Slot {
			continue
		}
		res.probe("item")
		if soft {
			res.probe("item with a part of its page missing")
		}
		if feats[fmt.Sprintf("f%d", it.Feat)] {
			res.probe("item of the same feature")
		}
		for _, k := range []struct {
			file string
			want []string
		}{{"urls.txt", it.URLs}, {"javascript.js", it.JS}, {"commands.txt", trimRight(it.Cmds)}, {"files.txt", it.Files}} {
			got := map[string]int{}
			for _, t := range trimRight(lines(o.Tree[k.file])) {
				got[t]++
			}
			for _, t := range trimRight(k.want) {
				if got[t]--; got[t] < 0 {
					return res.fail("artefact", "%s, %s lacks the line %q of feature %d (%s)", what, k.file, t, it.Feat, it.Kind)
				}
			}
		}
		for _, t := range it.Files {
			h := t[:strings.Index(t, ":")]
			if want, ok := exp.Extracted[h]; ok && !bytes.Equal(o.Tree[h], want) {
				return res.fail("extracted", "%s, extracted file %s %s", what, h, diffBytes(want, o.Tree[h]))
			}
		}
		for _, t := range it.Texts {
			if !bytes.Contains(o.Tree["contents.txt"], []byte(t)) {
				return res.fail("text", "%s, contents.txt lacks the text of a page of feature %d: %q", what, it.Feat, cut([]byte(t), 200))
			}
		}
	}
	return res
}

func runC24(s *Scn) *Res {
	res := newRes()
	b := s.Docs[0].Build()
	exp := b.Last()
	nums := allNums(b)
	hits, data := hurtSome(s, b)
	if marks(data) > marks(b.Data) || len(hits) == 0 {
		res.Skip = true
		return res
	}
	for _, h := range hits {
		if borrows(data, h) {
			res.Skip = true
			return res
		}
	}
	for _, a := range s.Acts {
		res.probe("damage:" + a.K)
	}
	if s.Kind == "block" {
		res.probe("block")
	}
	lost, renamed := map[int]bool{}, false
	var names []string
	for _, h := range hits {
		hist := b.Hist[h.Num]
		live := exp.Objs[h.Num] != nil && h == hist[len(hist)-1]
		if live {
			lost[h.Num] = true
		} else {
			res.probe("old copy")
		}
		renamed = renamed || !bytes.Equal(data[h.Start:h.ValStart], b.Data[h.Start:h.ValStart])
		names = append(names, fmt.Sprintf("%d (%s, revision %d, live %v)", h.Num, b.Owner[h.Num], h.Rev, live))
	}
	if len(names) > 4 {
		names = append(names[:4], fmt.Sprintf("%d more", len(hits)-4))
	}
	what := "with only object " + strings.Join(names, ", ") + " damaged"
	e := &Env{Pw: pwOf(s, b), MapSeed: s.mapSeed(0), Del: s.del(0)}
	l := res.lib(library(data, e, nums))
	if d := l.died(); d != "" {
		return res.fail("died", "%s", d)
	}
	if !l.OK {
		return res.fail("error", "%s, loading failed: %s", what, l.Err)
	}
	for _, m := range nums {
		x := exp.Objs[m]
		if x == nil && m != b.EncN {
			if v := l.Objs[m]; v.Canon != "null" || len(v.Stream) > 0 {
				return res.fail("deleted", "%s, object %d, which was deleted, reads as %s", what, m, cut([]byte(v.Canon), 200))
			}
			res.probe("deleted")
		}
		if x == nil || lost[m] {
			continue
		}
		helpers := lost
		if x.IsStream && x.Len != nil && lost[x.Len.Num] && len(lost) == 1 && endKnown(b, m, l.Objs[x.Len.Num].Canon) {
			res.probe("length damaged")
			helpers = nil
		}
		if d := diffCopy(x, l.Objs[m], helpers); d != "" {
			return res.fail("object", "%s, object %d: %s", what, m, d)
		}
		res.probe("nontrivial")
	}
	o := res.note(parse(data, e))
	if d := o.died(); d != "" {
		return res.fail("died", "%s", d)
	}
	if !o.OK {
		return res.fail("error", "%s, the parse failed: %s", what, o.Err)
	}
	// an object that was renamed may be taken for a new one
	if len(lost) == 0 && !renamed {
		if c, m := checkTree(b, exp, o.Tree, aArtefacts|aTree); c != "" {
			return res.fail(c, "%s, %s", what, m)
		}
		return res
	}
	return checkItems(res, b, exp, l, o, lost, what)
}

// C25 ---------------------------------------------------------------------------

func genC25(r *rt.R, tier string) *Scn {
	s := &Scn{Prop: "C25"}
	o := fullOpt()
	o.MaxF, o.MaxRev, o.Enc = 8, 1, 0
	s.Docs = []*gen.Doc{anyDoc(r, o)}
	s.Maps = []uint64{randMap(r)}
	s.N = map[string]int{"cut": r.N(1 << 24), "near": r.N(4)}
	if r.P(1, 4) {
		s.Dels = []rt.Delivery{randDels(r, s.Docs[0].Build())}
	}
	return s
}

// cutAt is where the file of a C25 scenario ends.
func cutAt(s *Scn, b *gen.Built) int {
	c := s.n("cut")
	if s.n("near") == 0 {
		return c % len(b.Data)
	}
	var at []int
	for _, p := range b.Objs {
		at = append(at, p.Start, p.ValStart, p.ValEnd, p.BodyEnd, p.End)
		if p.StreamStart > 0 {
			at = append(at, p.StreamStart, p.StreamEnd)
		}
	}
	for _, sec := range b.Sections {
		at = append(at, sec.Start, sec.End, sec.TrailKw, sec.TrailEnd)
	}
	for _, st := range b.Starts {
		at = append(at, st.Kw, st.NumStart, st.NumEnd)
	}
	return max(0, min(len(b.Data)-1, at[c%len(at)]+c>>16%5-2))
}

func runC25(s *Scn) *Res {
	res := newRes()
	b := s.Docs[0].Build()
	exp := b.Last()
	nums := allNums(b)
	at := cutAt(s, b)
	data := b.Data[:at:at]
	lost, torn := map[int]bool{}, false
	for _, n := range nums {
		for _, h := range b.Hist[n] {
			if h.End > at {
				lost[n] = true
				torn = torn || h.Start < at
			}
		}
	}
	for _, h := range b.Objs {
		torn = torn || h.Start < at && h.End > at
	}
	what := fmt.Sprintf("cut off at byte %d of %d", at, len(b.Data))
	e := &Env{MapSeed: s.mapSeed(0), Del: s.del(0)}
	l := res.lib(library(data, e, nums))
	if d := l.died(); d != "" {
		return res.fail("died", "%s: %s", what, d)
	}
	if !l.OK {
		return res.fail("error", "%s, loading failed: %s", what, l.Err)
	}
	for _, m := range nums {
		x, v := exp.Objs[m], l.Objs[m]
		h := b.Hist[m][len(b.Hist[m])-1]
		switch {
		case x == nil:
		case h.Start >= at:
			if v.Canon != "null" || len(v.Stream) > 0 {
				return res.fail("invented", "%s, object %d, which begins at byte %d, reads as %s", what, m, h.Start, cut([]byte(v.Canon), 200))
			}
		case !lost[m]:
			if d := diffCopy(x, v, lost); d != "" {
				return res.fail("object", "%s, object %d, which ends at byte %d: %s", what, m, h.End, d)
			}
			res.probe("nontrivial")
		}
	}
	o := res.note(parse(data, e))
	if d := o.died(); d != "" {
		return res.fail("died", "%s: %s", what, d)
	}
	if !o.OK {
		return res.fail("error", "%s, the parse failed: %s", what, o.Err)
	}
	if !torn {
		res.probe("between objects")
		for _, k := range []struct {
			file string
			want []string
		}{{"urls.txt", exp.URLs}} {
			left := map[string]int{}
			for _, t := range trimRight(k.want) {
				left[t]++
			}
			for _, t := range trimRight(lines(o.Tree[k.file])) {
				if left[t]--; left[t] < 0 {
					return res.fail("invented", "%s, %s has the line %q, which the whole file does not call for", what, k.file, t)
				}
			}
		}
	}
	return checkItems(res, b, exp, l, o, lost, what)
}
