package gen

import (
	"bytes"
	"compress/zlib"
	"fmt"
	"sort"
	"strings"

	"github.com/KarmaPenny/pdfparser/zzsim/rt"
)

// Span is a construct of the file: bytes [Start, End).
type Span struct {
	Kind       string // array dict string esc oct hex name stream
	Start, End int
}

// ObjPos is where one written object lies.
type ObjPos struct {
	Rev, Num, Gen int
	Start, End    int // End is after the last byte of endobj
	ValStart      int
	ValEnd        int // after the value
	BodyEnd       int // after the value, or after endstream
	StreamKw      int // position of the stream keyword, 0 if none
	StreamStart   int
	StreamEnd     int // end of the stored data
	Stages        [][]byte
	Obj           *Obj
	IsXref        bool
	Planted       bool // the abnormality of the object was written
	Spans         []Span
}

// EntryPos is one cross-reference table entry.
type EntryPos struct {
	Pos, Num, Target, Gen int
	Free                  bool
}

// Section is one cross-reference section.
type Section struct {
	Rev      int
	Kind     string // table stream
	Start    int    // of the xref keyword or the stream object
	End      int
	Entries  []EntryPos
	TrailKw  int
	TrailEnd int
	Num      int // object number of an xref stream
}

// StartX is one startxref.
type StartX struct{ Kw, NumStart, NumEnd, Value int }

type Layout struct {
	Data     []byte
	Objs     []*ObjPos
	RevEnd   []int
	Sections []*Section
	Starts   []StartX
}

// RevSpec is how one revision is written.
type RevSpec struct {
	Xref  string `json:"xref"`            // table, stream
	First bool   `json:"first,omitempty"` // the section precedes the objects
	W     int    `json:"w,omitempty"`
	XF    string `json:"xf,omitempty"` // filter of an xref stream
	Touch int    `json:"touch,omitempty"`
	Split int    `json:"split,omitempty"` // percentage of extra subsection breaks
	Whole bool   `json:"whole,omitempty"` // the section lists every number, not just the changed ones
	Early bool   `json:"early,omitempty"` // the xref streams have the first object numbers
	Wide  bool   `json:"wide,omitempty"`  // offsets of eight bytes
	FreeG int    `json:"freeg,omitempty"` // generations of free entries: one more, 0, 65535
}

type writer struct {
	buf   bytes.Buffer
	base  int
	r     *rt.R
	lvl   int
	enc   *Enc
	num   int
	gen   int
	clear bool
	spans []Span
	// abnormality to plant at the first opportunity (C18)
	abn string
}

func (w *writer) pos() int { return w.base + w.buf.Len() }
func (w *writer) s(x string) {
	w.buf.WriteString(x)
}

var comments = []string{"%", "% note", "%(<[/", "%)>]>>", "%% text \\ ) (", "%\xe2\xe3\xcf\xd3", "% endobj", "% /K (x) <</A [1 2]"}

// ws writes optional white space; must says that some is required.
func (w *writer) ws(must bool) {
	if w.lvl == 0 {
		if must {
			w.s(" ")
		}
		return
	}
	n := 0
	if must {
		n = 1
	}
	if w.r.P(1, 3) {
		n += w.r.N(3)
	}
	if w.r.P(1, 30000) {
		n += w.r.In(2000, 9000)
	}
	for i := 0; i < n; i++ {
		if w.r.P(1, 8) {
			w.comment()
			continue
		}
		w.s([]string{" ", " ", " ", "\n", "\n", "\r\n", "\r", "\t", "\f", "\x00"}[w.r.N(10)])
	}
}

func (w *writer) comment() {
	w.s(comments[w.r.N(len(comments))])
	w.s([]string{"\n", "\r\n", "\r"}[w.r.N(3)])
}

func (w *writer) eol() {
	if w.lvl == 0 {
		w.s("\n")
		return
	}
	w.s([]string{"\n", "\r\n", "\r"}[w.r.N(3)])
}

func isDelim(b byte) bool { return bytes.IndexByte([]byte("()<>[]/%"), b) >= 0 }
func isWS(b byte) bool    { return bytes.IndexByte([]byte("\x00\t\n\f\r "), b) >= 0 }

// selfDelim: the spelling starts with a delimiter, so needs no space before it.
func selfDelim(v Val) bool {
	switch v.(type) {
	case Name, Str, Arr, *Dict:
		return true
	}
	return false
}

func (w *writer) span(kind string, start int) {
	w.spans = append(w.spans, Span{kind, start, w.pos()})
}

func (w *writer) value(v Val) {
	start := w.pos()
	switch x := v.(type) {
	case nil:
		w.s("null")
	case bool:
		w.s(fmt.Sprint(x))
	case int:
		if w.lvl >= 2 && x >= 0 && w.r.P(1, 6) {
			w.s("+")
		}
		if w.lvl >= 2 && x >= 0 && w.r.P(1, 16) {
			w.s("00"[w.r.N(2):])
		}
		w.s(fmt.Sprint(x))
	case Real:
		w.s(string(x))
	case Name:
		w.name(string(x))
		w.span("name", start)
	case Str:
		w.str(string(x))
	case Ref:
		w.s(fmt.Sprint(x.Num))
		w.ws(true)
		w.s(fmt.Sprint(x.Gen))
		w.ws(true)
		w.s("R")
	case Arr:
		w.s("[")
		w.ws(false)
		for i, e := range x {
			w.value(e)
			if i < len(x)-1 {
				_, isName := e.(Name)
				w.ws(isName && !selfDelim(x[i+1]) || !(selfDelim(e) || selfDelim(x[i+1])) || w.lvl == 0)
			} else {
				w.ws(false)
			}
		}
		if w.abn == "stray-close" {
			w.abn = ""
		}
		w.s("]")
		w.span("array", start)
	case *Dict:
		w.s("<<")
		if w.abn == "bad-key" && w.r.P(2, 3) {
			w.abn = ""
			w.ws(false)
			w.s([]string{"42", "(key)", "[1]", "true", "<aa>"}[w.r.N(5)])
			w.s(" ")
		}
		w.ws(false)
		idx := make([]int, len(x.KVs))
		for i := range idx {
			idx[i] = i
		}
		if w.lvl > 0 {
			idx = w.r.Perm(len(idx))
		}
		for _, i := range idx {
			kv := x.KVs[i]
			ks := w.pos()
			w.name(kv.K)
			w.span("key", ks)
			w.ws(!selfDelim(kv.V) || w.lvl == 0)
			w.value(kv.V)
			w.ws(false)
			w.span("pair", ks)
		}
		if w.abn == "no-value" && w.r.P(2, 3) {
			w.abn = ""
			w.ws(false)
			w.s("/Dangling")
			w.ws(false)
		}
		w.s(">>")
		w.span("dict", start)
	default:
		panic(fmt.Sprintf("gen: bad value %T", v))
	}
}

func (w *writer) name(n string) {
	w.s("/")
	bad := -1
	if w.abn == "bad-name-escape" {
		bad = w.r.N(len(n) + 1)
	}
	for i := 0; i < len(n); i++ {
		b := n[i]
		if i == bad {
			w.abn = ""
			w.s(w.r.Pick("#zz", "#5z", "#4G", "#0x", "#g0"))
		}
		must := b < '!' || b == 0x7f || b == '#' || isDelim(b)
		opt := b > '~' && w.lvl >= 1 && w.r.P(1, 2)
		needless := !must && !opt && b <= '~' && (w.lvl >= 2 && w.r.P(1, 8) || w.abn == "needless-name-escape")
		if w.abn == "needless-name-escape" && needless {
			w.abn = ""
		}
		if must || opt || needless {
			if w.lvl >= 1 && w.r.P(1, 2) {
				w.s(fmt.Sprintf("#%02X", b))
			} else {
				w.s(fmt.Sprintf("#%02x", b))
			}
			continue
		}
		w.buf.WriteByte(b)
	}
	if w.abn == "bad-name-escape" {
		w.abn = ""
		w.s(w.r.Pick("#zz", "#5z", "#4G", "#0x", "#", "#4", "#g0"))
	}
}

func (w *writer) str(s string) {
	data := []byte(s)
	if w.enc != nil && !w.clear {
		data = w.enc.encrypt(w.r, w.enc.strMethod(), w.num, w.gen, data)
	}
	start := w.pos()
	hex := w.r.P(1, 3)
	if w.abn == "bad-hex" {
		hex = true
	} else if w.abn == "needless-string-escape" || w.abn == "octal-overflow" {
		hex = false
	}
	if w.lvl == 0 && w.abn == "" {
		hex = w.enc != nil
	}
	if hex {
		w.s("<")
		bad := -1 // half a byte before which the bad characters go
		if w.abn == "bad-hex" {
			bad = w.r.N(2*len(data) + 1)
		}
		flaw := func(at int) {
			if at == bad {
				bad, w.abn = -1, ""
				w.s([]string{"g", "~", "zz", "(", "#", "]", "G", "@", "`", ":", "/", "\x7f", "\x01"}[w.r.N(13)])
			}
		}
		for i, b := range data {
			d := "0123456789abcdef"
			if w.lvl >= 1 && w.r.P(1, 2) {
				d = "0123456789ABCDEF"
			}
			flaw(2 * i)
			w.buf.WriteByte(d[b>>4])
			flaw(2*i + 1)
			if w.lvl >= 1 && w.r.P(1, 16) {
				w.s([]string{" ", "\n", "\r\n", "\t"}[w.r.N(4)])
			}
			if w.lvl >= 1 && i == len(data)-1 && b&15 == 0 && w.r.P(1, 2) {
				break
			}
			w.buf.WriteByte(d[b&15])
			if w.lvl >= 1 && w.r.P(1, 16) {
				w.s([]string{" ", "\n", "\r\n", "\t"}[w.r.N(4)])
			}
		}
		flaw(2 * len(data))
		w.s(">")
		w.span("hex", start)
		return
	}
	w.s("(")
	// parentheses may stay unescaped when they balance
	raw := map[int]bool{}
	if w.lvl >= 1 && w.r.P(1, 2) {
		var st []int
		for i, b := range data {
			if b == '(' {
				st = append(st, i)
			} else if b == ')' && len(st) > 0 {
				raw[i], raw[st[len(st)-1]] = true, true
				st = st[:len(st)-1]
			}
		}
	}
	oct := func(b byte, next int) {
		o := w.pos()
		short := next < 0 || next > '9' || next < '0'
		if short && w.lvl >= 1 && w.r.P(1, 2) {
			w.s(fmt.Sprintf("\\%o", b))
		} else {
			w.s(fmt.Sprintf("\\%03o", b))
		}
		w.span("oct", o)
	}
	esc := func(c string) {
		o := w.pos()
		w.s("\\" + c)
		w.span("esc", o)
	}
	big := -1 // where an octal code that is too large goes
	if w.abn == "octal-overflow" {
		big = w.r.N(len(data) + 1)
	}
	// the two digits that are left must need their escape
	overflow := func() {
		w.abn = ""
		w.s(w.r.Pick("\\40", "\\50", "\\51") + w.r.Pick("0", "3", "7"))
	}
	for i := 0; i < len(data); i++ {
		if i == big {
			overflow()
		}
		b := data[i]
		next := -1
		if i+1 < len(data) {
			next = int(data[i+1])
		}
		if w.lvl >= 1 && w.r.P(1, 40) {
			esc([]string{"\n", "\r\n"}[w.r.N(2)]) // line continuation
		}
		switch {
		case (b == '(' || b == ')') && !raw[i], b == '\\':
			if w.lvl >= 1 && w.r.P(1, 3) {
				oct(b, next)
			} else {
				esc(string([]byte{b}))
			}
		case b == '\r':
			if w.lvl >= 1 && w.r.P(1, 2) {
				oct(b, next)
			} else {
				esc("r")
			}
		case b == '\n' || b == '\t' || b == '\b' || b == '\f':
			k := 0
			if w.lvl >= 1 {
				k = w.r.N(3)
			}
			if k == 0 {
				esc(map[byte]string{'\n': "n", '\t': "t", '\b': "b", '\f': "f"}[b])
			} else if k == 1 {
				oct(b, next)
			} else {
				w.buf.WriteByte(b)
			}
		case b < ' ' || b > '~':
			if w.lvl == 0 || w.r.P(1, 2) {
				oct(b, next)
			} else {
				w.buf.WriteByte(b)
			}
		default:
			if b > ' ' && b != '(' && b != ')' && (w.lvl >= 2 && w.r.P(1, 10) || w.abn == "needless-string-escape") {
				w.abn = ""
				oct(b, next)
				continue
			}
			if w.lvl >= 2 && b != '(' && b != ')' && !(b >= '0' && b <= '7') && bytes.IndexByte([]byte("nrtbf"), b) < 0 && w.r.P(1, 12) {
				esc(string([]byte{b})) // the backslash is ignored
				continue
			}
			w.buf.WriteByte(b)
		}
	}
	if big == len(data) {
		overflow()
	}
	w.s(")")
	w.span("string", start)
}

// object writes one indirect object and returns its position record.
func (w *writer) object(rev int, o *Obj) *ObjPos {
	p := &ObjPos{Rev: rev, Num: o.Num, Gen: o.Gen, Obj: o}
	w.num, w.gen, w.clear = o.Num, o.Gen, o.Clear
	w.spans = nil
	w.abn = o.Abnormal
	p.Start = w.pos()
	w.s(fmt.Sprint(o.Num))
	w.ws(true)
	if w.lvl > 0 && w.r.P(1, 40) {
		w.s(strings.Repeat([]string{" ", "\n", "\x00", " \r\n"}[w.r.N(4)], w.r.In(9, 40)))
	}
	w.s(fmt.Sprint(o.Gen))
	w.ws(true)
	w.s("obj")
	v := o.Full
	var stored []byte
	if o.IsStream {
		p.Stages = o.Stages
		stored = o.Stages[0]
		if w.enc != nil && !o.Clear {
			stored = w.enc.encrypt(w.r, w.enc.streamMethod(o), o.Num, o.Gen, stored)
		}
	}
	w.ws(!selfDelim(v) || w.lvl == 0)
	p.ValStart = w.pos()
	w.value(v)
	p.ValEnd = w.pos()
	p.BodyEnd = p.ValEnd
	p.Planted = o.Abnormal != "" && w.abn == ""
	w.abn = ""
	if o.IsStream {
		w.ws(w.lvl == 0)
		p.StreamKw = w.pos()
		w.s("stream")
		if w.lvl > 0 && w.r.P(1, 3) {
			w.s("\r\n")
		} else {
			w.s("\n")
		}
		p.StreamStart = w.pos()
		w.buf.Write(stored)
		p.StreamEnd = w.pos()
		k := 0
		if w.lvl > 0 {
			k = w.r.N(3)
		}
		if o.BadLen && k == 0 && bytes.HasSuffix(stored, []byte("\r")) {
			k = 1 // one line end only
		}
		w.s([]string{"\n", "\r\n", "\r"}[k])
		w.s("endstream")
		p.BodyEnd = w.pos()
		w.span("stream", p.StreamKw)
	}
	w.ws(true)
	w.s("endobj")
	p.End = w.pos()
	w.eol()
	p.Spans = w.spans
	return p
}

// breakLength gives a stream whose end can be found without it a wrong length,
// or none. No end of stream marker follows where the length says.
func (o *Obj) breakLength(r *rt.R) {
	if !o.IsStream || o.BadLen || o.Len != nil || bytes.Contains(o.Stages[0], []byte("endstream")) {
		return
	}
	o.BadLen = true
	d := o.Full.(*Dict)
	n, _ := d.Get("Length").(int)
	var v Val
	switch k := r.N(8); {
	case k == 0 && n > 3:
		v = n - r.In(2, n)
		if last := o.Stages[len(o.Stages)-1]; r.P(1, 2) && len(last) == n { // right before white space that ends the data
			if m := n - len(bytes.TrimRight(last, "\r\n\t \x00")); m >= 2 {
				v = n - m
			}
		}
	case k == 1:
		v = n + r.In(12, 35)
	case k == 2:
		v = 999999999
	case k == 3:
		v = -r.In(1, n+2)
	case k == 4:
		v = Ref{9999999, 0}
	case k == 5:
		v = Name("Length")
	default:
		for i := range d.KVs {
			if d.KVs[i].K == "Length" {
				d.KVs = append(d.KVs[:i:i], d.KVs[i+1:]...)
				return
			}
		}
	}
	d.Set("Length", v)
}

// prepare fixes the stored form of the object.
func (o *Obj) prepare(seed uint64, enc *Enc) {
	if o.Full != nil {
		return
	}
	if !o.IsStream {
		o.Full = o.V
		return
	}
	d := &Dict{}
	d.KVs = append(d.KVs, o.V.(*Dict).KVs...)
	o.Stages = Stages(rt.NewR(rt.Mix(seed, fmt.Sprint("stages", o.Num, len(o.Data)))), o.Chain, o.Data)
	n := len(o.Stages[0])
	if enc != nil && !o.Clear && enc.streamMethod(o) == "AESV2" {
		n = 16 + n + 16 - n%16
	}
	if o.Len != nil {
		o.Len.V, o.Len.Full = n, n
		d.Set("Length", Ref{o.Len.Num, o.Len.Gen})
	} else {
		d.Set("Length", n)
	}
	f, p := o.filterVals()
	if f != nil {
		if o.FiltObj != nil {
			f = o.indirect(f, o.FiltObj, o.Num/2%2 == 1)
		}
		d.Set("Filter", f)
	}
	if p != nil {
		if o.ParmObj != nil {
			p = o.indirect(p, o.ParmObj, o.Num/4%2 == 1)
		}
		d.Set("DecodeParms", p)
	}
	o.Full = d
}

// indirect puts v, or a part of it, into the helper object h.
func (o *Obj) indirect(v Val, h *Obj, part bool) Val {
	set := func(x Val) Ref {
		h.V, h.Full = x, x
		return Ref{h.Num, h.Gen}
	}
	if !part {
		return set(v)
	}
	switch x := v.(type) {
	case Arr:
		i := (o.Num + len(o.Data)) % len(x)
		a := append(Arr{}, x...)
		if d, ok := x[i].(*Dict); ok && len(d.KVs) > 0 && o.Num%3 == 0 {
			a[i] = o.indirect(d, h, true)
			return a
		}
		a[i] = set(x[i])
		return a
	case *Dict:
		if len(x.KVs) == 0 {
			return set(v)
		}
		d := &Dict{KVs: append([]KV{}, x.KVs...)}
		i := (o.Num + len(o.Data)) % len(d.KVs)
		d.KVs[i].V = set(d.KVs[i].V)
		return d
	}
	return set(v)
}

// filterVals is the Filter and DecodeParms value of the stream.
func (o *Obj) filterVals() (Val, Val) {
	var fs, ps Arr
	any := false
	if o.Crypt != "" {
		fs = append(fs, Name("Crypt"))
		if o.Crypt == "Identity" && len(o.Data)%2 == 0 {
			ps = append(ps, nil)
		} else {
			ps = append(ps, D("Type", Name("CryptFilterDecodeParms"), "Name", Name(o.Crypt)))
			any = true
		}
	}
	for _, c := range o.Chain {
		fs = append(fs, Name(c.Kind))
		p := c.Parms()
		if p != nil {
			any = true
		}
		ps = append(ps, p)
	}
	if len(fs) == 0 {
		return nil, nil
	}
	if len(fs) == 1 && o.Num%2 == 0 {
		if !any {
			return fs[0], nil
		}
		return fs[0], ps[0]
	}
	if !any {
		return fs, nil
	}
	return fs, ps
}

type entry struct {
	num, gen, off int
	free          bool
	next          int
}

// section renders a cross-reference section. Its size does not depend on offsets.
func (l *Layout) tableSection(w *writer, rev int, ents []entry, trailer *Dict, split int) *Section {
	sec := &Section{Rev: rev, Kind: "table", Start: w.pos()}
	w.s("xref")
	w.tableEOL()
	sort.Slice(ents, func(i, j int) bool { return ents[i].num < ents[j].num })
	if len(ents) == 0 && (w.lvl == 0 || w.r.P(1, 2)) {
		w.s("0 0")
		w.tableEOL()
	}
	for i := 0; i < len(ents); {
		j := i + 1
		for j < len(ents) && ents[j].num == ents[j-1].num+1 && !w.r.P(split, 100) {
			j++
		}
		w.s(fmt.Sprintf("%d %d", ents[i].num, j-i))
		w.tableEOL()
		for ; i < j; i++ {
			e := ents[i]
			ep := EntryPos{Pos: w.pos(), Num: e.num, Target: e.off, Gen: e.gen, Free: e.free}
			k := "n"
			o := e.off
			if e.free {
				k, o = "f", e.next
			}
			w.s(fmt.Sprintf("%010d %05d %s", o, e.gen, k))
			if w.lvl == 0 {
				w.s(" \n")
			} else {
				w.s([]string{" \n", " \r", "\r\n"}[w.r.N(3)])
			}
			sec.Entries = append(sec.Entries, ep)
		}
	}
	sec.TrailKw = w.pos()
	w.s("trailer")
	w.ws(w.lvl == 0)
	w.clear = true
	w.value(trailer)
	sec.TrailEnd = w.pos()
	sec.End = w.pos()
	w.eol()
	return sec
}

func (w *writer) tableEOL() {
	if w.lvl == 0 {
		w.s("\n")
		return
	}
	w.s([]string{"\n", "\r\n", "\r"}[w.r.N(3)])
}

func beBytes(v, n int) []byte {
	b := make([]byte, n)
	for i := n - 1; i >= 0; i-- {
		b[i] = byte(v)
		v >>= 8
	}
	return b
}

// xrefStream builds the cross-reference stream object for the entries.
func xrefStreamObj(r *rt.R, num int, ents []entry, trailer *Dict, spec RevSpec) *Obj {
	sort.Slice(ents, func(i, j int) bool { return ents[i].num < ents[j].num })
	maxOff, maxGen, anyFree := 0, 0, false
	for _, e := range ents {
		maxOff = max(maxOff, e.off, e.next)
		maxGen = max(maxGen, e.gen)
		anyFree = anyFree || e.free
	}
	need := func(v int) int {
		n := 1
		for v >= 1<<(8*uint(n)) {
			n++
		}
		return n
	}
	w0, w1, w2 := 1, need(maxOff), need(maxGen)
	switch spec.W % 4 {
	case 1:
		w1, w2 = w1+1, w2+1
	case 2:
		w1 = max(w1, 4)
		w0 = 2
	case 3:
		if maxGen == 0 {
			w2 = 0
		}
	}
	if spec.W >= 4 && !anyFree {
		w0 = 0
	}
	if spec.Wide {
		w1 = 8
	}
	var data bytes.Buffer
	var index Arr
	for i := 0; i < len(ents); {
		j := i + 1
		for j < len(ents) && ents[j].num == ents[j-1].num+1 && !r.P(spec.Split, 100) {
			j++
		}
		index = append(index, ents[i].num, j-i)
		for ; i < j; i++ {
			e := ents[i]
			t, o := 1, e.off
			if e.free {
				t, o = 0, e.next
			}
			data.Write(beBytes(t, w0))
			data.Write(beBytes(o, w1))
			data.Write(beBytes(e.gen, w2))
		}
	}
	d := D("Type", Name("XRef"))
	for _, kv := range trailer.KVs {
		d.Set(kv.K, kv.V)
	}
	size := trailer.Get("Size").(int)
	if !(len(index) == 2 && index[0] == 0 && index[1] == size) || r.P(1, 2) {
		d.Set("Index", index)
	}
	d.Set("W", Arr{w0, w1, w2})
	row := w0 + w1 + w2
	o := &Obj{Num: num, V: d, IsStream: true, Data: data.Bytes(), Clear: true}
	switch spec.XF {
	case "flate":
		o.Chain = []Filter{{Kind: "FlateDecode"}}
	case "png":
		o.Chain = []Filter{{Kind: "FlateDecode", Pred: 12, Colors: 1, BPC: 8, Columns: row}}
	case "hex":
		o.Chain = []Filter{{Kind: "ASCIIHexDecode"}}
	case "a85flate":
		o.Chain = []Filter{{Kind: "ASCII85Decode"}, {Kind: "FlateDecode"}}
	case "lzw":
		o.Chain = []Filter{{Kind: "LZWDecode", Early: -1}}
	}
	return o
}

var _ = zlib.NewReader
