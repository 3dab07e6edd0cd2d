package gen

import (
	"bytes"
	"crypto/md5"
	"encoding/hex"
	"fmt"
	"sort"
	"strings"

	"github.com/KarmaPenny/pdfparser/zzsim/rt"
)

// Feat is one feature of a document and its history.
type Feat struct {
	K    string `json:"k"`
	S    uint64 `json:"s"`
	Rev  int    `json:"rev,omitempty"`  // revision that adds it
	Upd  []int  `json:"upd,omitempty"`  // revisions that rewrite it
	Del  int    `json:"del,omitempty"`  // revision that deletes it, 0 = never
	Dang bool   `json:"dang,omitempty"` // containers keep a reference after deletion
	Slot bool   `json:"slot,omitempty"` // attached to the catalog where possible
	Abn  string `json:"abn,omitempty"`  // abnormality (C18)
	Size int    `json:"size,omitempty"` // 0 small, larger data otherwise
	Max  int    `json:"max,omitempty"`  // longest filter chain + 1 (0 = default)
	Big  string `json:"big,omitempty"`  // what there is a lot of
}

// Doc is a whole document: everything about the file follows from it.
type Doc struct {
	Seed   uint64    `json:"seed"`
	Lvl    int       `json:"lvl"`
	CLvl   int       `json:"clvl,omitempty"` // the same for content streams and fonts
	Feats  []Feat    `json:"feats"`
	Revs   []RevSpec `json:"revs"`
	EncS   uint64    `json:"enc,omitempty"` // seed of the encryption, 0 = none
	Sparse int       `json:"sparse,omitempty"`
	Gens   bool      `json:"gens,omitempty"`
	Pad    int       `json:"pad,omitempty"`   // comment bytes after the header
	Junk   int       `json:"junk,omitempty"`  // bytes before the header
	Tail   int       `json:"tail,omitempty"`  // bytes after the last end of file marker
	Plain  bool      `json:"plain,omitempty"` // only strings and names that need no escaping
	Spell  uint64    `json:"spell,omitempty"` // respelling: same content, other bytes
	Tweak  string    `json:"tweak,omitempty"` // damage to the encryption data
	TweakS uint64    `json:"tweak_s,omitempty"`
	BadLen int       `json:"badlen,omitempty"` // percentage of streams whose length entry is wrong or missing
	Fill   int       `json:"fill,omitempty"`   // objects without meaning
	Wide   int       `json:"wide,omitempty"`   // pages without contents
	Order  []int     `json:"order,omitempty"`  // physical order of the revisions, if it is not the order of their chain
}

// ordered says whether the revisions lie in another order than they are chained.
func (doc *Doc) ordered() bool {
	if len(doc.Order) != len(doc.Revs) {
		return false
	}
	seen, moved := map[int]bool{}, false
	for i, o := range doc.Order {
		if o < 0 || o >= len(doc.Revs) || seen[o] {
			return false
		}
		seen[o] = true
		moved = moved || o != i
	}
	return moved
}

// Expect is what a parse of the document must extract.
type Expect struct {
	URLs, JS, Cmds, Files []string
	Extracted             map[string][]byte
	Text                  string
	Objs                  map[int]*Obj // live objects except cross-reference streams
	Freed                 map[int]bool
	Items                 []*Item
}

// Item is a piece of what a document contains, and what it depends on.
type Item struct {
	Feat                  int
	Kind                  string
	URLs, JS, Cmds, Files []string
	Texts                 []string     // one per page
	Slot                  bool         // reached from the catalog
	Deps                  map[int]bool // objects of the feature
	Soft                  map[int]bool // objects that may be missing, but not different
}

// Built is a rendered document with its expectations per revision.
type Built struct {
	*Layout
	Doc   *Doc
	Enc   *Enc
	Exp   []*Expect      // after each revision
	XrefN []int          // object numbers of cross-reference streams
	EncN  int            // object number of the encryption dictionary
	Owner map[int]string // object number -> what it was made as
	Hist  map[int][]*ObjPos
}

func (b *Built) Last() *Expect { return b.Exp[len(b.Exp)-1] }

const ZeroHash = "00000000000000000000000000000000"

func MD5(b []byte) string {
	s := md5.Sum(b)
	return hex.EncodeToString(s[:])
}

type builder struct {
	doc    *Doc
	enc    *Enc
	nums   map[string]int
	next   int
	nr     *rt.R
	objs   map[int]*Obj
	exp    *Expect
	cat    *Dict
	names  *Dict
	slots  map[string]bool
	pages  []pageRef
	rev    int
	usedN  map[int]bool
	maxNum int
}

type pageRef struct {
	ref     Ref
	text    string
	alive   bool
	inherit bool
}

func (b *builder) num(key string) int {
	if n, ok := b.nums[key]; ok {
		return n
	}
	switch b.doc.Sparse {
	case 0:
		b.next++
	case 1:
		b.next += 1 + b.nr.N(3)*b.nr.N(2)
	default:
		b.next += 1 + b.nr.N(40)
		if b.nr.P(1, 12) {
			b.next += 60000
		}
	}
	b.nums[key] = b.next
	return b.next
}

func (b *builder) gen(num int) int {
	if !b.doc.Gens {
		return 0
	}
	r := rt.NewR(rt.Mix(b.doc.Seed, fmt.Sprint("gen", num)))
	switch r.N(6) {
	case 0:
		return 1 + r.N(9)
	case 1:
		return 1 + r.N(65534)
	}
	return 0
}

func (b *builder) ref(key string) Ref {
	n := b.num(key)
	return Ref{n, b.gen(n)}
}

func (b *builder) put(r Ref, v Val) *Obj {
	o := &Obj{Num: r.Num, Gen: r.Gen, V: v}
	b.objs[r.Num] = o
	return o
}

// fctx is the context a feature is built in.
type fctx struct {
	*builder
	f    *Feat
	pre  string
	fr   *rt.R // shape, the same for every version
	r    *rt.R // content of this version
	ver  int
	tag  string
	k    int
	u    int
	sp   *rt.R // respelling of the shape, nil if none
	gone bool  // deleted: only dangling references remain

	items   []*Item
	slotted bool
	parted  string       // text of the parts of the page so far
	loose   map[int]bool // objects that nothing depends on
}

// item runs what adds one item: the lines and objects that come from it alone
// are the item's own.
func (c *fctx) item(f func()) *Item {
	it := &Item{Deps: map[int]bool{}}
	first := len(c.items)
	c.items = append(c.items, it)
	e := c.exp
	nu, nj, nc, nf, np, k := len(e.URLs), len(e.JS), len(e.Cmds), len(e.Files), len(c.pages), c.k
	f()
	if len(c.items) > first+1 {
		return it // made of others; what is outside of them has nothing to show
	}
	it.URLs, it.JS, it.Cmds, it.Files = e.URLs[nu:], e.JS[nj:], e.Cmds[nc:], e.Files[nf:]
	for _, pg := range c.pages[np:] {
		it.Texts = append(it.Texts, pg.text)
	}
	c.claim(k, it)
	return it
}

// claim says that the objects made since number k belong to the items alone.
func (c *fctx) claim(k int, items ...*Item) {
	for k++; k <= c.k; k++ {
		for _, it := range items {
			if n := c.num(fmt.Sprintf("%s#%d", c.pre, k)); !c.loose[n] {
				it.Deps[n] = true
			}
		}
	}
}

func (c *fctx) newRef() Ref {
	c.k++
	return c.ref(fmt.Sprintf("%s#%d", c.pre, c.k))
}

// add stores v as a new object.
func (c *fctx) add(v Val) Ref {
	r := c.newRef()
	if !c.gone {
		c.put(r, v)
	}
	return r
}

func (c *fctx) stream(d *Dict, data []byte) Ref {
	r := c.newRef()
	lr, fo, po := c.newRef(), c.newRef(), c.newRef()
	mx := 2
	if c.f.Max > 0 {
		mx = c.f.Max - 1
	}
	chain := RandChain(c.r, mx)
	useLen, useF, useP := c.r.P(1, 4), c.r.P(1, 8), c.r.P(1, 8)
	if c.sp != nil {
		chain = RandChain(c.sp, mx)
		useLen, useF, useP = c.sp.P(1, 4), c.sp.P(1, 8), c.sp.P(1, 8)
	}
	crypt := ""
	if c.enc != nil && c.enc.V == 4 && c.r.P(1, 4) {
		k := c.r.N(len(c.enc.CFs) + 1)
		if k < len(c.enc.CFs) {
			crypt = c.enc.CFs[k].Name
		} else {
			crypt = "Identity"
		}
	}
	if c.gone {
		return r
	}
	for i := range chain {
		if chain[i].Pred >= 2 {
			chain[i].Pred = 0 // predictors need whole rows: see streamFit
		}
	}
	o := &Obj{Num: r.Num, Gen: r.Gen, V: d, IsStream: true, Data: data, Chain: chain, Crypt: crypt}
	c.helpers(o, lr, fo, po, useLen, useF, useP)
	c.objs[r.Num] = o
	return r
}

func (c *fctx) helpers(o *Obj, lr, fo, po Ref, useLen, useF, useP bool) {
	if useLen {
		o.Len = c.put(lr, nil)
	}
	f, p := o.filterVals()
	if useF && f != nil {
		o.FiltObj = c.put(fo, f)
	}
	if useP && p != nil {
		o.ParmObj = c.put(po, p)
	}
	k := o.key()
	for _, h := range []*Obj{o.Len, o.FiltObj, o.ParmObj} {
		if h != nil {
			h.Helper = k
		}
	}
}

const alpha = "abcdefghijklmnopqrstuvwxyz"

func (c *fctx) word() string {
	n := c.r.In(2, 8)
	s := ""
	for i := 0; i < n; i++ {
		s += string(alpha[c.r.N(26)])
	}
	return s
}

// uniq is a string naming this feature version, so that every extracted line
// is attributable.
func (c *fctx) uniq() string {
	c.u++
	return fmt.Sprintf("%s%d.%d", c.tag, c.ver, c.u)
}

// text is a unique string with awkward characters.
func (c *fctx) text(kind string) string {
	s := kind + c.uniq()
	if c.f.Big == "text" {
		for n := []int{200, 1000, 5000, 40000, 70000}[c.r.N(5)]; n > 0; n -= 100 {
			s += strings.Repeat(c.word(), 10) + " "
		}
	}
	if !c.doc.Plain && c.r.P(1, 25) {
		d := c.r.In(2, 40)
		s += strings.Repeat("(", d) + c.word() + strings.Repeat(")", d)
	}
	n := c.r.N(5)
	for i := 0; i < n; i++ {
		if c.doc.Plain || c.r.P(1, 2) {
			s += c.word()
			continue
		}
		s += []string{"(", ")", "\\", "()", "%20", "#41", " a b", "<>", "[x]", "{}", "/", "\xc3\xa9", "\xff", "\x80", "\t", "~>", "\"", "'", "%", "\x01", "\\n", "\x7f", "0", "7"}[c.r.N(24)]
	}
	return s
}

// str is a string value, sometimes an indirect one.
func (c *fctx) str(s string) Val {
	ind := c.fr.P(1, 4)
	if c.sp != nil {
		ind = c.sp.P(1, 4)
	}
	if ind {
		return c.add(Str(s))
	}
	return Str(s)
}

// ind sometimes makes a value indirect.
func (c *fctx) ind(v Val) Val {
	ind, twice := c.fr.P(1, 3), c.fr.P(1, 10)
	if c.sp != nil {
		ind, twice = c.sp.P(1, 3), c.sp.P(1, 10)
	}
	if ind {
		r := c.add(v)
		if twice {
			for n := 1 + int(c.f.S%11)/10*(1+int(c.f.S/11%30)); n > 0; n-- { // rarely a long chain
				r = c.add(r)
			}
		}
		return r
	}
	return v
}

var nestKeys = []string{"Annots", "K", "Foo", "Parent", "Dests", "StructTreeRoot", "Dest", "P", "Outlines", "Bar", "First",
	"URLS", "EmbeddedFiles", "Pages", "Resources", "Font", "Contents", "ToUnicode", "Kids", "D", "MK", "EF", "JS", "URI", "Params"}

// nest wraps a value into direct dictionaries and arrays.
func (c *fctx) nest(v Val) Val {
	n := 0
	if c.fr.P(1, 2) {
		n = c.fr.N(5)
	}
	switch c.f.Big {
	case "nest":
		n = c.fr.In(20, 200)
	case "array":
		a := Arr{}
		for i := c.fr.In(300, 9000); i > 0; i-- {
			a = append(a, i)
		}
		k := c.fr.N(len(a))
		v = append(append(append(Arr{}, a[:k]...), v), a[k:]...)
	case "dict":
		d := &Dict{}
		m := c.fr.In(200, 5000)
		k := c.fr.N(m)
		for i := 0; i < m; i++ {
			if i == k {
				d.Set("Z", v)
			}
			d.KVs = append(d.KVs, KV{fmt.Sprint("Y", i), i})
		}
		v = d
	}
	for i := 0; i < n; i++ {
		if c.fr.P(1, 2) {
			a := Arr{v}
			if c.fr.P(1, 2) {
				a = Arr{c.inert(), v, c.inert()}
			}
			v = a
		} else {
			k := nestKeys[c.fr.N(len(nestKeys))]
			if !c.doc.Plain && c.fr.P(1, 8) {
				k += "#1"
			}
			if c.f.Big == "name" {
				k += strings.Repeat("k", c.fr.In(100, 600))
			}
			v = D("Z", c.inert(), k, v)
		}
	}
	return v
}

// inert is a value which leads nowhere: wrapped around something deep, keys
// like Pages and Kids come together, and a reference among them to a real page
// would rightly have that page reported once more.
func (c *fctx) inert() Val {
	v := c.scalar()
	if r, ok := v.(Ref); ok {
		return Ref{r.Num + 8000000, 0}
	}
	return v
}

func (c *fctx) scalar() Val {
	switch c.r.N(7) {
	case 0:
		return c.r.N(100000) - 500
	case 1:
		return c.real()
	case 2:
		return Name(c.nameText())
	case 3:
		return Str(c.anyStr())
	case 4:
		return c.r.P(1, 2)
	case 5:
		return nil
	}
	return Ref{1 + c.r.N(60), 0}
}

func (c *fctx) real() Real {
	s := ""
	if c.r.P(1, 3) {
		s = "-"
		if c.r.P(1, 4) {
			s = "+"
		}
	}
	n := c.r.N(2000)
	if c.r.P(1, 4) {
		return Real(fmt.Sprintf("%s.%d", s, 1+c.r.N(9999)))
	}
	if c.r.P(1, 6) {
		return Real(fmt.Sprintf("%s%d.", s, n))
	}
	return Real(fmt.Sprintf("%s%d.%0*d", s, n, 1+c.r.N(5), c.r.N(10)))
}

func (c *fctx) nameText() string {
	if c.doc.Plain || c.r.P(2, 3) {
		return "N" + c.word()
	}
	s := "N"
	if c.f.Big == "name" {
		s += strings.Repeat(c.word(), c.r.In(10, 90))
	}
	for i := c.r.In(1, 5); i > 0; i-- {
		b := byte(1 + c.r.N(255))
		s += string([]byte{b})
	}
	return s
}

func (c *fctx) anyStr() string {
	if c.doc.Plain {
		return c.word() + " " + c.word()
	}
	switch c.r.N(4) {
	case 0:
		return ""
	case 1:
		return c.word()
	case 2:
		return string(c.r.Bytes(c.r.N(24)))
	}
	if c.r.P(1, 12) {
		n := c.r.In(2, 40)
		return strings.Repeat("(", n) + c.word() + strings.Repeat(")", n) + c.word()
	}
	s := ""
	for i := c.r.N(6); i > 0; i-- {
		s += []string{"(", ")", "\\", "\r", "\n", "\r\n", "\\)", "endob", "((", "))", "\x00", "text", "1", "9"}[c.r.N(14)]
	}
	return s
}

// any is a value without meaning to the extractor.
func (c *fctx) any(depth int) Val {
	if depth > 0 && c.r.P(2, 3) {
		if c.r.P(1, 2) {
			a := Arr{}
			for i := c.r.N(5); i > 0; i-- {
				a = append(a, c.any(depth-1))
			}
			return a
		}
		d := &Dict{}
		for i := c.r.N(5); i > 0; i-- {
			d.Set("X"+c.nameText(), c.any(depth-1))
		}
		return d
	}
	return c.scalar()
}

// data is stream content.
func (c *fctx) data() []byte {
	max := 200
	if c.f.Size > 0 {
		max = c.f.Size
	}
	n := c.r.N(max)
	if c.f.Size > 0 && c.r.P(1, 2) {
		n = max - c.r.N(min(3, max))
	}
	if c.r.P(1, 300) {
		n = c.r.In(60000, 140000)
	}
	if c.f.Big == "data" {
		n = c.r.In(200000, 1300000)
		d := bytes.Repeat(c.r.Bytes(c.r.In(1, 300)), n/100)
		d = d[:min(n, len(d))]
		for i := 0; i < len(d); i += 1 + c.r.N(5000) {
			d[i]++
		}
		return d
	}
	var d []byte
	switch c.r.N(6) {
	case 0:
		d = c.r.Bytes(n)
	case 1:
		d = make([]byte, n)
	case 2:
		for len(d) < n {
			d = append(d, []byte(c.word()+" ")...)
		}
	case 3:
		b := byte(c.r.N(256))
		for len(d) < n {
			for k := c.r.In(1, 300); k > 0 && len(d) < n; k-- {
				d = append(d, b)
			}
			b += byte(c.r.N(3))
		}
	case 4:
		d = c.r.Bytes(n)
		for i := range d {
			d[i] = "\r\n >~<0%"[d[i]&7]
		}
	case 5:
		d = []byte(c.word() + []string{"\r", "\n", "\r\n", "endstrea", "stream\n", ">", "~>", "\x80", "\nendstrea", "endstream", " endstream endobj"}[c.r.N(11)])
		if c.r.P(1, 2) {
			d = append(d, []byte(c.word())...)
		}
	}
	if c.r.P(1, 10) {
		d = append(d, []string{"\n\n", " \n", "\r\n\r\n", "\n \n ", "  ", "\n\r"}[c.r.N(6)]...)
	}
	return d
}

// Abnormalities and the message each must leave in the error log.
var Abnormal = map[string]string{
	"bad-key":                "invalid dictionary key type",
	"no-value":               "missing dictionary value",
	"bad-hex":                "invalid hex string character",
	"bad-name-escape":        "invalid name escape character",
	"octal-overflow":         "invalid octal in string",
	"needless-name-escape":   "unnecessary espace sequence in name",
	"needless-string-escape": "unnecessary espace sequence in string",
}

// build adds one feature to the state.
func (c *fctx) build() {
	switch c.f.K {
	case "plain":
		if c.f.Abn != "" {
			// the first character is the one that carries a needless escape
			first := "XX!!~~09AZaz@$&*+-.:;=?^_`|"[c.fr.N(27)]
			v := D(string([]byte{first})+"K", Name(string([]byte{first})+"word"), "XS", Str(string([]byte{first})+"ome text"), "XA", Arr{1, Name("Two"), Str("three")})
			r := c.newRef()
			if !c.gone {
				c.put(r, v).Abnormal = c.f.Abn
			}
			return
		}
		d := c.any(3)
		if c.fr.P(2, 3) {
			d = D("XTag", Str(c.uniq()), "XV", c.any(3), "XW", c.any(2))
		}
		c.add(d)
	case "stream":
		d := D("XTag", Str(c.uniq()))
		if c.r.P(1, 3) {
			d.Set("XV", c.any(2))
		}
		r := c.newRef()
		lr, fo, po := c.newRef(), c.newRef(), c.newRef()
		mx := 3
		if c.f.Max > 0 {
			mx = c.f.Max - 1
		}
		chain, data := Fit(RandChain(c.r, mx), c.data())
		if !c.gone {
			o := &Obj{Num: r.Num, Gen: r.Gen, V: d, IsStream: true, Data: data, Chain: chain}
			if c.enc != nil && c.enc.V == 4 && c.r.P(1, 3) {
				o.Crypt = append([]string{"Identity"}, c.cfNames()...)[c.r.N(1+len(c.enc.CFs))]
			}
			c.helpers(o, lr, fo, po, c.r.P(1, 3), c.r.P(1, 5), c.r.P(1, 5))
			c.objs[r.Num] = o
		}
	case "meta":
		// the metadata of the document, which need not be encrypted
		r := c.newRef()
		lr, fo, po := c.newRef(), c.newRef(), c.newRef()
		d := D("XTag", Str(c.uniq()), "Subtype", Name("XML"))
		if c.slot("Metadata", r) {
			d.Set("Type", Name("Metadata"))
		}
		chain, data := Fit(RandChain(c.r, 1), c.data())
		if !c.gone {
			o := &Obj{Num: r.Num, Gen: r.Gen, V: d, IsStream: true, Data: data, Chain: chain}
			if c.enc != nil && c.enc.V == 4 && c.r.P(1, 4) {
				o.Crypt = append([]string{"Identity"}, c.cfNames()...)[c.r.N(1+len(c.enc.CFs))]
			}
			c.helpers(o, lr, fo, po, c.r.P(1, 3), c.r.P(1, 5), c.r.P(1, 5))
			c.objs[r.Num] = o
		}
	case "uri":
		u := c.text("http://u/")
		a := D("S", Name("URI"), "URI", c.str(u))
		if c.fr.P(1, 2) {
			a.Set("Type", Name("Action"))
		}
		c.want(&c.exp.URLs, u)
		c.holder(a)
	case "base":
		u := c.text("http://base/")
		c.want(&c.exp.URLs, u)
		v := c.ind(D("Base", c.str(u)))
		if c.f.Slot && c.slot("URI", v) {
			return
		}
		if !c.gone {
			c.add(c.nest(D("URI", v)))
		}
	case "urls":
		var kv Arr
		var items []*Item
		n := c.fr.In(1, 5)
		if c.fr.P(1, 6) {
			n = c.fr.In(6, 24)
		}
		if c.fr.P(1, 20) {
			n = c.fr.In(30, 120)
		}
		for i := 0; i < n; i++ {
			items = append(items, c.item(func() {
				u := c.text("http://w/")
				c.want(&c.exp.URLs, u)
				kv = append(kv, c.str(u), D("XSet", i))
			}))
		}
		c.tree("URLS", kv, items...)
	case "js":
		s := c.text("app.alert('")
		if c.doc.Plain {
			s = c.text("app.beep ")
		}
		if c.r.P(1, 3) {
			s += "\nvar " + c.uniq()
		} else if c.r.P(1, 5) { // a script of a few bytes
			s = []string{"f", "a=1;", "b;c", "g()", "print()"}[c.r.N(5)]
			if c.doc.Plain {
				s = "b;c"
			}
		}
		if c.r.P(1, 6) {
			s += "\n"
		} else if c.r.P(1, 30) {
			s = ""
		}
		a := D("S", Name("JavaScript"))
		if c.fr.P(1, 3) {
			a.Set("JS", c.stream(&Dict{}, []byte(s)))
		} else {
			a.Set("JS", c.str(s))
		}
		c.want(&c.exp.JS, strings.Split(s, "\n")...)
		c.holder(a)
	case "launch":
		c.launch()
	case "extfile":
		f := c.text("ext ")
		c.want(&c.exp.Files, ZeroHash+":"+f)
		switch c.fr.N(3) {
		case 0:
			c.holder(D("S", Name("GoToR"), "F", c.str(f), "D", Arr{0, Name("Fit")}))
		case 1:
			c.holder(D("S", Name("GoToR"), "F", c.ind(D("Type", Name("Filespec"), "F", c.str(f)))))
		case 2:
			c.tree("EmbeddedFiles", Arr{Str("k" + c.uniq()), c.str(f)})
		}
	case "fsurl":
		u := c.text("http://fs/")
		c.want(&c.exp.URLs, u)
		var fs Val = Name("URL")
		if c.fr.P(1, 5) {
			fs = Str("URL")
		}
		spec := D("Type", Name("Filespec"), "FS", fs, "F", c.str(u))
		if c.fr.P(1, 2) {
			c.holder(D("S", Name("GoToR"), "F", c.ind(spec)))
		} else {
			c.tree("EmbeddedFiles", Arr{Str("k" + c.uniq()), c.ind(spec)})
		}
	case "embed":
		if c.fr.P(1, 4) {
			c.holder(D("S", Name("GoToE"), "F", c.ind(c.filespec())))
			return
		}
		var kv Arr
		var items []*Item
		n := c.fr.In(1, 4)
		if c.fr.P(1, 6) {
			n = c.fr.In(5, 18)
		}
		for i := 0; i < n; i++ {
			items = append(items, c.item(func() { kv = append(kv, Str("k"+c.uniq()), c.ind(c.filespec())) }))
		}
		if c.fr.P(1, 20) {
			for n = c.fr.In(30, 120); n > 0; n-- {
				items = append(items, c.item(func() {
					f := c.text("ext ")
					c.want(&c.exp.Files, ZeroHash+":"+f)
					kv = append(kv, Str("k"+c.uniq()), c.str(f))
				}))
			}
		}
		c.tree("EmbeddedFiles", kv, items...)
	case "xfa":
		var v Val
		var all []byte
		if c.fr.P(1, 2) {
			all = c.data()
			v = c.stream(&Dict{}, all)
		} else {
			var a Arr
			n := c.fr.N(5)
			if c.fr.P(1, 20) {
				n = c.fr.In(16, 40)
			}
			for i := n; i >= 0; i-- {
				d := c.data()
				all = append(all, d...)
				a = append(a, Str("part"+c.uniq()), c.stream(&Dict{}, d))
			}
			v = c.ind(a)
		}
		c.file("form.xml", all)
		form := c.ind(D("Fields", Arr{}, "XFA", v))
		if c.f.Slot && c.slot("AcroForm", form) {
			return
		}
		if _, isRef := form.(Ref); !isRef && !c.gone {
			c.add(c.nest(form))
		}
	case "page":
		c.page()
	case "cycle": // references that lead nowhere
		n := c.fr.In(1, 4)
		var rs []Ref
		for i := 0; i < n; i++ {
			rs = append(rs, c.newRef())
		}
		if !c.gone {
			for i, r := range rs {
				c.put(r, rs[(i+1)%n])
			}
			c.add(D("XTag", Str(c.uniq()), "XC", Arr{rs[0], rs[n-1]}, "XD", rs[0]))
		}
	default:
		panic("gen: unknown feature " + c.f.K)
	}
}

func (c *fctx) cfNames() []string {
	var s []string
	for _, f := range c.enc.CFs {
		s = append(s, f.Name)
	}
	return s
}

// want records an expected line unless the feature is gone.
func (c *fctx) want(list *[]string, lines ...string) {
	if !c.gone {
		*list = append(*list, lines...)
	}
}

func (c *fctx) file(name string, data []byte) {
	if c.gone {
		return
	}
	h := MD5(data)
	c.exp.Files = append(c.exp.Files, h+":"+name)
	c.exp.Extracted[h] = data
}

// slot attaches a value to the catalog. A deleted feature leaves at most a
// dangling reference there.
func (c *fctx) slot(key string, v Val) bool {
	if c.slots[key] {
		return false
	}
	c.slots[key] = true
	c.slotted = true
	if c.gone {
		if r, ok := v.(Ref); ok && c.f.Dang {
			c.cat.Set(key, r)
		}
		return true
	}
	c.cat.Set(key, v)
	return true
}

// aaKeys are the events of annotations, pages, fields and documents.
var aaKeys = []string{"E", "X", "D", "U", "Fo", "Bl", "PO", "PC", "PV", "PI", "O", "C", "K", "F", "V", "WC", "WS", "DS", "WP", "DP"}

// holder attaches an action somewhere in the document.
func (c *fctx) holder(a *Dict) {
	k := c.fr.N(13)
	if k >= 7 {
		k++
	}
	idle := func() Val { // an action with nothing to report
		d := D("S", Name([]string{"Named", "GoTo", "Hide"}[c.fr.N(3)]), "N", Name("NextPage"))
		if c.fr.P(1, 4) {
			d.Set("Next", []Val{D("S", Name("Named")), Arr{}, Arr{D("S", Name("GoTo"))}, Name("None"), 7}[c.fr.N(5)])
		}
		k := c.k
		v := c.ind(d)
		for k++; k <= c.k; k++ {
			if c.loose == nil {
				c.loose = map[int]bool{}
			}
			c.loose[c.num(fmt.Sprintf("%s#%d", c.pre, k))] = true
		}
		return v
	}
	if c.f.Slot && c.slots["OpenAction"] == false && c.fr.P(1, 2) {
		k = 7
	}
	switch k {
	case 0: // an annotation
		c.top(D("Type", Name("Annot"), "Subtype", Name("Link"), "A", c.ind(a)))
	case 1:
		c.top(D("AA", c.ind(D(aaKeys[c.fr.N(len(aaKeys))], c.ind(a)))))
	case 2: // an object with its own open action
		c.top(D("OpenAction", c.ind(a)))
	case 3: // chained behind another action
		nx := c.ind(a)
		if c.fr.P(1, 2) {
			nx = Arr{nx}
		}
		if c.fr.P(1, 4) {
			nx = c.ind(nx)
		}
		first := D("S", Name("GoTo"), "D", Arr{0, Name("Fit")}, "Next", nx)
		c.top(D("Type", Name("Annot"), "A", c.ind(first)))
	case 4: // several additional actions
		aa := &Dict{}
		for i := c.fr.N(6); i > 0; i-- {
			aa.Set(aaKeys[c.fr.N(len(aaKeys))], idle())
		}
		aa.Set(aaKeys[c.fr.N(len(aaKeys))], c.ind(a))
		c.top(D("AA", aa))
	case 5: // two levels of chaining
		second := D("S", Name("Named"), "Next", Arr{D("S", Name("GoTo")), c.ind(a)})
		c.top(D("A", D("S", Name("Named"), "Next", c.ind(second))))
	case 6: // inside page-like structures
		c.top(D("Annots", Arr{D("Type", Name("Annot"), "A", c.ind(a)), D("Type", Name("Annot"))}))
	case 7:
		c.slot("OpenAction", c.ind(a))
	case 8: // next to an action of the same holder
		c.top(D("Type", Name("Annot"), "A", idle(), "AA", c.ind(D("E", c.ind(a), "U", idle()))))
	case 9:
		c.top(D("AA", D("D", idle()), "Z", Arr{}, "A", c.ind(a), "OpenAction", idle()))
	case 10: // in the middle of the actions that follow another one
		nx := Arr{idle(), c.ind(a), idle()}
		if c.fr.P(1, 8) {
			for i := c.fr.In(9, 60); i > 0; i-- {
				nx = append(Arr{D("S", Name("Named"))}, nx...)
			}
		}
		first := D("S", Name("GoTo"), "Next", c.ind(nx))
		c.top(D("OpenAction", c.ind(first), "A", idle()))
	case 11: // deep inside arrays and dictionaries
		c.top(Arr{D("K", Arr{Arr{}, Arr{D("Q", D("A", c.ind(a)), "A", Name("x"))}})})
	case 13: // at the end of a long chain
		nx := c.ind(a)
		for i := c.fr.In(3, 30); i > 0; i-- {
			d := D("S", Name("Named"), "Next", nx)
			if c.fr.P(1, 6) {
				d.Set("Next", Arr{idle(), nx})
			}
			if c.fr.P(2, 3) {
				nx = c.add(d)
			} else {
				nx = c.ind(d)
			}
		}
		c.top(D("Type", Name("Annot"), "A", nx))
	case 12: // an outline item
		c.top(D("Title", Str("outline"), "Count", 0, "First", D("Title", Str("item"), "A", c.ind(a), "C", Arr{0, 1, 0}), "A", idle()))
	}
}

// top stores a value as an object of its own, possibly nested.
func (c *fctx) top(v Val) {
	r := c.newRef()
	v = c.nest(v)
	if !c.gone {
		c.put(r, v)
	}
}

// tree builds a name tree of the given key with the pairs.
func (c *fctx) tree(key string, kv Arr, items ...*Item) {
	root := c.treeNode(kv, items, c.fr.N(3))
	if c.f.Slot && !c.slots["Names."+key] {
		c.slotted = true
		c.slots["Names."+key] = true
		if r, ok := root.(Ref); !c.gone || ok && c.f.Dang {
			if c.gone {
				c.names.Set(key, r)
			} else {
				c.names.Set(key, root)
			}
		}
		return
	}
	c.top(D(key, root))
}

func (c *fctx) treeNode(kv Arr, items []*Item, depth int) Val {
	d := &Dict{}
	k := c.k
	if depth == 0 || len(kv) < 4 {
		d.Set("Names", c.ind(kv))
	} else {
		var kids Arr
		wide := c.fr.P(1, 4)
		rest := items
		if c.fr.P(1, 10) { // names of its own as well as kids
			own := rest
			if rest != nil {
				own, rest = rest[:1:1], rest[1:]
			}
			d.Set("Names", c.ind(kv[:2:2]))
			c.claim(k, own...)
			kv = kv[2:]
		}
		for len(kv) > 0 {
			n := 2 * c.fr.In(1, len(kv)/2)
			if wide {
				n = 2
			}
			var part []*Item
			if rest != nil {
				part, rest = rest[:n/2:n/2], rest[n/2:]
			}
			node := c.treeNode(kv[:n:n], part, depth-1)
			k = c.k
			kids = append(kids, c.add(node))
			c.claim(k, part...)
			kv = kv[n:]
		}
		k = c.k
		d.Set("Kids", c.ind(kids))
	}
	v := c.ind(d)
	c.claim(k, items...)
	return v
}

var hostileNames = []string{"../../etc/passwd", "/etc/passwd", "..", ".", "a/b/c.txt", "..\\..\\x.exe", "contents.txt", "errors.txt", "/in/doc.pdf", "raw.pdf", "files.txt", "C:\\x", "-rf", "\x00nul", "d41d8cd98f00b204e9800998ecf8427e", "/work/keep/note.txt", "~/x", "a:b"}

func (c *fctx) filespec() Val {
	name := c.text("file ")
	if !c.doc.Plain && c.r.P(1, 2) {
		name = hostileNames[c.r.N(len(hostileNames))]
	}
	data := c.data()
	if c.r.P(1, 12) {
		data = []byte("the same bytes")
	}
	sd := &Dict{}
	if c.fr.P(3, 4) {
		sd.Set("Type", Name("EmbeddedFile"))
	}
	if c.fr.P(1, 3) {
		sd.Set("Params", D("Size", len(data)))
	}
	s := c.stream(sd, data)
	c.file(name, data)
	ef := D("F", s)
	spec := D("Type", Name("Filespec"), "F", c.str(name), "EF", c.ind(ef))
	if c.fr.P(1, 4) { // the same file under its other names
		ef.Set("UF", s)
		spec.Set("UF", Str("\xfe\xff\x00u\x00f"))
	}
	if c.fr.P(1, 12) {
		spec.Set([]string{"P", "Desc", "AFRelationship", "O"}[c.fr.N(4)], Str("more"))
	}
	return spec
}

func (c *fctx) launch() {
	f := c.text("prog ")
	a := D("S", Name("Launch"))
	switch c.fr.N(5) {
	case 4: // one program here, another on Windows
		a.Set("F", c.str(f))
		c.want(&c.exp.Cmds, f)
		c.want(&c.exp.Files, ZeroHash+":"+f)
		f = c.text("winprog ")
		p := c.text("args ")
		a.Set("Win", c.ind(D("F", c.str(f), "P", c.str(p))))
		c.want(&c.exp.Cmds, f+" "+p)
	case 0:
		a.Set("F", c.str(f))
		c.want(&c.exp.Cmds, f)
	case 1:
		a.Set("F", c.ind(D("Type", Name("Filespec"), "F", c.str(f))))
		c.want(&c.exp.Cmds, f)
	case 2:
		p := c.text("args ")
		a.Set("Win", c.ind(D("F", c.str(f), "P", c.str(p))))
		c.want(&c.exp.Cmds, f+" "+p)
	case 3:
		a.Set("Win", c.ind(D("F", c.str(f), "O", Str("open"))))
		c.want(&c.exp.Cmds, f)
	}
	c.want(&c.exp.Files, ZeroHash+":"+f)
	c.holder(a)
}

// state computes all live objects and expectations at revision rev.
func (b *builder) state(rev int) (map[int]*Obj, *Expect) {
	b.rev = rev
	b.objs = map[int]*Obj{}
	b.exp = &Expect{Extracted: map[string][]byte{}}
	b.slots = map[string]bool{}
	b.pages = nil
	catRef, rootRef := b.ref("catalog"), b.ref("pages")
	b.cat = D("Type", Name("Catalog"), "Pages", rootRef)
	b.names = &Dict{}
	b.rootFonts()
	for i := range b.doc.Feats {
		f := &b.doc.Feats[i]
		if f.Rev > rev {
			continue
		}
		gone := f.Del > f.Rev && rev >= f.Del
		ver := 0
		for _, u := range f.Upd {
			if u > f.Rev && u <= rev {
				ver++
			}
		}
		c := &fctx{builder: b, f: f, pre: fmt.Sprintf("f%d.%x", i, f.S&0xffff), ver: ver, gone: gone,
			fr: rt.NewR(rt.Mix(f.S, "shape")), r: rt.NewR(rt.Mix(f.S, fmt.Sprint("v", ver))),
			tag: fmt.Sprintf("%s%04x", string(alpha[i%26]), f.S&0xffff)}
		if b.doc.Spell != 0 {
			c.sp = rt.NewR(rt.Mix(b.doc.Spell, c.pre))
		}
		c.item(c.build)
		// what no item claims is needed by all of them
		for k := 1; k <= c.k; k++ {
			n := b.num(fmt.Sprintf("%s#%d", c.pre, k))
			claimed := c.loose[n]
			for _, it := range c.items[1:] {
				claimed = claimed || it.Deps[n]
			}
			for _, it := range c.items {
				it.Deps[n] = it.Deps[n] || !claimed
			}
		}
		for _, it := range c.items {
			it.Feat, it.Kind, it.Slot = i, f.K, c.slotted
		}
		b.exp.Items = append(b.exp.Items, c.items...)
	}
	if len(b.names.KVs) > 0 {
		b.cat.Set("Names", b.names)
	}
	for i := 0; i < b.doc.Fill; i++ {
		b.put(b.ref(fmt.Sprint("fill", i)), D("XFill", i))
	}
	b.pageTree(rootRef)
	b.put(catRef, b.cat)
	b.put(b.ref("info"), D("Title", Str(fmt.Sprintf("doc %x", b.doc.Seed&0xffff)), "XRev", rev/3))
	return b.objs, b.exp
}

// Build renders the document.
func (doc *Doc) Build() *Built {
	nrev := len(doc.Revs)
	b := &builder{doc: doc, nums: map[string]int{}, nr: rt.NewR(rt.Mix(doc.Seed, "nums"))}
	out := &Built{Layout: &Layout{}, Doc: doc, Hist: map[int][]*ObjPos{}}
	if doc.EncS != 0 {
		b.enc = RandEnc(rt.NewR(doc.EncS))
		b.enc.Tweak, b.enc.TweakS = doc.Tweak, doc.TweakS
		out.Enc = b.enc
	}
	l := out.Layout
	spell := doc.Seed
	if doc.Spell != 0 {
		spell = doc.Spell
	}
	w := &writer{r: rt.NewR(rt.Mix(spell, "render")), lvl: doc.Lvl, enc: b.enc}
	if doc.Junk > 0 {
		w.s(strings.Repeat("j", doc.Junk-1) + "\n")
	}
	w.s("%PDF-1.7\n%\xe2\xe3\xcf\xd3\n")
	if doc.Pad > 0 {
		w.s("%" + strings.Repeat("p", doc.Pad) + "\n")
	}
	// revisions that do not lie in the order of their chain get a slot each
	head, slot := w.pos(), 0
	blocks := make([][]byte, nrev)
	if doc.ordered() {
		plain := *doc
		plain.Order = nil
		at := head
		for _, e := range plain.Build().RevEnd {
			slot, at = max(slot, 2*(e-at)+1000), e
		}
		blocks = append(blocks, append([]byte(nil), w.buf.Bytes()...))
	}
	if doc.Revs[0].Early {
		for rev, spec := range doc.Revs {
			if spec.Xref == "stream" {
				b.num(fmt.Sprint("xref", rev))
			}
		}
	}
	prev := map[int]*Obj{}
	freed := map[int]bool{}
	lastStart := -1
	var encRef Ref
	for rev := 0; rev < nrev; rev++ {
		spec := doc.Revs[rev]
		cur, exp := b.state(rev)
		rr := rt.NewR(rt.Mix(spell, fmt.Sprint("rev", rev)))
		if b.enc != nil && b.enc.Indirect {
			encRef = b.ref("encrypt")
			out.EncN = encRef.Num
			cur[encRef.Num] = &Obj{Num: encRef.Num, Gen: encRef.Gen, V: b.enc.Dict(), Clear: true}
		}
		var write []*Obj
		var free []int
		var nums []int
		for n := range cur {
			nums = append(nums, n)
		}
		sort.Ints(nums)
		touch := spec.Touch
		// the helpers of a stream are kept or rewritten with it
		keep := map[int]bool{}
		for _, n := range nums {
			if p := prev[n]; p != nil && cur[n].Helper == "" && p.Helper == "" && p.key() == cur[n].key() {
				keep[n] = true
				for _, h := range []*Obj{p.Len, p.FiltObj, p.ParmObj} {
					if h != nil {
						keep[h.Num] = true
					}
				}
			}
		}
		for _, n := range nums {
			p := prev[n]
			if keep[n] {
				cur[n] = p
				if touch > 0 && rr.P(1, 3) && !p.IsStream && p.Helper == "" {
					touch--
					write = append(write, p)
				}
				continue
			}
			write = append(write, cur[n])
		}
		for _, o := range write {
			o.prepare(rt.Mix(spell, fmt.Sprint("p", rev)), b.enc)
			if r := rt.NewR(rt.Mix(spell, fmt.Sprint("badlen", rev, " ", o.Num))); r.N(100) < doc.BadLen {
				o.breakLength(r)
			}
		}
		for n := range prev {
			if cur[n] == nil {
				free = append(free, n)
			}
		}
		sort.Ints(free)
		for _, n := range free {
			freed[n] = true
		}
		for n := range cur {
			delete(freed, n)
		}
		for _, i := range rr.Perm(len(write)) {
			j := rr.N(i + 1)
			write[i], write[j] = write[j], write[i]
		}
		exp.Objs = cur
		exp.Freed = map[int]bool{}
		for n := range freed {
			exp.Freed[n] = true
		}
		out.Exp = append(out.Exp, exp)
		if slot > 0 {
			w.buf.Reset()
			for i, o := range doc.Order {
				if o == rev {
					w.base = head + i*slot
				}
			}
		}
		l.revision(out, b, w, rr, rev, spec, write, free, prev, lastStart, encRef)
		if slot > 0 {
			blocks[rev] = append(append([]byte(nil), w.buf.Bytes()...), bytes.Repeat([]byte("\n"), slot-w.buf.Len())...)
		}
		lastStart = l.Starts[len(l.Starts)-1].Value
		l.RevEnd = append(l.RevEnd, w.pos())
		prev = cur
	}
	l.Data = append([]byte(nil), w.buf.Bytes()...)
	if slot > 0 {
		l.Data = blocks[nrev]
		for _, o := range doc.Order {
			l.Data = append(l.Data, blocks[o]...)
		}
		l.Data = append(l.Data, fmt.Sprintf("startxref\n%d\n%%%%EOF\n", lastStart)...)
	}
	if doc.Tail > 0 {
		fill := []string{"\n", "\x00", " \r\n", "<!-- sent by a web server -->\n", "\x1a"}[doc.Tail%5]
		l.Data = append(l.Data, strings.Repeat(fill, doc.Tail)[:doc.Tail]...)
	}
	for _, p := range l.Objs {
		out.Hist[p.Num] = append(out.Hist[p.Num], p)
	}
	out.Owner = map[int]string{}
	for k, n := range b.nums {
		out.Owner[n] = k
	}
	return out
}

func (l *Layout) revision(out *Built, b *builder, w *writer, rr *rt.R, rev int, spec RevSpec, write []*Obj, free []int, prev map[int]*Obj, lastStart int, encRef Ref) {
	trailer := D("Size", 0, "Root", b.ref("catalog"), "Info", b.ref("info"))
	if lastStart >= 0 {
		trailer.Set("Prev", lastStart)
	}
	if b.enc != nil {
		if id := b.enc.trailerID(); id != nil {
			trailer.Set("ID", id)
		}
		if b.enc.Tweak == "dangling" {
			trailer.Set("Encrypt", Ref{b.num("nothing"), 0})
		} else if b.enc.Indirect {
			trailer.Set("Encrypt", encRef)
		} else {
			trailer.Set("Encrypt", b.enc.Dict())
		}
	} else if rr.P(1, 2) {
		trailer.Set("ID", Arr{Str("id one"), Str("id two")})
	}
	xnum := 0
	if spec.Xref == "stream" {
		xnum = b.num(fmt.Sprint("xref", rev))
		out.XrefN = append(out.XrefN, xnum)
	}
	trailer.Set("Size", b.next+1)
	var old []*ObjPos
	if spec.Whole && b.next < 500 {
		// everything else, too: what the last sections gave and what nobody has
		listed := map[int]bool{xnum: true}
		for _, o := range write {
			listed[o.Num] = true
		}
		for _, n := range free {
			listed[n] = true
		}
		for i := len(l.Objs) - 1; i >= 0; i-- {
			p := l.Objs[i]
			if !listed[p.Num] && (p.IsXref || prev[p.Num] != nil) {
				old = append(old, p)
				listed[p.Num] = true
			}
		}
		for n := 1; n <= b.next; n++ {
			if !listed[n] {
				free = append(free, n)
			}
		}
		sort.Ints(free)
	}
	// entries; the free list is chained through the freed numbers
	mk := func(pos map[int]int) []entry {
		var es []entry
		if lastStart < 0 || len(free) > 0 {
			nx := 0
			if len(free) > 0 {
				nx = free[0]
			}
			es = append(es, entry{num: 0, gen: 65535, free: true, next: nx})
		}
		for i, n := range free {
			nx := 0
			if i+1 < len(free) {
				nx = free[i+1]
			}
			g := 65535
			switch spec.FreeG {
			case 0:
				g = 1
				if prev[n] != nil {
					g = min(65535, prev[n].Gen+1)
				}
			case 1:
				g = 0
			}
			es = append(es, entry{num: n, gen: g, free: true, next: nx})
		}
		for _, o := range write {
			es = append(es, entry{num: o.Num, gen: o.Gen, off: pos[o.Num]})
		}
		for _, p := range old {
			es = append(es, entry{num: p.Num, gen: p.Gen, off: p.Start})
		}
		return es
	}
	writeObjs := func(w *writer) map[int]int {
		pos := map[int]int{}
		for _, o := range write {
			if w.lvl > 0 && w.r.P(1, 6) {
				w.comment()
			}
			if w.lvl > 0 && w.r.P(1, 60) {
				w.s("%" + strings.Repeat("-", 4000+w.r.N(120)) + "\n")
			}
			p := w.object(rev, o)
			pos[o.Num] = p.Start
			l.Objs = append(l.Objs, p)
		}
		return pos
	}
	start := w.pos()
	var sec *Section
	if spec.First && spec.Xref != "stream" {
		// measure with zero offsets, then write the real section in front
		seed := rr.U64()
		probe := &writer{r: rt.NewR(seed), lvl: w.lvl, base: start}
		l.tableSection(probe, rev, mk(map[int]int{}), trailer, spec.Split)
		body := &writer{r: w.r, lvl: w.lvl, enc: w.enc, base: probe.pos()}
		pos := writeObjs(body)
		front := &writer{r: rt.NewR(seed), lvl: w.lvl, base: start}
		sec = l.tableSection(front, rev, mk(pos), trailer, spec.Split)
		w.buf.Write(front.buf.Bytes())
		w.buf.Write(body.buf.Bytes())
	} else {
		pos := writeObjs(w)
		start = w.pos()
		if spec.Xref == "stream" {
			es := mk(pos)
			es = append(es, entry{num: xnum, off: start})
			xo := xrefStreamObj(rr, xnum, es, trailer, spec)
			xo.prepare(rt.Mix(b.doc.Seed, fmt.Sprint("x", rev)), b.enc)
			p := w.object(rev, xo)
			p.IsXref = true
			l.Objs = append(l.Objs, p)
			sec = &Section{Rev: rev, Kind: "stream", Start: p.Start, End: p.End, Num: xnum}
			for _, e := range es {
				sec.Entries = append(sec.Entries, EntryPos{Num: e.num, Target: e.off, Gen: e.gen, Free: e.free})
			}
		} else {
			sec = l.tableSection(w, rev, mk(pos), trailer, spec.Split)
		}
	}
	l.Sections = append(l.Sections, sec)
	kw := w.pos()
	w.s("startxref")
	w.tableEOL()
	ns := w.pos()
	w.s(fmt.Sprint(start))
	ne := w.pos()
	w.tableEOL()
	w.s("%%EOF")
	w.tableEOL()
	l.Starts = append(l.Starts, StartX{kw, ns, ne, start})
}

// DocOpt restricts RandDoc.
type DocOpt struct {
	Kinds   []string // feature kinds to draw from
	MinF    int
	MaxF    int
	MaxRev  int
	Lvl     int // -1 = any
	Enc     int // percentage of encrypted documents
	Gens    bool
	Sparse  int // -1 = any
	Size    int // largest stream data when bigger data is wanted
	Del     bool
	Plain   bool
	Tables  bool // cross-reference tables only
	Streams bool // cross-reference streams only
	NoFirst bool
	Big     int // one in how many documents has a lot of something, 0 = none
	Order   int // percentage of documents whose revisions lie in another order
}

var AllKinds = []string{"plain", "stream", "uri", "base", "urls", "js", "launch", "extfile", "fsurl", "embed", "xfa", "page", "meta"}

// RandDoc draws a document.
func RandDoc(r *rt.R, o DocOpt) *Doc {
	d := &Doc{Seed: r.U64() >> 1, Lvl: o.Lvl, Sparse: o.Sparse, Plain: o.Plain}
	if o.Lvl < 0 {
		d.Lvl = r.N(3)
	}
	d.CLvl = d.Lvl
	if o.Sparse < 0 {
		d.Sparse = []int{0, 0, 1, 1, 2}[r.N(5)]
	}
	if o.Gens {
		d.Gens = r.P(1, 3)
	}
	if r.P(1, 8) {
		d.Pad = r.N(4200)
	}
	if r.P(1, 8) {
		d.Tail = r.In(1, 160)
	}
	if r.P(1, 6) {
		d.BadLen = r.In(10, 90)
	}
	if r.N(100) < o.Enc {
		d.EncS = r.U64()>>1 | 1
	}
	nrev := 1
	if o.MaxRev > 1 {
		nrev = 1 + r.N(o.MaxRev)
	}
	for i := 0; i < nrev; i++ {
		s := RevSpec{Xref: "table", Split: []int{0, 0, 20, 60}[r.N(4)], W: r.N(4)}
		if r.P(1, 12) {
			s.W = 4 + r.N(4)
		}
		if !o.Tables && (o.Streams || r.P(1, 2)) {
			s.Xref = "stream"
			s.XF = r.Pick("", "", "flate", "png", "hex", "a85flate", "lzw")
		} else if !o.NoFirst && r.P(1, 6) {
			s.First = true
		}
		if r.P(1, 4) {
			s.Touch = r.In(1, 4)
		}
		d.Revs = append(d.Revs, s)
	}
	if nrev > 1 && o.Order > 0 && r.N(100) < o.Order {
		d.Order = r.Perm(nrev)
	}
	n := r.In(o.MinF, o.MaxF)
	for i := 0; i < n; i++ {
		f := Feat{K: o.Kinds[r.N(len(o.Kinds))], S: r.U64() >> 1, Slot: r.P(1, 2)}
		if nrev > 1 {
			if r.P(1, 3) {
				f.Rev = r.N(nrev)
			}
			for u := f.Rev + 1; u < nrev; u++ {
				if r.P(1, 3) {
					f.Upd = append(f.Upd, u)
				}
			}
			if o.Del && f.Rev+1 < nrev && r.P(1, 4) {
				f.Del = r.In(f.Rev+1, nrev-1)
				f.Dang = r.P(1, 2)
			}
		}
		if o.Size > 0 && r.P(1, 6) {
			f.Size = 1 + r.N(o.Size)
		}
		d.Feats = append(d.Feats, f)
	}
	if o.Big > 0 && r.P(1, o.Big) {
		switch r.N(10) {
		case 0:
			d.Fill = r.In(100, 1200)
		case 1:
			d.Wide = r.In(40, 300)
		case 2, 3:
			for m := r.In(8, 30); len(d.Revs) < m && nrev > 1; {
				d.Revs = append(d.Revs, RevSpec{Xref: d.Revs[len(d.Revs)%nrev].Xref, Touch: r.N(3)})
			}
			if len(d.Order) > 0 {
				d.Order = r.Perm(len(d.Revs))
			}
		default:
			for i := range d.Feats {
				d.Feats[i].Big = r.Pick("nest", "text", "text", "name", "array", "dict", "data")
			}
		}
	}
	return d
}
