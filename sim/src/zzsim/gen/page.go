package gen

import (
	"bytes"
	"fmt"
	"regexp"
	"strings"

	"github.com/KarmaPenny/pdfparser/zzsim/rt"
)

// font is a to-unicode map known by construction.
type font struct {
	width int
	cmap  map[int]string
	keys  []int
}

func (f *font) decode(s string) string {
	if f == nil {
		return s
	}
	var b strings.Builder
	for i := 0; i+f.width <= len(s); i += f.width {
		k := 0
		for j := 0; j < f.width; j++ {
			k = k<<8 | int(s[i+j])
		}
		if v, ok := f.cmap[k]; ok {
			b.WriteString(v)
		} else {
			b.WriteString(s[i : i+f.width])
		}
	}
	return b.String()
}

func hexs(w *writer, s string) {
	w.s("<")
	for i := 0; i < len(s); i++ {
		d := "%02x"
		if w.lvl >= 1 && w.r.P(1, 2) {
			d = "%02X"
		}
		w.s(fmt.Sprintf(d, s[i]))
	}
	w.s(">")
}

func code(k, width int) string {
	s := ""
	for i := width - 1; i >= 0; i-- {
		s += string([]byte{byte(k >> (8 * uint(i)))})
	}
	return s
}

// makeFont draws a map and its cmap program.
func makeFont(r *rt.R, lvl int) (*font, []byte) {
	f := &font{width: 1 + r.N(2), cmap: map[int]string{}}
	w := &writer{r: r, lvl: min(lvl, 1)}
	w.s("/CIDInit /ProcSet findresource begin\n12 dict begin\nbegincmap\n/CIDSystemInfo << /Registry (Adobe) /Ordering (UCS) /Supplement 0 >> def\n/CMapName /Adobe-Identity-UCS def\n/CMapType 2 def\n1 begincodespacerange\n")
	if f.width == 1 {
		w.s("<00> <FF>\n")
	} else {
		w.s("<0000> <FFFF>\n")
	}
	w.s("endcodespacerange\n")
	sp := func() {
		w.s([]string{" ", " ", "\n", ""}[r.N(4)])
	}
	maxCode := 1<<(8*uint(f.width)) - 1
	dst := func() string {
		switch r.N(13) {
		case 0:
			return "" // a code that stands for nothing
		case 1, 2, 3, 4:
			return "\x00" + string(rune('A'+r.N(26)))
		case 5, 6, 7, 8:
			return string(rune('a' + r.N(26)))
		}
		return "<" + fmt.Sprint(r.N(10)) + ">"
	}
	set := func(k int, v string) {
		if _, ok := f.cmap[k]; !ok {
			f.keys = append(f.keys, k)
		}
		f.cmap[k] = v
	}
	taken := func(a, b int) bool {
		for k := a; k <= b; k++ {
			if _, ok := f.cmap[k]; ok {
				return true
			}
		}
		return false
	}
	for n := r.In(1, 3); n > 0; n-- {
		if r.P(1, 2) {
			var lines [][2]string
			m := r.In(1, 6)
			if r.P(1, 40) {
				m = r.In(80, 300)
			}
			for i := m; i > 0; i-- {
				k := r.N(maxCode + 1)
				if taken(k, k) {
					continue
				}
				v := dst()
				set(k, v)
				lines = append(lines, [2]string{code(k, f.width), v})
			}
			w.s(fmt.Sprintf("%d beginbfchar\n", len(lines)))
			for _, l := range lines {
				hexs(w, l[0])
				sp()
				hexs(w, l[1])
				w.s("\n")
			}
			w.s("endbfchar\n")
		} else {
			type rg struct {
				a, b int
				v    string
				vs   []string
			}
			var rs []rg
			for i := r.In(1, 4); i > 0; i-- {
				a := r.N(maxCode + 1)
				n := r.N(30)
				if r.P(1, 4) {
					n = 0
				}
				b := min(a+n, maxCode, a|0xff)  // the low byte alone varies
				if f.width == 2 && r.P(1, 12) { // in practice all of it may
					a, b = r.N(4)*r.N(9000), maxCode
					if r.P(1, 2) {
						b = min(a+r.In(300, 20000), maxCode)
					}
					if taken(a, b) {
						continue
					}
					from := 0
					if b-a < maxCode {
						from = r.N(maxCode - (b - a))
					}
					if r.P(1, 3) {
						from = min(a, maxCode-(b-a)) // identity
					}
					for k := a; k <= b; k++ {
						set(k, code(from+k-a, 2))
					}
					rs = append(rs, rg{a: a, b: b, v: code(from, 2)})
					continue
				}
				if taken(a, b) {
					continue
				}
				if r.P(1, 4) { // a value for each code
					x := rg{a: a, b: b}
					for k := a; k <= b; k++ {
						x.vs = append(x.vs, dst())
						set(k, x.vs[k-a])
					}
					rs = append(rs, x)
					continue
				}
				v := dst()
				if v == "" {
					v = "E"
				}
				if len(v) > 1 && r.P(1, 4) { // values that run into the next row
					v = v[:len(v)-1] + string([]byte{byte(255 - r.N(20))})
				}
				if int(v[len(v)-1])+(b-a) > 255 && (len(v) < 2 || v[len(v)-2] == 255) {
					continue
				}
				for k := a; k <= b; k++ {
					x := []byte(v)
					n := int(x[len(x)-1]) + k - a
					x[len(x)-1] = byte(n)
					if n > 255 {
						x[len(x)-2]++
					}
					set(k, string(x))
				}
				rs = append(rs, rg{a: a, b: b, v: v})
			}
			w.s(fmt.Sprintf("%d beginbfrange\n", len(rs)))
			for _, x := range rs {
				hexs(w, code(x.a, f.width))
				sp()
				hexs(w, code(x.b, f.width))
				sp()
				if x.vs != nil {
					w.s("[")
					for _, v := range x.vs {
						sp()
						hexs(w, v)
					}
					w.s("]")
				} else {
					hexs(w, x.v)
				}
				w.s("\n")
			}
			w.s("endbfrange\n")
		}
	}
	w.s("endcmap\nCMapName currentdict /CMap defineresource pop\nend\nend\n")
	return f, w.buf.Bytes()
}

var imageEnd = regexp.MustCompile(`(^|[\s\x00])EI([\s\x00]|$)`)

var rootFontNames = []string{"R1", "R2"}

// rootFonts defines the fonts of the page tree root, which pages may inherit.
func (b *builder) rootFonts() {
	for _, f := range b.doc.Feats {
		if f.K == "page" {
			goto need
		}
	}
	return
need:
	for _, n := range rootFontNames {
		f, prog := b.rootFont(n)
		_ = f
		s := &Obj{V: &Dict{}, IsStream: true, Data: prog}
		ref := b.ref("rootfont" + n)
		s.Num, s.Gen = ref.Num, ref.Gen
		b.objs[ref.Num] = s
		b.put(b.ref("rootfontd"+n), D("Type", Name("Font"), "ToUnicode", ref))
	}
}

func (b *builder) rootFont(n string) (*font, []byte) {
	return makeFont(rt.NewR(rt.Mix(b.doc.Seed, "rootfont"+n)), b.doc.CLvl)
}

func (b *builder) rootResources() Val {
	fd := &Dict{}
	for _, n := range rootFontNames {
		fd.Set(n, b.ref("rootfontd"+n))
	}
	return D("Font", fd)
}

// pageTree builds the tree over the pages collected so far.
func (b *builder) pageTree(root Ref) {
	type node struct {
		ref  Ref
		text string
	}
	var level []node
	for _, p := range b.pages {
		level = append(level, node{p.ref, p.text})
	}
	r := rt.NewR(rt.Mix(b.doc.Seed, "tree"))
	for _, n := range level {
		b.exp.Text += n.text
	}
	for i := 0; i < b.doc.Wide; i++ {
		n := b.ref(fmt.Sprint("blank", i))
		b.put(n, D("Type", Name("Page"), "Parent", root))
		at := r.N(len(level) + 1)
		level = append(level[:at:at], append([]node{{ref: n}}, level[at:]...)...)
	}
	depth := r.N(3)
	if r.P(1, 8) {
		depth = r.In(3, 9)
	}
	fonts := false
	for _, f := range b.doc.Feats {
		fonts = fonts || f.K == "page"
	}
	// the nearest node that has resources is the one that counts
	near := fonts && depth > 0 && len(level) > 0 && r.P(1, 3)
	for d := 0; d < depth && len(level) > 0; d++ {
		ragged := r.P(1, 2) && !(near && d == 0)
		var up []node
		for i := 0; i < len(level); {
			n := min(1+r.N(4+b.doc.Wide), len(level)-i)
			if ragged && r.P(1, 2) {
				up = append(up, level[i]) // trees need not be balanced
				i++
				continue
			}
			ref := b.ref(fmt.Sprintf("tree%d.%d", d, len(up)))
			kids := Arr{}
			for _, k := range level[i : i+n] {
				kids = append(kids, k.ref)
			}
			nd := D("Type", Name("Pages"), "Kids", kids, "Count", n)
			if near && d == 0 {
				nd.Set("Resources", b.rootResources())
			} else if near && r.P(1, 3) {
				nd.Set("Resources", D("Font", &Dict{}))
			}
			b.put(ref, nd)
			up = append(up, node{ref: ref})
			i += n
		}
		level = up
	}
	kids := Arr{}
	for _, n := range level {
		kids = append(kids, n.ref)
	}
	d := D("Type", Name("Pages"), "Kids", kids, "Count", len(b.pages)+b.doc.Wide)
	if near && r.P(2, 3) {
		if r.P(1, 2) {
			d.Set("Resources", D("Font", D(rootFontNames[0], b.ref("rootfontd"+rootFontNames[1]))))
		}
	} else if fonts {
		d.Set("Resources", b.rootResources())
	}
	if r.P(1, 4) {
		b.put(b.ref("kids"), kids)
		d.Set("Kids", b.ref("kids"))
	}
	b.put(root, d)
}

// page adds a page: fonts, resources and content.
func (c *fctx) page() {
	ref := c.newRef()
	fonts := map[string]*font{}
	var res Val
	inherit := c.fr.P(1, 4)
	var fnames []string
	if inherit {
		for _, n := range rootFontNames {
			fonts[n], _ = c.rootFont(n)
			fnames = append(fnames, n)
		}
	} else {
		fd := &Dict{}
		m := c.fr.N(3)
		if c.fr.P(1, 15) {
			m = c.fr.In(4, 12)
		}
		for i := m; i > 0; i-- {
			n := fmt.Sprintf("F%d", i)
			if c.f.Big == "name" {
				n = strings.Repeat("F", 150) + n
			}
			if !c.doc.Plain && c.fr.P(1, 5) {
				n = "F#" + string(rune('a'+i))
			}
			f, prog := makeFont(c.r, c.doc.CLvl)
			if c.r.P(1, 5) {
				fonts[n] = nil
				fd.Set(n, c.ind(D("Type", Name("Font"), "Subtype", Name("Type1"), "BaseFont", Name("Helvetica"))))
			} else {
				fonts[n] = f
				fd.Set(n, c.ind(D("Type", Name("Font"), "ToUnicode", c.stream(&Dict{}, prog))))
			}
			fnames = append(fnames, n)
		}
		res = c.ind(D("Font", c.ind(fd), "ProcSet", Arr{Name("PDF"), Name("Text")}))
		// resources of its own hide those above, even if there is nothing in them
		if c.fr.P(1, 6) {
			fnames = append(fnames, rootFontNames...)
			fonts[rootFontNames[0]], fonts[rootFontNames[1]] = nil, nil
			if len(fd.KVs) == 0 {
				res = c.ind([]*Dict{{}, D("Font", &Dict{}), D("ProcSet", Arr{Name("PDF")})}[c.fr.N(3)])
			}
		}
	}
	eol := func() string { return []string{" ", "\n", "\r\n", "\n"}[c.r.N(4)] }
	var parts [][]byte
	var whole Arr // streams that each set what they need
	text := ""
	if c.fr.P(1, 4) {
		var items []*Item
		var pk []int
		for n := c.fr.In(2, 4); n > 0; n-- {
			k := c.k
			it := c.item(func() {
				ops, t := c.content(fnames, fonts, true)
				text += t
				p := ""
				for i, op := range ops {
					if i > 0 {
						p += eol()
					}
					p += op
				}
				whole = append(whole, c.stream(&Dict{}, []byte(p)))
				parts = append(parts, []byte(p))
			})
			if t := text[len(c.parted):]; t != "" && !c.gone {
				it.Texts = []string{t}
			}
			c.parted = text
			items, pk = append(items, it), append(pk, k+1)
		}
		// a part that is not there at all takes nothing else with it
		for i, it := range items {
			it.Soft = map[int]bool{}
			for j, o := range items {
				if i == j {
					continue
				}
				sn := c.num(fmt.Sprintf("%s#%d", c.pre, pk[j]))
				for n := range o.Deps {
					if n == sn {
						it.Soft[n] = true
					} else {
						it.Deps[n] = true
					}
				}
			}
		}
	} else {
		ops, t := c.content(fnames, fonts, false)
		text = t
		// split at operator boundaries
		cur, most, often := "", 4, 10
		if c.r.P(1, 12) {
			most, often = 40, 2
		}
		for i, op := range ops {
			cur += op
			if i < len(ops)-1 && c.r.P(1, often) && len(parts) < most {
				parts = append(parts, []byte(cur))
				cur = ""
			} else if i < len(ops)-1 {
				cur += eol()
			}
		}
		parts = append(parts, []byte(cur))
	}
	pd := D("Type", Name("Page"), "Parent", c.ref("pages"), "MediaBox", Arr{0, 0, 612, 792})
	if res != nil {
		pd.Set("Resources", res)
	}
	if whole != nil {
		pd.Set("Contents", c.ind(whole))
	} else if c.fr.P(1, 15) {
		// a page need not have contents
		text = ""
		if c.fr.P(1, 2) {
			pd.Set("Contents", Arr{})
		}
	} else if len(parts) == 1 && c.fr.P(1, 2) {
		pd.Set("Contents", c.stream(&Dict{}, parts[0]))
	} else {
		a := Arr{}
		for _, p := range parts {
			if c.fr.P(1, 12) { // what is not a stream adds nothing
				switch c.fr.N(4) {
				case 0:
					a = append(a, nil)
				case 1:
					a = append(a, c.add(nil))
				case 2:
					a = append(a, c.newRef())
				case 3:
					a = append(a, c.fr.N(100))
				}
			}
			a = append(a, c.stream(&Dict{}, p))
		}
		pd.Set("Contents", c.ind(a))
	}
	if c.gone {
		if c.f.Dang {
			c.pages = append(c.pages, pageRef{ref: ref})
		}
		return
	}
	c.put(ref, pd)
	c.pages = append(c.pages, pageRef{ref: ref, text: text, alive: true})
}

// content draws a content stream as a list of operators and the text it shows.
func (c *fctx) content(fnames []string, fonts map[string]*font, alone bool) ([]string, string) {
	r := c.r
	var ops []string
	var text strings.Builder
	w := &writer{r: r, lvl: min(c.doc.CLvl, 1)}
	flush := func() {
		ops = append(ops, w.buf.String())
		w.buf.Reset()
	}
	op := func(s string) { w.s(s); flush() }
	var cur *font
	curName := ""
	show := func() string {
		// whole codes of the current font, mapped and unmapped
		if cur == nil {
			return c.anyShow()
		}
		s := ""
		for i := r.In(1, 6); i > 0; i-- {
			if r.P(3, 4) && len(cur.keys) > 0 {
				s += code(cur.keys[r.N(len(cur.keys))], cur.width)
			} else {
				s += code(r.N(1<<(8*uint(cur.width))), cur.width)
			}
		}
		return s
	}
	setFont := func() {
		if len(fnames) == 0 || r.P(1, 8) {
			curName, cur = "Unknown", nil
		} else {
			curName = fnames[r.N(len(fnames))]
			cur = fonts[curName]
		}
		w.name(curName)
		w.s(fmt.Sprintf(" %d Tf", 8+r.N(10)))
		flush()
	}
	image := func() { // an inline image, whose data can look like anything
		var d []byte
		for {
			if d = r.Bytes(r.N(60)); r.P(1, 2) {
				for i := range d {
					d[i] = " \n()<>[]{}/%\\BTEITjQ0'\"\x00"[int(d[i])%24]
				}
			}
			if !bytes.Contains(append(d, ' '), []byte("EI ")) && !imageEnd.Match(d) {
				break
			}
		}
		sp := func() string { return []string{" ", "\n", "\r\n", "\t"}[r.N(4)] }
		op("BI" + sp() + "/W 3/H" + sp() + "7 /CS/G /BPC 8" + []string{"", "/F/AHx", "/IM true", "/D[1 0]"}[r.N(4)] + sp() + "ID" + sp() + string(d) + sp() + "EI")
	}
	if alone {
		setFont()
	}
	type gs struct{ f *font }
	var stack []gs
	blocks := r.In(1, 4)
	for i := 0; i < blocks; i++ {
		for j := r.N(4); j > 0; j-- {
			switch r.N(7) {
			case 6:
				image()
			case 0:
				n := 1
				if r.P(1, 25) {
					n = r.In(10, 60)
				}
				for ; n > 0; n-- {
					if n > 1 && r.P(1, 12) {
						setFont()
					}
					op("q")
					stack = append(stack, gs{cur})
				}
			case 1:
				if len(stack) > 0 {
					if len(stack) > 5 && r.P(1, 2) {
						for n := r.N(len(stack)); n > 0; n-- {
							op("Q")
							stack = stack[:len(stack)-1]
						}
					}
					op("Q")
					cur = stack[len(stack)-1].f
					stack = stack[:len(stack)-1]
				} else {
					op("1 0 0 RG")
				}
			case 2:
				op([]string{"1 0 0 1 50 50 cm", "1. 0 -.5 +.25 50 -0.0 cm", "[] 0 d", "[3 -2.5] 1 d", "/GS0 gs", "0.5 g"}[r.N(6)])
			case 3:
				op("0 0 10 10 re")
			case 4:
				if r.P(1, 3) {
					// shown outside of a text block: not text
					w.str("zzout" + c.word())
					w.s(" ")
					op("Tj")
				} else {
					op("f*")
				}
			case 5:
				if r.P(1, 2) {
					setFont()
				} else {
					op("/Span <</MCID 0/ActualText (x)>> BDC")
					op("EMC")
				}
			}
		}
		op("BT")
		if i == 0 && r.P(7, 8) || r.P(1, 2) {
			setFont()
		}
		for j := r.In(1, 6); j > 0; j-- {
			switch r.N(21) {
			case 18:
				image()
			case 19:
				op("q")
				stack = append(stack, gs{cur})
			case 20:
				if len(stack) > 0 {
					op("Q")
					cur = stack[len(stack)-1].f
					stack = stack[:len(stack)-1]
				}
			case 0, 9:
				op("1 0 0 1 72 700 Tm")
			case 1, 10:
				op("0 -14 Td")
			case 2, 11:
				op("T*")
			case 3, 12:
				setFont()
			case 4, 5, 13, 14:
				s := show()
				w.str(s)
				w.ws(w.lvl == 0)
				w.s("Tj")
				flush()
				text.WriteString(cur.decode(s) + "\n")
			case 6, 15:
				s := show()
				if r.P(1, 2) {
					w.str(s)
					w.s(" '")
				} else {
					w.s("1 2 ")
					w.str(s)
					w.s("\"")
				}
				flush()
				text.WriteString(cur.decode(s) + "\n")
			case 7, 8, 16, 17:
				all := ""
				w.s("[")
				m := r.N(5)
				if r.P(1, 50) {
					m = r.In(50, 200)
				}
				for k := m; k > 0; k-- {
					if r.P(1, 3) {
						w.s(fmt.Sprintf(" %d ", r.N(400)-200))
						if r.P(1, 4) {
							w.s(fmt.Sprintf("-%d.%d ", r.N(9), r.N(9)))
						}
					}
					s := show()
					all += s
					w.str(s)
					if r.P(1, 3) {
						w.s(fmt.Sprint(-r.N(300)))
						w.s(" ")
					}
				}
				w.s("]")
				w.ws(false)
				w.s("TJ")
				flush()
				text.WriteString(cur.decode(all) + "\n")
			}
		}
		op("ET")
	}
	return ops, text.String()
}

func (c *fctx) anyShow() string {
	s := c.uniq() + " "
	for i := c.r.N(4); i > 0; i-- {
		if c.r.P(1, 3) {
			s += []string{"(", ")", "\\", "ET", "BT", "[", "%"}[c.r.N(7)]
		} else {
			s += c.word()
		}
	}
	return s
}
