package main

import (
	"bytes"
	"compress/zlib"
	"fmt"
	"math/big"
	"strings"

	"github.com/KarmaPenny/pdfparser/zzsim/gen"
	"github.com/KarmaPenny/pdfparser/zzsim/rt"
)

// Hand-made shapes of file that are hard to survive. Sizes stay small enough
// that any sensible amount of work per byte fits the step budget.

type hostileFile struct {
	name string
	f    func(r *rt.R) []byte
}

func assemble(objs []string, trailer string) []byte {
	var b bytes.Buffer
	b.WriteString("%PDF-1.6\n")
	offs := make([]int, len(objs))
	for i, o := range objs {
		if o == "" {
			continue
		}
		offs[i] = b.Len()
		fmt.Fprintf(&b, "%d 0 obj\n%s\nendobj\n", i+1, o)
	}
	at := b.Len()
	fmt.Fprintf(&b, "xref\n0 %d\n0000000000 65535 f \n", len(objs)+1)
	for _, o := range offs {
		if o == 0 {
			b.WriteString("0000000000 00000 f \n")
		} else {
			fmt.Fprintf(&b, "%010d 00000 n \n", o)
		}
	}
	fmt.Fprintf(&b, "trailer\n<</Size %d/Root 1 0 R%s>>\nstartxref\n%d\n%%%%EOF\n", len(objs)+1, trailer, at)
	return b.Bytes()
}

func stm(dict string, data []byte) string {
	return fmt.Sprintf("<<%s/Length %d>>\nstream\n%s\nendstream", dict, len(data), data)
}

func deflate(d []byte) []byte {
	var b bytes.Buffer
	w := zlib.NewWriter(&b)
	w.Write(d)
	w.Close()
	return b.Bytes()
}

// page makes a one-page document whose font and contents are given.
func pageDoc(font, contents string, more ...string) []byte {
	objs := []string{
		"<</Type/Catalog/Pages 2 0 R>>",
		"<</Type/Pages/Kids[3 0 R]/Count 1>>",
		"<</Type/Page/Parent 2 0 R/Resources<</Font<</F1 4 0 R>>>>/Contents 5 0 R>>",
		"<</Type/Font/ToUnicode 6 0 R>>",
		stm("", []byte(contents)),
		stm("", []byte(font)),
	}
	return assemble(append(objs, more...), "")
}

var badInts = []string{"-1", "0", "-2147483648", "2147483647", "4294967296", "9223372036854775807", "-9223372036854775808", "99999999999999999999999", "1e9", "1000000000", "65536", "3.7", "null", "(x)", "[]", "-0", "1 0 R", "16", "17", "33", "64", "127", "129", "136", "255", "256", "257", "1024"}

func bad(r *rt.R) string { return badInts[r.N(len(badInts))] }

// some mixes bad and ordinary numbers
func some(r *rt.R, good ...string) string {
	if r.P(1, 2) {
		return good[r.N(len(good))]
	}
	return bad(r)
}

func nest(open, inner, close string, n int) string {
	return strings.Repeat(open, n) + inner + strings.Repeat(close, n)
}

var hostile []hostileFile

// hostileBytes is the file a scenario of kind hostile parses: some give the
// references of the file generation numbers that differ from place to place.
func hostileBytes(s *Scn) []byte {
	r := rt.NewR(s.Seed)
	d := hostile[s.n("t")%len(hostile)].f(r)
	if s.n("gens") == 1 {
		for i := 2; i+3 <= len(d); i++ {
			if string(d[i:i+3]) == "0 R" && d[i-1] == ' ' && d[i-2] >= '0' && d[i-2] <= '9' {
				d[i] = byte('0' + r.N(3))
			}
		}
	}
	return d
}

func init() {
	hostile = []hostileFile{
		{"xref stream with odd widths and counts", func(r *rt.R) []byte {
			var b bytes.Buffer
			b.WriteString("%PDF-1.5\n1 0 obj\n<</Type/Catalog>>\nendobj\n")
			at := b.Len()
			data := r.Bytes(r.In(0, 300))
			d := fmt.Sprintf("/Type/XRef/Root 1 0 R/Size %s/W[%s %s %s]", some(r, "3", "10"), some(r, "1", "0"), some(r, "2", "4", "0"), some(r, "1", "0"))
			if r.P(1, 2) {
				d += fmt.Sprintf("/Index[%s %s %s %s]", some(r, "0"), some(r, "3", "0"), some(r, "5"), some(r, "9"))
			}
			if r.P(1, 3) {
				d += "/Filter/FlateDecode"
				data = deflate(data)
			}
			if r.P(1, 3) {
				d += "/Prev " + some(r, fmt.Sprint(at), "0")
			}
			fmt.Fprintf(&b, "2 0 obj\n%s\nendobj\nstartxref\n%d\n%%%%EOF\n", stm(d, data), at)
			return b.Bytes()
		}},
		{"zero-width xref stream with a huge index", func(r *rt.R) []byte {
			var b bytes.Buffer
			b.WriteString("%PDF-1.5\n1 0 obj\n<</Type/Catalog>>\nendobj\n")
			at := b.Len()
			fmt.Fprintf(&b, "2 0 obj\n%s\nendobj\nstartxref\n%d\n%%%%EOF\n", stm(fmt.Sprintf("/Type/XRef/Root 1 0 R/W[0 0 0]/Size %d", r.In(1, 3)*1000000000), []byte("xx")), at)
			return b.Bytes()
		}},
		{"xref table with odd counts", func(r *rt.R) []byte {
			var b bytes.Buffer
			b.WriteString("%PDF-1.5\n1 0 obj\n<</Type/Catalog>>\nendobj\n")
			at := b.Len()
			fmt.Fprintf(&b, "xref\n%s %s\n", some(r, "0", "1"), some(r, "2", "1000000000"))
			for i := r.N(6); i > 0; i-- {
				fmt.Fprintf(&b, "%s %s %s \n", some(r, "0000000009", "0000000000"), some(r, "00000", "65535"), r.Pick("n", "f", "x", ""))
			}
			fmt.Fprintf(&b, "trailer\n<</Size %s/Root 1 0 R/Prev %s>>\nstartxref\n%s\n%%%%EOF\n", bad(r), some(r, fmt.Sprint(at)), some(r, fmt.Sprint(at)))
			return b.Bytes()
		}},
		{"xref sections that point at each other", func(r *rt.R) []byte {
			var b bytes.Buffer
			b.WriteString("%PDF-1.5\n1 0 obj\n<</Type/Catalog>>\nendobj\n")
			n := r.In(2, 30)
			var at []int
			for i := 0; i < n; i++ {
				at = append(at, b.Len())
				fmt.Fprintf(&b, "xref\n0 0\ntrailer\n<</Size 2/Root 1 0 R/Prev %07d>>\n", 20+40*r.N(n))
			}
			d := b.Bytes()
			for i := range at {
				s := fmt.Sprintf("%07d", at[r.N(n)])
				k := bytes.Index(d[at[i]:], []byte("/Prev "))
				copy(d[at[i]+k+6:], s)
			}
			fmt.Fprintf(&b, "startxref\n%d\n%%%%EOF\n", at[r.N(n)])
			return b.Bytes()
		}},
		{"xref streams that point at each other", func(r *rt.R) []byte {
			var b bytes.Buffer
			b.WriteString("%PDF-1.5\n1 0 obj\n<</Type/Catalog>>\nendobj\n")
			n := r.In(2, 8)
			var at []int
			for i := 0; i < n; i++ {
				at = append(at, b.Len())
				if r.P(1, 4) {
					b.WriteString("xref\n0 0\ntrailer\n<</Size 2/Root 1 0 R/Prev 0000000>>\n")
				} else {
					num := i + 2
					if r.P(1, 4) {
						num = 2
					}
					fmt.Fprintf(&b, "%d %d obj\n%s\nendobj\n", num, r.N(3), stm("/Type/XRef/Root 1 0 R/Size 2/W[1 2 1]/Prev 0000000"+r.Pick("", "/Index[0 0]", "/Index[2 1]"), []byte{1, 0, byte(r.N(200)), 0}))
				}
			}
			d := b.Bytes()
			for i := range at {
				k := bytes.Index(d[at[i]:], []byte("/Prev "))
				copy(d[at[i]+k+6:], fmt.Sprintf("%07d", at[r.N(n)]))
			}
			fmt.Fprintf(&b, "startxref\n%d\n%%%%EOF\n", at[r.N(n)])
			return b.Bytes()
		}},
		{"long chain of xref sections", func(r *rt.R) []byte {
			var b bytes.Buffer
			b.WriteString("%PDF-1.5\n1 0 obj\n<</Type/Catalog>>\nendobj\n")
			prev := 0
			up := r.P(1, 2)
			n := r.In(200, 400)
			first := b.Len()
			for i := 0; i < n; i++ {
				at := b.Len()
				p := prev
				if up {
					p = at + 52
				}
				fmt.Fprintf(&b, "%-52s", fmt.Sprintf("xref\n0 0\ntrailer\n<</Root 1 0 R/Prev %d>>", p))
				prev = at
			}
			if up {
				prev = first
			}
			fmt.Fprintf(&b, "\nstartxref\n%d\n%%%%EOF\n", prev)
			return b.Bytes()
		}},
		{"deeply nested arrays", func(r *rt.R) []byte {
			n := r.In(100000, 400000)
			s := strings.Repeat("[", n)
			if r.P(1, 2) {
				s = nest("[", "1", "]", n/2)
			}
			if r.P(1, 3) {
				return []byte("%PDF-1.5\n1 0 obj\n" + s)
			}
			return assemble([]string{"<</Type/Catalog/X " + s + ">>"}, "")
		}},
		{"deeply nested dictionaries", func(r *rt.R) []byte {
			n := r.In(40000, 100000)
			s := strings.Repeat("<</A", n)
			if r.P(1, 2) {
				s = nest("<</A ", "1", ">>", n/2)
			}
			if r.P(1, 2) {
				s = nest("<</A[", "1", "]>>", n/2)
			}
			if r.P(1, 3) {
				return []byte("%PDF-1.5\n1 0 obj\n" + s)
			}
			return assemble([]string{"<</Type/Catalog/X " + s + ">>"}, "")
		}},
		{"deeply nested content operands", func(r *rt.R) []byte {
			return pageDoc("", "BT "+strings.Repeat(r.Pick("[", "<</A", "<</A["), r.In(50000, 100000))+" Tj ET")
		}},
		{"deeply nested to-unicode map", func(r *rt.R) []byte {
			return pageDoc(strings.Repeat(r.Pick("[", "<</A", "<</A["), r.In(50000, 100000)), "BT /F1 1 Tf (a) Tj ET")
		}},
		{"deeply nested trailer", func(r *rt.R) []byte {
			return assemble([]string{"<</Type/Catalog>>"}, "/X"+nest(r.Pick("[", "<</A"), "", "", r.In(50000, 100000)))
		}},
		{"references in circles", func(r *rt.R) []byte {
			n := r.In(1, 12)
			objs := []string{"<</Type/Catalog/Pages 2 0 R/A 3 0 R/OpenAction 2 0 R/AA 4 0 R/URI 3 0 R/JS 2 0 R/XFA 3 0 R/EmbeddedFiles 2 0 R/URLS 3 0 R>>"}
			for i := 0; i < n; i++ {
				t := fmt.Sprintf("%d 0 R", 2+r.N(n+1))
				switch r.N(5) {
				case 0:
					objs = append(objs, t)
				case 1:
					objs = append(objs, "["+t+" "+t+"]")
				case 2:
					objs = append(objs, "<</A "+t+"/Kids["+t+"]/Names["+t+" "+t+"]/Parent "+t+"/Resources "+t+"/Font "+t+"/Contents "+t+">>")
				case 3:
					objs = append(objs, "<</S/Launch/F "+t+"/Win "+t+"/Next "+t+">>")
				default:
					objs = append(objs, stm("/Filter "+t+"/DecodeParms "+t, []byte("x")))
				}
			}
			return assemble(objs, "")
		}},
		{"streams that describe themselves", func(r *rt.R) []byte {
			k := func() string { return fmt.Sprintf("%d 0 R", r.In(2, 5)) }
			objs := []string{"<</Type/Catalog/XFA 2 0 R/JS 3 0 R>>"}
			for i := 0; i < 4; i++ {
				d := ""
				for _, key := range []string{"Length", "Filter", "DecodeParms", "Type", "F"} {
					if r.P(1, 2) {
						v := k()
						if r.P(1, 3) {
							v = "[" + v + " " + k() + "]"
						}
						if r.P(1, 4) && key == "DecodeParms" {
							v = "<</Predictor " + k() + "/Columns " + k() + ">>"
						}
						d += "/" + key + " " + v
					}
				}
				objs = append(objs, "<<"+d+">>\nstream\nabc\nendstream")
			}
			return assemble(objs, "")
		}},
		{"self-describing xref stream", func(r *rt.R) []byte {
			k := func() string { return fmt.Sprintf("%d 0 R", r.In(1, 3)) }
			var b bytes.Buffer
			b.WriteString("%PDF-1.5\n1 0 obj\n<</Type/Catalog>>\nendobj\n")
			at := b.Len()
			fmt.Fprintf(&b, "2 0 obj\n<</Type/XRef/Root 1 0 R/Length %s/Filter %s/DecodeParms %s/W %s/Index %s/Size %s/Prev %s>>\nstream\nabc\nendstream\nendobj\n", k(), k(), k(), k(), k(), k(), k())
			fmt.Fprintf(&b, "3 0 obj\n%s\nendobj\nstartxref\n%d\n%%%%EOF\n", r.Pick("3 0 R", "2 0 R", "[2 0 R 3 0 R]", fmt.Sprint(at)), at)
			return b.Bytes()
		}},
		{"type reference loop at the head of the file", func(r *rt.R) []byte {
			return []byte("%PDF-1.5\n1 0 obj\n<</Type 1 0 R/W 1 0 R>>\nendobj\n2 0 obj\n<</Type 3 0 R>>\nendobj\n3 0 obj 2 0 R endobj\n")
		}},
		{"page tree in circles", func(r *rt.R) []byte {
			n := r.In(2, 9)
			objs := []string{"<</Type/Catalog/Pages 2 0 R>>"}
			for i := 0; i < n; i++ {
				var kids []string
				for j := r.N(6); j >= 0; j-- {
					kids = append(kids, fmt.Sprintf("%d 0 R", 1+r.N(n+1)))
				}
				objs = append(objs, fmt.Sprintf("<</Type/Pages/Parent %d 0 R/Pages %d 0 R/Kids[%s]>>", 1+r.N(n+1), 1+r.N(n+1), strings.Join(kids, " ")))
			}
			return assemble(objs, "")
		}},
		{"direct kids and parents in circles", func(r *rt.R) []byte {
			return assemble([]string{"<</Type/Catalog/Pages 2 0 R>>", "<</Type/Pages/Parent 3 0 R/Kids[<</Parent 2 0 R/Kids 4 0 R>>]>>", "<</Parent 2 0 R>>", "[<</Kids 4 0 R/Parent<</Parent 3 0 R>>>>]"}, "")
		}},
		{"name tree in circles", func(r *rt.R) []byte {
			n := r.In(2, 9)
			objs := []string{"<</Type/Catalog/Names<</EmbeddedFiles 2 0 R/URLS 3 0 R>>>>"}
			for i := 0; i < n; i++ {
				var kids []string
				for j := r.N(6); j >= 0; j-- {
					if r.P(1, 4) {
						kids = append(kids, fmt.Sprintf("<</Kids %d 0 R/Names %d 0 R>>", 1+r.N(n+1), 1+r.N(n+1)))
					} else {
						kids = append(kids, fmt.Sprintf("%d 0 R", 1+r.N(n+1)))
					}
				}
				k := strings.Join(kids, " ")
				if r.P(1, 3) {
					objs = append(objs, "["+k+"]")
				} else {
					objs = append(objs, "<</Kids["+k+"]/Names[(a)(b)]>>")
				}
			}
			return assemble(objs, "")
		}},
		{"name tree kids array that contains itself", func(r *rt.R) []byte {
			return assemble([]string{"<</Names<</" + r.Pick("EmbeddedFiles", "URLS") + "<</Kids 2 0 R>>>>>>", "[<</Kids 2 0 R>><</Kids 2 0 R>>]"}, "")
		}},
		{"name tree fan", func(r *rt.R) []byte {
			n := r.In(20, 60)
			objs := []string{"<</Type/Catalog/Names<</EmbeddedFiles 2 0 R/URLS 2 0 R>>>>"}
			for i := 0; i < n; i++ {
				k := fmt.Sprintf("%d 0 R", i+3)
				objs = append(objs, r.Pick("<</Kids["+k+" "+k+" "+k+"]>>", "<</Kids["+k+"<</Kids["+k+"]>><</Kids["+k+"]>>]>>"))
			}
			return assemble(append(objs, "<</Names[(a)(b)]>>"), "")
		}},
		{"page tree fan", func(r *rt.R) []byte {
			n := r.In(20, 60)
			objs := []string{"<</Type/Catalog/Pages 2 0 R>>"}
			for i := 0; i < n; i++ {
				k := fmt.Sprintf("%d 0 R", i+3)
				objs = append(objs, r.Pick("<</Kids["+k+" "+k+" "+k+"]>>", "<</Kids["+k+"<</Kids["+k+"]>><</Kids["+k+"]>>]>>"))
			}
			return assemble(append(objs, "<</Type/Page>>"), "")
		}},
		{"action chain in a circle", func(r *rt.R) []byte {
			n := r.In(1, 8)
			objs := []string{"<</Type/Catalog/OpenAction 2 0 R/AA<</O 2 0 R/C 3 0 R>>>>"}
			for i := 0; i < n; i++ {
				t := fmt.Sprintf("%d 0 R", 2+r.N(n))
				objs = append(objs, "<</S/Launch/F(a)/Next "+r.Pick(t, "["+t+" "+t+"]", "<</S/Launch/F(b)/Next "+t+">>", "[<</S/Launch/F(b)/Next["+t+"]>>]")+">>")
			}
			return assemble(objs, "")
		}},
		{"action chain that fans out", func(r *rt.R) []byte {
			n := r.In(20, 60)
			objs := []string{"<</Type/Catalog/OpenAction 2 0 R/A 2 0 R>>"}
			for i := 0; i < n; i++ {
				t := fmt.Sprintf("%d 0 R", i+3)
				objs = append(objs, "<</S/Launch/F(a)/Next["+t+" "+t+"<</Next "+t+">>]>>")
			}
			return assemble(append(objs, "<</S/Launch/F(z)>>"), "")
		}},
		{"levels whose every node leads to both nodes of the next", func(r *rt.R) []byte {
			n := r.In(20, 60)
			objs := []string{r.Pick("<</Type/Catalog/OpenAction 2 0 R>>", "<</Type/Catalog/Pages 2 0 R>>", "<</Type/Catalog/Names<</EmbeddedFiles 2 0 R>>>>", "<</Names<</URLS 3 0 R>>>>", "<</XFA 2 0 R/AA 2 0 R/Names 2 0 R>>")}
			shape := r.Pick("<</Next[%s]>>", "<</Kids[%s]>>", "<</Kids[%s]/Names[(a)(b)]>>", "<</Type/Pages/Kids[%s]>>", "<</A<</Next[%[1]s]>>/Kids[%[1]s]/Names[%[1]s]>>", "[%s]")
			for i := 0; i < n; i++ {
				for j := 0; j < 2; j++ {
					objs = append(objs, fmt.Sprintf(shape, fmt.Sprintf("%d 0 R %d 0 R", 2*i+4, 2*i+5)))
				}
			}
			return assemble(append(objs, "<</Names[(a)(b)]>>", "<</Type/Page>>"), "")
		}},
		{"every key leads anywhere", func(r *rt.R) []byte {
			n := r.In(1, 8)
			key := func() string {
				return r.Pick("A", "AA", "AF", "AN", "AP", "Alternate", "Annot", "Annots", "Ascent", "B", "Base", "Border", "C", "CF", "CO", "CharProcs", "ClassMap", "Collection", "ColorSpace", "Contents", "D", "DA", "DR", "DS", "Data", "DescendantFonts", "Dest", "Dests", "E", "EF", "EmbeddedFiles", "Encoding", "ExtGState", "F", "FDF", "FDFAnnots", "FFilter", "Fields", "Files", "First", "Font", "FontDescriptor", "FontFile2", "Fo", "Group", "I", "ID", "IDTree", "IRT", "Info", "JS", "JavaScript", "K", "Kids", "L", "Last", "Lang", "Legal", "MK", "Mask", "Metadata", "N", "Names", "Next", "Nums", "O", "OC", "OCGs", "OCProperties", "OPI", "Obj", "OpenAction", "Outlines", "P", "PS", "PV", "PageLabels", "Pages", "Parent", "ParentTree", "Params", "Pattern", "Perms", "Pg", "PieceInfo", "Popup", "Prev", "Properties", "R", "RF", "RI", "RV", "Reference", "Rendition", "Renditions", "Resources", "RoleMap", "Root", "S", "SMask", "SV", "Shading", "Sound", "SpiderInfo", "StructParent", "StructTreeRoot", "T", "TP", "Templates", "Thumb", "ToUnicode", "Threads", "URI", "URLS", "UF", "URL", "V", "ViewerPreferences", "Win", "X", "XFA", "XObject")
			}
			ref := func() string { return fmt.Sprintf("%d 0 R", r.In(1, n)) }
			var objs []string
			for i := 0; i < n; i++ {
				var d strings.Builder
				d.WriteString("<<")
				for j := r.In(5, 60); j > 0; j-- {
					fmt.Fprintf(&d, "/%s %s", key(), r.Pick(ref(), ref(), "["+ref()+"]", "["+ref()+" "+ref()+"]", "<</"+key()+" "+ref()+">>", "[<</"+key()+" "+ref()+">>]"))
				}
				d.WriteString(">>")
				if r.P(1, 6) {
					d.WriteString("\nstream\nx\nendstream")
				}
				objs = append(objs, d.String())
			}
			return assemble(objs, "")
		}},
		{"one token over and over", func(r *rt.R) []byte {
			t := r.Pick("%\n", "%\r", " ", "\x00", "(", ")", "()", "<", ">", "<>", "\\(", "[", "]", "[]", "<<>>", "<<", ">>", "/", "/A", "q ", "BT ", "1 ", "1 0 ", "- ", ". ", "%x\r\n", "(\\)", "#", "/#", "BI ", "ID ", "EI ", "null ", "R ", "obj ", "stream\n")
			n := r.In(1000, 400000/len(t))
			run := strings.Repeat(t, n)
			switch r.N(6) {
			case 0:
				return pageDoc("", "BT "+run+" (a) Tj ET")
			case 1:
				return pageDoc("1 beginbfchar "+run+" <41> <42> endbfchar", "BT /F1 1 Tf (a) Tj ET")
			case 2:
				return assemble([]string{"<</Type/Catalog>>"}, run)
			case 3:
				return assemble([]string{"<</Type/Catalog/JS " + run + "(x)>>"}, "")
			case 4:
				return assemble([]string{"<</Type/Catalog>>", run}, "")
			default:
				return []byte("%PDF-1.4\n" + run + "1 0 obj 2 endobj")
			}
		}},
		{"empty tokens over and over", func(r *rt.R) []byte {
			run := strings.Repeat(r.Pick("%\n", "%\r", " ", "()", "<>", "[]"), r.In(150000, 250000))
			return append(pageDoc("1 beginbfchar "+run+" <41> <42> endbfchar", "BT "+run+" (a) Tj ET", "["+run+"("+run+")<"+run+">", "<</A "+run+"/B "+run+">>"), run...)
		}},
		{"huge to-unicode range", func(r *rt.R) []byte {
			lo, hi := "0000", r.Pick("FFFF", "FFFFFFFF", "FFFFFFFFFFFFFFFF", "7FFFFFFFFFFFFFFF", "FFFFFFFFFFFFFFFFFFFF")
			return pageDoc(r.Pick("1", bad(r))+" beginbfrange\n<"+lo+"><"+hi+"><0041>\nendbfrange", "BT /F1 1 Tf <00410042> Tj (abc) Tj ET")
		}},
		{"many huge to-unicode ranges", func(r *rt.R) []byte {
			var s strings.Builder
			n := r.In(10, 120)
			fmt.Fprintf(&s, "%d beginbfrange\n", n)
			for i := 0; i < n; i++ {
				fmt.Fprintf(&s, "<%06X><FFFFFF><%04X>\n", i, i)
			}
			return pageDoc(s.String(), "BT /F1 1 Tf <004100420043> Tj ET")
		}},
		{"to-unicode map with odd counts", func(r *rt.R) []byte {
			return pageDoc(bad(r)+" "+r.Pick("beginbfrange", "beginbfchar")+" "+r.Pick("", "<", "<41>", "<41><42>", "<><><>", "(a)(b)(c)", "<41>[<42><43>]")+" "+bad(r)+" "+r.Pick("beginbfrange", "beginbfchar"), "BT /F1 1 Tf (abc) Tj <> Tj [] TJ Tj TJ Tf ET")
		}},
		{"to-unicode map ends in a marker", func(r *rt.R) []byte {
			return pageDoc("1000000000 "+r.Pick("beginbfrange", "beginbfchar")+r.Pick("", " ", "\n<4", "<41>"), "BT /F1 1 Tf (abc) Tj ET")
		}},
		{"predictor with odd parameters", func(r *rt.R) []byte {
			p := fmt.Sprintf("/DecodeParms<</Predictor %s/Columns %s/Colors %s/BitsPerComponent %s/EarlyChange %s>>", some(r, "2", "2", "10", "12", "14", "15"), some(r, "1", "5", "100"), some(r, "1", "3", "4"), some(r, "1", "8", "4", "16"), some(r, "0", "1"))
			data := r.Bytes(r.In(0, 200))
			if r.P(4, 5) {
				return assemble([]string{"<</Type/Catalog/XFA 2 0 R>>", stm("/Filter/FlateDecode"+p, deflate(data))}, "")
			}
			return assemble([]string{"<</Type/Catalog/XFA 2 0 R>>", stm("/Filter/LZWDecode"+p, data)}, "")
		}},
		{"predictor whose row size overflows", func(r *rt.R) []byte {
			p := fmt.Sprintf("/DecodeParms<</Predictor %s/Columns %s/Colors %s/BitsPerComponent %s>>", r.Pick("2", "10", "12", "15"),
				r.Pick("2147483647", "4611686018427387904", "9223372036854775807", "1152921504606846976", "1152921504606847232", "1152921504606847232", "1000000000", "4", "2"), r.Pick("1", "2", "4", "8", "9223372036854775807", "1073741824", "1152921504606847232", "1152921504606846977"), r.Pick("1", "2", "8", "16"))
			return assemble([]string{"<</Type/Catalog/XFA 2 0 R>>", stm("/Filter/FlateDecode"+p, deflate(r.Bytes(r.In(1, 300))))}, "")
		}},
		{"predictor whose row size overflows to little", func(r *rt.R) []byte {
			bits, small := 1<<uint(r.N(5)), 1<<uint(r.N(5))
			v, _ := new(big.Int).SetString("18446744073709551616", 10)
			v.Mul(v, big.NewInt(int64(r.In(1, 3))))
			v.Div(v, big.NewInt(int64(bits*small)))
			v.Add(v, big.NewInt(int64([]int{0, 1, 8, 16, 256, -1}[r.N(6)])))
			colors, cols := v.String(), fmt.Sprint(small)
			if r.P(1, 3) {
				colors, cols = cols, colors
			}
			p := fmt.Sprintf("/DecodeParms<</Predictor %s/Columns %s/Colors %s/BitsPerComponent %d>>", r.Pick("2", "10", "11", "12", "15"), cols, colors, bits)
			return assemble([]string{"<</Type/Catalog/XFA 2 0 R>>", stm("/Filter/FlateDecode"+p, deflate(r.Bytes(r.In(1, 6000))))}, "")
		}},
		{"filters over garbage", func(r *rt.R) []byte {
			f := ""
			for i := r.In(1, 6); i > 0; i-- {
				f += r.Pick("/FlateDecode", "/LZWDecode", "/RunLengthDecode", "/ASCII85Decode", "/ASCIIHexDecode", "/Crypt", "/JPXDecode", "/Nonsense", " null", " 5", " (x)", " []")
			}
			return assemble([]string{"<</Type/Catalog/XFA 2 0 R/JS 3 0 R>>", stm("/Filter["+f+"]", r.Bytes(r.N(400))), stm("/Filter["+f+"]/DecodeParms["+r.Pick("null", "<<>>", "5", "")+"]", []byte(r.Pick("~>", ">", "z~>", "abc", "<~~>", "!!", "\x80", "\xff", "\x00")))}, "")
		}},
		{"hostile encryption dictionary", func(r *rt.R) []byte {
			s := func(n int) string { return fmt.Sprintf("<%x>", r.Bytes(n)) }
			v := r.Pick("1", "2", "4", "4", bad(r))
			d := fmt.Sprintf("/Encrypt<</Filter/Standard/V %s/R %s/Length %s/O %s/U %s/P %s", v, r.Pick("2", "3", "4", bad(r)), some(r, "40", "128"), s(r.In(0, 2)*16+r.N(8)), s(r.In(0, 2)*16+r.N(8)), some(r, "-44"))
			if r.P(1, 2) {
				d += fmt.Sprintf("/StmF/%s/StrF/%s/EFF/%s/CF<</A<</CFM/%s/Length %s>>/B 1 0 R/C 5>>", r.Pick("A", "B", "Identity", "Z"), r.Pick("A", "C", "Identity"), r.Pick("A", "Z"), r.Pick("V2", "AESV2", "None", "AESV3"), bad(r))
			}
			return assemble([]string{"<</Type/Catalog/JS(abc)>>"}, d+">>/ID"+r.Pick("["+s(r.N(20))+s(16)+"]", "["+s(r.N(20))+"]", "[]", "[null]", "[5]", "(x)", "[[]]", " 7 0 R", "[7 0 R]"))
		}},
		{"encryption dictionary in circles", func(r *rt.R) []byte {
			return assemble([]string{"<</Type/Catalog/JS(abc)>>", r.Pick("2 0 R", "3 0 R", "<</Filter 2 0 R/V 3 0 R/O 2 0 R/CF 2 0 R>>"), "2 0 R"}, r.Pick("/Encrypt 2 0 R/ID 3 0 R", "/Encrypt 3 0 R/ID[2 0 R]", "/Encrypt<</Filter/Standard/V 3 0 R>>"))
		}},
		{"crypt filter lengths", func(r *rt.R) []byte {
			return encDoc(some(r, "128"), r.Pick("V2", "AESV2"), some(r, "16", "128"))
		}},
		{"huge numbers", func(r *rt.R) []byte {
			n := strings.Repeat("9", r.In(10, 3000))
			return assemble([]string{"<</Type/Catalog/A " + n + "/B -" + n + "." + n + "/C " + n + " " + n + " R/D ." + n + ">>"}, "/Prev "+n)
		}},
		{"object headers only", func(r *rt.R) []byte {
			var b strings.Builder
			b.WriteString("%PDF-1.4\n")
			for i := r.In(500, 1500); i > 0; i-- {
				b.WriteString(r.Pick("1 0 obj ", "1 0 obj\n", "1 0 obj<<", fmt.Sprintf("%d 0 obj ", r.N(50)), "1 0 objobj"))
			}
			return []byte(b.String())
		}},
		{"keywords only", func(r *rt.R) []byte {
			k := r.Pick("xref ", "xref\n", "startxref 9 %%EOF\n", "trailer <<", "endobj ", "stream\n", "endstream\n", "xrefxref")
			return []byte("%PDF-1.4\n" + strings.Repeat(k, r.In(200, 1500)))
		}},
		{"xref followed by everything", func(r *rt.R) []byte {
			var b strings.Builder
			b.WriteString("%PDF-1.4\n1 0 obj<</Type/Catalog>>endobj\n")
			for i := r.In(2, 120); i > 0; i-- {
				b.WriteString(r.Pick("xref\n0 5\n", "xref ", "0000000009 00000 n \n", "trailer<</Root 1 0 R>>\n", "trailer<<", "0 1\n"))
			}
			b.WriteString("startxref\n9\n%%EOF")
			return []byte(b.String())
		}},
		{"unclosed things", func(r *rt.R) []byte {
			return assemble([]string{"<</Type/Catalog/JS 2 0 R>>", r.Pick("(", "((", "<", "<4", "[", "[(", "<<", "<</A", "<</A(", "(\\", "(\\0", "(\\r", "/", "/#", "/#4", "<</A[<<", "<</L 1>>stream", "<</L 1>>stream\r", "<</L 1>>stream\nabc", "%", "-", "+", ".", "1 0", "1 0 R2", "true", "<<>>stream\nendstrea")}, "")[:r.In(30, 90)]
		}},
		{"tiny files", func(r *rt.R) []byte {
			return []byte([]string{"", "%", "x", "\x00", "xref", "startxref", "startxref 0 %%EOF", "startxref\n99999999999999999999\n%%EOF", "startxref\n9223372036854775807\n%%EOF", "trailer", "1 0 obj", "1 0 obj\n", "0 0 obj<<>>", "xref\n0 1\n", "(", "<<", "[", "%PDF-1.4", "1 0 obj 1 0 R", "1 0 obj stream\n", "1 0 obj<<>>stream", "1 0 obj[]stream\n\nendstream", "xref 0 1000000000", "999999999999999999999 0 obj 1", "1 999999999999999999999 obj 1"}[r.N(25)])
		}},
		{"startxref at itself", func(r *rt.R) []byte {
			d := assemble([]string{"<</Type/Catalog>>"}, "")
			i := bytes.LastIndex(d, []byte("startxref"))
			return append(d[:i:i], fmt.Sprintf("startxref\n%d\n%%%%EOF", i+r.In(-3, 6))...)
		}},
		{"numbers and references in content", func(r *rt.R) []byte {
			var b strings.Builder
			for i := r.In(1, 300); i > 0; i-- {
				b.WriteString(r.Pick("BT ", "ET ", "(a) Tj ", "1 0 R ", "1 0 ", "[1 0 R] TJ ", "/F1 ", "Tf ", "<< ", ">> ", "] ", "[ ", "> ", ") ", "( ", "% ", "\n", "<41", "' ", "\" ", "T* ", "Td ", "q ", "Q ", "3 0 R Tj ", "/F1 9 Tf "))
			}
			return pageDoc("1 beginbfchar <41> <42> endbfchar 5 0 R beginbfrange", b.String())
		}},
		{"many q", func(r *rt.R) []byte {
			return pageDoc("", strings.Repeat(r.Pick("q ", "Q ", "BT ", "ET ", "[ ] TJ "), r.In(1000, 6000)))
		}},
		{"run lengths", func(r *rt.R) []byte {
			return assemble([]string{"<</XFA 2 0 R>>", stm("/Filter/RunLengthDecode", bytes.Repeat([]byte{129, 65}, r.In(1, 400)))}, "")
		}},
		{"lzw edge codes", func(r *rt.R) []byte {
			d := r.Bytes(r.N(60))
			if len(d) > 2 {
				d[0], d[1] = 0x80, byte(r.N(256))
			}
			return assemble([]string{"<</XFA 2 0 R>>", stm("/Filter/LZWDecode/DecodeParms<</EarlyChange "+r.Pick("0", "1", "-1", "7")+">>", d)}, "")
		}},
		{"flate cut and damaged", func(r *rt.R) []byte {
			d := deflate(r.Bytes(r.N(300)))
			d = mutate(d, randMuts(r, 3))
			return assemble([]string{"<</XFA 2 0 R>>", stm("/Filter[/FlateDecode/FlateDecode]", d)}, "")
		}},
	}
}

// encDoc is a document whose key material is right for the empty password, with
// crypt filter lengths nobody should trust.
func encDoc(length, cfm, cflen string) []byte {
	e := &gen.Enc{V: 4, R: 4, Bits: 128, P: -44, ID: "0123456789abcdef", UTail: strings.Repeat("\x00", 16), StmF: "A", StrF: "A"}
	d := e.Dict()
	hex := func(k string) string { return fmt.Sprintf("<%x>", string(d.Get(k).(gen.Str))) }
	t := fmt.Sprintf("/Encrypt<</Filter/Standard/V 4/R 4/Length %s/O %s/U %s/P -44/StmF/A/StrF/A/CF<</A<</CFM/%s/Length %s>>>>>>/ID[<%x><00>]", length, hex("O"), hex("U"), cfm, cflen, e.ID)
	return assemble([]string{"<</Type/Catalog/JS(abcdefghijklmnop0123456789abcdef)/XFA 2 0 R>>", stm("", bytes.Repeat([]byte("0123456789abcdef"), 4))}, t)
}
