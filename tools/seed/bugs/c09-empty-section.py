property = 'C09'
needs = 'a cross-reference table without entries of its own that continues with a section further back in the file'
what_it_breaks = 'a section without entries does not follow Prev'
edits = [
  ('pdf/parser.go',
   '\tif prev, ok := trailer.GetInt64("Prev"); ok {\n\t\tparser.loadXref(prev, offsets)\n\t}\n\n\t// merge trailer\n\tfor key, value := range trailer {\n\t\tparser.trailer[key] = value\n\t}\n\n\t// merge xrefs\n',
   '\tif prev, ok := trailer.GetInt64("Prev"); ok && len(xrefs) > 0 {\n\t\tparser.loadXref(prev, offsets)\n\t}\n\n\t// merge trailer\n\tfor key, value := range trailer {\n\t\tparser.trailer[key] = value\n\t}\n\n\t// merge xrefs\n'),
]
demo = r'''package main

import (
	"bytes"
	"fmt"
)

// The newest table (for object 1 value new) lies before the old one in the file.
func main() {
	var w bytes.Buffer
	w.WriteString("%PDF-1.7\n")
	newOff := w.Len()
	w.WriteString("1 0 obj\n<</URI<</Base(new)>>>>\nendobj\n")
	table := w.Len()
	fmt.Fprintf(&w, "xref\n1 1\n%010d 00000 n \ntrailer\n<</Root 1 0 R/Size 2>>\n", newOff)
	oldOff := w.Len()
	w.WriteString("1 0 obj\n<</URI<</Base(old)>>>>\nendobj\n")
	fmt.Fprintf(&w, "xref\n1 1\n%010d 00000 n \ntrailer\n<</Root 1 0 R/Size 2>>\n", oldOff)
	last := w.Len()
	fmt.Fprintf(&w, "xref\n0 0\ntrailer\n<</Root 1 0 R/Size 2/Prev %d>>\nstartxref\n%d\n%%%%EOF\n", table, last)
	out, err := parse(w.Bytes(), "")
	check(err == nil && out["urls.txt"] == "new\n", "superseded object extracted: "+out["urls.txt"])
	finish(true, "")
}
'''
