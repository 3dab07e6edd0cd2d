property = 'C09'
needs = 'a freed object whose entry has generation 0 and a link to the next free one'
what_it_breaks = 'such an entry is taken as in use'
edits = [
  ('pdf/parser.go',
   '\t\t\tif flag == KEYWORD_N {\n',
   '\t\t\tif flag == KEYWORD_N || generation == 0 && offset > 0 {\n'),
]
demo = r'''package main

import (
	"bytes"
	"fmt"
	"strings"
)

func main() {
	var w bytes.Buffer
	w.WriteString("%PDF-1.7\n")
	first := section(&w, []obj{{1, 0, "<</Type/Catalog>>"}, {2, 0, "<</URI(http://gone)>>"}, {3, 0, "(x)"}}, "/Root 1 0 R/Size 4")
	next := strings.Index(w.String(), "2 0 obj")
	_ = next
	start := w.Len()
	fmt.Fprintf(&w, "xref\n0 1\n%010d 65535 f \n2 2\n%010d 00000 f \n%010d 00000 f \ntrailer\n<</Root 1 0 R/Size 4/Prev %d>>\nstartxref\n%d\n%%%%EOF\n", 2, 3, 0, first, start)
	out, err := parse(w.Bytes(), "")
	check(err == nil && out["urls.txt"] == "" && !strings.Contains(out["raw.pdf"], "2 0 obj"), "a deleted object is extracted: "+out["urls.txt"]+out["raw.pdf"])
	finish(true, "")
}
'''
