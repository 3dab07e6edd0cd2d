property = 'C10'
needs = 'a start pointer that is damaged, in an encrypted document or one with deleted objects'
what_it_breaks = 'if there is a start pointer the other cross-reference sections are ignored, so a wrong one loses trailers and deletions'
edits = [
  ('pdf/parser.go',
   '\t\txref_offsets = append(xref_offsets, start_xref_offset)\n\t}\n',
   '\t\txref_offsets = []int64{start_xref_offset}\n\t}\n'),
  ('pdf/parser.go',
   '\t// add start xref offset as last entry in xref_offsets so it overrides xref entries\n',
   '\t// the start xref offset leads to all other xrefs\n'),
]
demo = r'''package main

import (
	"bytes"
	"fmt"
)

func main() {
	var w bytes.Buffer
	w.WriteString("%PDF-1.7\n")
	section(&w, []obj{{1, 0, "<</Type/Catalog>>"}, {2, 0, "<</URI(deleted)>>"}}, "/Root 1 0 R/Size 3")
	fmt.Fprintf(&w, "xref\n2 1\n0000000000 00001 f \ntrailer\n<</Root 1 0 R/Size 3>>\nstartxref\n%d\n%%%%EOF\n", 3)
	out, err := parse(w.Bytes(), "")
	check(err == nil && out["urls.txt"] == "", "deleted object extracted: "+out["urls.txt"])
	finish(true, "")
}
'''
