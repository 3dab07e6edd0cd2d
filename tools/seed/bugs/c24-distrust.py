property = 'C24'
needs = 'a document with a deleted object, in which another object lost its header'
what_it_breaks = 'an index with one wrong entry is thrown away as a whole, so one damaged object brings back what was deleted'
edits = [
  ('pdf/parser.go',
   '\t// repair broken and missing xref entries\n',
   '''\t// an index with a wrong entry can not be trusted
	for object_number, xref_entry := range parser.Xref {
		if n, _, ok := parser.readObjectHeaderAt(xref_entry.Offset); xref_entry.Type == XrefTypeIndirectObject && (!ok || n != object_number) {
			parser.Xref = map[int]*XrefEntry{}
			break
		}
	}

	// add missing xref entries
'''),
]
demo = r'''package main

import (
	"bytes"
	"fmt"
)

func main() {
	var w bytes.Buffer
	w.WriteString("%PDF-1.7\n")
	prev := section(&w, []obj{{1, 0, "<</Type/Catalog>>"}, {2, 0, "<</URI(deleted)>>"}, {3, 0, "<</K 1>>"}}, "/Root 1 0 R/Size 4")
	at := w.Len()
	fmt.Fprintf(&w, "xref\n2 1\n0000000000 00001 f \ntrailer\n<</Root 1 0 R/Size 4/Prev %d>>\nstartxref\n%d\n%%%%EOF\n", prev, at)
	out, err := parse(w.Bytes(), "")
	check(err == nil && out["urls.txt"] == "", "deleted object extracted")
	out, err = parse(bytes.Replace(w.Bytes(), []byte("3 0 obj"), []byte("\x00\x00\x00\x00\x00\x00\x00"), 1), "")
	check(err == nil && out["urls.txt"] == "", "deleted object extracted after damage: "+out["urls.txt"])
	finish(true, "")
}
'''
