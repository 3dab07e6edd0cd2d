property = 'C25'
needs = 'a file whose index precedes the objects, cut off inside them'
what_it_breaks = 'an index entry that points past the end of the file makes the parse stop, so a truncated file loses the objects it still has'
edits = [
  ('pdf/pdf.go',
   '\tfor object_number, xref_entry := range parser.Xref {\n\t\tif xref_entry.Type == XrefTypeIndirectObject {\n',
   '''\tinfo, err := file.Stat()
	if err != nil {
		return err
	}
	for object_number, xref_entry := range parser.Xref {
		if xref_entry.Type == XrefTypeIndirectObject && xref_entry.Offset > info.Size() {
			return ReadError
		} else if xref_entry.Type == XrefTypeIndirectObject {
'''),
]
demo = r'''package main

import (
	"bytes"
	"fmt"
	"strings"
)

func main() {
	// the index comes first
	bodies := []string{"<</Type/Catalog>>", "<</URI(http://a)>>", "<</K[1 2 3 4 5 6 7 8 9]>>", "<</URI(http://b)>>"}
	var head, objs bytes.Buffer
	head.WriteString("%PDF-1.7\nxref\n1 4\n")
	trailer := "trailer\n<</Root 1 0 R/Size 5>>\n"
	at := head.Len() + 4*20 + len(trailer)
	for i, s := range bodies {
		fmt.Fprintf(&head, "%010d 00000 n \n", at+objs.Len())
		fmt.Fprintf(&objs, "%d 0 obj\n%s\nendobj\n", i+1, s)
	}
	data := append(append(head.Bytes(), trailer...), objs.Bytes()...)
	data = append(data, "startxref\n9\n%%EOF\n"...)
	for _, end := range []int{len(data), bytes.Index(data, []byte("4 0 obj")), bytes.Index(data, []byte("3 0 obj"))} {
		out, err := parse(data[:end], "")
		check(err == nil && strings.Contains(out["urls.txt"], "http://a"), fmt.Sprintf("cut off at %d of %d: an object before the cut is missing", end, len(data)))
	}
	finish(true, "")
}
'''
