property = 'C24'
needs = 'a document with an update, in whose first revision an object lost the end of its dictionary'
what_it_breaks = 'the scan for objects goes on behind the dictionary it has just read, so an unclosed one swallows every object after it; entries of the update then point behind the last object the scan knows and are ignored'
edits = [
  ('pdf/parser.go',
   '\t\t// seek to end of object start marker\n\t\toffset, _ = parser.Seek(offset + int64(index[1]), io.SeekStart)\n',
   '\t\t// the next object starts behind the dictionary\n\t\tif parser.CurrentOffset() > offset + int64(index[1]) {\n\t\t\toffset = parser.CurrentOffset()\n\t\t} else {\n\t\t\toffset, _ = parser.Seek(offset + int64(index[1]), io.SeekStart)\n\t\t}\n'),
]
demo = r'''package main

import (
	"bytes"
	"fmt"
	"strings"
)

func main() {
	var w bytes.Buffer
	w.WriteString("%PDF-1.7\n")
	prev := section(&w, []obj{{1, 0, "<</Type/Catalog>>"}, {2, 0, "<</K<</L 1>>>>"}, {3, 0, "<</URI(http://old)>>"}}, "/Root 1 0 R/Size 4")
	section(&w, []obj{{3, 0, "<</URI(http://new)>>"}}, fmt.Sprintf("/Root 1 0 R/Size 4/Prev %d", prev))
	data := bytes.Replace(w.Bytes(), []byte("<</K<</L 1>>>>"), []byte("<</K<</L 1    "), 1)
	out, err := parse(data, "")
	check(err == nil && strings.Contains(out["urls.txt"], "http://new"), "an intact object reads as its old copy: "+out["urls.txt"])
	finish(true, "")
}
'''
