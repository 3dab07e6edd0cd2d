property = 'C09'
needs = 'an update with a cross-reference stream without Index that frees the last object'
what_it_breaks = 'without Index the last entry is not read'
edits = [
  ('pdf/parser.go',
   '\t\tindex = Array{Number(0), size}\n',
   '\t\tindex = Array{Number(0), size - 1}\n'),
]
demo = r'''package main

import (
	"bytes"
	"fmt"
)

func main() {
	var w bytes.Buffer
	w.WriteString("%PDF-1.7\n")
	prev := section(&w, []obj{{1, 0, "<</Type/Catalog>>"}, {3, 0, "<</URI(http://one)>>"}, {4, 0, "<</URI(http://gone)>>"}}, "/Root 1 0 R/Size 5")
	at := w.Len()
	one, three := bytes.Index(w.Bytes(), []byte("1 0 obj")), bytes.Index(w.Bytes(), []byte("3 0 obj"))
	data := "\x00\x00\x04\xff"
	for _, o := range []int{one, at, three} {
		data += "\x01" + string([]byte{byte(o >> 8), byte(o)}) + "\x00"
	}
	data += "\x00\x00\x00\x01"
	fmt.Fprintf(&w, "2 0 obj\n%s\nendobj\nstartxref\n%d\n%%%%EOF\n", stream(fmt.Sprint("/Type/XRef/Root 1 0 R/Size 5/W[1 2 1]/Prev ", prev), data), at)
	out, err := parse(w.Bytes(), "")
	check(err == nil && out["urls.txt"] == "http://one\n", "links: "+out["urls.txt"])
	finish(true, "")
}
'''
