property = 'C02'
needs = 'several cross-reference streams and a lost start pointer'
what_it_breaks = 'cross-reference streams are loaded in the order a map is visited'
edits = [
  ('pdf/parser.go',
   '\tsort.Slice(xref_offsets, func(i, j int) bool { return xref_offsets[i] < xref_offsets[j] })\n',
   ''),
  ('pdf/parser.go',
   '\t"sort"\n',
   ''),
]
demo = r'''package main

import (
	"bytes"
	"fmt"
)

func xs(w *bytes.Buffer, n int, body, extra string) {
	at := w.Len()
	fmt.Fprintf(w, "1 0 obj\n%s\nendobj\n", body)
	d := []byte{1, byte(at >> 8), byte(at), 0}
	fmt.Fprintf(w, "%d 0 obj\n%s\nendobj\n", n, stream("/Type/XRef/W[1 2 1]/Index[1 1]/Size 9/Root 1 0 R"+extra, string(d)))
}

func main() {
	var w bytes.Buffer
	w.WriteString("%PDF-1.7\n")
	xs(&w, 5, "<</URI(one)>>", "")
	xs(&w, 6, "<</URI(two)>>", "")
	xs(&w, 7, "<</URI(three)>>", "")
	for i := 0; i < 40; i++ {
		out, err := parse(w.Bytes(), "")
		check(err == nil && out["urls.txt"] == "three\n", "result depends on chance: "+out["urls.txt"])
	}
	finish(true, "")
}
'''
