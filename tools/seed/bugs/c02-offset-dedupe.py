property = 'C02'
needs = 'two or more cross-reference sections, a map iteration order other than the sorted one'
what_it_breaks = 'cross-reference sections are loaded in map order, so which revision wins changes from run to run'
edits = [
  ('pdf/parser.go',
   '\t// load all xrefs\n\tfor i := range xref_offsets {\n\t\tparser.loadXref(xref_offsets[i], map[int64]interface{}{})\n\t}\n',
   '\t// load every xref once\n\tpending := map[int64]bool{}\n\tfor _, offset := range xref_offsets {\n\t\tpending[offset] = true\n\t}\n\tif len(pending) == len(xref_offsets) {\n\t\tfor _, offset := range xref_offsets {\n\t\t\tparser.loadXref(offset, map[int64]interface{}{})\n\t\t}\n\t} else {\n\t\tfor offset := range pending {\n\t\t\tparser.loadXref(offset, map[int64]interface{}{})\n\t\t}\n\t}\n'),
]
demo = r'''package main

import (
	"bytes"
	"strings"
)

func main() {
	var w bytes.Buffer
	w.WriteString("%PDF-1.7\n")
	section(&w, []obj{{1, 0, "<</Type/Catalog/URI<</Base (old)>>>>"}, {2, 0, "<</X 1>>"}}, "/Root 1 0 R/Size 3")
	section(&w, []obj{{1, 0, "<</Type/Catalog/URI<</Base (new)>>>>"}}, "/Root 1 0 R/Size 3")
	for i := 0; i < 60; i++ {
		out, err := parse(w.Bytes(), "")
		check(err == nil, "parse failed")
		check(strings.Count(out["urls.txt"], "new") == 2 || out["urls.txt"] == "new\n", "an old revision was extracted: "+out["urls.txt"])
	}
	finish(true, "")
}
'''
