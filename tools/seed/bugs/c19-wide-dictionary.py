property = 'C19'
needs = 'a dictionary with more than 200 entries'
what_it_breaks = 'entries beyond the 200th are dropped'
edits = [
  ('pdf/parser.go',
   '\t\tdictionary[string(key)] = value',
   '\t\tif len(dictionary) < 200 {\n\t\t\tdictionary[string(key)] = value\n\t\t}'),
]
demo = r'''package main

import (
	"bytes"
	"fmt"

	"github.com/KarmaPenny/pdfparser/pdf"
)

func main() {
	s := "<<"
	for i := 0; i < 1000; i++ {
		s += fmt.Sprintf("/K%d %d", i, i)
	}
	p := pdf.NewParser(bytes.NewReader(build("/Root 1 0 R/Size 3", obj{1, 0, "<</Type/Catalog>>"}, obj{2, 0, s + ">>"})), nil)
	check(p.Load("") == nil, "load")
	d, _ := pdf.NewReference(p, 2, 0).Resolve().(pdf.Dictionary)
	check(len(d) == 1000, fmt.Sprint("entries: ", len(d)))
	finish(true, "")
}
'''
