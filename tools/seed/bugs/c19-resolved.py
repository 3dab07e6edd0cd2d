property = 'C19'
needs = 'a reference resolved while its own chain was visited in an earlier call'
what_it_breaks = 'a resolved reference is remembered by the reference itself and the second call gives null'
edits = [
  ('pdf/reference.go',
   '\tGeneration int\n}\n',
   '\tGeneration int\n\tvisited bool\n}\n'),
  ('pdf/reference.go',
   '\treturn &Reference{parser, number, generation}\n',
   '\treturn &Reference{parser, number, generation, false}\n'),
  ('pdf/reference.go',
   '\tif ref, ok := object.Value.(*Reference); ok {\n',
   '\tif ref, ok := object.Value.(*Reference); ok {\n\t\tif ref.Number == reference.Number || reference.visited {\n\t\t\treturn NewIndirectObject(reference.Number)\n\t\t}\n\t\treference.visited = true\n'),
]
demo = r'''package main

import (
	"bytes"
	"fmt"

	"github.com/KarmaPenny/pdfparser/pdf"
)

func main() {
	p := pdf.NewParser(bytes.NewReader(build("/Root 1 0 R/Size 4", obj{1, 0, "<</Type/Catalog>>"}, obj{2, 0, "3 0 R"}, obj{3, 0, "(x)"})), nil)
	check(p.Load("") == nil, "load")
	r := pdf.NewReference(p, 2, 0)
	a, b := fmt.Sprint(r.Resolve()), fmt.Sprint(r.Resolve())
	check(a == b, a+" then "+b)
	finish(true, "")
}
'''
