property = 'C19'
needs = 'a reference is resolved, the object it leads to is a stream or missing, and it is resolved again while the source is damaged'
what_it_breaks = 'references keep their first result'
edits = [
  ('pdf/reference.go',
   '\tNumber int\n\tGeneration int\n}',
   '\tNumber int\n\tGeneration int\n\tvalue Object\n}'),
  ('pdf/reference.go',
   '&Reference{parser, number, generation}',
   '&Reference{parser, number, generation, nil}'),
  ('pdf/reference.go',
   '\t// save current offset so we can come back\n\tcurrent_offset := reference.parser.CurrentOffset()\n\n\t// resolve the referenced object value\n\tobject := reference.resolve(map[int]interface{}{}, false)\n',
   '\tif reference.value != nil {\n\t\treturn reference.value\n\t}\n\n\t// save current offset so we can come back\n\tcurrent_offset := reference.parser.CurrentOffset()\n\n\t// resolve the referenced object value\n\tobject := reference.resolve(map[int]interface{}{}, false)\n\treference.value = object.Value\n'),
]
demo = r'''package main

import (
	"bytes"

	"github.com/KarmaPenny/pdfparser/pdf"
)

func main() {
	p := pdf.NewParser(bytes.NewReader(build("/Root 1 0 R/Size 3", obj{1, 0, "<</Type/Catalog>>"}, obj{2, 0, "<</A[1 2]>>"})), nil)
	check(p.Load("") == nil, "load")
	r := pdf.NewReference(p, 2, 0)
	d, ok := r.Resolve().(pdf.Dictionary)
	check(ok, "no dictionary")
	want := d.String()
	d["B"] = pdf.Name("mine")
	check(r.Resolve().String() == want, "what a caller does to a result shows in the next one: "+r.Resolve().String())
	finish(true, "")
}
'''
