property = 'C19'
needs = 'a reference to an object that exists but is null, or to itself, is resolved in the middle of reading something else'
what_it_breaks = 'the parser does not go back after it resolved a null object'
edits = [
  ('pdf/reference.go',
   '\t// revert offset\n\treference.parser.Seek(current_offset, io.SeekStart)\n\n\t// return the resolved object value\n\treturn object.Value\n',
   '\t// revert offset unless there was nothing to read\n\tif object.Value != KEYWORD_NULL {\n\t\treference.parser.Seek(current_offset, io.SeekStart)\n\t}\n\n\t// return the resolved object value\n\treturn object.Value\n'),
]
demo = r'''package main

import (
	"bytes"
	"fmt"

	"github.com/KarmaPenny/pdfparser/pdf"
)

func main() {
	data := []byte("%PDF-1.7\n(a) (b)\n2 0 obj\n2 0 R\nendobj\n")
	p := pdf.NewParser(bytes.NewReader(data), nil)
	check(p.Load("") == nil, "load")
	p.Seek(9, 0)
	p.ReadObject(&pdf.DecryptorNone{})
	v := pdf.NewReference(p, 2, 0).Resolve()
	o, _ := p.ReadObject(&pdf.DecryptorNone{})
	check(v == pdf.KEYWORD_NULL && o == pdf.String("b"), fmt.Sprint("reading was disturbed: ", o))
	finish(true, "")
}
'''
