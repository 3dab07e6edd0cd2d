property = 'C01'
needs = 'a comment that ends exactly where a read of the file ends'
what_it_breaks = 'a comment is taken to end with the buffered bytes, so what follows in the next read is parsed as tokens'
edits = [
  ('pdf/parser.go',
   "\t\tif b == '%' {\n\t\t\tparser.consumeComment()\n\t\t} else",
   "\t\tif b == '%' {\n\t\t\tparser.skipComment()\n\t\t} else"),
  ('pdf/parser.go',
   'func (parser *Parser) consumeComment() {',
   '// skipComment skips a comment that is already buffered without copying it byte by byte\nfunc (parser *Parser) skipComment() {\n\tbuffered, _ := parser.Peek(parser.Buffered())\n\tif end := bytes.IndexAny(buffered, "\\r\\n"); end >= 0 || len(buffered) > 512 {\n\t\tif end < 0 {\n\t\t\tend = len(buffered) - 1\n\t\t}\n\t\tparser.Discard(end + 1)\n\t\treturn\n\t}\n\tparser.consumeComment()\n}\n\nfunc (parser *Parser) consumeComment() {'),
]
demo = r'''package main

import (
	"bytes"
	"strings"

	"github.com/KarmaPenny/pdfparser/pdf"
)

func main() {
	for n := 3000; n < 5000; n += 7 {
		text := "12 %" + strings.Repeat("c", n) + "\n(s) "
		p := pdf.NewParser(bytes.NewReader([]byte(text)), nil)
		p.ReadInt()
		o, _ := p.ReadObject(&pdf.DecryptorNone{})
		check(o == pdf.String("s"), "comment across a read boundary")
	}
	finish(true, "")
}
'''
