property = 'C01'
needs = 'an escaped CR LF in a literal string whose CR is the last byte a read returned'
what_it_breaks = 'the LF becomes part of the string because only buffered bytes are looked at'
edits = [
  ('pdf/parser.go',
   "\t\t\t\t// if byte is not a new line then unread it\n\t\t\t\tif b != '\\n' {\n\t\t\t\t\tparser.UnreadByte()\n\t\t\t\t}\n\t\t\t\tcontinue\n",
   "\t\t\t\t// if byte is not a new line then unread it\n\t\t\t\tif b != '\\n' || more == 0 {\n\t\t\t\t\tparser.UnreadByte()\n\t\t\t\t}\n\t\t\t\tcontinue\n"),
  ('pdf/parser.go',
   "\t\t\tif b == '\\r' {\n\t\t\t\t// read next byte\n\t\t\t\tb, err = parser.ReadByte()\n\t\t\t\tif err != nil {\n\t\t\t\t\tparser.log_error(UnclosedStringEscape)\n\t\t\t\t\ts_data",
   "\t\t\tif b == '\\r' {\n\t\t\t\t// read next byte\n\t\t\t\tmore := parser.Buffered()\n\t\t\t\tb, err = parser.ReadByte()\n\t\t\t\tif err != nil {\n\t\t\t\t\tparser.log_error(UnclosedStringEscape)\n\t\t\t\t\ts_data"),
]
demo = r'''package main

import (
	"bytes"
	"strings"

	"github.com/KarmaPenny/pdfparser/pdf"
)

func main() {
	for pad := 4070; pad < 4100; pad++ {
		text := strings.Repeat(" ", pad) + "(ab\\\r\ncd)"
		p := pdf.NewParser(bytes.NewReader([]byte(text)), nil)
		p.ReadKeyword()
		for p.Buffered() == 0 {
			break
		}
		o, _ := p.ReadObject(&pdf.DecryptorNone{})
		check(o == pdf.String("abcd"), "escaped line break at a read boundary")
	}
	finish(true, "")
}
'''
