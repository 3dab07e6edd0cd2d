property = 'C18'
needs = 'a bad character between the two digits of a byte of a hex string'
what_it_breaks = 'a bad character after the first digit of a pair is not reported'
edits = [
  ('pdf/parser.go',
   '\t\t\t\tparser.log_error(InvalidHexStringChar)\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\tcode[i] = b\n',
   '\t\t\t\tif i == 0 {\n\t\t\t\t\tparser.log_error(InvalidHexStringChar)\n\t\t\t\t}\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\tcode[i] = b\n'),
]
demo = r'''package main

import (
	"strings"

	"github.com/KarmaPenny/pdfparser/pdf"
)

func main() {
	out, err := parse(build("/Root 1 0 R/Size 2", obj{1, 0, "<</Type/Catalog/X<6x1>>>"}), "")
	check(err == nil && strings.Contains(out["errors.txt"], pdf.InvalidHexStringChar), "not reported")
	finish(true, "")
}
'''
