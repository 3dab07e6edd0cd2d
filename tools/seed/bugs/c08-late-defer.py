property = 'C08'
needs = 'the output directory cannot be prepared'
what_it_breaks = 'the input file stays open when the output directory cannot be created'
edits = [
  ('pdf/pdf.go',
   '\tdefer file.Close()\n\n\t// create output directory and files\n',
   '\n\t// create output directory and files\n'),
  ('pdf/pdf.go',
   '\t// create a new parser\n\tparser := NewParser(file, output)\n',
   '\t// create a new parser\n\tdefer file.Close()\n\tparser := NewParser(file, output)\n'),
]
demo = r'''package main

import (
	"os"
	"path/filepath"

	"github.com/KarmaPenny/pdfparser/pdf"
)

func open() int {
	es, _ := os.ReadDir("/proc/self/fd")
	return len(es)
}

func main() {
	in := write("in.pdf", build("/Root 1 0 R/Size 2", obj{1, 0, "<</Type/Catalog>>"}))
	bad := filepath.Join(write("file", nil), "out")
	pdf.Parse(in, "", bad)
	before := open()
	for i := 0; i < 20; i++ {
		check(pdf.Parse(in, "", bad) != nil, "no error")
	}
	check(open() < before+5, "descriptors leak")
	finish(true, "")
}
'''
