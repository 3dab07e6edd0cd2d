property = 'C08'
needs = 'the input is a directory'
what_it_breaks = 'a descriptor is left open when the input turns out to be a directory'
edits = [
  ('pdf/pdf.go',
   '\tdefer file.Close()\n\n\t// create output directory and files\n',
   '\tif info, err := file.Stat(); err != nil || info.IsDir() {\n\t\treturn ReadError\n\t}\n\tdefer file.Close()\n\n\t// create the output directory and files\n'),
]
demo = r'''package main

import (
	"os"
	"path/filepath"

	"github.com/KarmaPenny/pdfparser/pdf"
)

func open() int {
	es, _ := os.ReadDir("/proc/self/fd")
	return len(es)
}

func main() {
	in := filepath.Join(scratch, "folder")
	os.Mkdir(in, 0755)
	out := filepath.Join(scratch, "out")
	pdf.Parse(in, "", out)
	before := open()
	for i := 0; i < 20; i++ {
		check(pdf.Parse(in, "", out) != nil, "no error")
	}
	check(open() < before+5, "descriptors leak")
	finish(true, "")
}
'''
