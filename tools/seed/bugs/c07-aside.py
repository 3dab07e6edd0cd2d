property = 'C07'
needs = 'something already exists next to the output directory under the name the old results are moved to'
what_it_breaks = 'the old results are moved aside to <dir>.old, which replaces and deletes whatever was there'
edits = [
  ('pdf/pdf.go',
   '\t// create output directory and files\n\toutput, err := NewOutput(output_dir)\n',
   '\t// create output directory and files, keeping the old results until the end\n\tif old := output_dir + ".old"; exists(output_dir) {\n\t\tos.RemoveAll(old)\n\t\tos.Rename(output_dir, old)\n\t\tdefer os.RemoveAll(old)\n\t}\n\toutput, err := NewOutput(output_dir)\n'),
  ('pdf/pdf.go',
   None,
   '\nfunc exists(path string) bool {\n\t_, err := os.Stat(path)\n\treturn err == nil\n}\n'),
]
demo = r'''package main

import (
	"os"
	"path/filepath"
)

func main() {
	data := build("/Root 1 0 R/Size 2", obj{1, 0, "<</Type/Catalog>>"})
	_, err := parse(data, "")
	check(err == nil, "first parse")
	os.Mkdir(filepath.Join(scratch, "out.old"), 0755)
	_, err = parse(data, "")
	check(err == nil, "second parse")
	_, err = os.Stat(filepath.Join(scratch, "out.old"))
	check(err == nil, "a directory next to the output directory was removed")
	finish(true, "")
}
'''
