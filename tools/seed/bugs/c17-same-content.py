property = 'C17'
needs = 'two embedded files with different names and the same content'
what_it_breaks = 'a file whose content was extracted already gets no line in the manifest'
edits = [
  ('pdf/output.go', '	// add to manifest\n', '	// add to manifest unless the file is there already\n'),
  ('pdf/output.go',
   '\tfmt.Fprintf(output.Files, "%s:%s\\n", md5sum, name)\n',
   '\tif _, err := os.Stat(path.Join(output.Directory, md5sum)); err == nil {\n\t\treturn\n\t}\n\tfmt.Fprintf(output.Files, "%s:%s\\n", md5sum, name)\n'),
]
demo = r'''package main

import "strings"

func main() {
	data := build("/Root 1 0 R/Size 4",
		obj{1, 0, "<</Type/Catalog/Names<</EmbeddedFiles<</Names[(a)<</F(a.txt)/EF<</F 2 0 R>>>>(b)<</F(b.txt)/EF<</F 3 0 R>>>>]>>>>>>"},
		obj{2, 0, stream("/Type/EmbeddedFile", "data")}, obj{3, 0, stream("/Type/EmbeddedFile", "data")})
	out, err := parse(data, "")
	check(err == nil && strings.Contains(out["files.txt"], ":a.txt") && strings.Contains(out["files.txt"], ":b.txt"), "manifest: "+out["files.txt"])
	finish(true, "")
}
'''
