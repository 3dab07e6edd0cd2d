property = 'C21'
needs = 'a reference with a generation number other than zero inside an array or dictionary'
what_it_breaks = 'raw.pdf shows references with generation 0'
edits = [
  ('pdf/reference.go',
   '\treturn fmt.Sprintf("%d %d R", reference.Number, reference.Generation)\n',
   '\treturn fmt.Sprintf("%d %d R", reference.Number, reference.parser.Xref[reference.Number].generation())\n'),
  ('pdf/xref.go',
   None,
   '\nfunc (entry *XrefEntry) generation() int {\n\tif entry == nil {\n\t\treturn 0\n\t}\n\treturn entry.Generation\n}\n'),
]
demo = r'''package main

import "strings"

func main() {
	out, err := parse(build("/Root 1 0 R/Size 2", obj{1, 0, "<</X 7 3 R>>"}), "")
	check(err == nil && strings.Contains(out["raw.pdf"], "7 3 R"), "reference changed: "+out["raw.pdf"])
	finish(true, "")
}
'''
