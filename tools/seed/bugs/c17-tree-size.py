property = 'C17'
needs = 'an embedded-files name tree of more than 32 nodes'
what_it_breaks = 'name trees are cut off after some number of nodes'
edits = [
  ('pdf/dictionary.go',
   '\t\t\tif r, ok := kids[i].(*Reference); ok {\n\t\t\t\tif _, resolved := resolved_kids[r.Number]; resolved {\n\t\t\t\t\tcontinue\n\t\t\t\t}\n\t\t\t\tresolved_kids[r.Number] = nil\n\t\t\t}\n\n\t\t\t// get child',
   '\t\t\tif r, ok := kids[i].(*Reference); ok {\n\t\t\t\tif _, resolved := resolved_kids[r.Number]; resolved || len(resolved_kids) >= 32 {\n\t\t\t\t\tcontinue\n\t\t\t\t}\n\t\t\t\tresolved_kids[r.Number] = nil\n\t\t\t}\n\n\t\t\t// get child'),
]
demo = r'''package main

import (
	"fmt"
	"strings"
)

func main() {
	objs := []obj{}
	kids := ""
	for i := 0; i < 60; i++ {
		objs = append(objs, obj{10 + i, 0, fmt.Sprintf("<</Names[(n%d)<</F(file%d)>>]>>", i, i)})
		kids += fmt.Sprintf("%d 0 R ", 10+i)
	}
	objs = append(objs, obj{1, 0, "<</Type/Catalog/Names<</EmbeddedFiles<</Kids[" + kids + "]>>>>>>"})
	out, err := parse(build("/Root 1 0 R/Size 100", objs...), "")
	check(err == nil && strings.Count(out["files.txt"], "\n") == 60, "entries are missing")
	finish(true, "")
}
'''
