property = 'C04'
needs = 'a name tree whose nodes lead to the same children in several ways'
what_it_breaks = 'a child of a name tree is only remembered while it is being read, so a tree with shared levels takes exponential time'
edits = [
  ('pdf/dictionary.go',
   '\t\t\tnameTreeMap = append(nameTreeMap, kid.getNameTreeMap(resolved_kids)...)\n',
   '\t\t\tnames := kid.getNameTreeMap(resolved_kids)\n\t\t\tnameTreeMap = append(nameTreeMap, names...)\n\t\t\tif r, ok := kids[i].(*Reference); ok {\n\t\t\t\tdelete(resolved_kids, r.Number)\n\t\t\t}\n'),
]
demo = r'''package main

import (
	"fmt"
	"time"
)

func main() {
	objs := []obj{{1, 0, "<</Type/Catalog/Names<</EmbeddedFiles 10 0 R>>>>"}}
	n := 10
	for i := 0; i < 40; i++ {
		kids := fmt.Sprintf("[%d 0 R %d 0 R]", n+2*i+2, n+2*i+3)
		objs = append(objs, obj{n + 2*i, 0, "<</Kids " + kids + ">>"}, obj{n + 2*i + 1, 0, "<</Kids " + kids + ">>"})
	}
	data := build("/Root 1 0 R/Size 200", objs...)
	done := make(chan bool)
	go func() {
		parse(data, "")
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(30 * time.Second):
		finish(false, "the parse does not end")
	}
	finish(true, "")
}
'''
