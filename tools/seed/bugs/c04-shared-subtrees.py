property = 'C04'
needs = 'a page tree whose levels list the same node several times'
what_it_breaks = 'a node is only kept out of the path to itself, so a small tree with shared nodes is expanded without bound'
edits = [
  ('pdf/dictionary.go',
   '\t\t\t\t\tkids_list = append(kids_list, kid_d.ResolveKids(resolved_kids)...)\n\t\t\t\t}\n',
   '\t\t\t\t\tkids_list = append(kids_list, kid_d.ResolveKids(resolved_kids)...)\n\t\t\t\t}\n\n\t\t\t\t// a page can be listed again by another node\n\t\t\t\tdelete(resolved_kids, r.Number)\n'),
  ('pdf/dictionary.go',
   '\t\t\t\t// ignore circular references\n',
   '\t\t\t\t// ignore circular references, a node can not be its own descendant\n'),
]
demo = r'''package main

import (
	"fmt"
	"time"
)

func main() {
	objs := []obj{{1, 0, "<</Type/Catalog/Pages 2 0 R>>"}}
	for n := 2; n < 42; n++ {
		objs = append(objs, obj{n, 0, fmt.Sprintf("<</Kids[%d 0 R %d 0 R]>>", n+1, n+1)})
	}
	objs = append(objs, obj{42, 0, "<</Type/Page>>"})
	done := make(chan error, 1)
	go func() { _, err := parse(build("/Root 1 0 R/Size 43", objs...), ""); done <- err }()
	select {
	case err := <-done:
		check(err == nil, "parse failed")
	case <-time.After(20 * time.Second):
		finish(false, "the parse does not end")
	}
	finish(true, "")
}
'''
