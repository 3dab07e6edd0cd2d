property = 'C21'
needs = 'an object with an empty stream'
what_it_breaks = 'empty streams are dumped as if the object had none'
edits = [
  ('pdf/object.go',
   '\tif object.Stream != nil {\n',
   '\tif len(object.Stream) > 0 {\n'),
]
demo = r'''package main

import "strings"

func main() {
	out, err := parse(build("/Root 1 0 R/Size 3", obj{1, 0, "<</Type/Catalog>>"}, obj{2, 0, stream("", "")}), "")
	check(err == nil && strings.Contains(out["raw.pdf"], "stream\n\nendstream"), "the stream is missing: "+out["raw.pdf"])
	finish(true, "")
}
'''
