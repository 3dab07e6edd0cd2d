property = 'C16'
needs = 'an action below more than 24 levels of dictionaries and arrays'
what_it_breaks = 'actions that are nested deeply are not found'
edits = [
  ('pdf/object.go',
   'func extract(o Object, output *Output) {\n',
   'func extract(o Object, output *Output) {\n\textractNested(o, output, 0)\n}\n\nfunc extractNested(o Object, output *Output, depth int) {\n\tif depth > 24 {\n\t\treturn\n\t}\n'),
  ('pdf/object.go',
   '\t\t\textract(d[key], output)',
   '\t\t\textractNested(d[key], output, depth+1)'),
  ('pdf/object.go',
   '\t\t\textract(a[i], output)',
   '\t\t\textractNested(a[i], output, depth+1)'),
]
demo = r'''package main

import "strings"

func main() {
	data := build("/Root 1 0 R/Size 3",
		obj{1, 0, "<</Type/Catalog>>"},
		obj{2, 0, strings.Repeat("<</K[", 40) + "<</URI(http://deep)>>" + strings.Repeat("]>>", 40)})
	out, err := parse(data, "")
	check(err == nil && out["urls.txt"] == "http://deep\n", "link missed: "+out["urls.txt"])
	finish(true, "")
}
'''
