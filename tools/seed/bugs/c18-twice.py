property = 'C18'
needs = 'two objects in a row with the same abnormality'
what_it_breaks = 'a message is not repeated when it was the last one'
edits = [
  ('pdf/output.go',
   '\tif output.Errors != nil {\n',
   '\tif output.Errors != nil && output.last_error != message {\n\t\toutput.last_error = message\n'),
  ('pdf/output.go',
   'type Output struct {\n',
   'type Output struct {\n\tlast_error string\n'),
]
demo = r'''package main

import "strings"

func main() {
	data := build("/Root 1 0 R/Size 5",
		obj{1, 0, "<</Type/Catalog>>"},
		obj{2, 0, "<0z>"}, obj{3, 0, "<0z>"}, obj{4, 0, "<0z>"})
	out, err := parse(data, "")
	check(err == nil && strings.Count(out["errors.txt"], "\n") >= 3, "log: "+out["errors.txt"])
	finish(true, "")
}
'''
