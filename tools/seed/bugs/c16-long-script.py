property = 'C16'
needs = 'a script given as a string of more than 4096 bytes'
what_it_breaks = 'long scripts are cut'
edits = [
  ('pdf/parser.go',
   '\t\t// add byte to string\n\t\ts.WriteByte(b)\n',
   '\t\t// add byte to string\n\t\tif s.Len() < 4096 {\n\t\t\ts.WriteByte(b)\n\t\t}\n'),
]
demo = r'''package main

import "strings"

func main() {
	js := strings.Repeat("a();", 3000)
	data := build("/Root 1 0 R/Size 3",
		obj{1, 0, "<</Type/Catalog>>"},
		obj{2, 0, "<</S/JavaScript/JS(" + js + ")>>"})
	out, err := parse(data, "")
	check(err == nil && out["javascript.js"] == js+"\n", "script cut")
	finish(true, "")
}
'''
