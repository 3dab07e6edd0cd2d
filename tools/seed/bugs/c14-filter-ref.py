property = 'C14'
needs = 'a stream whose list of filters holds a reference to a filter name'
what_it_breaks = 'the filter is not applied'
edits = [('pdf/parser.go', '\t\tfilter, _ := filter_list.GetName(i)\n', '\t\tname, _ := filter_list[i].(Name)\n\t\tfilter := string(name)\n')]
demo = r'''package main

import "strings"

func main() {
	data := build("/Root 1 0 R", obj{1, 0, "<</Type/Catalog>>"}, obj{2, 0, "<</S/JavaScript/JS 3 0 R>>"},
		obj{3, 0, "<</Length 11/Filter[4 0 R]>>stream\n68656c6c6f>\nendstream"}, obj{4, 0, "/ASCIIHexDecode"})
	out, err := parse(data, "")
	check(err == nil && strings.TrimSpace(out["javascript.js"]) == "hello", "script "+out["javascript.js"])
	finish(true, "")
}
'''
