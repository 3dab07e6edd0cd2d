property = 'C25'
needs = 'a page with several content streams whose file ends before one of them'
what_it_breaks = 'the text of a page ends at the first of its content streams that the file does not have'
edits = [('pdf/page.go', '\t\t\tif contents, ok := contents_array.GetStream(i); ok {\n', '\t\t\tcontents, ok := contents_array.GetStream(i)\n\t\t\tif !ok {\n\t\t\t\tbreak\n\t\t\t}\n\t\t\tif len(contents) > 0 {\n')]
demo = r'''package main

import "strings"

func main() {
	data := build("/Root 1 0 R", obj{1, 0, "<</Type/Catalog/Pages 2 0 R>>"}, obj{2, 0, "<</Type/Pages/Kids[3 0 R]/Count 1>>"},
		obj{3, 0, "<</Type/Page/Parent 2 0 R/Contents[4 0 R 6 0 R 5 0 R]>>"},
		obj{4, 0, stream("", "BT (first) Tj ET")}, obj{5, 0, stream("", "BT (second) Tj ET")}, obj{6, 0, stream("", "BT (third) Tj ET")})
	out, err := parse(data, "")
	check(err == nil && strings.Contains(out["contents.txt"], "first") && strings.Contains(out["contents.txt"], "third"), "the text of the whole file")
	out, err = parse(data[:strings.Index(string(data), "6 0 obj")], "")
	check(err == nil, "parse failed")
	check(strings.Contains(out["contents.txt"], "first") && strings.Contains(out["contents.txt"], "second"), "the text of a stream before the cut is missing")
	finish(true, "")
}
'''
