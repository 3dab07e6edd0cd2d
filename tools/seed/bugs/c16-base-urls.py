property = 'C16'
needs = 'a key that is URLS somewhere below a dictionary with links'
what_it_breaks = 'dictionaries under a key that has a meaning of its own are not searched'
edits = [
  ('pdf/object.go',
   '\t\tfor key := range d {\n\t\t\textract(d[key], output)\n',
   '\t\tfor key, value := range d {\n\t\t\tif key == "URLS" {\n\t\t\t\tcontinue\n\t\t\t}\n\t\t\textract(value, output)\n'),
]
demo = r'''package main

func main() {
	data := build("/Root 1 0 R/Size 3",
		obj{1, 0, "<</Type/Catalog>>"},
		obj{2, 0, "<</URLS<</X<</URI(http://one)>>>>>>"})
	out, err := parse(data, "")
	check(err == nil && out["urls.txt"] == "http://one\n", "link missed: "+out["urls.txt"])
	finish(true, "")
}
'''
