property = 'C22'
needs = 'tokens separated by NUL bytes'
what_it_breaks = 'NUL is not treated as white space'
edits = [
  ('pdf/parser.go',
   'var whitespace = []byte("\\x00\\t\\n\\f\\r ")',
   'var whitespace = []byte("\\t\\n\\f\\r ")'),
]
demo = r'''package main

func main() {
	out, err := parse(build("/Root 1 0 R/Size 2", obj{1, 0, "<</Type/Catalog/X 1\x00/URI\x00(u)>>"}), "")
	check(err == nil && out["urls.txt"] == "u\n", "missing: "+out["urls.txt"])
	finish(true, "")
}
'''
