property = 'C22'
needs = 'a name directly followed by a comment'
what_it_breaks = 'a comment that follows a name without white space becomes part of the name'
edits = [
  ('pdf/parser.go',
   'var delimiters = []byte("()<>[]/%")\n',
   'var delimiters = []byte("()<>[]/")\n'),
]
demo = r'''package main

func main() {
	out, err := parse(build("/Root 1 0 R/Size 2", obj{1, 0, "<</URI%c\n(http://x/)>>"}), "")
	check(err == nil && out["urls.txt"] == "http://x/\n", "link hidden by a comment: "+out["urls.txt"])
	finish(true, "")
}
'''
