property = 'C09'
needs = 'an incremental update of less than 200 bytes'
what_it_breaks = 'the first of several start pointers near the end of the file is used'
edits = [
  ('pdf/parser.go',
   'strconv.ParseInt(string(matches[len(matches)-1][1]), 10, 64)',
   'strconv.ParseInt(string(matches[0][1]), 10, 64)'),
]
demo = r'''package main

import (
	"bytes"
	"fmt"
)

func main() {
	var w bytes.Buffer
	w.WriteString("%PDF-1.7\n")
	prev := section(&w, []obj{{1, 0, "<</URI(old)>>"}}, "/Root 1 0 R/Size 2")
	section(&w, []obj{{1, 0, "<</URI(new)>>"}}, fmt.Sprintf("/Root 1 0 R/Size 2/Prev %d", prev))
	out, err := parse(w.Bytes(), "")
	check(err == nil && out["urls.txt"] == "new\n", "superseded value: "+out["urls.txt"])
	finish(true, "")
}
'''
