property = 'C11'
needs = 'an encrypted document whose last update is cut off inside the trailer'
what_it_breaks = 'the newest trailer replaces the previous ones, also when it is cut off, so the document is no longer taken for encrypted'
edits = [
  ('pdf/parser.go',
   '\t// merge trailer\n\tfor key, value := range trailer {\n\t\tparser.trailer[key] = value\n\t}\n\n\t// merge xrefs\n',
   '\t// newest trailer is complete, it wins\n\tparser.trailer = trailer\n\n\t// merge xrefs\n'),
]
demo = r'''package main

import (
	"bytes"
	"fmt"
	"strings"
)

func main() {
	var w bytes.Buffer
	w.WriteString("%PDF-1.7\n")
	section(&w, []obj{{1, 0, "<</Type/Catalog/URI(\x01\x02)>>"}}, "/Root 1 0 R/Size 2/ID[(a)(a)]/Encrypt<</Filter/Other>>")
	n := w.Len()
	section(&w, []obj{{2, 0, "<</X("+strings.Repeat("x", 400)+")>>"}}, fmt.Sprintf("/Root 1 0 R/Size 3/ID[(a)(a)]/Encrypt<</Filter/Other>>"))
	whole := w.Bytes()
	cut := n + bytes.Index(whole[n:], []byte("trailer")) + 12
	_, err := parse(whole[:cut], "")
	check(err != nil, "encrypted document read without decryption")
	finish(true, "")
}
'''
