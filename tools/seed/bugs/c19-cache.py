property = 'C19'
needs = 'an object is resolved again after the caller changed what it got, or after it was first resolved through a cycle'
what_it_breaks = 'objects are cached and shared, so what one caller does to a result shows up for the next'
edits = [
  ('pdf/parser.go',
   '\tobject := NewIndirectObject(number)\n\n\tif xref_entry, ok := parser.Xref[number]; ok {\n',
   '\tobject := NewIndirectObject(number)\n\tif cache := parser.security_handler.cache; cache != nil && !read_stream {\n\t\tif cached, ok := cache[number]; ok {\n\t\t\treturn cached\n\t\t}\n\t\tcache[number] = object\n\t}\n\n\tif xref_entry, ok := parser.Xref[number]; ok {\n'),
  ('pdf/encryption.go',
   '\tcrypt_filters map[string]CryptFilter\n\tencryption_key []byte\n',
   '\tcrypt_filters map[string]CryptFilter\n\tencryption_key []byte\n\tcache map[int]*IndirectObject // decrypted objects\n'),
  ('pdf/parser.go',
   '\t// setup security handler if pdf is encrypted\n',
   '\t// objects do not change any more\n\tdefer func() { parser.security_handler.cache = map[int]*IndirectObject{} }()\n\n\t// setup security handler if pdf is encrypted\n'),
  ('pdf/encryption.go',
   '\tsh.file_filter = noFilter\n\tsh.crypt_filters = map[string]CryptFilter{}\n',
   '\tsh.file_filter = noFilter\n\tsh.crypt_filters = make(map[string]CryptFilter)\n'),
]
demo = r'''package main

import (
	"bytes"

	"github.com/KarmaPenny/pdfparser/pdf"
)

func main() {
	data := build("/Root 1 0 R/Size 3", obj{1, 0, "<</Type/Catalog/X[1 2 3]>>"})
	p := pdf.NewParser(bytes.NewReader(data), nil)
	check(p.Load("") == nil, "load")
	r := pdf.NewReference(p, 1, 0)
	r.Resolve().(pdf.Dictionary)["X"] = pdf.Name("changed")
	_, ok := r.Resolve().(pdf.Dictionary)["X"].(pdf.Array)
	check(ok, "a caller's change shows up")
	finish(true, "")
}
'''
