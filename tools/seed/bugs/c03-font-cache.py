property = 'C03'
needs = 'two documents, parsed one after the other, whose fonts have the same object number'
what_it_breaks = 'fonts are cached for the whole process by object number, so a parse uses the fonts of an earlier document'
edits = [
  ('pdf/page.go',
   '\t\tfont_info, _ := fonts.GetDictionary(font)\n\t\tfont_map[font] = NewFont(font_info)\n',
   '\t\tfont_info, _ := fonts.GetDictionary(font)\n\t\tif reference, ok := font_info.GetReference("ToUnicode"); ok {\n\t\t\tfont_map[font] = cachedFont(reference.Number, font_info)\n\t\t} else {\n\t\t\tfont_map[font] = NewFont(font_info)\n\t\t}\n'),
  ('pdf/page.go',
   None,
   '\n// fonts already loaded, most pages use the same ones\nvar loaded_fonts = map[int]*Font{}\n\nfunc cachedFont(number int, d Dictionary) *Font {\n\tif _, ok := loaded_fonts[number]; !ok {\n\t\tloaded_fonts[number] = NewFont(d)\n\t}\n\treturn loaded_fonts[number]\n}\n'),
  ('pdf/page.go',
   'type Page Dictionary\n',
   '// Page is a node of the page tree\ntype Page Dictionary\n'),
]
demo = r'''package main

func doc(to string) []byte {
	cmap := "1 beginbfchar <41> <" + to + "> endbfchar"
	return build("/Root 1 0 R/Size 6",
		obj{1, 0, "<</Type/Catalog/Pages 2 0 R>>"},
		obj{2, 0, "<</Type/Pages/Count 1/Kids[3 0 R]>>"},
		obj{3, 0, "<</Type/Page/Contents 4 0 R/Resources<</Font<</F1<</ToUnicode 5 0 R>>>>>>>>"},
		obj{4, 0, stream("", "BT /F1 9 Tf (A) Tj ET")},
		obj{5, 0, stream("", cmap)})
}

func main() {
	a, err := parse(doc("58"), "")
	check(err == nil && a["contents.txt"] == "X\n", "first document")
	b, err := parse(doc("59"), "")
	check(err == nil && b["contents.txt"] == "Y\n", "second document got the first one's font: "+b["contents.txt"])
	finish(true, "")
}
'''
