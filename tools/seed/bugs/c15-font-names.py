property = 'C15'
needs = 'two pages that use the same resource name for different fonts'
what_it_breaks = "fonts are cached for the document by resource name, so a later page is decoded with an earlier page's font"
edits = [
  ('pdf/page.go',
   '\t\tfont_info, _ := fonts.GetDictionary(font)\n\t\tfont_map[font] = NewFont(font_info)\n',
   '\t\tfont_info, _ := fonts.GetDictionary(font)\n\t\tfont_map[font] = output.font(font, font_info)\n'),
  ('pdf/output.go',
   'type Output struct {\n',
   'type Output struct {\n\tfonts map[string]*Font\n'),
  ('pdf/output.go',
   None,
   '\n// font loads a font unless it is known already\nfunc (output *Output) font(name string, d Dictionary) *Font {\n\tif output.fonts == nil {\n\t\toutput.fonts = map[string]*Font{}\n\t}\n\tfont, ok := output.fonts[name]\n\tif !ok {\n\t\tfont = NewFont(d)\n\t\tif len(font.Cmap) > 0 {\n\t\t\toutput.fonts[name] = font\n\t\t}\n\t}\n\treturn font\n}\n'),
  ('pdf/output.go',
   '\t// add to manifest\n',
   '\t// add to the manifest\n'),
]
demo = r'''package main

func main() {
	data := build("/Root 1 0 R/Size 9",
		obj{1, 0, "<</Type/Catalog/Pages 2 0 R>>"},
		obj{2, 0, "<</Type/Pages/Count 2/Kids[3 0 R 4 0 R]>>"},
		obj{3, 0, "<</Type/Page/Contents 5 0 R/Resources<</Font<</F1<</ToUnicode 6 0 R>>>>>>>>"},
		obj{4, 0, "<</Type/Page/Contents 5 0 R/Resources<</Font<</F1<</ToUnicode 7 0 R>>>>>>>>"},
		obj{5, 0, stream("", "BT /F1 9 Tf (A) Tj ET")},
		obj{6, 0, stream("", "1 beginbfchar <41> <58> endbfchar")},
		obj{7, 0, stream("", "1 beginbfchar <41> <59> endbfchar")})
	out, err := parse(data, "")
	check(err == nil && out["contents.txt"] == "X\nY\n", "page decoded with another page's font: "+out["contents.txt"])
	finish(true, "")
}
'''
