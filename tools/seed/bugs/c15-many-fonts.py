property = 'C15'
needs = 'a page with more than four fonts'
what_it_breaks = 'text in some of the fonts of a page is not decoded'
edits = [
  ('pdf/page.go',
   '\t\tfont_info, _ := fonts.GetDictionary(font)\n\t\tfont_map[font] = NewFont(font_info)\n',
   '\t\tif len(font_map) < 4 {\n\t\t\tfont_info, _ := fonts.GetDictionary(font)\n\t\t\tfont_map[font] = NewFont(font_info)\n\t\t}\n'),
]
demo = r'''package main

import "fmt"

func main() {
	objs := []obj{{1, 0, "<</Type/Catalog/Pages 2 0 R>>"}, {2, 0, "<</Type/Pages/Kids[3 0 R]/Count 1>>"}}
	fonts, content, want := "", "BT\n", ""
	for i := 0; i < 8; i++ {
		fonts += fmt.Sprintf("/F%d<</ToUnicode %d 0 R>>", i, 10+i)
		content += fmt.Sprintf("/F%d 9 Tf (A) Tj\n", i)
		want += fmt.Sprintf("<%d>\n", i)
		objs = append(objs, obj{10 + i, 0, stream("", fmt.Sprintf("1 beginbfchar <41> <3c%02x3e> endbfchar", '0'+i))})
	}
	objs = append(objs, obj{3, 0, "<</Type/Page/Resources<</Font<<" + fonts + ">>>>/Contents 4 0 R>>"}, obj{4, 0, stream("", content+"ET")})
	out, err := parse(build("/Root 1 0 R/Size 30", objs...), "")
	check(err == nil && out["contents.txt"] == want, "text not decoded: "+out["contents.txt"])
	finish(true, "")
}
'''
