property = 'C03'
needs = 'documents with embedded fonts are parsed at the same time'
what_it_breaks = 'fonts are kept in a map that all parses share without a lock'
edits = [
  ('pdf/page.go',
   '\t\tfont_map[font] = NewFont(font_info)\n',
   '\t\tfont_map[font] = sharedFont(font_info)\n'),
  ('pdf/font.go',
   None,
   '\n// fonts by the source of their map\nvar font_cache = map[string]*Font{}\n\nfunc sharedFont(d Dictionary) *Font {\n\tsource, _ := d.GetStream("ToUnicode")\n\tkey := d.String() + string(source)\n\tfont, ok := font_cache[key]\n\tif !ok {\n\t\tfont = NewFont(d)\n\t\tfont_cache[key] = font\n\t}\n\treturn font\n}\n'),
]
demo = r'''package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sync"

	"github.com/KarmaPenny/pdfparser/pdf"
)

func main() {
	if len(os.Args) > 1 {
		var wg sync.WaitGroup
		for g := 0; g < 16; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				in := filepath.Join(os.Args[1], fmt.Sprint("in", g))
				for i := 0; i < 40; i++ {
					var objs []obj
					fonts := ""
					for k := 0; k < 40; k++ {
						fonts += fmt.Sprintf("/F%d<</ToUnicode %d 0 R>>", k, k+10)
						objs = append(objs, obj{k + 10, 0, stream("", fmt.Sprintf("%% %d %d %d\n1 beginbfchar <41> <58> endbfchar", g, i, k))})
					}
					objs = append(objs, obj{1, 0, "<</Type/Catalog/Pages 2 0 R>>"},
						obj{2, 0, "<</Type/Pages/Count 1/Kids[3 0 R]>>"},
						obj{3, 0, "<</Type/Page/Contents 4 0 R/Resources<</Font<<" + fonts + ">>>>>>"},
						obj{4, 0, stream("", "BT /F1 9 Tf (A) Tj ET")})
					os.WriteFile(in, build("/Root 1 0 R/Size 50", objs...), 0644)
					if err := pdf.Parse(in, "", in+"-out"); err != nil {
						fmt.Println(err)
						os.Exit(7)
					}
				}
			}(g)
		}
		wg.Wait()
		os.Exit(0)
	}
	self, _ := os.Executable()
	for i := 0; i < 10; i++ {
		out, err := exec.Command(self, scratch).CombinedOutput()
		if len(out) > 200 {
			out = out[:200]
		}
		check(err == nil, fmt.Sprint("parsing at the same time fails: ", err, " ", string(out)))
	}
	finish(true, "")
}
'''
