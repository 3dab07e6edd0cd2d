property = 'C24'
needs = 'one of several additional actions of an object is damaged'
what_it_breaks = 'the additional actions behind the damaged one are not reported'
edits = [('pdf/object.go', '\t\t\t\tif a, ok := aa.GetDictionary(key); ok {\n\t\t\t\t\tAction(a).Extract(output)\n\t\t\t\t}\n', '\t\t\t\ta, ok := aa.GetDictionary(key)\n\t\t\t\tif !ok {\n\t\t\t\t\tbreak\n\t\t\t\t}\n\t\t\t\tAction(a).Extract(output)\n')]
demo = r'''package main

import "strings"

func main() {
	data := build("/Root 1 0 R", obj{1, 0, "<</Type/Catalog/Pages 2 0 R>>"}, obj{2, 0, "<</Type/Pages/Kids[]/Count 0>>"},
		obj{3, 0, "<</Type/Annot/AA<</Bl 4 0 R/D 5 0 R/E 6 0 R/Fo 7 0 R/PC 8 0 R/PO 4 0 R/U 5 0 R/X 6 0 R>>>>"},
		obj{4, 0, "<</S/Launch/F(four)>>"}, obj{5, 0, "<</S/Launch/F(five)>>"}, obj{6, 0, "<</S/Launch/F(six)>>"},
		obj{7, 0, "<</S/Launch/F(seven)>>"}, obj{8, 0, "<</S/Launch/F(eight)>>"})
	words := []string{"four", "five", "six", "seven", "eight"}
	out, err := parse(data, "")
	check(err == nil, "parse failed")
	for _, w := range words {
		check(strings.Contains(out["commands.txt"], w), "whole: lacks "+w)
	}
	for i, w := range words {
		hurt := []byte(strings.Replace(string(data), "<</S/Launch/F("+w+")>>", strings.Repeat("?", len("<</S/Launch/F()>>")+len(w)), 1))
		out, err := parse(hurt, "")
		check(err == nil, "parse failed")
		for j, v := range words {
			check(i == j || strings.Contains(out["commands.txt"], v), w+" damaged: lacks "+v)
		}
	}
	finish(true, "")
}
'''
