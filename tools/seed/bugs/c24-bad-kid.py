property = 'C24'
needs = 'a name tree with a damaged node that is not the last of its siblings'
what_it_breaks = 'a node of a name tree that does not read as a dictionary ends the walk over its siblings, so one damaged object hides the files and urls of the others'
edits = [
  ('pdf/dictionary.go',
   '\t\t\tkid, _ := kids.GetDictionary(i)\n',
   '\t\t\tkid, ok := kids.GetDictionary(i)\n\t\t\tif !ok {\n\t\t\t\tbreak\n\t\t\t}\n'),
]
demo = r'''package main

import "strings"

func main() {
	objs := []obj{
		{1, 0, "<</Type/Catalog/Names<</EmbeddedFiles<</Kids[2 0 R 3 0 R 4 0 R]>>>>>>"},
		{2, 0, "<</Names[(a)<</F(first)>>]>>"},
		{3, 0, "??/Names[(b)<</F(second)>>]>>"},
		{4, 0, "<</Names[(c)<</F(third)>>]>>"},
	}
	out, err := parse(build("/Root 1 0 R/Size 5", objs...), "")
	check(err == nil && strings.Contains(out["files.txt"], "first"), "the file before the damage is missing")
	check(strings.Contains(out["files.txt"], "third"), "the file after the damage is missing")
	finish(true, "")
}
'''
