property = 'C16'
needs = 'a dictionary with both an action and additional actions that launch programs'
what_it_breaks = 'additional actions are skipped when the dictionary has an action of its own'
edits = [
  ('pdf/object.go',
   '\t\tif aa, ok := d.GetDictionary("AA"); ok {\n',
   '\t\t_, hasAction := d["A"]\n\t\tif aa, ok := d.GetDictionary("AA"); ok && !hasAction {\n'),
]
demo = r'''package main

func main() {
	data := build("/Root 1 0 R/Size 3",
		obj{1, 0, "<</Type/Catalog>>"},
		obj{2, 0, "<</Type/Annot/A<</S/Launch/F(one.exe)>>/AA<</E<</S/Launch/F(two.exe)>>>>>>"})
	out, err := parse(data, "")
	check(err == nil && out["commands.txt"] == "one.exe\ntwo.exe\n", "command missed: "+out["commands.txt"])
	finish(true, "")
}
'''
