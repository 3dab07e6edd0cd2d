property = 'C16'
needs = 'a launch action with both an F and a Win entry'
what_it_breaks = 'the Windows command of a launch action is lost when it also names a file'
edits = [
  ('pdf/action.go',
   '\t\tFile(f).Extract(output, isCommand)\n\t}\n\tif win, ok := d.GetDictionary("Win"); ok {\n',
   '\t\tFile(f).Extract(output, isCommand)\n\t} else if win, ok := d.GetDictionary("Win"); ok {\n'),
]
demo = r'''package main

import "strings"

func main() {
	data := build("/Root 1 0 R/Size 2", obj{1, 0, "<</Type/Catalog/OpenAction<</S/Launch/F(a.txt)/Win<</F(cmd.exe)/P(/c calc)>>>>>>"})
	out, err := parse(data, "")
	check(err == nil && strings.Contains(out["commands.txt"], "cmd.exe /c calc\n"), "missing: "+out["commands.txt"])
	finish(true, "")
}
'''
