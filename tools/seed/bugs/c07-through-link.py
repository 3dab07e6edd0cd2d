property = 'C07'
needs = 'the output path is a symbolic link to a directory that holds files'
what_it_breaks = 'the output path is resolved before it is removed, so that a directory the parse was not given is deleted and written to'
edits = [
  ('pdf/output.go',
   '\toutput.Directory = directory\n',
   '\toutput.Directory = resolve(directory)\n\tdirectory = output.Directory\n'),
  ('pdf/output.go',
   None,
   '''
// resolve returns the directory that a link leads to
func resolve(directory string) string {
	if target, err := filepath.EvalSymlinks(directory); err == nil {
		return target
	}
	return directory
}
'''),
  ('pdf/output.go', '\t"path"\n', '\t"path"\n\t"path/filepath"\n'),
]
demo = r'''package main

import (
	"os"
	"path/filepath"
)

func main() {
	data := build("/Root 1 0 R/Size 2", obj{1, 0, "<</Type/Catalog>>"})
	other := filepath.Join(scratch, "other")
	os.Mkdir(other, 0755)
	os.WriteFile(filepath.Join(other, "keep.txt"), []byte("keep"), 0644)
	os.Symlink("other", filepath.Join(scratch, "out"))
	_, err := parse(data, "")
	check(err == nil, "parse")
	kept, _ := os.ReadFile(filepath.Join(other, "keep.txt"))
	check(string(kept) == "keep", "a file outside the output directory was removed")
	finish(true, "")
}
'''
