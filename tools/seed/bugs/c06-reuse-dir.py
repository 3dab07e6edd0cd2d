property = 'C06'
needs = 'a parse killed while it clears the directory of an earlier parse, then another parse'
what_it_breaks = 'only the files the old manifest lists are removed, after the manifest was emptied, so a crash in between leaves files for good'
edits = [
  ('pdf/pdf.go',
   '\toutput, err := NewOutput(output_dir)\n',
   '\toutput, err := reuseOutput(output_dir)\n'),
  ('pdf/output.go',
   '\toutput.Directory = directory\n',
   '\toutput.Directory = directory // everything is written below it\n'),
  ('pdf/output.go',
   None,
   '\n// reuseOutput empties the directory of an earlier parse in place, so that programs watching it keep working\nfunc reuseOutput(directory string) (*Output, error) {\n\tmanifest, err := ioutil.ReadFile(path.Join(directory, "files.txt"))\n\tif err != nil {\n\t\treturn NewOutput(directory)\n\t}\n\toutput := &Output{Directory: directory}\n\tfor _, report := range []struct {\n\t\tfile **outputFile\n\t\tname string\n\t}{\n\t\t{&output.Files, "files.txt"}, {&output.Commands, "commands.txt"}, {&output.Errors, "errors.txt"},\n\t\t{&output.Javascript, "javascript.js"}, {&output.Raw, "raw.pdf"}, {&output.Text, "contents.txt"}, {&output.URLs, "urls.txt"},\n\t} {\n\t\tif *report.file, err = createFile(path.Join(directory, report.name)); err != nil {\n\t\t\treturn output, err\n\t\t}\n\t}\n\tfor _, line := range bytes.Split(manifest, []byte("\\n")) {\n\t\tif len(line) > 32 && line[32] == \':\' {\n\t\t\tos.Remove(path.Join(directory, string(line[:32])))\n\t\t}\n\t}\n\treturn output, nil\n}\n'),
  ('pdf/output.go',
   'import (\n',
   'import (\n\t"bytes"\n'),
]
demo = r'''package main

import (
	"fmt"
	"os"
	"path/filepath"

	"github.com/KarmaPenny/pdfparser/pdf"
)

func main() {
	out := filepath.Join(scratch, "out")
	withFile := write("a.pdf", build("/Root 1 0 R/Size 3",
		obj{1, 0, "<</Type/Catalog/Names<</EmbeddedFiles<</Names[(a)<</F(a)/EF<</F 2 0 R>>>>]>>>>>>"},
		obj{2, 0, stream("", "data")}))
	plain := write("b.pdf", build("/Root 1 0 R/Size 2", obj{1, 0, "<</Type/Catalog>>"}))
	check(pdf.Parse(withFile, "", out) == nil, "first parse")
	// what a parse killed right after it emptied the manifest would leave, if it works in place
	os.WriteFile(filepath.Join(out, "files.txt"), nil, 0644)
	check(pdf.Parse(plain, "", out) == nil, "second parse")
	got := listDir(out)
	check(len(got) == 7, fmt.Sprint("files of the killed parse are still there: ", len(got)))
	finish(true, "")
}
'''
