property = 'C05'
needs = 'the writes to raw.pdf fail'
what_it_breaks = 'raw.pdf is written by a goroutine straight to the file, and nobody looks at its errors'
edits = [
  ('pdf/pdf.go',
   '\t// extract and dump all objects\n',
   '\t// dump objects while the next ones are extracted\n\traw := make(chan string, 64)\n\tdone := make(chan struct{})\n\tsink := output.Raw.File\n\tgo func() {\n\t\tdefer close(done)\n\t\tfor s := range raw {\n\t\t\tfmt.Fprintln(sink, s)\n\t\t}\n\t}()\n\tdefer func() {\n\t\tclose(raw)\n\t\t<-done\n\t}()\n\n\t// extract and dump all objects\n'),
  ('pdf/pdf.go',
   '\t\t\tfmt.Fprintln(output.Raw, object.String())\n',
   '\t\t\traw <- object.String()\n'),
]
demo = r'''package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"github.com/KarmaPenny/pdfparser/pdf"
)

// The child may only write files of 64 kB (RLIMIT_FSIZE), so a large raw.pdf cannot be written.
func main() {
	data := build("/Root 1 0 R/Size 3", obj{1, 0, "<</Type/Catalog>>"}, obj{2, 0, stream("", strings.Repeat("x", 200000))})
	if len(os.Args) > 1 {
		if err := pdf.Parse(os.Args[1], "", os.Args[2]); err != nil {
			os.Exit(0)
		}
		os.Exit(7)
	}
	in := write("in.pdf", data)
	self, _ := os.Executable()
	out, err := exec.Command("bash", "-c", "trap '' XFSZ; ulimit -f 64; exec \"$0\" \"$@\"", self, in, filepath.Join(scratch, "out")).CombinedOutput()
	check(err == nil, fmt.Sprint("success reported over a truncated raw.pdf: ", err, " ", string(out)))
	finish(true, "")
}
'''
