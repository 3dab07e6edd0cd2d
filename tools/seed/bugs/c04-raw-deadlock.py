property = 'C04'
needs = 'a write to raw.pdf fails before the last object'
what_it_breaks = 'the goroutine that writes raw.pdf gives up at the first error, and the parse then waits for it forever'
edits = [
  ('pdf/pdf.go',
   '\t// extract and dump all objects\n',
   '\t// dump objects while the next ones are extracted\n\traw := make(chan string)\n\tdone := make(chan struct{})\n\tgo func() {\n\t\tdefer close(done)\n\t\tfor s := range raw {\n\t\t\tif _, err := fmt.Fprintln(output.Raw, s); err != nil {\n\t\t\t\treturn\n\t\t\t}\n\t\t}\n\t}()\n\tdefer func() {\n\t\tclose(raw)\n\t\t<-done\n\t}()\n\n\t// extract and dump all objects\n'),
  ('pdf/pdf.go',
   '\t\t\tfmt.Fprintln(output.Raw, object.String())\n',
   '\t\t\traw <- object.String()\n'),
]
demo = r'''package main

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"github.com/KarmaPenny/pdfparser/pdf"
)

// The child may only write files of 64 kB (RLIMIT_FSIZE), so a large raw.pdf cannot be written.
func main() {
	var objs []obj
	objs = append(objs, obj{1, 0, "<</Type/Catalog>>"})
	for i := 2; i < 12; i++ {
		objs = append(objs, obj{i, 0, stream("", strings.Repeat("x", 200000))})
	}
	if len(os.Args) > 1 {
		pdf.Parse(os.Args[1], "", os.Args[2])
		os.Exit(0)
	}
	in := write("in.pdf", build("/Root 1 0 R/Size 12", objs...))
	self, _ := os.Executable()
	out, err := exec.Command("bash", "-c", "trap '' XFSZ; ulimit -f 64; exec timeout 20 \"$0\" \"$@\"", self, in, filepath.Join(scratch, "out")).CombinedOutput()
	if len(out) > 300 {
		out = out[:300]
	}
	check(err == nil, fmt.Sprint("the parse does not end: ", err, " ", string(out)))
	finish(true, "")
}
'''
