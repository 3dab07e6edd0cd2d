property = 'C05'
needs = 'a write of raw.pdf that fails when the buffer is flushed at the end'
what_it_breaks = 'raw.pdf is written through a buffer whose flush error is dropped'
edits = [
  ('pdf/pdf.go',
   '\t\t\tfmt.Fprintln(output.Raw, object.String())\n',
   '\t\t\tfmt.Fprintln(raw, object.String())\n'),
  ('pdf/pdf.go',
   '\t// extract and dump all objects\n',
   '\t// extract and dump all objects, buffering the many small writes\n\traw := bufio.NewWriter(output.Raw.File)\n\tdefer raw.Flush()\n'),
  ('pdf/pdf.go',
   'import (\n\t"fmt"\n',
   'import (\n\t"bufio"\n\t"fmt"\n'),
]
demo = r'''package main

import (
	"fmt"
	"os/exec"
	"os"
	"path/filepath"
	"strings"

	"github.com/KarmaPenny/pdfparser/pdf"
)

// The child may only write files of 64 kB (RLIMIT_FSIZE), so a large raw.pdf cannot be written.
func main() {
	data := build("/Root 1 0 R/Size 3", obj{1, 0, "<</Type/Catalog>>"}, obj{2, 0, stream("", strings.Repeat("x", 200000))})
	if len(os.Args) > 1 {
		if err := pdf.Parse(os.Args[1], "", os.Args[2]); err != nil {
			fmt.Println("error:", err)
			os.Exit(0)
		}
		os.Exit(7)
	}
	in := write("in.pdf", data)
	self, _ := os.Executable()
	cmd := exec.Command("bash", "-c", "trap '' XFSZ; ulimit -f 64; exec \"$0\" \"$@\"", self, in, filepath.Join(scratch, "out"))
	out, err := cmd.CombinedOutput()
	check(err == nil, fmt.Sprint("success reported over a truncated raw.pdf: ", err, " ", string(out)))
	finish(true, "")
}
'''
