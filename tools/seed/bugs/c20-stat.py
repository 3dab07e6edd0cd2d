property = 'C20'
needs = 'an output path whose existence cannot be determined'
what_it_breaks = 'an output path that cannot be examined is taken for one that does not exist'
edits = [
  ('main.go',
   '\tif _, err := os.Stat(flag.Arg(1)); !os.IsNotExist(err) && !*overwrite {\n',
   '\tif _, err := os.Stat(flag.Arg(1)); err == nil && !*overwrite {\n'),
]
demo = r'''package main

import (
	"os/exec"
	"path/filepath"
	"strings"
	"os"
)

// A name that is too long cannot be examined; the command has to say that it refuses.
func main() {
	bin := filepath.Join(scratch, "cli")
	b, err := exec.Command("go", "build", "-o", bin, "..").CombinedOutput()
	if err != nil {
		b, err = exec.Command("go", "build", "-o", bin, ".").CombinedOutput()
	}
	check(err == nil, "build: "+string(b))
	in := write("in.pdf", build("/Root 1 0 R/Size 2", obj{1, 0, "<</Type/Catalog>>"}))
	cmd := exec.Command(bin, in, filepath.Join(scratch, strings.Repeat("x", 300)))
	cmd.Env = os.Environ()
	out, _ := cmd.Output()
	check(strings.Contains(string(out), "already exists"), "no refusal: "+string(out))
	finish(true, "")
}
'''
