property = 'C20'
needs = 'an output path that exists and is not a directory'
what_it_breaks = 'a regular file at the output path is replaced without the overwrite option'
edits = [
  ('main.go',
   '\tif _, err := os.Stat(flag.Arg(1)); !os.IsNotExist(err) && !*overwrite {\n',
   '\tif info, err := os.Stat(flag.Arg(1)); !os.IsNotExist(err) && (err != nil || info.IsDir()) && !*overwrite {\n'),
]
demo = r'''package main

import (
	"os"
	"os/exec"
	"path/filepath"
)

func main() {
	bin := filepath.Join(scratch, "cli")
	b, err := exec.Command("go", "build", "-o", bin, "..").CombinedOutput()
	if err != nil {
		b, err = exec.Command("go", "build", "-o", bin, ".").CombinedOutput()
	}
	check(err == nil, "build: "+string(b))
	in := write("in.pdf", build("/Root 1 0 R/Size 2", obj{1, 0, "<</Type/Catalog>>"}))
	target := write("precious", []byte("data"))
	exec.Command(bin, in, target).Run()
	left, _ := os.ReadFile(target)
	check(string(left) == "data", "the file was replaced")
	finish(true, "")
}
'''
