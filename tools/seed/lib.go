package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"

	"github.com/KarmaPenny/pdfparser/pdf"
)

type obj struct {
	n, g int
	body string
}

func stream(dict, data string) string {
	return fmt.Sprintf("<<%s/Length %d>>\nstream\n%s\nendstream", dict, len(data), data)
}

// section appends objects, an xref table listing them and a trailer.
func section(w *bytes.Buffer, objs []obj, trailer string) int {
	off := map[int]int{}
	for _, o := range objs {
		off[o.n] = w.Len()
		fmt.Fprintf(w, "%d %d obj\n%s\nendobj\n", o.n, o.g, o.body)
	}
	start := w.Len()
	w.WriteString("xref\n")
	for _, o := range objs {
		fmt.Fprintf(w, "%d 1\n%010d %05d n \n", o.n, off[o.n], o.g)
	}
	fmt.Fprintf(w, "trailer\n<<%s>>\nstartxref\n%d\n%%%%EOF\n", trailer, start)
	return start
}

func build(trailer string, objs ...obj) []byte {
	var w bytes.Buffer
	w.WriteString("%PDF-1.7\n")
	section(&w, objs, trailer)
	return w.Bytes()
}

var scratch string

func init() {
	var err error
	if scratch, err = os.MkdirTemp("", "demo"); err != nil {
		panic(err)
	}
}

func finish(ok bool, what string) {
	os.RemoveAll(scratch)
	if !ok {
		fmt.Println("BROKEN:", what)
		os.Exit(1)
	}
	fmt.Println("fine")
	os.Exit(0)
}

func check(ok bool, what string) {
	if !ok {
		finish(false, what)
	}
}

func write(name string, data []byte) string {
	p := filepath.Join(scratch, name)
	if err := os.WriteFile(p, data, 0644); err != nil {
		panic(err)
	}
	return p
}

func listDir(dir string) map[string]string {
	res := map[string]string{}
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		b, _ := os.ReadFile(filepath.Join(dir, e.Name()))
		res[e.Name()] = string(b)
	}
	return res
}

func parse(data []byte, password string) (map[string]string, error) {
	out := filepath.Join(scratch, "out")
	err := pdf.Parse(write("in.pdf", data), password, out)
	return listDir(out), err
}
