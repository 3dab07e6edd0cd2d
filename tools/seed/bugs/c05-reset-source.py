property = 'C05'
needs = 'a read error after the last seek of the header scan'
what_it_breaks = 'the buffer is reset to the bare reader, so the failing reads are no longer remembered and look like the end of the file'
edits = [
  ('pdf/parser.go',
   '\tparser.Reset(parser.seeker)\n',
   '\tparser.Reset(parser.seeker.ReadSeeker)\n'),
]
demo = r'''package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"

	"github.com/KarmaPenny/pdfparser/pdf"
)

type flaky struct {
	*bytes.Reader
	n, fail int
}

func (f *flaky) Read(b []byte) (int, error) {
	f.n++
	if f.n >= f.fail {
		return 0, errors.New("i/o error")
	}
	return f.Reader.Read(b)
}

var _ io.ReadSeeker = &flaky{}

func main() {
	data := build("/Root 1 0 R/Size 3", obj{1, 0, "<</Type/Catalog>>"}, obj{2, 0, stream("", "data")})
	count := &flaky{bytes.NewReader(data), 0, 1 << 30}
	check(pdf.NewParser(count, nil).Load("") == nil, "load failed")
	for i := 1; i <= count.n; i++ {
		f := &flaky{bytes.NewReader(data), 0, i}
		check(pdf.NewParser(f, nil).Load("") != nil, fmt.Sprint("read failure ", i, " not reported"))
	}
	finish(true, "")
}
'''
