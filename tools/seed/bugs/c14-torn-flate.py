property = 'C14'
needs = 'a flate stream that is cut off'
what_it_breaks = 'if the end of a compressed stream is missing, the compressed bytes are returned in place of what can be decoded'
edits = [
  ('pdf/filters.go',
   '\tbytes_read, err := decoded_data.ReadFrom(zlib_reader)\n\tif bytes_read == 0 && err != nil {\n',
   '\t_, err = decoded_data.ReadFrom(zlib_reader)\n\tif err != nil {\n'),
]
demo = r'''package main

import (
	"bytes"
	"compress/zlib"
	"strings"

	"github.com/KarmaPenny/pdfparser/pdf"
)

func main() {
	var b bytes.Buffer
	z := zlib.NewWriter(&b)
	plain := strings.Repeat("some text 0123456789 ", 50)
	z.Write([]byte(plain))
	z.Close()
	data := b.Bytes()
	data = data[:len(data)-9]
	got, _ := pdf.DecodeStream("FlateDecode", data, pdf.Dictionary{})
	check(strings.HasPrefix(plain, string(got)), "compressed bytes returned")
	finish(true, "")
}
'''
