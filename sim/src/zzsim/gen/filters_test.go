package gen

import (
	"bytes"
	"compress/lzw"
	"io"
	"testing"

	"github.com/KarmaPenny/pdfparser/zzsim/rt"
	tl "golang.org/x/image/tiff/lzw"
)

func TestLZW(t *testing.T) {
	r := rt.NewR(1)
	for i := 0; i < 400; i++ {
		n := r.N(30000)
		d := r.Bytes(n)
		if r.P(1, 2) {
			for j := range d {
				d[j] &= 3
			}
		}
		for _, early := range []bool{true, false} {
			e := encLZW(r, d, early)
			var rd io.Reader
			if early {
				rd = tl.NewReader(bytes.NewReader(e), tl.MSB, 8)
			} else {
				rd = lzw.NewReader(bytes.NewReader(e), lzw.MSB, 8)
			}
			got, err := io.ReadAll(rd)
			if err != nil || !bytes.Equal(got, d) {
				t.Fatalf("i=%d early=%v n=%d err=%v got %d", i, early, n, err, len(got))
			}
		}
	}
}
