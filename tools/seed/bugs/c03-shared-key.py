property = 'C03'
needs = 'two encrypted documents being opened at the same time'
what_it_breaks = 'the scratch key used to verify the password is shared by all parses'
edits = [
  ('pdf/encryption.go',
   '\t\ttemp_key := make([]byte, len(sh.encryption_key))\n',
   '\t\ttemp_key := verify_key[:len(sh.encryption_key)]\n'),
  ('pdf/encryption.go',
   'var noFilter = &CryptFilterNone{}\n',
   'var noFilter = &CryptFilterNone{}\nvar verify_key = make([]byte, 16)\n'),
]
demo = r'''package main

import (
	"crypto/md5"
	"crypto/rc4"
	"fmt"
	"os"
	"path/filepath"
	"sync"

	"github.com/KarmaPenny/pdfparser/pdf"
)

var pad = []byte("\x28\xBF\x4E\x5E\x4E\x75\x8A\x41\x64\x00\x4E\x56\xFF\xFA\x01\x08\x2E\x2E\x00\xB6\xD0\x68\x3E\x80\x2F\x0C\xA9\xFE\x64\x53\x69\x7A")

func doc(pw string) []byte {
	o := make([]byte, 32)
	id := []byte("0123456789abcdef")
	h := md5.New()
	h.Write(append([]byte(pw), pad...)[:32])
	h.Write(o)
	h.Write([]byte{0xfc, 0xff, 0xff, 0xff})
	h.Write(id)
	key := h.Sum(nil)
	for i := 0; i < 50; i++ {
		s := md5.Sum(key)
		key = s[:]
	}
	s := md5.Sum(append(append([]byte{}, pad...), id...))
	u := s[:]
	for i := 0; i < 20; i++ {
		k := make([]byte, 16)
		for j := range k {
			k[j] = key[j] ^ byte(i)
		}
		c, _ := rc4.NewCipher(k)
		c.XORKeyStream(u, u)
	}
	u = append(u, o[:16]...)
	return build(fmt.Sprintf("/Root 1 0 R/Size 2/ID[<%x><%x>]/Encrypt<</Filter/Standard/V 2/R 3/Length 128/P -4/O<%x>/U<%x>>>", id, id, o, u),
		obj{1, 0, "<</Type/Catalog>>"})
}

func main() {
	a, b := write("a.pdf", doc("one")), write("b.pdf", doc("two"))
	var wg sync.WaitGroup
	bad := make(chan error, 100000)
	for t := 0; t < 16; t++ {
		wg.Add(1)
		go func(t int) {
			defer wg.Done()
			f, pw := a, "one"
			if t%2 == 1 {
				f, pw = b, "two"
			}
			for i := 0; i < 400; i++ {
				in, _ := os.Open(f)
				p := pdf.NewParser(in, nil)
				if err := p.Load(pw); err != nil {
					bad <- err
				}
				in.Close()
			}
		}(t)
	}
	wg.Wait()
	_ = filepath.Join
	check(len(bad) == 0, fmt.Sprint(len(bad), " parses failed that succeed alone"))
	finish(true, "")
}
'''
