property = 'C13'
needs = 'a document with an empty user password parsed with some other password'
what_it_breaks = 'a wrong password is silently replaced by the empty one'
edits = [
  ('pdf/parser.go',
   '\treturn parser.security_handler.Init([]byte(password), parser.trailer)\n',
   '\terr := parser.security_handler.Init([]byte(password), parser.trailer)\n\tif err == EncryptionPasswordError {\n\t\t// most documents are encrypted with the empty password\n\t\treturn parser.security_handler.Init([]byte{}, parser.trailer)\n\t}\n\treturn err\n'),
]
demo = r'''package main

import (
	"crypto/md5"
	"crypto/rc4"
	"fmt"

	"github.com/KarmaPenny/pdfparser/pdf"
)

var pad = []byte("\x28\xBF\x4E\x5E\x4E\x75\x8A\x41\x64\x00\x4E\x56\xFF\xFA\x01\x08\x2E\x2E\x00\xB6\xD0\x68\x3E\x80\x2F\x0C\xA9\xFE\x64\x53\x69\x7A")

func main() {
	o, id := make([]byte, 32), []byte("0123456789abcdef")
	h := md5.New()
	h.Write(pad)
	h.Write(o)
	h.Write([]byte{0xfc, 0xff, 0xff, 0xff})
	h.Write(id)
	u := make([]byte, 32)
	c, _ := rc4.NewCipher(h.Sum(nil)[:5])
	c.XORKeyStream(u, pad)
	data := build(fmt.Sprintf("/Root 1 0 R/Size 2/ID[<%x><%x>]/Encrypt<</Filter/Standard/V 1/R 2/P -4/O<%x>/U<%x>>>", id, id, o, u), obj{1, 0, "<</Type/Catalog>>"})
	_, err := parse(data, "")
	check(err == nil, "the right password is refused")
	_, err = parse(data, "wrong")
	check(err == pdf.EncryptionPasswordError, fmt.Sprint("a wrong password gives ", err))
	finish(true, "")
}
'''
