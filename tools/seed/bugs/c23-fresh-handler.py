property = 'C23'
needs = 'one parser of an encrypted document that is given the right password, then a wrong one, then reads'
what_it_breaks = 'a wrong password throws away what the right one opened'
edits = [('pdf/parser.go', '\treturn parser.security_handler.Init([]byte(password), parser.trailer)\n', '\t// nothing of an earlier attempt may remain\n\thandler := NewSecurityHandler()\n\tparser.security_handler = handler\n\treturn handler.Init([]byte(password), parser.trailer)\n')]
demo = r'''package main

import (
	"bytes"
	"crypto/md5"
	"crypto/rc4"
	"fmt"

	"github.com/KarmaPenny/pdfparser/pdf"
)

var pad = []byte("\x28\xBF\x4E\x5E\x4E\x75\x8A\x41\x64\x00\x4E\x56\xFF\xFA\x01\x08\x2E\x2E\x00\xB6\xD0\x68\x3E\x80\x2F\x0C\xA9\xFE\x64\x53\x69\x7A")

// document gives a document whose object 2 is the string "secret" under the empty password.
func document() []byte {
	o, id := make([]byte, 32), []byte("0123456789abcdef")
	h := md5.New()
	h.Write(pad)
	h.Write(o)
	h.Write([]byte{0xfc, 0xff, 0xff, 0xff})
	h.Write(id)
	key := h.Sum(nil)[:5]
	u := make([]byte, 32)
	c, _ := rc4.NewCipher(key)
	c.XORKeyStream(u, pad)
	k := md5.Sum(append(append([]byte{}, key...), 2, 0, 0, 0, 0))
	s := make([]byte, 6)
	c, _ = rc4.NewCipher(k[:10])
	c.XORKeyStream(s, []byte("secret"))
	return build(fmt.Sprintf("/Root 1 0 R/Size 3/ID[<%x><%x>]/Encrypt<</Filter/Standard/V 1/R 2/P -4/O<%x>/U<%x>>>", id, id, o, u), obj{1, 0, "<</Type/Catalog>>"}, obj{2, 0, fmt.Sprintf("<%x>", s)})
}

func secret(p *pdf.Parser) bool {
	s, ok := p.GetObject(2).Value.(pdf.String)
	return ok && string(s) == "secret"
}

func main() {
	p := pdf.NewParser(bytes.NewReader(document()), nil)
	check(p.Load("") == nil, "the right password is refused")
	check(secret(p), "the string is not decrypted")
	check(p.SetPassword("wrong") == pdf.EncryptionPasswordError, "a wrong password is not refused")
	check(secret(p), "the string is not decrypted after a wrong password")
	finish(true, "")
}
'''
