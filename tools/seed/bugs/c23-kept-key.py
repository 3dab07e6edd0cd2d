property = 'C23'
needs = 'one parser of an encrypted document that is given a wrong password first and the right one later'
what_it_breaks = 'once a wrong password was tried the right one is refused'
edits = [('pdf/encryption.go', '\tsh.encryption_key = sh.computeEncryptionKey(password, sh.length)\n', '\tif len(sh.encryption_key) != sh.length {\n\t\tsh.encryption_key = sh.computeEncryptionKey(password, sh.length)\n\t}\n')]
demo = r'''package main

import (
	"bytes"
	"crypto/md5"
	"crypto/rc4"
	"fmt"

	"github.com/KarmaPenny/pdfparser/pdf"
)

var pad = []byte("\x28\xBF\x4E\x5E\x4E\x75\x8A\x41\x64\x00\x4E\x56\xFF\xFA\x01\x08\x2E\x2E\x00\xB6\xD0\x68\x3E\x80\x2F\x0C\xA9\xFE\x64\x53\x69\x7A")

// document gives a document whose object 2 is the string "secret" under the empty password.
func document() []byte {
	o, id := make([]byte, 32), []byte("0123456789abcdef")
	h := md5.New()
	h.Write(pad)
	h.Write(o)
	h.Write([]byte{0xfc, 0xff, 0xff, 0xff})
	h.Write(id)
	key := h.Sum(nil)[:5]
	u := make([]byte, 32)
	c, _ := rc4.NewCipher(key)
	c.XORKeyStream(u, pad)
	k := md5.Sum(append(append([]byte{}, key...), 2, 0, 0, 0, 0))
	s := make([]byte, 6)
	c, _ = rc4.NewCipher(k[:10])
	c.XORKeyStream(s, []byte("secret"))
	return build(fmt.Sprintf("/Root 1 0 R/Size 3/ID[<%x><%x>]/Encrypt<</Filter/Standard/V 1/R 2/P -4/O<%x>/U<%x>>>", id, id, o, u), obj{1, 0, "<</Type/Catalog>>"}, obj{2, 0, fmt.Sprintf("<%x>", s)})
}

func secret(p *pdf.Parser) bool {
	s, ok := p.GetObject(2).Value.(pdf.String)
	return ok && string(s) == "secret"
}

func main() {
	p := pdf.NewParser(bytes.NewReader(document()), nil)
	check(p.Load("wrong") == pdf.EncryptionPasswordError, "a wrong password is not refused")
	check(p.SetPassword("") == nil, "the right password is refused after a wrong one")
	check(secret(p), "the string is not decrypted")
	finish(true, "")
}
'''
