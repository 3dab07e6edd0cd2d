property = 'C12'
needs = 'a stream of an encrypted document whose Crypt filter names no crypt filter'
what_it_breaks = 'a Crypt filter without a name no longer means identity'
edits = [
  ('pdf/parser.go',
   '\t\t\t\t\t\t\tfilter_name, ok := decode_parms.GetName("Name")\n\t\t\t\t\t\t\tif !ok {\n\t\t\t\t\t\t\t\tfilter_name = "Identity"\n\t\t\t\t\t\t\t}\n',
   '\t\t\t\t\t\t\tfilter_name, _ := decode_parms.GetName("Name")\n'),
]
demo = r'''package main

import (
	"crypto/md5"
	"crypto/rc4"
	"fmt"
)

var pad = []byte("\x28\xBF\x4E\x5E\x4E\x75\x8A\x41\x64\x00\x4E\x56\xFF\xFA\x01\x08\x2E\x2E\x00\xB6\xD0\x68\x3E\x80\x2F\x0C\xA9\xFE\x64\x53\x69\x7A")

func main() {
	o, id := make([]byte, 32), []byte("0123456789abcdef")
	h := md5.New()
	h.Write(pad)
	h.Write(o)
	h.Write([]byte{0xfc, 0xff, 0xff, 0xff})
	h.Write(id)
	key := h.Sum(nil)
	for i := 0; i < 50; i++ {
		s := md5.Sum(key)
		key = s[:]
	}
	h = md5.New()
	h.Write(pad)
	h.Write(id)
	u := h.Sum(nil)
	for i := 0; i < 20; i++ {
		k := make([]byte, 16)
		for j := range k {
			k[j] = key[j] ^ byte(i)
		}
		c, _ := rc4.NewCipher(k)
		c.XORKeyStream(u, u)
	}
	u = append(u, make([]byte, 16)...)
	data := build(fmt.Sprintf("/Root 1 0 R/Size 3/ID[<%x><%x>]/Encrypt<</Filter/Standard/V 4/R 4/Length 128/P -4/O<%x>/U<%x>/CF<</StdCF<</CFM/V2/Length 16>>>>/StmF/StdCF/StrF/Identity>>", id, id, o, u),
		obj{1, 0, "<</Type/Catalog/JS 2 0 R>>"}, obj{2, 0, stream("/Filter/Crypt", "plain")})
	out, err := parse(data, "")
	check(err == nil && out["javascript.js"] == "plain\n", "the stream was decrypted")
	finish(true, "")
}
'''
