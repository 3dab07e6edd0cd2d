property = 'C12'
needs = 'an encrypted object with a generation number above 255'
what_it_breaks = 'only one byte of the generation number goes into the object key'
edits = [
  ('pdf/encryption.go',
   '\tsalt = append(salt, gb[:2]...)\n\n\t// hash the salt to produce the key\n\thash := md5.New()\n\thash.Write(salt)\n\tkey := hash.Sum(nil)\n\n\t// trucate key to length + 5 max 16\n\tl := len(c.encryption_key) + 5\n\tif l > 16 {\n\t\tl = 16\n\t}\n\tkey = key[:l]\n\n\t// return new crypt filter with salted key\n\treturn &DecryptorRC4{key}\n',
   '\tsalt = append(salt, gb[0], 0)\n\n\t// hash the salt to produce the key\n\thash := md5.New()\n\thash.Write(salt)\n\tkey := hash.Sum(nil)\n\n\t// trucate key to length + 5 max 16\n\tl := len(c.encryption_key) + 5\n\tif l > 16 {\n\t\tl = 16\n\t}\n\tkey = key[:l]\n\n\t// return new crypt filter with salted key\n\treturn &DecryptorRC4{key}\n'),
]
demo = r'''package main

import (
	"crypto/md5"
	"crypto/rc4"
	"fmt"
)

var pad = []byte("\x28\xBF\x4E\x5E\x4E\x75\x8A\x41\x64\x00\x4E\x56\xFF\xFA\x01\x08\x2E\x2E\x00\xB6\xD0\x68\x3E\x80\x2F\x0C\xA9\xFE\x64\x53\x69\x7A")

func main() {
	o, id := make([]byte, 32), []byte("0123456789abcdef")
	h := md5.New()
	h.Write(pad)
	h.Write(o)
	h.Write([]byte{0xfc, 0xff, 0xff, 0xff})
	h.Write(id)
	key := h.Sum(nil)[:5]
	u := make([]byte, 32)
	c, _ := rc4.NewCipher(key)
	c.XORKeyStream(u, pad)
	for _, gen := range []int{0, 7, 255, 256, 300, 65535} {
		k := md5.Sum(append(append([]byte{}, key...), 1, 0, 0, byte(gen), byte(gen>>8)))
		c, _ = rc4.NewCipher(k[:10])
		s := []byte("http://example.com/")
		c.XORKeyStream(s, s)
		data := build(fmt.Sprintf("/Root 1 %d R/Size 2/ID[<%x><%x>]/Encrypt<</Filter/Standard/V 1/R 2/P -4/O<%x>/U<%x>>>", gen, id, id, o, u),
			obj{1, gen, fmt.Sprintf("<</Type/Catalog/URI<%x>>>", s)})
		out, err := parse(data, "")
		check(err == nil && out["urls.txt"] == "http://example.com/\n", fmt.Sprint("generation ", gen, " is decrypted wrongly"))
	}
	finish(true, "")
}
'''
