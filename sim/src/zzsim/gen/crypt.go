package gen

import (
	"crypto/aes"
	"crypto/cipher"
	"crypto/md5"
	"crypto/rc4"
	"encoding/binary"
	"fmt"
	"strings"

	"github.com/KarmaPenny/pdfparser/zzsim/rt"
)

// CF is one crypt filter definition.
type CF struct {
	Name   string `json:"name"`
	Method string `json:"method"`      // None V2 AESV2
	Len    string `json:"len"`         // "", "bytes", "bits", "odd": how Length is given
	N      int    `json:"n,omitempty"` // an odd Length
}

// Enc describes how a document is encrypted.
type Enc struct {
	V, R     int
	Bits     int    // key length
	Pw       string // user password
	Owner    string
	P        int
	V1Length int  // Length that means nothing, as it has no meaning in version 1
	NoLength bool // Length left out (40 bit for V1, default elsewhere)
	CFs      []CF
	StmF     string // "" = absent
	StrF     string
	EFF      string
	MetaFlag int // EncryptMetadata: 0 absent, 1 true, 2 false
	Indirect bool
	Unsigned bool // P written as the unsigned number with the same bits
	ID       string
	UTail    string // last 16 bytes of U for revision 3 and 4
	Tweak    string // damage to what is stored
	TweakS   uint64
}

// Tweaks lists the kinds of damage to the stored encryption data that make
// sense for this encryption.
func (e *Enc) Tweaks() []string {
	t := []string{"O", "U", "P", "ID", "noO", "noU", "noP", "noID", "noV", "noR", "noFilter", "V0", "V3", "V5", "R1", "R5", "R6", "Filter", "Odd", "dangling", "Oshort", "Ushort", "Onum", "Unum"}
	if e.V == 2 {
		t = append(t, "Length", "Length")
	}
	if e.V < 4 {
		t = append(t, "R", "R")
	}
	if e.R == 2 {
		t = append(t, "U32", "U32")
	}
	if e.V == 4 && (e.method(e.StmF) != "None" || e.method(e.StrF) != "None") {
		t = append(t, "CFM", "noCF", "CFM", "noCF", "StmF", "StmF")
	}
	return t
}

func flip(b []byte, r *rt.R, n int) []byte {
	c := append([]byte(nil), b...)
	c[r.N(min(n, len(c)))] ^= byte(1 + r.N(255))
	return c
}

func (e *Enc) trailerID() Val {
	r := rt.NewR(e.TweakS)
	id := e.ID
	switch e.Tweak {
	case "noID":
		return nil
	case "ID":
		if id == "" {
			id = "x"
		} else {
			id = string(flip([]byte(id), r, 16))
		}
	}
	return Arr{Str(id), Str("second id")}
}

func (e *Enc) tweak(d *Dict) *Dict {
	r := rt.NewR(e.TweakS)
	o, u := e.o(), e.u()
	switch e.Tweak {
	case "O":
		d.Set("O", Str(flip(o, r, 32)))
	case "Oshort":
		d.Set("O", Str(o[:r.N(32)]))
	case "U":
		n := 16
		if e.R == 2 {
			n = 32
		}
		d.Set("U", Str(flip(u, r, n)))
	case "Ushort":
		d.Set("U", Str(u[:r.N(16)]))
	case "U16": // enough for the comparison of revisions 3 and 4
		d.Set("U", Str(u[:16+r.N(16)]))
	case "U32": // revision 2 compares all of it
		d.Set("U", Str(u[:16+r.N(16)]))
	case "StmF":
		k := "StmF"
		if e.method(e.StmF) == "None" || e.method(e.StrF) != "None" && r.P(1, 2) {
			k = "StrF"
		}
		d.Set(k, []Val{5, Str("StdCF"), true, Arr{Name("StdCF")}, Name("StdCF0"), Name("")}[r.N(6)])
	case "Onum":
		d.Set("O", 7)
	case "Unum":
		d.Set("U", Arr{})
	case "P":
		d.Set("P", e.P^(1<<uint(r.N(31))))
	case "noO", "noU", "noP", "noV", "noR", "noFilter":
		d.Del(e.Tweak[2:])
	case "V0", "V3", "V5":
		d.Set("V", int(e.Tweak[1]-'0'))
	case "R1", "R5", "R6":
		d.Set("R", int(e.Tweak[1]-'0'))
	case "Filter":
		d.Set("Filter", Name([]string{"Adobe.PubSec", "standard", "XX", "Standard2"}[r.N(4)]))
	case "Odd":
		d.Set("Filter", Str("Standard"))
	case "Length":
		b := 40 + 8*r.N(12)
		if b == e.Bits {
			b = 40 + (b-40+8)%96
		}
		d.Set("Length", b)
	case "R":
		d.Set("R", 5-e.R)
	case "CFM", "noCF":
		use := e.StmF
		if e.method(use) == "None" || e.method(e.StrF) != "None" && r.P(1, 2) {
			use = e.StrF
		}
		cf := d.Get("CF").(*Dict)
		if e.Tweak == "noCF" {
			cf.Del(use)
		} else {
			cf.Set(use, D("CFM", Name([]string{"AESV3", "XX", "V5"}[r.N(3)]), "AuthEvent", Name("DocOpen")))
		}
	}
	return d
}

// SamePw: the two passwords are the same to the standard security handler.
func SamePw(a, b string) bool { return string(padPw(a)) == string(padPw(b)) }

const padStr = "\x28\xBF\x4E\x5E\x4E\x75\x8A\x41\x64\x00\x4E\x56\xFF\xFA\x01\x08\x2E\x2E\x00\xB6\xD0\x68\x3E\x80\x2F\x0C\xA9\xFE\x64\x53\x69\x7A"

func padPw(p string) []byte { return []byte((p + padStr)[:32]) }

func rc4x(key, data []byte) []byte {
	c, _ := rc4.NewCipher(key)
	out := make([]byte, len(data))
	c.XORKeyStream(out, data)
	return out
}

func md(parts ...[]byte) []byte {
	h := md5.New()
	for _, p := range parts {
		h.Write(p)
	}
	return h.Sum(nil)
}

// RandEnc draws an encryption configuration.
func RandEnc(r *rt.R) *Enc {
	e := &Enc{P: -4 * (1 + r.N(1000)), ID: string(r.Bytes([]int{16, 16, 16, 16, 0, 1, 15, 17, 20, 32, 64, 5}[r.N(12)])), UTail: string(r.Bytes(16)), Indirect: r.P(2, 3)}
	if r.P(1, 6) {
		e.UTail = string(make([]byte, 16))
	}
	switch r.N(5) {
	case 4:
		e.Pw = r.Pick("with blank ", " x", "\ttab", "line\n", "-f", "--", "=", "ünï", "a\x00b"[:1])
	case 0:
		e.Pw = ""
	case 1:
		e.Pw = "pass" + string(rune('a'+r.N(26)))
	case 2:
		e.Pw = "p\xe9\xff" + string(rune('a'+r.N(26))) + "0123456789012345678901234567890123456789"
	case 3:
		e.Pw = "0123456789abcdef0123456789abcdef"[:r.In(1, 32)]
	}
	e.Owner = "owner" + string(rune('a'+r.N(26)))
	switch r.N(6) {
	case 0:
		e.V, e.R, e.Bits = 1, 2, 40
	case 1:
		e.V, e.R, e.Bits = 1, 3, 40
	case 2:
		e.V, e.R, e.Bits = 2, 3, 40+8*r.N(12)
	default:
		e.V, e.R, e.Bits = 4, 4, 128
		names := []string{"StdCF", "Alt", "Third"}
		n := 1 + r.N(3)
		for i := 0; i < n; i++ {
			m := r.Pick("V2", "AESV2", "AESV2", "None")
			e.CFs = append(e.CFs, CF{Name: names[i], Method: m, Len: r.Pick("", "bytes", "bits")})
		}
		pick := func(absent bool) string {
			k := r.N(n + 2)
			if k < n {
				return names[k]
			}
			if k == n || !absent {
				return "Identity"
			}
			return ""
		}
		if r.P(1, 2) { // the usual shape
			e.CFs[0].Method = r.Pick("V2", "AESV2")
			e.StmF, e.StrF = "StdCF", "StdCF"
		} else {
			e.StmF, e.StrF = pick(true), pick(true)
		}
		if r.P(1, 2) {
			e.EFF = pick(true)
		}
		e.MetaFlag = r.N(3)
		e.NoLength = r.P(1, 6)
		aes := false
		for i := range e.CFs {
			c := &e.CFs[i]
			aes = aes || c.Method == "AESV2"
			if c.Method != "V2" && r.P(1, 3) { // the key of AES is 16 bytes whatever this says
				c.Len, c.N = "odd", []int{5, 8, 10, 15, 17, 32, 40, 56, 64, 120, 136, 256}[r.N(12)]
			}
		}
		if !aes && r.P(2, 3) { // other key lengths, said everywhere
			e.Bits, e.NoLength = 40+8*r.N(12), false
			for i := range e.CFs {
				if e.CFs[i].Len == "" {
					e.CFs[i].Len = r.Pick("bytes", "bits")
				}
			}
		}
	}
	if e.Bits == 40 && e.V < 4 {
		e.NoLength = r.P(1, 2)
	}
	if e.V < 4 && r.P(1, 4) { // has a meaning from version 4 on only
		e.MetaFlag = r.N(3)
	}
	e.Unsigned = r.P(1, 8)
	if e.V == 1 && r.P(1, 5) {
		e.NoLength, e.V1Length = false, []int{64, 128, 0, 56}[r.N(4)]
	}
	return e
}

func (e *Enc) n() int { return e.Bits / 8 }

func (e *Enc) o() []byte {
	k := md(padPw(e.Owner))
	if e.R >= 3 {
		for i := 0; i < 50; i++ {
			k = md(k)
		}
	}
	n := e.n()
	if e.R == 2 {
		n = 5
	}
	k = k[:n]
	out := rc4x(k, padPw(e.Pw))
	if e.R >= 3 {
		for i := 1; i <= 19; i++ {
			kk := make([]byte, n)
			for j := range kk {
				kk[j] = k[j] ^ byte(i)
			}
			out = rc4x(kk, out)
		}
	}
	return out
}

// Key computes the file key for a password.
func (e *Enc) Key(pw string) []byte {
	p := make([]byte, 4)
	binary.LittleEndian.PutUint32(p, uint32(int32(e.P)))
	parts := [][]byte{padPw(pw), e.o(), p, []byte(e.ID)}
	if e.R >= 4 && e.MetaFlag == 2 {
		parts = append(parts, []byte{255, 255, 255, 255})
	}
	k := md(parts...)
	n := e.n()
	if e.R >= 3 {
		for i := 0; i < 50; i++ {
			k = md(k[:n])
		}
	}
	return k[:n]
}

func (e *Enc) u() []byte {
	k := e.Key(e.Pw)
	if e.R == 2 {
		return rc4x(k, []byte(padStr))
	}
	x := rc4x(k, md([]byte(padStr), []byte(e.ID)))
	for i := 1; i <= 19; i++ {
		kk := make([]byte, len(k))
		for j := range kk {
			kk[j] = k[j] ^ byte(i)
		}
		x = rc4x(kk, x)
	}
	return append(x, e.UTail...)
}

// Dict is the encryption dictionary.
func (e *Enc) Dict() *Dict {
	d := D("Filter", Name("Standard"), "V", e.V, "R", e.R, "O", Str(e.o()), "U", Str(e.u()), "P", e.P)
	if e.Unsigned {
		d.Set("P", int(uint32(e.P)))
	}
	if !e.NoLength {
		d.Set("Length", e.Bits)
	}
	if e.V1Length > 0 {
		d.Set("Length", e.V1Length)
	}
	if e.V == 4 {
		cf := &Dict{}
		for _, c := range e.CFs {
			x := D("CFM", Name(c.Method), "AuthEvent", Name("DocOpen"))
			switch c.Len {
			case "bytes":
				x.Set("Length", e.Bits/8)
			case "bits":
				x.Set("Length", e.Bits)
			case "odd":
				x.Set("Length", c.N)
			}
			cf.Set(c.Name, x)
		}
		d.Set("CF", cf)
		if e.StmF != "" {
			d.Set("StmF", Name(e.StmF))
		}
		if e.StrF != "" {
			d.Set("StrF", Name(e.StrF))
		}
		if e.EFF != "" {
			d.Set("EFF", Name(e.EFF))
		}
	}
	switch e.MetaFlag {
	case 1:
		d.Set("EncryptMetadata", true)
	case 2:
		d.Set("EncryptMetadata", false)
	}
	return e.tweak(d)
}

func (e *Enc) method(filter string) string {
	if e.V < 4 {
		return "V2"
	}
	for _, c := range e.CFs {
		if c.Name == filter {
			return c.Method
		}
	}
	return "None" // Identity and absent
}

func (e *Enc) strMethod() string { return e.method(e.StrF) }

// streamMethod is the method for a stream of object o.
func (e *Enc) streamMethod(o *Obj) string {
	if o.Crypt != "" && e.V >= 4 {
		return e.method(o.Crypt)
	}
	if d, ok := o.V.(*Dict); ok && e.V >= 4 && e.EFF != "" {
		if d.Get("Type") == Name("EmbeddedFile") {
			return e.method(e.EFF)
		}
	}
	if d, ok := o.V.(*Dict); ok && e.V >= 4 && e.MetaFlag == 2 && d.Get("Type") == Name("Metadata") {
		return "None"
	}
	return e.method(e.StmF)
}

func (e *Enc) encrypt(r *rt.R, method string, num, gen int, data []byte) []byte {
	if method == "None" {
		return data
	}
	k := e.Key(e.Pw)
	x := append(append([]byte(nil), k...), byte(num), byte(num>>8), byte(num>>16), byte(gen), byte(gen>>8))
	if method == "AESV2" {
		x = append(x, "sAlT"...)
	}
	ok := md(x)
	if n := len(k) + 5; n < 16 {
		ok = ok[:n]
	}
	if method == "V2" {
		return rc4x(ok, data)
	}
	iv := r.Bytes(16)
	padn := 16 - len(data)%16
	pt := append([]byte(nil), data...)
	for i := 0; i < padn; i++ {
		pt = append(pt, byte(padn))
	}
	b, err := aes.NewCipher(ok)
	if err != nil {
		panic(err)
	}
	ct := make([]byte, len(pt))
	cipher.NewCBCEncrypter(b, iv).CryptBlocks(ct, pt)
	return append(append([]byte(nil), iv...), ct...)
}

// LikeEnc draws the seed of an encryption whose methods are those of the
// document, AES if there is none.
func LikeEnc(r *rt.R, d *Doc) uint64 {
	shape := func(s uint64) string {
		e := RandEnc(rt.NewR(s))
		return fmt.Sprint(e.V, e.streamMethod(&Obj{}), e.strMethod())
	}
	var s uint64
	for try := 0; try < 100; try++ {
		s = uint64(1 + r.N(1<<30))
		if d != nil && shape(s) == shape(d.EncS) || d == nil && strings.Contains(shape(s), "AES") {
			break
		}
	}
	return s
}
