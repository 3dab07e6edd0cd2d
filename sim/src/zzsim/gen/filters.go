package gen

import (
	"bytes"
	"compress/lzw"
	"compress/zlib"
	"encoding/binary"
	"fmt"
	"io"

	"github.com/KarmaPenny/pdfparser/zzsim/rt"
	tlzw "golang.org/x/image/tiff/lzw"
)

// Filter is one step of a decoding chain.
type Filter struct {
	Kind    string // ASCIIHexDecode ASCII85Decode RunLengthDecode FlateDecode LZWDecode
	Early   int    // LZW: -1 absent (=1), 0, 1
	Pred    int    // 0 absent, 1, 2, 10..15
	Colors  int
	BPC     int
	Columns int
	NoEOD   bool // RunLength: the end marker is left out
}

func (f Filter) String() string {
	s := f.Kind
	if f.Kind == "LZWDecode" {
		s += fmt.Sprintf(" early=%d", f.Early)
	}
	if f.Pred > 0 {
		s += fmt.Sprintf(" pred=%d colors=%d bpc=%d cols=%d", f.Pred, f.Colors, f.BPC, f.Columns)
	}
	return s
}

// Parms is the DecodeParms dictionary, nil if none is needed.
func (f Filter) Parms() Val {
	d := &Dict{}
	if f.Kind == "LZWDecode" && f.Early >= 0 {
		d.Set("EarlyChange", f.Early)
	}
	if f.Pred > 0 {
		d.Set("Predictor", f.Pred)
		if f.Colors != 1 {
			d.Set("Colors", f.Colors)
		}
		if f.BPC != 8 {
			d.Set("BitsPerComponent", f.BPC)
		}
		if f.Columns != 1 {
			d.Set("Columns", f.Columns)
		}
	}
	if len(d.KVs) == 0 {
		return nil
	}
	return d
}

func (f Filter) rowBytes() int { return (f.Colors*f.BPC*f.Columns + 7) / 8 }

// RandFilter picks a filter able to carry n bytes of data.
func RandFilter(r *rt.R) Filter {
	f := Filter{Kind: []string{"ASCIIHexDecode", "ASCII85Decode", "RunLengthDecode", "FlateDecode", "LZWDecode"}[r.N(5)], Early: -1, NoEOD: r.P(1, 4)}
	if f.Kind == "LZWDecode" {
		f.Early = r.N(3) - 1
	}
	if (f.Kind == "LZWDecode" || f.Kind == "FlateDecode") && r.P(1, 2) {
		f.Pred = []int{1, 2, 2, 10, 11, 12, 13, 14, 15, 15}[r.N(10)]
		f.Colors = []int{1, 1, 2, 3, 4, 5, 8, 13}[r.N(8)]
		f.BPC = []int{8, 8, 8, 1, 2, 4, 16}[r.N(7)]
		f.Columns = []int{1, 2, 3, 4, 5, 7, 16, 40, 100}[r.N(9)]
		if r.P(1, 20) {
			f.Colors, f.BPC, f.Columns = 1, []int{8, 8, 1}[r.N(3)], []int{300, 1000, 4097, 5000, 20000}[r.N(5)]
		}
	}
	return f
}

// RandChain returns a chain of up to max filters.
func RandChain(r *rt.R, max int) []Filter {
	n := r.N(max + 1)
	if max > 1 && r.P(1, 60) {
		n = r.In(4, 9)
	}
	var c []Filter
	for i := 0; i < n; i++ {
		c = append(c, RandFilter(r))
	}
	return c
}

// Fit makes data acceptable for the chain: predictor rows are filled up. TIFF
// rows keep their padding bits zero.
func Fit(chain []Filter, data []byte) ([]Filter, []byte) {
	out := append([]Filter(nil), chain...)
	for i := range out {
		f := &out[i]
		if f.Pred < 2 {
			continue
		}
		if i < len(out)-1 {
			// only the last filter's output is free to be padded
			f.Pred = 0
			continue
		}
		rb := f.rowBytes()
		if f.Pred == 2 || f.BPC != 8 {
			for len(data)%rb != 0 {
				data = append(data, 0)
			}
		}
		if f.Pred == 2 {
			if used := f.Colors * f.BPC * f.Columns % 8; used != 0 {
				d := append([]byte(nil), data...)
				for p := rb - 1; p < len(d); p += rb {
					d[p] &= byte(0xff << (8 - used))
				}
				data = d
			}
		}
	}
	return out, data
}

// Stages returns the data after each decoding step: stages[0] is what is stored
// in the file, the last is data itself.
func Stages(r *rt.R, chain []Filter, data []byte) [][]byte {
	st := make([][]byte, len(chain)+1)
	st[len(chain)] = data
	for i := len(chain) - 1; i >= 0; i-- {
		st[i] = encode(r, chain[i], st[i+1])
	}
	return st
}

func encode(r *rt.R, f Filter, data []byte) []byte {
	if f.Pred >= 2 {
		data = predict(r, f, data)
	}
	switch f.Kind {
	case "ASCIIHexDecode":
		return encHex(r, data)
	case "ASCII85Decode":
		return enc85(r, data)
	case "RunLengthDecode":
		return encRL(r, data, f.NoEOD)
	case "FlateDecode":
		var b bytes.Buffer
		w, _ := zlib.NewWriterLevel(&b, []int{-2, 0, 1, 6, 9}[r.N(5)])
		for len(data) > 0 {
			n := len(data)
			if r.P(1, 4) {
				n = 1 + r.N(n)
			}
			w.Write(data[:n])
			data = data[n:]
			if len(data) > 0 && r.P(1, 4) {
				w.Flush()
			}
		}
		w.Close()
		return b.Bytes()
	case "LZWDecode":
		if f.Early == 0 && r.P(1, 2) {
			var b bytes.Buffer
			w := lzw.NewWriter(&b, lzw.MSB, 8)
			w.Write(data)
			w.Close()
			return b.Bytes()
		}
		return encLZW(r, data, f.Early != 0)
	}
	panic("gen: unknown filter " + f.Kind)
}

func wsIn(r *rt.R, b *bytes.Buffer) {
	if r.P(1, 12) {
		b.WriteByte("\n\r\t \x00\f"[r.N(6)])
	}
}

func encHex(r *rt.R, data []byte) []byte {
	var b bytes.Buffer
	const lo, up = "0123456789abcdef", "0123456789ABCDEF"
	for i, c := range data {
		d := lo
		if r.P(1, 2) {
			d = up
		}
		b.WriteByte(d[c>>4])
		wsIn(r, &b)
		if i == len(data)-1 && c&15 == 0 && r.P(1, 2) {
			break // a final zero digit may be left out
		}
		b.WriteByte(d[c&15])
		wsIn(r, &b)
	}
	b.WriteByte('>')
	return b.Bytes()
}

func enc85(r *rt.R, data []byte) []byte {
	var b bytes.Buffer
	for len(data) >= 4 {
		v := binary.BigEndian.Uint32(data)
		data = data[4:]
		if v == 0 && r.P(3, 4) {
			b.WriteByte('z')
			wsIn(r, &b)
			continue
		}
		var g [5]byte
		for i := 4; i >= 0; i-- {
			g[i] = byte(v%85) + 33
			v /= 85
		}
		for _, c := range g {
			b.WriteByte(c)
			wsIn(r, &b)
		}
	}
	if n := len(data); n > 0 {
		var t [4]byte
		copy(t[:], data)
		v := binary.BigEndian.Uint32(t[:])
		var g [5]byte
		for i := 4; i >= 0; i-- {
			g[i] = byte(v%85) + 33
			v /= 85
		}
		b.Write(g[:n+1])
	}
	wsIn(r, &b)
	b.WriteString("~>")
	return b.Bytes()
}

func encRL(r *rt.R, data []byte, noEOD bool) []byte {
	var b bytes.Buffer
	for i := 0; i < len(data); {
		run := 1
		for i+run < len(data) && data[i+run] == data[i] && run < 128 {
			run++
		}
		if run >= 2 && r.P(9, 10) {
			n := run
			if r.P(1, 4) {
				n = 2 + r.N(run-1)
			}
			b.WriteByte(byte(257 - n))
			b.WriteByte(data[i])
			i += n
			continue
		}
		n := 1 + r.N(128)
		if r.P(1, 3) {
			n = 128
		}
		if i+n > len(data) {
			n = len(data) - i
		}
		b.WriteByte(byte(n - 1))
		b.Write(data[i : i+n])
		i += n
	}
	if !noEOD {
		b.WriteByte(128)
	}
	return b.Bytes()
}

// encLZW is an LZW encoder for both code-width rules, clearing its table at
// arbitrary points.
func encLZW(r *rt.R, data []byte, early bool) []byte {
	var out bytes.Buffer
	var acc uint32
	var bits uint
	width := uint(9)
	put := func(code int) {
		acc = acc<<width | uint32(code)
		bits += width
		for bits >= 8 {
			out.WriteByte(byte(acc >> (bits - 8)))
			bits -= 8
		}
	}
	e := 0
	if early {
		e = 1
	}
	limit := 4094
	if r.P(1, 2) {
		limit = 300 + r.N(3790)
	}
	table := map[string]int{}
	next := 258 // the encoder's next code; the decoder is one behind
	reset := func() {
		table = map[string]int{}
		for i := 0; i < 256; i++ {
			table[string([]byte{byte(i)})] = i
		}
		next = 258
		width = 9
	}
	put(256)
	reset()
	first := true
	emit := func(code int) {
		put(code)
		if !first {
			// the decoder now has next entries
		}
		first = false
	}
	cur := ""
	for i := 0; i < len(data); i++ {
		s := cur + string(data[i:i+1])
		if _, ok := table[s]; ok {
			cur = s
			continue
		}
		emit(table[cur])
		table[s] = next
		next++
		// the decoder's table holds next-1 entries when it reads the code after this one
		if next-1+e >= 1<<width && width < 12 {
			width++
		}
		if next >= limit {
			cur = string(data[i : i+1])
			// flush the pending byte as its own code before clearing
			put(table[cur])
			next++
			if next-1+e >= 1<<width && width < 12 {
				width++
			}
			put(256)
			reset()
			first = true
			cur = ""
			continue
		}
		cur = string(data[i : i+1])
	}
	if cur != "" {
		emit(table[cur])
		next++
		if next-1+e >= 1<<width && width < 12 {
			width++
		}
	}
	put(257)
	if bits > 0 {
		out.WriteByte(byte(acc << (8 - bits)))
	}
	return out.Bytes()
}

func getBits(d []byte, pos, n int) int {
	v := 0
	for i := 0; i < n; i++ {
		v = v<<1 | int(d[(pos+i)/8]>>(7-uint(pos+i)%8))&1
	}
	return v
}

func putBits(d []byte, pos, n, v int) {
	for i := 0; i < n; i++ {
		m := byte(1) << (7 - uint(pos+i)%8)
		if v>>(uint(n-1-i))&1 == 1 {
			d[(pos+i)/8] |= m
		} else {
			d[(pos+i)/8] &^= m
		}
	}
}

func predict(r *rt.R, f Filter, data []byte) []byte {
	rb := f.rowBytes()
	if f.Pred == 2 {
		out := append([]byte(nil), data...)
		for row := 0; row+rb <= len(out); row += rb {
			for c := f.Columns - 1; c >= 1; c-- {
				for k := 0; k < f.Colors; k++ {
					p := row*8 + (c*f.Colors+k)*f.BPC
					q := p - f.Colors*f.BPC
					putBits(out, p, f.BPC, (getBits(data, p, f.BPC)-getBits(data, q, f.BPC))&(1<<uint(f.BPC)-1))
				}
			}
		}
		return out
	}
	bpp := (f.Colors*f.BPC + 7) / 8
	var out bytes.Buffer
	prev := make([]byte, rb)
	for i := 0; i < len(data); i += rb {
		row := data[i:min(i+rb, len(data))]
		tag := f.Pred - 10
		if f.Pred == 15 || r.P(1, 6) {
			tag = r.N(5) // every row names its own algorithm
		}
		if tag > 4 {
			tag = 4
		}
		out.WriteByte(byte(tag))
		for j, v := range row {
			var left, up, ul int
			if j >= bpp {
				left = int(row[j-bpp])
				ul = int(prev[j-bpp])
			}
			up = int(prev[j])
			p := 0
			switch tag {
			case 1:
				p = left
			case 2:
				p = up
			case 3:
				p = (left + up) / 2
			case 4:
				p = paeth(left, up, ul)
			}
			out.WriteByte(v - byte(p))
		}
		np := make([]byte, rb)
		copy(np, row)
		prev = np
	}
	return out.Bytes()
}

// Decodable is how many bytes, at least, the filter can make of torn data. Zero
// where it depends on the decoder.
func Decodable(f Filter, data []byte) int {
	var rd io.Reader
	switch f.Kind {
	case "FlateDecode":
		z, err := zlib.NewReader(bytes.NewReader(data))
		if err != nil {
			return 0
		}
		rd = z
	case "LZWDecode":
		if len(data) < 4 {
			return 0
		}
		if f.Early == 0 {
			rd = lzw.NewReader(bytes.NewReader(data), lzw.MSB, 8)
		} else {
			rd = tlzw.NewReader(bytes.NewReader(data), tlzw.MSB, 8)
		}
	case "RunLengthDecode":
		return len(data) / 2
	default:
		n := 0
		for _, c := range data {
			if !isWS(c) {
				n++
			}
		}
		if n >= 6 {
			return n / 6
		}
		return 0
	}
	out, _ := io.ReadAll(rd)
	return len(out)
}

func paeth(a, b, c int) int {
	abs := func(x int) int {
		if x < 0 {
			return -x
		}
		return x
	}
	p := a + b - c
	pa, pb, pc := abs(p-a), abs(p-b), abs(p-c)
	if pa <= pb && pa <= pc {
		return a
	}
	if pb <= pc {
		return b
	}
	return c
}
