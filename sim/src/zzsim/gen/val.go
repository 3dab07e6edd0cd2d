// Package gen builds PDF documents whose every observable result is known by
// construction: a document is a list of features with version histories, from
// which the objects of every revision, the bytes of the file, a map of what
// lies where, and the expected outputs are all computed independently of the
// code under test.
package gen

import (
	"bytes"
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Val is a PDF value: nil, bool, int, Real, Name, Str, Arr, *Dict or Ref.
type Val interface{}

type (
	Real string // decimal spelling
	Name string
	Str  string
	Arr  []Val
	Ref  struct{ Num, Gen int }
	KV   struct {
		K string
		V Val
	}
	Dict struct{ KVs []KV }
)

func D(kv ...interface{}) *Dict {
	d := &Dict{}
	for i := 0; i+1 < len(kv); i += 2 {
		d.KVs = append(d.KVs, KV{kv[i].(string), kv[i+1]})
	}
	return d
}

func (d *Dict) Set(k string, v Val) *Dict {
	for i := range d.KVs {
		if d.KVs[i].K == k {
			d.KVs[i].V = v
			return d
		}
	}
	d.KVs = append(d.KVs, KV{k, v})
	return d
}

func (d *Dict) Get(k string) Val {
	for _, kv := range d.KVs {
		if kv.K == k {
			return kv.V
		}
	}
	return nil
}

func (d *Dict) Del(k string) {
	for i, kv := range d.KVs {
		if kv.K == k {
			d.KVs = append(d.KVs[:i:i], d.KVs[i+1:]...)
			return
		}
	}
}

// Canon is a canonical text of a value: dictionary keys sorted, strings in hex.
func Canon(v Val) string {
	var b strings.Builder
	canon(&b, v)
	return b.String()
}

func CanonNum(f float64) string {
	if f == 0 {
		return "0" // no negative zero
	}
	return strconv.FormatFloat(f, 'g', 15, 64)
}

func canon(b *strings.Builder, v Val) {
	switch x := v.(type) {
	case nil:
		b.WriteString("null")
	case bool:
		fmt.Fprintf(b, "%v", x)
	case int:
		b.WriteString(CanonNum(float64(x)))
	case Real:
		f, _ := strconv.ParseFloat(string(x), 64)
		b.WriteString(CanonNum(f))
	case Name:
		fmt.Fprintf(b, "/%x", string(x))
	case Str:
		fmt.Fprintf(b, "(%x)", string(x))
	case Ref:
		fmt.Fprintf(b, "%d-%d-R", x.Num, x.Gen)
	case Arr:
		b.WriteString("[")
		for _, e := range x {
			canon(b, e)
			b.WriteString(" ")
		}
		b.WriteString("]")
	case *Dict:
		kvs := append([]KV(nil), x.KVs...)
		sort.Slice(kvs, func(i, j int) bool { return kvs[i].K < kvs[j].K })
		b.WriteString("<<")
		for _, kv := range kvs {
			fmt.Fprintf(b, "/%x ", kv.K)
			canon(b, kv.V)
			b.WriteString(" ")
		}
		b.WriteString(">>")
	default:
		panic(fmt.Sprintf("gen: bad value %T", v))
	}
}

// Obj is one indirect object of one revision.
type Obj struct {
	Num, Gen int
	V        Val
	IsStream bool
	Data     []byte   // decoded stream data
	Chain    []Filter // in decoding order
	Crypt    string   // name of the crypt filter of a Crypt entry, "" if none
	Clear    bool     // never encrypted (encryption dictionary)
	Len      *Obj     // helper object holding the length, nil = direct
	FiltObj  *Obj     // helper object holding the filter
	ParmObj  *Obj     // helper object holding the decode parameters
	Helper   string   // this is a helper: key of the stream it belongs to
	Abnormal string   // spelled with this abnormality (C18)
	BadLen   bool     // the length entry is wrong
	Full     Val      // the value as written: V plus stream entries
	Stages   [][]byte // stored data after each decoding step; [0] is what is encrypted
}

func (o *Obj) key() string {
	s := fmt.Sprintf("%d %d %s", o.Num, o.Gen, Canon(o.V))
	if o.IsStream {
		s += fmt.Sprintf(" stream %x %s %v", o.Data, o.Crypt, o.Chain)
		for _, h := range []*Obj{o.Len, o.FiltObj, o.ParmObj} {
			if h != nil {
				s += fmt.Sprintf(" %d", h.Num)
			}
		}
	}
	s += o.Helper + o.Abnormal
	return s
}

func clone(v Val) Val {
	switch x := v.(type) {
	case Arr:
		a := make(Arr, len(x))
		for i := range x {
			a[i] = clone(x[i])
		}
		return a
	case *Dict:
		d := &Dict{}
		for _, kv := range x.KVs {
			d.KVs = append(d.KVs, KV{kv.K, clone(kv.V)})
		}
		return d
	}
	return v
}

var _ = bytes.Equal
