package gen

import (
	"testing"

	"github.com/KarmaPenny/pdfparser/zzsim/rt"
)

func TestDoc(t *testing.T) {
	for i := 0; i < 500; i++ {
		r := rt.NewR(uint64(i))
		d := RandDoc(r, DocOpt{Kinds: AllKinds, MinF: 1, MaxF: 8, MaxRev: 4, Lvl: -1, Sparse: -1, Enc: 40, Gens: true, Del: true})
		b := d.Build()
		b2 := d.Build()
		if string(b.Data) != string(b2.Data) {
			t.Fatal("not deterministic", i)
		}
		for _, p := range b.Objs {
			if string(b.Data[p.End-6:p.End]) != "endobj" {
				t.Fatal(i, "layout")
			}
		}
		for k, s := range b.Sections {
			if s.Kind == "table" && string(b.Data[b.Starts[k].Value:b.Starts[k].Value+4]) != "xref" {
				t.Fatal(i, "startxref")
			}
			for _, e := range s.Entries {
				if !e.Free && s.Kind == "table" {
					if b.Data[e.Target] < '0' || b.Data[e.Target] > '9' {
						t.Fatal("target")
					}
				}
			}
		}
	}
}
