package main

import (
	"encoding/json"
	"time"

	"github.com/KarmaPenny/pdfparser/zzsim/gen"
	"github.com/KarmaPenny/pdfparser/zzsim/rt"
)

func cloneScn(s *Scn) *Scn {
	b, _ := json.Marshal(s)
	c := &Scn{}
	json.Unmarshal(b, c)
	return c
}

// minimise reduces the scenario of a violation while a fresh judgement keeps
// giving the same class.
func minimise(rep *Replay) {
	best := rep.Scenarios[0]
	msg := rep.Message
	srv := &Server{}
	defer srv.stop()
	deadline := time.Now().Add(25 * time.Second)
	tries := 0
	size := func(s *Scn) int { b, _ := json.Marshal(s); return len(b) }
	try := func(c *Scn) bool {
		if tries > 500 || time.Now().After(deadline) {
			return false
		}
		tries++
		r := srv.judge([]*Scn{c}, 20*time.Second)
		if r.Harness == "" && r.Class == rep.Class && !r.Skip {
			best, msg = c, r.Msg
			return true
		}
		return false
	}
	edit := func(f func(c *Scn) bool) bool {
		c := cloneScn(best)
		if !f(c) {
			return false
		}
		return try(c)
	}
	for round := 0; round < 4; round++ {
		before := size(best)
		// whole lists first
		edit(func(c *Scn) bool { ok := len(c.Muts) > 0; c.Muts = nil; return ok })
		edit(func(c *Scn) bool { ok := len(c.Dels) > 0; c.Dels = nil; return ok })
		edit(func(c *Scn) bool { ok := len(c.Sw) > 0; c.Sw = nil; return ok })
		edit(func(c *Scn) bool {
			ok := false
			for i := range c.Maps {
				ok = ok || c.Maps[i] != 0
				c.Maps[i] = 0
			}
			return ok
		})
		for i := range best.Maps {
			edit(func(c *Scn) bool {
				if i >= len(c.Maps) || c.Maps[i] < 2 {
					return false
				}
				c.Maps[i] = 1
				return true
			})
		}
		dropEach(func() int { return len(best.Muts) }, func(i, n int) bool {
			return edit(func(c *Scn) bool { c.Muts = append(c.Muts[:i:i], c.Muts[i+n:]...); return true })
		})
		dropEach(func() int { return len(best.Sw) }, func(i, n int) bool {
			return edit(func(c *Scn) bool { c.Sw = append(c.Sw[:i:i], c.Sw[i+n:]...); return true })
		})
		dropEach(func() int { return len(best.Sels) }, func(i, n int) bool {
			return edit(func(c *Scn) bool { c.Sels = append(c.Sels[:i:i], c.Sels[i+n:]...); return true })
		})
		dropEach(func() int { return len(best.Crash) }, func(i, n int) bool {
			return edit(func(c *Scn) bool { c.Crash = append(c.Crash[:i:i], c.Crash[i+n:]...); return true })
		})
		dropEach(func() int { return len(best.Dam) }, func(i, n int) bool {
			return edit(func(c *Scn) bool { c.Dam = append(c.Dam[:i:i], c.Dam[i+n:]...); return true })
		})
		dropEach(func() int { return len(best.Acts) }, func(i, n int) bool {
			return edit(func(c *Scn) bool { c.Acts = append(c.Acts[:i:i], c.Acts[i+n:]...); return true })
		})
		if len(best.Docs) > 1 && best.Prop != "C22" {
			dropEach(func() int { return len(best.Docs) }, func(i, n int) bool {
				return edit(func(c *Scn) bool {
					if n >= len(c.Docs) {
						return false
					}
					c.Docs = append(c.Docs[:i:i], c.Docs[i+n:]...)
					if len(c.Acts) == len(c.Docs)+n {
						c.Acts = append(c.Acts[:i:i], c.Acts[i+n:]...)
					}
					return true
				})
			})
		}
		dropEach(func() int { return len(best.Raw) }, func(i, n int) bool {
			return edit(func(c *Scn) bool { c.Raw = append(c.Raw[:i:i], c.Raw[i+n:]...); return true })
		})
		for d := 0; d < len(best.Docs); d++ {
			doc := func(f func(x *gen.Doc) bool) bool {
				return edit(func(c *Scn) bool {
					if c.Prop != "C22" {
						return d < len(c.Docs) && f(c.Docs[d])
					}
					ok := false // spellings of one document change together
					for _, x := range c.Docs {
						ok = f(x) || ok
					}
					return ok
				})
			}
			doc(func(x *gen.Doc) bool { ok := x.EncS != 0 && x.Tweak == ""; x.EncS = 0; return ok })
			doc(func(x *gen.Doc) bool { ok := x.Pad != 0; x.Pad = 0; return ok })
			doc(func(x *gen.Doc) bool { ok := x.Junk != 0; x.Junk = 0; return ok })
			doc(func(x *gen.Doc) bool { ok := x.Tail != 0; x.Tail = 0; return ok })
			dropEach(func() int { return len(best.Docs[d].Feats) }, func(i, n int) bool {
				return doc(func(x *gen.Doc) bool { x.Feats = append(x.Feats[:i:i], x.Feats[i+n:]...); return true })
			})
			for i := len(best.Docs[d].Revs) - 1; i > 0; i-- {
				doc(func(x *gen.Doc) bool {
					if i >= len(x.Revs) {
						return false
					}
					x.Revs = append(x.Revs[:i:i], x.Revs[i+1:]...)
					for j := range x.Feats {
						f := &x.Feats[j]
						if f.Rev >= i && f.Rev > 0 {
							f.Rev--
						}
						if f.Del >= i && f.Del > 0 {
							f.Del--
						}
						var u []int
						for _, v := range f.Upd {
							if v >= i {
								v--
							}
							if v > f.Rev && (f.Del == 0 || v < f.Del) {
								u = append(u, v)
							}
						}
						f.Upd = u
					}
					return true
				})
			}
			for i := range best.Docs[d].Revs {
				doc(func(x *gen.Doc) bool {
					if i >= len(x.Revs) {
						return false
					}
					o := x.Revs[i]
					x.Revs[i] = gen.RevSpec{Xref: "table"}
					return o != x.Revs[i]
				})
			}
			for i := range best.Docs[d].Feats {
				for _, f := range []func(x *gen.Feat) bool{
					func(x *gen.Feat) bool { ok := len(x.Upd) > 0; x.Upd = nil; return ok },
					func(x *gen.Feat) bool { ok := x.Del > 0; x.Del, x.Dang = 0, false; return ok },
					func(x *gen.Feat) bool { ok := x.Max != 1; x.Max = 1; return ok },
					func(x *gen.Feat) bool { ok := x.Size > 0; x.Size = 0; return ok },
					func(x *gen.Feat) bool { ok := x.Big != ""; x.Big = ""; return ok },
				} {
					doc(func(x *gen.Doc) bool { return i < len(x.Feats) && f(&x.Feats[i]) })
				}
			}
			doc(func(x *gen.Doc) bool { ok := x.Gens; x.Gens = false; return ok })
			doc(func(x *gen.Doc) bool { ok := x.Fill > 0; x.Fill = 0; return ok })
			doc(func(x *gen.Doc) bool { ok := x.Wide > 0; x.Wide = 0; return ok })
			doc(func(x *gen.Doc) bool { ok := x.Sparse > 0; x.Sparse = 0; return ok })
			doc(func(x *gen.Doc) bool { ok := x.Lvl > 0; x.Lvl = 0; return ok })
			doc(func(x *gen.Doc) bool { ok := x.CLvl > 0; x.CLvl = 0; return ok })
		}
		for i := range best.Dels {
			edit(func(c *Scn) bool {
				if i >= len(c.Dels) || c.Dels[i].Mode == "" {
					return false
				}
				c.Dels[i] = rt.Delivery{}
				return true
			})
			edit(func(c *Scn) bool {
				if i >= len(c.Dels) || c.Dels[i].ZeroPct == 0 && !c.Dels[i].EOFWith {
					return false
				}
				c.Dels[i].ZeroPct, c.Dels[i].EOFWith = 0, false
				return true
			})
			dropEach(func() int { return len(best.Dels[i].Bounds) }, func(k, n int) bool {
				return edit(func(c *Scn) bool {
					b := c.Dels[i].Bounds
					c.Dels[i].Bounds = append(b[:k:k], b[k+n:]...)
					return true
				})
			})
		}
		for _, k := range keys(best.N) {
			edit(func(c *Scn) bool { ok := c.N[k] != 0; c.N[k] = 0; return ok })
		}
		for i := range best.Sels {
			edit(func(c *Scn) bool { ok := c.Sels[i].Repeat; c.Sels[i].Repeat = false; return ok })
			edit(func(c *Scn) bool { ok := c.Sels[i].Done > 0; c.Sels[i].Done = 0; return ok })
		}
		if size(best) >= before || time.Now().After(deadline) {
			break
		}
	}
	// the reduced scenario must show the same in a process of its own
	r := fresh([]*Scn{best}, hangLimit)
	if r.Class == rep.Class && r.Harness == "" {
		rep.Scenarios, rep.Message, rep.Minimised = []*Scn{best}, r.Msg, true
	}
	_ = msg
}

// dropEach tries to drop runs of elements, long ones first.
func dropEach(length func() int, drop func(i, n int) bool) {
	for n := (length() + 1) / 2; n >= 1; n /= 2 {
		for i := 0; i+n <= length(); {
			if !drop(i, n) {
				i += n
			}
		}
	}
}
