package rt

import (
	"fmt"
	"reflect"
	"runtime"
	"strings"
)

// Order of events: every client has a vector clock, and what orders clients in
// the Go memory model (locks, channels, goroutine start, ...) passes it on.
// Accesses to one map by two clients that nothing orders, one of them a write,
// kill a real process ("concurrent map writes"), and so they do here.

type vclock []uint64

func (v vclock) at(i int) uint64 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func (v *vclock) set(i int, x uint64) {
	for len(*v) <= i {
		*v = append(*v, 0)
	}
	(*v)[i] = x
}

func (v *vclock) join(o vclock) {
	for i, x := range o {
		if x > v.at(i) {
			v.set(i, x)
		}
	}
}

// Order is what a synchronisation object knows of the clients that used it.
type Order struct {
	w *World
	v vclock
}

func (o *Order) fresh(w *World) {
	if o.w != w {
		o.w, o.v = w, nil
	}
}

// Acquire orders everything released into o before what follows.
func (o *Order) Acquire() {
	if w := W; w != nil && w.cur != nil {
		o.fresh(w)
		w.cur.vc.join(o.v)
	}
}

// Release orders what came before it before the next Acquire of o.
func (o *Order) Release() {
	if w := W; w != nil && w.cur != nil {
		o.fresh(w)
		o.v.join(w.cur.vc)
		w.cur.tick()
	}
}

func (c *Client) tick() { c.vc.set(c.n, c.vc.at(c.n)+1) }

type mapUse struct {
	m     any // kept alive, so that no other map takes its place
	w     int
	clock uint64
	where string
	reads vclock
	rAt   map[int]string
}

var noRaces bool

// NoRaces is called by code that orders clients by means unknown here.
func NoRaces() bool { noRaces = true; return true }

// MR observes a read of a map, MW a write.
func MR[M ~map[K]V, K comparable, V any](m M) M {
	if w := W; w != nil && len(w.clients) > 1 && w.cur != nil && m != nil && !noRaces {
		w.mapUse(reflect.ValueOf(m).Pointer(), any(m), false)
	}
	return m
}

func MW[M ~map[K]V, K comparable, V any](m M) M {
	if w := W; w != nil && len(w.clients) > 1 && w.cur != nil && m != nil && !noRaces {
		w.mapUse(reflect.ValueOf(m).Pointer(), any(m), true)
	}
	return m
}

func (w *World) mapUse(p uintptr, m any, write bool) {
	c := w.cur
	if w.maps == nil {
		w.maps = map[uintptr]*mapUse{}
	}
	u := w.maps[p]
	if u == nil {
		u = &mapUse{m: m, w: -1}
		w.maps[p] = u
	}
	if u.w >= 0 && u.w != c.n && u.clock > c.vc.at(u.w) {
		w.race(u.where, write, true)
	}
	if write {
		for r, x := range u.reads {
			if r != c.n && x > c.vc.at(r) {
				w.race(u.rAt[r], true, false)
			}
		}
		u.w, u.clock = c.n, c.vc.at(c.n)
		if len(w.clients) > 1 {
			u.where = caller()
		}
		return
	}
	if u.reads.at(c.n) != c.vc.at(c.n) {
		u.reads.set(c.n, c.vc.at(c.n))
		if u.rAt == nil {
			u.rAt = map[int]string{}
		}
		u.rAt[c.n] = caller()
	}
}

func caller() string {
	var pc [12]uintptr
	fr := runtime.CallersFrames(pc[:runtime.Callers(3, pc[:])])
	for {
		f, more := fr.Next()
		if !strings.Contains(f.Function, "/zzsim/") {
			return fmt.Sprintf("%s:%d", f.File[strings.LastIndex(f.File, "/")+1:], f.Line)
		}
		if !more {
			return "?"
		}
	}
}

func (w *World) race(at string, write, wrote bool) {
	what := "concurrent map read and map write"
	if write && wrote {
		what = "concurrent map writes"
	}
	w.fatal(fmt.Sprintf("fatal error: %s (%s and %s, which nothing orders)", what, at, caller()))
}

// fatal ends all clients, as an error does that no code can recover from.
func (w *World) fatal(msg string) {
	if cli {
		finishCLI(2, msg, "")
	}
	for _, c := range w.clients {
		if !c.done && c.Panic == "" {
			c.Panic = msg
		}
	}
	w.Fatal = true
	w.next = w.Steps
	runtime.Goexit()
}
