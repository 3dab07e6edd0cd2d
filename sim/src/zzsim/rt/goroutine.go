package rt

import (
	"fmt"
	"iter"
	"runtime"
	"runtime/debug"
)

// Goroutines that code under test starts are clients of the world like the
// ones it is started with: one runs at a time, and the world decides which.

// here makes the code that runs a client: the command's main function.
func (w *World) here() {
	if w.cur == nil {
		c := &Client{ch: make(chan struct{})}
		c.tick()
		w.clients, w.cur = []*Client{c}, c
	}
}

// Go is the go statement.
func Go(fn func()) {
	w := W
	if w == nil {
		go fn()
		return
	}
	w.here()
	me := w.cur
	c := &Client{ID: me.ID, n: len(w.clients), spawned: true, ch: make(chan struct{}), vc: append(vclock(nil), me.vc...)}
	c.tick()
	me.tick()
	w.clients = append(w.clients, c)
	w.Spawned++
	go w.client(c, fn)
	if w.Spawned == 1 && w.Quantum == 0 && w.MapSeed > 1 {
		w.Jitter = NewR(Mix(w.MapSeed, "goroutines"))
		w.Quantum = []uint64{1, 2, 7, 40, 300, 4000}[w.Jitter.N(6)]
		w.arm()
	}
	Step()
	if w.MapSeed == 1 {
		w.SwitchTo(c.n)
	}
}

func (w *World) client(c *Client, fn func()) {
	<-c.ch
	defer func() {
		if e := recover(); e != nil {
			c.Panic = fmt.Sprint(e)
			c.Stack = trimStack(string(debug.Stack()))
			if c.spawned && cli {
				finishCLI(2, c.Panic, c.Stack)
			}
			if c.spawned { // the end of the process
				for _, o := range w.clients {
					if !o.done && o.Panic == "" {
						o.Panic, o.Stack = c.Panic, c.Stack
					}
				}
				w.Fatal = true
			}
		}
		c.done = true
		top, left := false, false
		for _, o := range w.clients {
			left = left || !o.done
			top = top || !o.done && !o.spawned
		}
		if !left {
			w.cur = nil
			close(w.all)
			return
		}
		if !top { // nobody waits for what is left
			w.ending = true
		}
		o := w.runnable(0)
		if o == nil {
			w.deadlock()
			o = w.runnable(0)
		}
		w.cur = o
		o.ch <- struct{}{}
	}()
	if !w.dying() {
		fn()
		c.Finished = true
	}
}

func (w *World) dying() bool { return w.Fatal || w.OverBudget || w.ending }

// runnable is the first client at or after place id (cyclic) that can go on.
func (w *World) runnable(id int) *Client {
	n := len(w.clients)
	for i := 0; i < n; i++ {
		if c := w.clients[(id+i)%n]; !c.done && (c.wait == nil || w.dying() || c.wait()) {
			return c
		}
	}
	return nil
}

func (w *World) deadlock() {
	msg := "fatal error: all goroutines are asleep - deadlock!"
	if cli {
		finishCLI(2, msg, "")
	}
	for _, c := range w.clients {
		if !c.done && c.Panic == "" {
			c.Panic = msg
		}
	}
	w.Fatal = true
}

// Block waits until the condition holds.
func Block(cond func() bool) {
	w := W
	if w == nil {
		for !cond() {
			runtime.Gosched()
		}
		return
	}
	w.here()
	for !cond() {
		if w.dying() {
			runtime.Goexit()
		}
		Step()
		me := w.cur
		me.wait = cond
		c := w.runnable(me.n + 1)
		if c == nil {
			w.deadlock()
			runtime.Goexit()
		}
		if c != me {
			w.cur = c
			c.ch <- struct{}{}
			<-me.ch
		}
		me.wait = nil
	}
	if w.dying() {
		runtime.Goexit()
	}
}

// Chan is a channel.
type Chan[T any] struct {
	n      int
	buf    []T
	closed bool
	recvq  []*waiter[T]
	sendq  []*waiter[T]
	ord    Order
}

type waiter[T any] struct {
	v    T
	ok   bool
	done bool
	sel  *selection
	at   int
}

type selection struct{ fired int }

func (x *waiter[T]) free() bool { return !x.done && (x.sel == nil || x.sel.fired < 0) }

func (x *waiter[T]) finish() {
	x.done = true
	if x.sel != nil {
		x.sel.fired = x.at
	}
}

func pop[T any](q *[]*waiter[T]) *waiter[T] {
	for len(*q) > 0 {
		x := (*q)[0]
		*q = (*q)[1:]
		if x.free() {
			return x
		}
	}
	return nil
}

func waits[T any](q []*waiter[T]) bool {
	for _, x := range q {
		if x.free() {
			return true
		}
	}
	return false
}

func MakeChan[T any](n int) *Chan[T] {
	if n < 0 {
		panic("makechan: size out of range")
	}
	return &Chan[T]{n: n}
}

func (c *Chan[T]) order() {
	c.ord.Acquire()
	c.ord.Release()
}

func (c *Chan[T]) canSend() bool { return c.closed || waits(c.recvq) || len(c.buf) < c.n }
func (c *Chan[T]) canRecv() bool { return len(c.buf) > 0 || waits(c.sendq) || c.closed }

// send and recv act at once; the caller knows that they can.
func (c *Chan[T]) send(v T) {
	if c.closed {
		panic("send on closed channel")
	}
	if x := pop(&c.recvq); x != nil {
		x.v, x.ok = v, true
		x.finish()
		return
	}
	c.buf = append(c.buf, v)
}

func (c *Chan[T]) recv() (v T, ok bool) {
	if len(c.buf) > 0 {
		v = c.buf[0]
		c.buf = c.buf[1:]
		if x := pop(&c.sendq); x != nil {
			c.buf = append(c.buf, x.v)
			x.finish()
		}
		return v, true
	}
	if x := pop(&c.sendq); x != nil {
		x.finish()
		return x.v, true
	}
	return v, false
}

func (c *Chan[T]) Send(v T) {
	Step()
	if c == nil {
		Block(func() bool { return false })
	}
	c.order()
	if c.canSend() {
		c.send(v)
		return
	}
	x := &waiter[T]{v: v}
	c.sendq = append(c.sendq, x)
	Block(func() bool { return x.done || c.closed })
	if !x.done {
		x.done = true
		panic("send on closed channel")
	}
	c.order()
}

func (c *Chan[T]) Recv() T { v, _ := c.Recv2(); return v }

func (c *Chan[T]) Recv2() (T, bool) {
	Step()
	if c == nil {
		Block(func() bool { return false })
	}
	if c.canRecv() {
		v, ok := c.recv()
		c.order()
		return v, ok
	}
	c.order()
	x := &waiter[T]{}
	c.recvq = append(c.recvq, x)
	Block(func() bool { return x.done || c.closed })
	x.done = true
	c.order()
	return x.v, x.ok
}

func (c *Chan[T]) Close() {
	if c == nil {
		panic("close of nil channel")
	}
	if c.closed {
		panic("close of closed channel")
	}
	c.order()
	c.closed = true
	Step()
}

func (c *Chan[T]) Len() int {
	if c == nil {
		return 0
	}
	return len(c.buf)
}

func (c *Chan[T]) Cap() int {
	if c == nil {
		return 0
	}
	return c.n
}

func (c *Chan[T]) Seq() iter.Seq[T] {
	return func(yield func(T) bool) {
		for {
			v, ok := c.Recv2()
			if !ok || !yield(v) {
				return
			}
		}
	}
}

// Case is a case of a select statement.
type Case interface {
	ready() bool
	act()
	enqueue(*selection, int)
	closed() bool
	late()
}

type RCase[T any] struct {
	c  *Chan[T]
	v  T
	ok bool
	x  *waiter[T]
}

type SCase[T any] struct {
	c *Chan[T]
	v T
	x *waiter[T]
}

func RecvCase[T any](c *Chan[T]) *RCase[T] { return &RCase[T]{c: c} }
func (c *Chan[T]) SendCase(v T) *SCase[T]  { return &SCase[T]{c: c, v: v} }
func (k *RCase[T]) Get() T                 { return k.v }
func (k *RCase[T]) Get2() (T, bool)        { return k.v, k.ok }
func (k *RCase[T]) ready() bool            { return k.c != nil && k.c.canRecv() }
func (k *SCase[T]) ready() bool            { return k.c != nil && k.c.canSend() }
func (k *RCase[T]) act()                   { k.v, k.ok = k.c.recv(); k.c.order() }
func (k *SCase[T]) act()                   { k.c.order(); k.c.send(k.v) }
func (k *RCase[T]) closed() bool           { return k.c != nil && k.c.closed }
func (k *SCase[T]) closed() bool           { return k.c != nil && k.c.closed }
func (k *RCase[T]) late()                  { k.v, k.ok = k.x.v, k.x.ok; k.c.order() }
func (k *SCase[T]) late()                  { k.c.order() }
func (k *RCase[T]) enqueue(s *selection, i int) {
	if k.c != nil {
		k.c.order()
		k.x = &waiter[T]{sel: s, at: i}
		k.c.recvq = append(k.c.recvq, k.x)
	}
}
func (k *SCase[T]) enqueue(s *selection, i int) {
	if k.c != nil {
		k.c.order()
		k.x = &waiter[T]{sel: s, at: i, v: k.v}
		k.c.sendq = append(k.c.sendq, k.x)
	}
}

// Select is the select statement: the case taken, -1 for the default one.
func Select(def bool, cases ...Case) int {
	Step()
	var ready []int
	for i, k := range cases {
		if k.ready() {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		i := ready[0]
		if w := W; w != nil && w.MapSeed == 1 {
			i = ready[len(ready)-1]
		} else if w != nil && w.MapSeed > 1 {
			i = ready[w.mapR.N(len(ready))]
		}
		cases[i].act()
		return i
	}
	if def {
		return -1
	}
	s := &selection{fired: -1}
	for i, k := range cases {
		k.enqueue(s, i)
	}
	closed := func() int {
		for i, k := range cases {
			if k.closed() {
				return i
			}
		}
		return -1
	}
	Block(func() bool { return s.fired >= 0 || closed() >= 0 })
	if s.fired >= 0 {
		cases[s.fired].late()
		return s.fired
	}
	i := closed()
	s.fired = i
	cases[i].act()
	return i
}
