// Package sync is a drop-in replacement whose blocking is decided by the
// simulator: a client that has to wait hands control to the next one.
package sync

import (
	rsync "sync"

	"github.com/KarmaPenny/pdfparser/zzsim/rt"
)

type Locker = rsync.Locker

type Mutex struct {
	held bool
	ord  rt.Order
}

func (m *Mutex) Lock() {
	rt.Block(func() bool { return !m.held })
	m.held = true
	m.ord.Acquire()
}
func (m *Mutex) TryLock() bool {
	if m.held {
		return false
	}
	m.held = true
	m.ord.Acquire()
	return true
}
func (m *Mutex) Unlock() {
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	m.ord.Release()
	m.held = false
	rt.Step()
}

type RWMutex struct {
	w Mutex
	r int
}

func (m *RWMutex) Lock() {
	rt.Block(func() bool { return !m.w.held && m.r == 0 })
	m.w.Lock()
}
func (m *RWMutex) Unlock() { m.w.Unlock() }
func (m *RWMutex) RLock() {
	rt.Block(func() bool { return !m.w.held })
	m.r++
	m.w.ord.Acquire()
}
func (m *RWMutex) RUnlock() {
	if m.r <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.w.ord.Release()
	m.r--
	rt.Step()
}
func (m *RWMutex) TryLock() bool {
	if m.r > 0 {
		return false
	}
	return m.w.TryLock()
}
func (m *RWMutex) TryRLock() bool {
	if m.w.held {
		return false
	}
	m.r++
	m.w.ord.Acquire()
	return true
}

type rlocker struct{ m *RWMutex }

func (l rlocker) Lock()            { l.m.RLock() }
func (l rlocker) Unlock()          { l.m.RUnlock() }
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	if o.done {
		o.m.ord.Acquire()
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) { o.Do(func() { a, b = f() }); return a, b }
}

type WaitGroup struct {
	n   int
	ord rt.Order
}

func (w *WaitGroup) Add(n int) {
	if w.n += n; w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if n < 0 {
		w.ord.Release()
	}
	rt.Step()
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	rt.Block(func() bool { return w.n == 0 })
	w.ord.Acquire()
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	rt.Go(func() {
		defer w.Done()
		f()
	})
}

type Cond struct {
	L    Locker
	next int
	wake int
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	me := c.next
	c.next++
	c.L.Unlock()
	rt.Block(func() bool { return c.wake > me })
	c.L.Lock()
}
func (c *Cond) Signal() {
	if c.wake < c.next {
		c.wake++
	}
}
func (c *Cond) Broadcast() { c.wake = c.next }

// Map visits its entries in the order they were stored first.
type Map struct {
	m    map[any]any
	keys []any
	ord  rt.Order
}

func (m *Map) sync() {
	rt.Step()
	m.ord.Acquire()
	m.ord.Release()
}
func (m *Map) Load(k any) (any, bool) { m.sync(); v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v any) {
	m.sync()
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	if x, ok := m.Load(k); ok {
		return x, true
	}
	m.Store(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	v, ok := m.Load(k)
	if ok {
		delete(m.m, k)
		for i, x := range m.keys {
			if x == k {
				m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
				break
			}
		}
	}
	return v, ok
}
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }
func (m *Map) Swap(k, v any) (any, bool) {
	x, ok := m.Load(k)
	m.Store(k, v)
	return x, ok
}
func (m *Map) CompareAndSwap(k, a, b any) bool {
	if x, ok := m.Load(k); !ok || x != a {
		return false
	}
	m.Store(k, b)
	return true
}
func (m *Map) CompareAndDelete(k, a any) bool {
	if x, ok := m.Load(k); !ok || x != a {
		return false
	}
	m.Delete(k)
	return true
}
func (m *Map) Clear() { m.sync(); m.m, m.keys = nil, nil }
func (m *Map) Range(f func(k, v any) bool) {
	m.sync()
	for _, k := range append([]any(nil), m.keys...) {
		if v, ok := m.m[k]; ok && !f(k, v) {
			return
		}
	}
}

// Pool keeps everything it is given: the most hostile legal behaviour, and a
// deterministic one.
type Pool struct {
	New   func() any
	ord   rt.Order
	items []any
}

func (p *Pool) Get() any {
	p.ord.Acquire()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x any) {
	p.ord.Release()
	if x != nil {
		p.items = append(p.items, x)
	}
}
