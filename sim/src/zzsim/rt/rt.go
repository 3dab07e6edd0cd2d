// Package rt is the core of the simulator: one World per run owns the step
// clock, map iteration order, scheduling of clients and the simulated disk.
// Exactly one goroutine runs simulated code at any moment.
package rt

import (
	"fmt"
	"iter"
	"reflect"
	"runtime"
	"sort"
	"strings"
)

// W is the current world. nil outside a run.
var W *World

type Switch struct {
	At uint64 `json:"at"` // global step (or operation) at which control moves
	To int    `json:"to"` // client that continues
}

type Client struct {
	ID       int
	Panic    string // panic value, when the client panicked
	Stack    string
	Finished bool // function returned normally
	done     bool
	n        int // place in World.clients
	vc       vclock
	spawned  bool        // started by a go statement
	wait     func() bool // what it waits for
	ch       chan struct{}
}

type World struct {
	// configuration
	MapSeed    uint64 // 0: sorted order; 1: reverse sorted; else shuffled
	StepBudget uint64
	AllocLimit int64 // single allocation limit in elements
	Switches   []Switch
	Quantum    uint64 // when > 0, round-robin every Quantum steps
	Jitter     *R     // when set, after 1 to 2*Quantum steps, and to any client

	// state
	Steps      uint64
	OverBudget bool
	OverAlloc  int64
	Allocated  int64
	MapRanges  uint64
	Preempts   uint64
	Unordered  uint64
	mapR       *R
	next       uint64
	clients    []*Client
	cur        *Client
	Fatal      bool // the process died
	maps       map[uintptr]*mapUse
	Spawned    int  // goroutines started
	ending     bool // only such goroutines are left
	all        chan struct{}
	Stopped    bool // crashed: nothing has any effect any more
	FS         *FS
}

func NewWorld() *World {
	w := &World{StepBudget: 1 << 40, AllocLimit: 1 << 28}
	w.FS = NewFS(w)
	return w
}

func (w *World) arm() {
	w.next = w.StepBudget
	if len(w.Switches) > 0 && w.Switches[0].At < w.next {
		w.next = w.Switches[0].At
	}
	q := w.Quantum
	if q > 0 && w.Jitter != nil {
		q = 1 + w.Jitter.U64()%(2*q)
	}
	if q > 0 && w.Steps+q < w.next {
		w.next = w.Steps + q
	}
}

// Step is the clock tick of instrumented code.
func Step() {
	w := W
	if w == nil {
		return
	}
	w.Steps++
	if w.Steps >= w.next {
		w.slow()
	}
}

// Point is a place where control may pass to another client. It is no work.
func Point() {
	w := W
	if w == nil {
		return
	}
	w.Steps++
	w.StepBudget++
	if w.Steps >= w.next {
		w.slow()
	}
}

func (w *World) slow() {
	if cli && w.Steps >= w.StepBudget {
		w.OverBudget = true
		finishCLI(3, "", "")
	}
	if w.cur == nil {
		return
	}
	if w.Steps >= w.StepBudget {
		w.OverBudget = true
	}
	if w.dying() {
		w.next = w.Steps // every further step ends its goroutine too
		runtime.Goexit()
	}
	to := -1
	for len(w.Switches) > 0 && w.Switches[0].At <= w.Steps {
		to = w.Switches[0].To
		w.Switches = w.Switches[1:]
	}
	if to < 0 && w.Quantum > 0 {
		to = w.cur.n + 1
		if w.Jitter != nil {
			to = w.Jitter.N(len(w.clients))
		}
	}
	w.arm()
	if to >= 0 {
		w.SwitchTo(to)
	}
}

// SwitchTo hands control to the first runnable client at or after id (cyclic).
func (w *World) SwitchTo(id int) {
	me := w.cur
	if me == nil {
		return
	}
	if c := w.runnable(id); c != nil && c != me {
		w.Preempts++
		w.cur = c
		c.ch <- struct{}{}
		<-me.ch
		if w.dying() {
			w.next = w.Steps
		}
	}
}

// Run executes the functions as clients of the world, one at a time, under the
// world's schedule, and returns when all have ended.
func (w *World) Run(fns ...func()) []*Client {
	if W != nil {
		panic("nested world")
	}
	W = w
	w.mapR = NewR(w.MapSeed)
	w.Switches = append([]Switch(nil), w.Switches...)
	sort.SliceStable(w.Switches, func(i, j int) bool { return w.Switches[i].At < w.Switches[j].At })
	w.arm()
	w.clients = nil
	w.all = make(chan struct{})
	for i := range fns {
		c := &Client{ID: i, n: i, ch: make(chan struct{})}
		c.tick()
		w.clients = append(w.clients, c)
	}
	for i := range fns {
		go w.client(w.clients[i], fns[i])
	}
	w.cur = w.clients[0]
	w.clients[0].ch <- struct{}{}
	<-w.all
	W = nil
	return w.clients[:len(fns)]
}

func (w *World) CurID() int {
	if w.cur == nil {
		return 0
	}
	return w.cur.ID
}

func trimStack(s string) string {
	var out []string
	lines := strings.Split(s, "\n")
	for i := 0; i+1 < len(lines); i++ {
		l := lines[i]
		if strings.HasPrefix(l, "github.com/KarmaPenny") && !strings.Contains(l, "/zzsim/") {
			loc := strings.TrimSpace(lines[i+1])
			if j := strings.LastIndex(loc, "/"); j >= 0 {
				loc = loc[j+1:]
			}
			if j := strings.Index(loc, " +0x"); j >= 0 {
				loc = loc[:j]
			}
			if j := strings.IndexByte(l, '('); j > 0 && strings.LastIndex(l, "(") > 0 {
				l = l[strings.LastIndex(l, "/")+1:]
				if k := strings.LastIndex(l, "("); k > 0 {
					l = l[:k]
				}
			}
			out = append(out, l+" "+loc)
			if len(out) >= 6 {
				break
			}
		}
	}
	return strings.Join(out, " < ")
}

type integer interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}

// Alloc observes the size operand of a make. An allocation no input could
// justify ends the run as over-budget instead of exhausting real memory.
func Alloc[I integer](n I) I {
	w := W
	if w != nil && n > 0 {
		v := int64(n)
		if v > w.AllocLimit {
			w.OverAlloc = v
			// sizes beyond the address space panic in make, as they do for real
			if v < 1<<46 {
				runtime.Goexit()
			}
			return n
		}
		w.Allocated += v
	}
	return n
}

// MapRange iterates a map in the order the world decides.
func MapRange[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		w := W
		if w == nil {
			for k, v := range m {
				if !yield(k, v) {
					return
				}
			}
			return
		}
		keys := MapKeys(m)
		for _, k := range keys {
			v, ok := m[k]
			if !ok {
				continue // deleted during the iteration
			}
			if !yield(k, v) {
				return
			}
		}
		// Entries added during the iteration may be visited or not.
		if len(m) == 0 || w.MapSeed == 0 || w.MapSeed > 1 && w.mapR.N(2) == 0 {
			return
		}
		seen := make(map[K]bool, len(keys))
		for _, k := range keys {
			seen[k] = true
		}
		for {
			var late []K
			for k := range m {
				if !seen[k] {
					late = append(late, k)
				}
			}
			if len(late) == 0 {
				return
			}
			orderKeys(w, late)
			for _, k := range late {
				seen[k] = true
				v, ok := m[k]
				if ok && !yield(k, v) {
					return
				}
			}
		}
	}
}

// MapKeys returns the keys in the order the world decides.
func MapKeys[M ~map[K]V, K comparable, V any](m M) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	w := W
	if w == nil {
		return keys
	}
	w.MapRanges++
	orderKeys(w, keys)
	return keys
}

func orderKeys[K comparable](w *World, keys []K) {
	sortKeys(w, keys)
	switch w.MapSeed {
	case 0:
	case 1:
		for i, j := 0, len(keys)-1; i < j; i, j = i+1, j-1 {
			keys[i], keys[j] = keys[j], keys[i]
		}
	default:
		for i := len(keys) - 1; i > 0; i-- {
			j := w.mapR.N(i + 1)
			keys[i], keys[j] = keys[j], keys[i]
		}
	}
}

func sortKeys[K comparable](w *World, keys []K) {
	if len(keys) < 2 {
		return
	}
	switch ks := any(keys).(type) {
	case []int:
		sort.Ints(ks)
		return
	case []string:
		sort.Strings(ks)
		return
	case []int64:
		sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
		return
	}
	switch reflect.TypeOf(keys[0]).Kind() {
	case reflect.String:
		sort.Slice(keys, func(i, j int) bool { return reflect.ValueOf(keys[i]).String() < reflect.ValueOf(keys[j]).String() })
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		sort.Slice(keys, func(i, j int) bool { return reflect.ValueOf(keys[i]).Int() < reflect.ValueOf(keys[j]).Int() })
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		sort.Slice(keys, func(i, j int) bool { return reflect.ValueOf(keys[i]).Uint() < reflect.ValueOf(keys[j]).Uint() })
	default:
		w.Unordered++
		s := make(map[K]string, len(keys))
		for _, k := range keys {
			s[k] = fmt.Sprintf("%v", k)
		}
		sort.SliceStable(keys, func(i, j int) bool { return s[keys[i]] < s[keys[j]] })
	}
}
