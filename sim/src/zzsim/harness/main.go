// harness runs simulated executions of the code under test and judges them.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/KarmaPenny/pdfparser/zzsim/rt"
)

// exit codes of the machinery itself
const (
	exitTrouble = 3  // the check could not be carried out
	exitHarness = 98 // the harness itself failed in a child process
)

func fatal(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "harness: "+format+"\n", a...)
	os.Exit(exitHarness)
}

func trouble(format string, a ...interface{}) {
	fmt.Printf("TROUBLE: "+format+"\n", a...)
	os.Exit(exitTrouble)
}

// limits bounds what a run can take from the machine.
func limits() {
	debug.SetMaxStack(16 << 20)
	debug.SetMemoryLimit(1 << 30)
	lim := syscall.Rlimit{Cur: 4 << 30, Max: 4 << 30}
	syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
}

func scenario(prop, tier string, seed uint64, i int) *Scn {
	return props[prop].Gen(rt.NewR(rt.Mix(seed, fmt.Sprintf("%s/%d", prop, i))), tier)
}

// Rec is the wire form of a result.
type Rec struct {
	I       int            `json:"i"`
	Class   string         `json:"class,omitempty"`
	Msg     string         `json:"msg,omitempty"`
	Trace   uint64         `json:"trace"`
	Steps   uint64         `json:"steps"`
	Parses  int            `json:"parses"`
	Fired   map[string]int `json:"fired,omitempty"`
	Probe   map[string]int `json:"probe,omitempty"`
	Skip    bool           `json:"skip,omitempty"`
	Harness string         `json:"harness,omitempty"` // the harness panicked
	Ms      int64          `json:"ms,omitempty"`
}

func runOne(s *Scn) (rec Rec) {
	t := time.Now()
	defer func() {
		if e := recover(); e != nil {
			rec.Harness = fmt.Sprintf("%v\n%s", e, debug.Stack())
		}
		rec.Ms = time.Since(t).Milliseconds()
	}()
	p := props[s.Prop]
	if p == nil {
		panic("unknown property " + s.Prop)
	}
	res := p.Run(s)
	return Rec{Class: res.Class, Msg: res.Msg, Trace: res.h.h, Steps: res.Steps, Parses: res.Parses, Fired: res.Fired, Probe: res.Probe, Skip: res.Skip}
}

func workerMain(a []string) {
	limits()
	prop, tier := a[0], a[1]
	seed, _ := strconv.ParseUint(a[2], 10, 64)
	from, _ := strconv.Atoi(a[3])
	to, _ := strconv.Atoi(a[4])
	w := bufio.NewWriter(os.Stdout)
	for i := from; i < to; i++ {
		fmt.Fprintf(w, "S %d\n", i)
		w.Flush()
		var rec Rec
		func() {
			defer func() {
				if e := recover(); e != nil {
					rec.Harness = fmt.Sprintf("generating: %v\n%s", e, debug.Stack())
				}
			}()
			rec = runOne(scenario(prop, tier, seed, i))
		}()
		rec.I = i
		b, _ := json.Marshal(rec)
		fmt.Fprintf(w, "R %s\n", b)
		w.Flush()
	}
}

// serverMain answers one line per list of scenarios: all but the last are only
// run, the last is judged.
func serverMain() {
	limits()
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		line, err := in.ReadBytes('\n')
		if len(bytes.TrimSpace(line)) == 0 || err != nil && err != io.EOF {
			return
		}
		var scns []*Scn
		if e := json.Unmarshal(line, &scns); e != nil {
			fatal("server: %v", e)
		}
		var rec Rec
		for _, s := range scns {
			rec = runOne(s)
			if rec.Harness != "" {
				break
			}
		}
		b, _ := json.Marshal(rec)
		fmt.Printf("%s\n", b)
		if err == io.EOF {
			return
		}
	}
}

// Server is a child process that judges scenarios.
type Server struct {
	c   *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	err *bytes.Buffer
}

func (s *Server) start() {
	exe, _ := os.Executable()
	s.c = exec.Command(exe, "server")
	s.c.Env = append(os.Environ(), "GOMAXPROCS=2")
	s.in, _ = s.c.StdinPipe()
	o, _ := s.c.StdoutPipe()
	s.out = bufio.NewReaderSize(o, 1<<20)
	s.err = &bytes.Buffer{}
	s.c.Stderr = s.err
	if err := s.c.Start(); err != nil {
		trouble("%v", err)
	}
}

func (s *Server) stop() {
	if s.c != nil {
		s.in.Close()
		s.c.Process.Kill()
		s.c.Wait()
		s.c = nil
	}
}

// judge runs the scenarios in the server process. A death of the process is a
// result, too.
func (s *Server) judge(scns []*Scn, limit time.Duration) Rec {
	if s.c == nil {
		s.start()
	}
	b, _ := json.Marshal(scns)
	t := time.AfterFunc(limit, func() { s.c.Process.Kill() })
	s.in.Write(append(b, '\n'))
	line, err := s.out.ReadBytes('\n')
	inTime := t.Stop()
	if err == nil {
		var r Rec
		if json.Unmarshal(line, &r) == nil {
			return r
		}
	}
	s.c.Wait()
	rec := deathRec(s.c, s.err.Bytes())
	s.c = nil
	if !inTime {
		rec = Rec{Harness: "timeout"}
	}
	return rec
}

// deathRec describes a child that ended by itself without answering.
func deathRec(c *exec.Cmd, errs []byte) Rec {
	code := -1
	if c.ProcessState != nil {
		code = c.ProcessState.ExitCode()
	}
	if code == exitHarness {
		return Rec{Harness: firstLines(errs, 8)}
	}
	return Rec{Class: "process", Msg: fmt.Sprintf("the process died (%v): %s", c.ProcessState, firstLines(errs, 2))}
}

func fresh(scns []*Scn, limit time.Duration) Rec {
	s := &Server{}
	defer s.stop()
	return s.judge(scns, limit)
}

// Replay is the file a violation leaves behind.
type Replay struct {
	Property  string `json:"property"`
	Seed      uint64 `json:"seed"`
	Tier      string `json:"tier"`
	Index     int    `json:"index"`
	Class     string `json:"class"`
	Message   string `json:"message"`
	Minimised bool   `json:"minimised"`
	Note      string `json:"note,omitempty"`
	Scenarios []*Scn `json:"scenarios"` // run in this order in one fresh process; the last one is judged
}

func replayMain(file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		trouble("%v", err)
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		trouble("%v", err)
	}
	rec := fresh(r.Scenarios, 10*time.Minute)
	if rec.Harness != "" {
		trouble("%s", rec.Harness)
	}
	if rec.Class == "" {
		fmt.Printf("replay of %s: property %s holds in this execution\n", file, r.Property)
		return
	}
	fmt.Printf("%s: %s\n", rec.Class, rec.Msg)
	if rec.Class == r.Class && rec.Msg == r.Message {
		fmt.Println("reproduced exactly")
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, file)
	os.Exit(1)
}

// coordinator ------------------------------------------------------------------------

type runCount struct{ quick, chunk int }

type found struct {
	rec   Rec
	first int // first index run by the process that found it
}

type stats struct {
	sync.Mutex
	runs, skipped, parses int
	steps                 uint64
	fired, probe          map[string]int
	traces, nontrivial    map[uint64]struct{}
	byIndex               map[int]uint64
	found                 []found
	harness               []string
	stop                  bool
	hung                  []int
	sample                int
	slowest               int64
	slowestI              int
}

func (st *stats) add(r Rec, first int) {
	st.Lock()
	defer st.Unlock()
	if r.Harness != "" {
		st.harness = append(st.harness, fmt.Sprintf("run %d: %s", r.I, r.Harness))
		st.stop = true
		return
	}
	st.runs++
	st.parses += r.Parses
	st.steps += r.Steps
	if r.Ms > st.slowest {
		st.slowest, st.slowestI = r.Ms, r.I
	}
	if r.Skip {
		st.skipped++
	}
	for k, v := range r.Fired {
		st.fired[k] += v
	}
	for k, v := range r.Probe {
		st.probe[k] += v
	}
	if r.Trace != 0 {
		st.traces[r.Trace] = struct{}{}
		if r.Probe["nontrivial"] > 0 && !r.Skip {
			st.nontrivial[r.Trace] = struct{}{}
			if st.sample < 0 || r.I < st.sample {
				st.sample = r.I
			}
		}
		if len(st.byIndex) < 200000 {
			st.byIndex[r.I] = r.Trace
		}
	}
	if r.Class != "" {
		st.found = append(st.found, found{r, first})
		st.stop = true
	}
}

func (st *stats) stopped() bool { st.Lock(); defer st.Unlock(); return st.stop }

const hangLimit = 180 * time.Second

// runRange runs [from, to) in one worker process after another.
func runRange(st *stats, prop, tier string, seed uint64, from, to int, deadline time.Time) {
	exe, _ := os.Executable()
	for from < to && !st.stopped() && time.Now().Before(deadline) {
		c := exec.Command(exe, "worker", prop, tier, fmt.Sprint(seed), fmt.Sprint(from), fmt.Sprint(to))
		c.Env = append(os.Environ(), "GOMAXPROCS=2", "GOGC=200")
		o, _ := c.StdoutPipe()
		var errs bytes.Buffer
		c.Stderr = &errs
		if err := c.Start(); err != nil {
			trouble("%v", err)
		}
		hung := false
		t := time.AfterFunc(hangLimit, func() { hung = true; c.Process.Kill() })
		first, cur, done := from, -1, from
		in := bufio.NewReaderSize(o, 1<<20)
		for {
			line, err := in.ReadBytes('\n')
			if err != nil {
				break
			}
			t.Reset(hangLimit)
			if line[0] == 'S' {
				cur, _ = strconv.Atoi(strings.TrimSpace(string(line[2:])))
				continue
			}
			var r Rec
			if json.Unmarshal(line[2:], &r) != nil {
				break
			}
			st.add(r, first)
			done = r.I + 1
			if r.Class != "" || r.Harness != "" || !time.Now().Before(deadline) {
				break
			}
		}
		t.Stop()
		if done >= to || cur < done {
			c.Process.Kill()
			c.Wait()
			return
		}
		// cur was in flight when the output ended, or we stopped reading
		if st.stopped() && done == cur {
			// another run failed; this process may still have been alive
			c.Process.Kill()
		}
		c.Wait()
		if hung {
			st.Lock()
			st.hung = append(st.hung, cur)
			st.stop = true
			st.Unlock()
			return
		}
		if st.stopped() {
			return
		}
		rec := deathRec(c, errs.Bytes())
		rec.I = cur
		st.add(rec, first)
		from = cur + 1
	}
}

func checkMain(prop string) {
	p := props[prop]
	if p == nil {
		trouble("no property %q", prop)
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	root := os.Getenv("VERIF_ROOT")
	start := time.Now()

	chunk := p.Chunk
	if chunk == 0 {
		chunk = 64
	}
	runs, wall := p.Quick, 240*time.Second
	if tier == "thorough" {
		runs, wall = p.Quick*400, 600*time.Second
	}
	if v, err := strconv.Atoi(os.Getenv("ZZSIM_RUNS")); err == nil {
		runs = v
	}
	if v, err := strconv.Atoi(os.Getenv("ZZSIM_WALL")); err == nil {
		wall = time.Duration(v) * time.Second
	}
	deadline := start.Add(wall)
	st := &stats{fired: map[string]int{}, probe: map[string]int{}, traces: map[uint64]struct{}{}, nontrivial: map[uint64]struct{}{}, byIndex: map[int]uint64{}, sample: -1}
	var wg sync.WaitGroup
	next := make(chan int)
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for from := range next {
				runRange(st, prop, tier, seed, from, min(from+chunk, runs), deadline)
			}
		}()
	}
	for from := 0; from < runs && !st.stopped() && time.Now().Before(deadline); from += chunk {
		next <- from
	}
	close(next)
	wg.Wait()
	explored := time.Since(start)

	if len(st.harness) > 0 {
		trouble("%s", st.harness[0])
	}
	violations := 0
	var rep *Replay
	if len(st.found) > 0 {
		sort.Slice(st.found, func(i, j int) bool { return st.found[i].rec.I < st.found[j].rec.I })
		rep = confirm(st.found, prop, tier, seed)
		if rep == nil {
			trouble("run %d showed %q (%s) but could not be reproduced", st.found[0].rec.I, st.found[0].rec.Class, st.found[0].rec.Msg)
		}
		violations = 1
	} else if len(st.hung) > 0 {
		trouble("run %d did not end within %v", st.hung[0], hangLimit)
	}

	same, compared := 0, 0
	var odd []int
	if rep == nil {
		same, compared, odd = selfTest(st, prop, tier, seed, runs)
	}

	writeEvidence(root, prop, tier, seed, st, p, start, explored, violations, rep, same, compared)
	if rep != nil {
		dir := filepath.Join(root, "replays")
		os.MkdirAll(dir, 0755)
		name := filepath.Join(dir, fmt.Sprintf("%s-%d-%d.json", prop, seed, rep.Index))
		b, _ := json.MarshalIndent(rep, "", " ")
		if err := os.WriteFile(name, b, 0644); err != nil {
			trouble("%v", err)
		}
		fmt.Printf("%s: run %d of seed %d: %s: %s\n", prop, rep.Index, seed, rep.Class, rep.Message)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, name)
		os.Exit(1)
	}
	if len(odd) > 0 {
		// the same scenario gave another trace in another process
		trouble("run %d is not deterministic", odd[0])
	}
	fmt.Printf("%s: held in %d runs (%d distinct non-trivial), %d parses, %.1f s\n", prop, st.runs, len(st.nontrivial), st.parses, explored.Seconds())
}

// confirm reproduces a violation in a fresh process and minimises it.
func confirm(fs []found, prop, tier string, seed uint64) *Replay {
	for k, f := range fs {
		if k > 8 {
			break
		}
		s := scenario(prop, tier, seed, f.rec.I)
		r := fresh([]*Scn{s}, hangLimit)
		if r.Class != "" {
			rep := &Replay{Property: prop, Seed: seed, Tier: tier, Index: f.rec.I, Class: r.Class, Message: r.Msg, Scenarios: []*Scn{s}}
			if os.Getenv("ZZSIM_MIN") != "0" {
				minimise(rep)
			}
			return rep
		}
	}
	// only after other runs: keep as much of the history as is needed
	for k, f := range fs {
		if k > 3 {
			break
		}
		var pre []*Scn
		for i := f.first; i < f.rec.I; i++ {
			pre = append(pre, scenario(prop, tier, seed, i))
		}
		last := scenario(prop, tier, seed, f.rec.I)
		try := func(p []*Scn) Rec {
			return fresh(append(append([]*Scn(nil), p...), last), hangLimit)
		}
		r := try(pre)
		if r.Class == "" {
			continue
		}
		for n := len(pre); n >= 1; n /= 2 {
			for i := 0; i+n <= len(pre); {
				c := append(append([]*Scn(nil), pre[:i]...), pre[i+n:]...)
				if x := try(c); x.Class == r.Class {
					pre, r = c, x
				} else {
					i += n
				}
			}
		}
		return &Replay{Property: prop, Seed: seed, Tier: tier, Index: f.rec.I, Class: r.Class, Message: r.Msg, Minimised: true,
			Note: "the violation needs the earlier runs of the same process", Scenarios: append(pre, last)}
	}
	return nil
}

// selfTest repeats a sample of the runs in other processes, in another order.
func selfTest(st *stats, prop, tier string, seed uint64, runs int) (same, compared int, odd []int) {
	var idx []int
	for i := range st.byIndex {
		idx = append(idx, i)
	}
	sort.Ints(idx)
	if len(idx) == 0 {
		return
	}
	r := rt.NewR(seed ^ 0x5e1f)
	want := 40
	if tier == "thorough" {
		want = 400
	}
	if props[prop].Fresh {
		want /= 4
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	per := max(1, want/8)
	for k := 0; k < 8; k++ {
		var pick []int
		for j := 0; j < per; j++ {
			pick = append(pick, idx[r.N(len(idx))])
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			s := &Server{}
			defer s.stop()
			for _, i := range pick {
				rec := s.judge([]*Scn{scenario(prop, tier, seed, i)}, hangLimit)
				if rec.Trace != st.byIndex[i] {
					// state carried over between runs is not the simulator's doing:
					// decide on fresh processes
					a := fresh([]*Scn{scenario(prop, tier, seed, i)}, hangLimit)
					b := fresh([]*Scn{scenario(prop, tier, seed, i)}, hangLimit)
					mu.Lock()
					compared++
					if a.Trace != b.Trace {
						odd = append(odd, i)
					}
					mu.Unlock()
					continue
				}
				mu.Lock()
				compared++
				same++
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	return
}

func writeEvidence(root, prop, tier string, seed uint64, st *stats, p *Prop, start time.Time, explored time.Duration, violations int, rep *Replay, same, compared int) {
	secs := explored.Seconds()
	if secs < 0.001 {
		secs = 0.001
	}
	var samples []interface{}
	if st.sample >= 0 {
		samples = append(samples, map[string]interface{}{"index": st.sample, "scenario": scenario(prop, tier, seed, st.sample)})
	}
	if rep != nil {
		samples = append(samples, map[string]interface{}{"violation": rep})
	}
	if len(samples) == 0 {
		samples = append(samples, map[string]interface{}{"index": 0, "scenario": scenario(prop, tier, seed, 0)})
	}
	faults := map[string]int{}
	for k, v := range st.fired {
		faults[k] = v
	}
	probe := map[string]int{}
	for k, v := range st.probe {
		probe[k] = v
	}
	var build json.RawMessage
	if b, err := os.ReadFile(os.Getenv("ZZSIM_STATS")); err == nil {
		build = b
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]interface{}{
			"evaluations":              st.runs,
			"distinct_nontrivial":      len(st.nontrivial),
			"rule":                     p.Rule + "; distinct: by a hash over every file operation, its outcome, the result of every call and every byte left on the simulated disk",
			"samples":                  samples,
			"seed_range":               fmt.Sprintf("run i uses Mix(%d, \"%s/i\"), i = 0..%d", seed, prop, max(0, st.runs-1)),
			"runs_per_hour":            int(float64(st.runs) / secs * 3600),
			"parses":                   st.parses,
			"simulated_steps":          st.steps,
			"simulated_time_note":      "the code has no clock; simulated time is the number of instrumented steps (function entries and loop iterations) executed",
			"runs_that_did_not_apply":  st.skipped,
			"faults_and_perturbations": faults,
			"probes":                   probe,
			"distinct_traces":          len(st.traces),
			"determinism_selftest":     map[string]int{"repeated_in_another_process": compared, "identical": same},
			"slowest_run":              map[string]int64{"index": int64(st.slowestI), "ms": st.slowest},
			"instrumentation":          build,
			"real_components":          "every package of /repo, rewritten at its seams from the working tree; the Go standard library and x/image above the file system",
			"stub_components":          "package os, io/ioutil, sync and path/filepath (simulated file system, handles, process), map iteration order, preemption, stack and step limits",
		},
		"assumptions": []string{
			"operating-system behaviour is as modelled by the simulated file system",
			"the reference model in zzsim/gen states what each document contains",
		},
		"wall_s":     time.Since(start).Seconds(),
		"violations": violations,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(root, "evidence")
	os.MkdirAll(dir, 0755)
	if err := os.WriteFile(filepath.Join(dir, prop+".json"), append(b, '\n'), 0644); err != nil {
		trouble("%v", err)
	}
}

func main() {
	if len(os.Args) < 2 {
		trouble("usage")
	}
	switch os.Args[1] {
	case "check":
		checkMain(os.Args[2])
	case "worker":
		workerMain(os.Args[2:])
	case "server":
		serverMain()
	case "exec":
		execMain()
	case "replay":
		replayMain(os.Args[2])
	case "show": // prop index: print a scenario and its first document
		seed, _ := strconv.ParseUint(os.Args[3], 10, 64)
		i, _ := strconv.Atoi(os.Args[4])
		s := scenario(os.Args[2], "quick", seed, i)
		b, _ := json.MarshalIndent(s, "", " ")
		fmt.Fprintf(os.Stderr, "%s\n", b)
		if len(s.Docs) > 0 {
			os.Stdout.Write(s.Docs[0].Build().Data)
		}
	case "bytes": // replay file: the bytes of the last scenario's documents
		b, _ := os.ReadFile(os.Args[2])
		var r Replay
		json.Unmarshal(b, &r)
		c := r.Scenarios[len(r.Scenarios)-1]
		for _, d := range c.Docs {
			b := d.Build()
			switch r.Property {
			case "C10":
				os.Stdout.Write(damageXref(b, c.Acts).data)
				continue
			case "C24":
				_, data := hurtSome(c, b)
				os.Stdout.Write(data)
				continue
			case "C25":
				os.Stdout.Write(b.Data[:cutAt(c, b)])
				continue
			case "C11":
				os.Stdout.Write(b.Data[:tornAt(c, b)])
				continue
			}
			os.Stdout.Write(mutate(b.Data, c.Muts))
		}
		if c.Kind == "hostile" {
			os.Stdout.Write(mutate(hostileBytes(c), c.Muts))
		}
		os.Stdout.Write(mutate(c.Raw, c.Muts))
	default:
		trouble("usage")
	}
}
