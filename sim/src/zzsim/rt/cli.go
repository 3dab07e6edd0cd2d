package rt

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
)

// A command process runs its main function inside one world described by the
// file named in ZZSIM_WORLD and writes what became of it to ZZSIM_RESULT.

type CLIWorld struct {
	MapSeed  uint64            `json:"map_seed"`
	Files    map[string][]byte `json:"files"` // absolute path -> content; trailing slash = directory
	Inputs   map[string]bool   `json:"inputs"`
	Links    map[string]string `json:"links,omitempty"` // symbolic links: path -> target
	Faults   []Fault           `json:"faults"`
	Delivery Delivery          `json:"delivery"`
	Budget   uint64            `json:"budget"`
}

type CLIResult struct {
	Code   int               `json:"code"`
	Panic  string            `json:"panic"`
	Stack  string            `json:"stack"`
	Over   bool              `json:"over"`
	Stdout []byte            `json:"stdout"`
	Stderr []byte            `json:"stderr"`
	Files  map[string][]byte `json:"files"`
	Ops    []Op              `json:"ops"`
	Fired  map[string]int    `json:"fired"`
	Open   []string          `json:"open"`
	Steps  uint64            `json:"steps"`
}

var cli bool

func init() {
	p := os.Getenv("ZZSIM_WORLD")
	if p == "" {
		return
	}
	b, err := os.ReadFile(p)
	if err != nil {
		fmt.Fprintln(os.Stderr, "zzsim:", err)
		os.Exit(97)
	}
	var c CLIWorld
	if err := json.Unmarshal(b, &c); err != nil {
		fmt.Fprintln(os.Stderr, "zzsim:", err)
		os.Exit(97)
	}
	cli = true
	w := NewWorld()
	w.MapSeed = c.MapSeed
	if c.Budget > 0 {
		w.StepBudget = c.Budget
	}
	for p, d := range c.Files {
		if p[len(p)-1] == '/' {
			w.FS.PutDir(p)
		} else {
			w.FS.Put(p, d, c.Inputs[p])
		}
	}
	for p, t := range c.Links {
		w.FS.PutLink(p, t)
	}
	w.FS.Faults = c.Faults
	w.FS.Delivery = c.Delivery
	w.mapR = NewR(w.MapSeed)
	w.next = w.StepBudget
	W = w
}

func StdHandle(std int) *Handle {
	return &Handle{Std: std, name: []string{"", "/dev/stdout", "/dev/stderr", "/dev/stdin"}[std], fs: stdFS()}
}

var stdSink = &FS{}

func stdFS() *FS {
	if W != nil {
		return W.FS
	}
	return stdSink
}

// CLIDone is deferred by the command's main function.
func CLIDone() {
	if !cli {
		return
	}
	if e := recover(); e != nil {
		finishCLI(2, fmt.Sprint(e), trimStack(string(debug.Stack())))
	}
	finishCLI(0, "", "")
}

// Exit is os.Exit.
func Exit(code int) {
	if cli {
		finishCLI(code, "", "")
	}
	panic(fmt.Sprintf("os.Exit(%d)", code))
}

func finishCLI(code int, pan, stack string) {
	w := W
	r := CLIResult{Code: code, Panic: pan, Stack: stack, Over: w.OverBudget, Stdout: w.FS.Stdout, Stderr: w.FS.Stderr,
		Files: map[string][]byte{}, Ops: w.FS.Ops, Fired: w.FS.Fired, Steps: w.Steps}
	for p, n := range w.FS.Nodes {
		if n.Dir {
			r.Files[p+"/"] = nil
		} else if n.Link != "" {
			r.Files[p] = []byte("a link to " + n.Link)
		} else {
			r.Files[p] = n.Data
		}
	}
	r.Open, _, _ = w.FS.Leaks()
	b, _ := json.Marshal(r)
	if err := os.WriteFile(os.Getenv("ZZSIM_RESULT"), b, 0644); err != nil {
		os.Exit(97)
	}
	os.Exit(0)
}
