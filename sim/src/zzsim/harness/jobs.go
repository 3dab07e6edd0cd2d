package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"strings"
	"time"

	"github.com/KarmaPenny/pdfparser/pdf"
	"github.com/KarmaPenny/pdfparser/zzsim/gen"
	"github.com/KarmaPenny/pdfparser/zzsim/rt"
)

// run performs the jobs of one process.
func (js *JobSet) run() []*Out {
	setVerbose(js.Verbose)
	total := uint64(0)
	for _, j := range js.Jobs {
		total += budget(len(j.Data))
	}
	outs := make([]*Out, len(js.Jobs))
	prepare := func(w *rt.World) {
		w.MapSeed = js.Map
		w.StepBudget = total
		w.AllocLimit = 1 << 26
		for _, j := range js.Jobs {
			if j.Data != nil {
				w.FS.Put(j.In, j.Data, true)
			}
			w.FS.Faults = append(w.FS.Faults, j.Faults...)
		}
	}
	job := func(i int) func() {
		j, o := js.Jobs[i], outs[i]
		return func() {
			err := pdf.Parse(j.In, j.Pw, j.Out)
			o.Done, o.OK = true, err == nil
			if err != nil {
				o.Err = err.Error()
			}
		}
	}
	for i := range outs {
		outs[i] = &Out{}
	}
	if js.Seq || len(js.Jobs) == 1 {
		var nodes map[string]*rt.Node
		for i, j := range js.Jobs {
			w := rt.NewWorld()
			prepare(w)
			if nodes != nil {
				w.FS.Nodes = nodes
			}
			cl := w.Run(job(i))
			nodes = w.FS.Nodes
			fillOut(outs[i], w, cl[0], j.Out)
		}
		// what a job left behind is judged at the end of the process
		for i, j := range js.Jobs {
			f := rt.NewWorld().FS
			f.Nodes = nodes
			outs[i].Tree = f.Tree(j.Out)
		}
		return outs
	}
	w := rt.NewWorld()
	prepare(w)
	w.Switches, w.Quantum = js.Sw, js.Quantum
	if js.Jitter > 0 {
		w.Jitter = rt.NewR(js.Jitter)
	}
	var fns []func()
	for i := range js.Jobs {
		fns = append(fns, job(i))
	}
	cl := w.Run(fns...)
	for i, j := range js.Jobs {
		fillOut(outs[i], w, cl[i], j.Out)
		if i > 0 {
			outs[i].Steps, outs[i].Fired = 0, nil
		}
		if outs[i].Over != "" && outs[i].Done {
			outs[i].Over = ""
		}
	}
	if w.Preempts > 0 {
		if outs[0].Fired == nil {
			outs[0].Fired = map[string]int{}
		}
		outs[0].Fired["preempt"] += int(w.Preempts)
	}
	return outs
}

// execJobs runs the jobs in a process of their own. The string says how the
// process died, if it did.
func execJobs(js *JobSet) ([]*Out, string) {
	in, err := json.Marshal(js)
	if err != nil {
		panic(err)
	}
	out, errs, died := self(in, 300*time.Second, "exec")
	if died != nil {
		return nil, fmt.Sprintf("%v: %s", died, firstLines(errs, 3))
	}
	var outs []*Out
	if err := json.Unmarshal(out, &outs); err != nil || len(outs) != len(js.Jobs) {
		return nil, fmt.Sprintf("no result: %s", firstLines(errs, 3))
	}
	return outs, ""
}

func firstLines(b []byte, n int) string {
	l := strings.Split(strings.TrimSpace(string(b)), "\n")
	if len(l) > n {
		l = l[:n]
	}
	s := strings.Join(l, " | ")
	if len(s) > 300 {
		s = s[:300]
	}
	return s
}

// self runs this program again.
func self(stdin []byte, limit time.Duration, args ...string) (out, errs []byte, err error) {
	exe, e := os.Executable()
	if e != nil {
		panic(e)
	}
	c := exec.Command(exe, args...)
	c.Stdin = bytes.NewReader(stdin)
	var o, x bytes.Buffer
	c.Stdout, c.Stderr = &o, &x
	c.Env = append(os.Environ(), "GOMAXPROCS=1")
	if err := c.Start(); err != nil {
		panic(err)
	}
	t := time.AfterFunc(limit, func() { c.Process.Kill() })
	err = c.Wait()
	if !t.Stop() && err != nil {
		fatal("a child process did not answer within %v", limit)
	}
	return o.Bytes(), x.Bytes(), err
}

func execMain() {
	limits()
	var js JobSet
	if err := json.NewDecoder(os.Stdin).Decode(&js); err != nil {
		fatal("exec: %v", err)
	}
	outs := js.run()
	if err := json.NewEncoder(os.Stdout).Encode(outs); err != nil {
		fatal("exec: %v", err)
	}
}

// the command --------------------------------------------------------------------

// runCLI runs the real main package, built for the simulator, in a process of
// its own. ok is false when it died without a result.
func runCLI(w *rt.CLIWorld, args []string) (*rt.CLIResult, string) {
	dir, err := os.MkdirTemp(os.Getenv("ZZSIM_TMP"), "cli")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(dir)
	b, _ := json.Marshal(w)
	wp, rp := filepath.Join(dir, "world"), filepath.Join(dir, "result")
	if err := os.WriteFile(wp, b, 0644); err != nil {
		fatal("%v", err)
	}
	exe, _ := os.Executable()
	c := exec.Command(filepath.Join(filepath.Dir(exe), "simcli"), args...)
	c.Env = []string{"ZZSIM_WORLD=" + wp, "ZZSIM_RESULT=" + rp, "GOMAXPROCS=1", "PATH=/usr/bin:/bin", "GOMEMLIMIT=2GiB"}
	var x, y bytes.Buffer // what does not go through the simulated streams
	c.Stderr, c.Stdout = &x, &y
	if err := c.Start(); err != nil {
		fatal("%v", err)
	}
	t := time.AfterFunc(300*time.Second, func() { c.Process.Kill() })
	err = c.Wait()
	if !t.Stop() && err != nil {
		fatal("the command did not end within 300 s")
	}
	r, e := os.ReadFile(rp)
	if e != nil || err != nil {
		return nil, fmt.Sprintf("the command died (%v): %s", err, firstLines(x.Bytes(), 3))
	}
	var res rt.CLIResult
	if err := json.Unmarshal(r, &res); err != nil {
		fatal("%v", err)
	}
	res.Stderr = append(res.Stderr, x.Bytes()...)
	res.Stdout = append(res.Stdout, y.Bytes()...)
	return &res, ""
}

var cliOuts = []string{"out", "/work/out", "out/", "deep/er/out"}

func runC20(s *Scn) *Res {
	res := newRes()
	b := s.Docs[0].Build()
	data := mutate(b.Data, s.Muts)
	out := cliOuts[s.n("out")%len(cliOuts)]
	abs := path.Clean(out)
	if !path.IsAbs(abs) {
		abs = "/work/" + abs
	}
	pw := ""
	if b.Enc != nil {
		pw = b.Enc.Pw
	}
	givePw := true
	switch s.n("pw") {
	case 0:
		pw = "not the password"
	case 1:
		givePw = pw != ""
	case 2:
		pw += "\x01"
	case 3:
		pw, givePw = "", false
	}
	if strings.IndexByte(pw, 0) >= 0 { // not possible on a command line
		pw = strings.ReplaceAll(pw, "\x00", "")
	}

	// the world before the command runs
	files := map[string][]byte{inPath: data, "/work/keep.txt": []byte("keep me"), "/etc/other": []byte("other")}
	lnk := map[string]string{}
	var fl []rt.Fault
	exists, unknown := false, false
	put := func() {
		w := rt.NewWorld()
		w.FS.Nodes = preTree(s.n("pre"), s.Docs[0].Seed)
		for n, d := range w.FS.Tree(outPath) {
			if strings.HasSuffix(n, "/") {
				files[abs+"/"+n] = nil
			} else {
				files[abs+"/"+n] = d
			}
		}
	}
	switch s.n("state") {
	case 0, 1: // fresh
	case 2, 3:
		put()
		files[abs+"/old.txt"] = []byte("valuable")
		exists = true
	case 4:
		files[abs+"/"] = nil
		exists = true
	case 5:
		files[abs] = []byte("a file")
		exists = true
		if strings.HasSuffix(out, "/") {
			unknown = true // ENOTDIR
		}
	case 8: // a link to a directory, to a file, to nothing
		exists = true
		lnk[abs] = []string{"/work/keep.d", "/work/keep.txt", "nowhere", "/etc"}[s.n("pre")%4]
		files["/work/keep.d/old.txt"] = []byte("valuable")
	case 6, 7:
		if s.n("state") == 6 {
			put()
			files[abs+"/old.txt"] = []byte("valuable")
		}
		unknown = true
		fl = append(fl, rt.Fault{OnKind: "stat", OnPath: abs, Nth: 1, Err: []string{"EACCES", "EIO", "ENOTDIR", "ESTALE"}[s.n("pre")%4]})
	}
	refuse := (exists || unknown) && s.n("f") == 0
	for _, sel := range s.Sels {
		f := rt.Fault{OnKind: sel.Kind, Nth: 1 + sel.Nth%3, Err: sel.Err, Done: sel.Done, Repeat: sel.Repeat}
		switch sel.Kind {
		case "read", "open":
			f.OnPath = inPath
		case "mkdir", "removeall":
			f.OnPath, f.Nth = abs, 1
			if f.Err == "ENOENT" {
				f.Err = "EIO"
			}
		default:
			f.OnPath = abs + "/" + reports[sel.Nth%len(reports)]
		}
		fl = append(fl, f)
	}

	var args []string
	if s.n("f") == 1 {
		args = append(args, []string{"-f", "--f", "-f=true", "-f"}[s.n("style")%4])
	}
	verbose := s.n("v") == 1
	if verbose {
		args = append(args, "-v")
	}
	if givePw {
		if s.n("style")%2 == 0 {
			args = append(args, "-p", pw)
		} else {
			args = append(args, "-p="+pw)
		}
	} else {
		pw = ""
	}
	pos := []string{inPath, out, "extra", "more"}
	if s.Kind == "args" {
		args = append(args, pos[:s.n("argc")%5]...)
	} else {
		args = append(args, pos[:2]...)
	}
	badArgs := s.Kind == "args" && s.n("argc") != 2

	w := &rt.CLIWorld{MapSeed: s.mapSeed(0), Files: files, Inputs: map[string]bool{inPath: true}, Links: lnk, Faults: fl, Budget: budget(len(data))}
	r, died := runCLI(w, args)
	if died != "" {
		return res.fail("died", "%q: %s", args, died)
	}
	res.Parses++
	res.Steps += r.Steps
	for k, v := range r.Fired {
		res.Fired[k] += v
	}
	res.h.add(fmt.Sprint(r.Code, r.Panic, len(r.Ops)), string(r.Stderr), string(r.Stdout))
	res.h.tree(r.Files)
	if r.Panic != "" {
		return res.fail("died", "%q: panic: %s at %s", args, r.Panic, r.Stack)
	}
	if r.Over {
		return res.fail("died", "%q did not finish", args)
	}
	before := rt.NewWorld()
	for p, d := range files {
		if strings.HasSuffix(p, "/") {
			before.FS.PutDir(p)
		} else {
			before.FS.Put(p, d, false)
		}
	}
	for p, t := range lnk {
		before.FS.PutLink(p, t)
	}
	was := map[string][]byte{}
	for p, n := range before.FS.Nodes {
		if n.Dir {
			was[p+"/"] = nil
		} else if n.Link != "" {
			was[p] = []byte("a link to " + n.Link)
		} else {
			was[p] = n.Data
		}
	}
	unchanged := func(why string) bool {
		for _, op := range r.Ops {
			if mutKinds[op.Kind] {
				res.fail("touched", "%s: %s %s", why, op.Kind, op.Path)
				return false
			}
		}
		if d := diffTrees(was, r.Files); d != "" {
			res.fail("touched", "%s: %s", why, d)
			return false
		}
		return true
	}
	if badArgs {
		res.probe("usage")
		if unchanged("wrong number of arguments") && len(r.Stderr) == 0 {
			return res.fail("message", "wrong number of arguments: nothing on the error stream")
		}
		return res
	}
	res.probe("nontrivial")
	if refuse {
		res.probe("refuse")
		why := fmt.Sprintf("%q, output path exists", args)
		if unknown {
			why = fmt.Sprintf("%q, existence of the output path cannot be determined", args)
		}
		if unchanged(why) && len(r.Stderr)+len(r.Stdout) == 0 {
			return res.fail("message", "%s: no message", why)
		}
		return res
	}
	// the library's view of the same parse
	nodes := map[string]*rt.Node{}
	for p, n := range before.FS.Nodes {
		nodes[p] = n
	}
	var lf []rt.Fault
	for _, f := range fl {
		if f.OnKind != "stat" {
			lf = append(lf, f)
		}
	}
	lib := res.note(parse(data, &Env{Pw: pw, MapSeed: s.mapSeed(0), Nodes: nodes, Out: out, Faults: lf, Verbose: 1}))
	if d := lib.died(); d != "" {
		return res.fail("library", "%s", d)
	}
	got := map[string][]byte{}
	for p, d := range r.Files {
		if strings.HasPrefix(p, abs+"/") && p != abs+"/" {
			got[p[len(abs)+1:]] = d
		}
	}
	if lib.OK {
		res.probe("success")
		if d := diffTrees(lib.Tree, got); d != "" {
			return res.fail("result", "%q differs from the library's result: %s", args, d)
		}
		if !verbose && len(r.Stderr) > 0 {
			return res.fail("stderr", "%q: the library succeeds, but the command says %q", args, cut(r.Stderr, 200))
		}
	} else {
		res.probe("failure")
		if len(r.Stderr) == 0 {
			return res.fail("silent", "%q: the library fails with %q, but nothing is on the error stream", args, lib.Err)
		}
		if verbose {
			// debug messages go to the same stream: the error must be there as well
			if !bytes.Contains(r.Stderr, []byte(strings.TrimSpace(lib.Err))) {
				return res.fail("silent", "%q: the library fails with %q, which is not on the error stream: %q", args, lib.Err, cut(r.Stderr, 200))
			}
		}
	}
	for _, p := range keys(was) {
		if p == abs || strings.HasPrefix(p, abs+"/") {
			continue
		}
		if d, ok := r.Files[p]; !ok || !bytes.Equal(d, was[p]) {
			return res.fail("touched", "%q changed %s", args, p)
		}
	}
	return res
}

var _ = gen.MD5
