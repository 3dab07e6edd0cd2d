package main

import (
	"bytes"
	"fmt"
	"path"
	"regexp"
	"sort"
	"strings"
	"syscall"

	"github.com/KarmaPenny/pdfparser/zzsim/gen"
	"github.com/KarmaPenny/pdfparser/zzsim/rt"
)

// Prop is one property: how a run is drawn and how it is executed and judged.
type Prop struct {
	Gen   func(r *rt.R, tier string) *Scn
	Run   func(s *Scn) *Res
	Rule  string
	Fresh bool // runs start processes of their own
	Quick int  // runs in the quick tier
	Chunk int  // runs per worker process
}

var props map[string]*Prop

func init() {
	props = map[string]*Prop{
		"C01": {Gen: genC01, Run: runC01, Rule: "random document (damaged in a third of the runs) x read schedule; non-trivial: at least one read was cut short or ended with EOF"},
		"C02": {Gen: genC02, Run: runC02, Rule: "random document (damaged in a third of the runs) x two map-iteration schedules; non-trivial: at least one map of two or more entries was iterated in different orders"},
		"C03": {Gen: genC03, Run: runC03, Fresh: true, Rule: "2-4 parses of random documents (some damaged, wrongly keyed or failing on I/O) in one process, sequential or preempted; non-trivial: at least two parses ran"},
		"C04": {Gen: genC04, Run: runC04, Rule: "damaged, hostile and synthetic files x passwords x I/O faults; non-trivial: the file is damaged or hostile"},
		"C05": {Gen: genC05, Run: runC05, Rule: "random document x 1-3 I/O faults at operations of the fault-free run; non-trivial: a fault fired"},
		"C06": {Gen: genC06, Run: runC06, Rule: "random document x prior contents of the output directory (junk, another parse, crashed parses, failing preparation); non-trivial: the directory was not empty or an operation failed"},
		"C07": {Gen: genC07, Run: runC07, Rule: "random document with hostile names x faults x crash; non-trivial: the parse mutated at least seven paths or a fault fired"},
		"C08": {Gen: genC08, Run: runC08, Rule: "sequences of 1-4 parses with faults, damage and wrong passwords; non-trivial: at least one parse failed or a fault fired"},
		"C09": {Gen: genC09, Run: runC09, Rule: "random revision history x cross-reference layout; non-trivial: two or more revisions"},
		"C10": {Gen: genC10, Run: runC10, Rule: "random document x 1-4 pieces of cross-reference damage; non-trivial: the file changed"},
		"C11": {Gen: genC11, Run: runC11, Rule: "random history cut at a point inside its last update; non-trivial: the cut removed bytes and left some of the update"},
		"C12": {Gen: genC12, Run: runC12, Rule: "random encrypted document x layout x read schedule; non-trivial: at least one string or stream was encrypted"},
		"C13": {Gen: genC13, Run: runC13, Rule: "random encrypted document x wrong password or damaged key material; non-trivial: the key material or password really differs"},
		"C14": {Gen: genC14, Run: runC14, Rule: "documents of streams with random filter chains x placement x cut; non-trivial: at least one stream has a filter or was cut"},
		"C15": {Gen: genC15, Run: runC15, Rule: "documents of pages x layout x read schedule x lost cross-references; non-trivial: the document shows text"},
		"C16": {Gen: genC16, Run: runC16, Rule: "documents of links, scripts and launch actions x layout x read schedule x lost cross-references; non-trivial: at least one artefact expected"},
		"C17": {Gen: genC17, Run: runC17, Rule: "documents of embedded files, forms and file references x layout x read schedule x lost cross-references; non-trivial: at least one manifest line expected"},
		"C18": {Gen: genC18, Run: runC18, Rule: "well-formed documents, documents with planted abnormalities, documents cut inside an object; non-trivial: an abnormality or cut is present, or the document has three or more objects"},
		"C19": {Gen: genC19, Run: runC19, Rule: "histories of 3-40 library calls; non-trivial: at least three calls on existing objects"},
		"C20": {Gen: genC20, Run: runC20, Fresh: true, Rule: "command lines x state of the output path x faults; every run is one command process"},
		"C21": {Gen: genC21, Run: runC21, Rule: "random plain document x history x layout; non-trivial: two or more live objects"},
		"C22": {Gen: genC22, Run: runC22, Rule: "one document spelled twice x two read schedules; non-trivial: the two files differ"},
		"C23": {Gen: genC23, Run: runC23, Rule: "document x damaged indexes x history of loads, passwords and reads on one parser; non-trivial: an object was read and checked after a wrong password"},
		"C24": {Gen: genC24, Run: runC24, Rule: "document x one object or block x in-place damage to its bytes; non-trivial: another object was read and checked"},
		"C25": {Gen: genC25, Run: runC25, Rule: "document of one revision x place at which it is cut off; non-trivial: a complete object was read and checked"},
	}
}

func init() {
	for id, n := range map[string]int{
		"C01": 12000, "C02": 20000, "C03": 5000, "C04": 9000, "C05": 30000, "C06": 20000, "C07": 30000, "C08": 30000,
		"C09": 15000, "C10": 40000, "C11": 25000, "C12": 16000, "C13": 25000, "C14": 60000, "C15": 16000, "C16": 30000,
		"C17": 25000, "C18": 40000, "C19": 20000, "C20": 16000, "C21": 18000, "C22": 11000, "C23": 30000, "C24": 30000, "C25": 30000,
	} {
		props[id].Quick = n
	}
	for _, p := range props {
		if p.Quick == 0 {
			p.Quick = 4000
			if p.Fresh {
				p.Quick = 800
			}
		}
		if p.Fresh {
			p.Chunk = 16
		}
	}
}

func anyDoc(r *rt.R, o gen.DocOpt) *gen.Doc { return gen.RandDoc(r, o) }

func fullOpt() gen.DocOpt {
	return gen.DocOpt{Kinds: gen.AllKinds, MinF: 1, MaxF: 7, MaxRev: 3, Lvl: -1, Sparse: -1, Enc: 25, Gens: true, Del: true, Big: 40}
}

func pwOf(s *Scn, b *gen.Built) string {
	if s.PwSet {
		return s.Pw
	}
	if b.Enc != nil {
		return b.Enc.Pw
	}
	return ""
}

// sweepSel lets a third of the runs use exactly one fault with no repetition.
func randSels(r *rt.R, max int) []Sel {
	var ss []Sel
	n := 1
	if r.P(1, 3) {
		n = r.In(1, max)
	}
	for ; n > 0; n-- {
		ss = append(ss, randSel(r))
	}
	return ss
}

// C01 ---------------------------------------------------------------------------

func genC01(r *rt.R, tier string) *Scn {
	s := &Scn{Prop: "C01"}
	o := fullOpt()
	o.Size = 9000
	d := anyDoc(r, o)
	if r.P(1, 3) {
		d.Pad = r.N(8200)
	}
	s.Docs = []*gen.Doc{d}
	s.Maps = []uint64{randMap(r)}
	b := d.Build()
	s.Dels = []rt.Delivery{randDels(r, b)}
	if r.P(1, 3) {
		s.Muts = randMuts(r, 4)
	}
	if r.P(1, 8) {
		s.N = map[string]int{"junk": r.In(1, 600)}
	}
	return s
}

func runC01(s *Scn) *Res {
	res := newRes()
	b := s.Docs[0].Build()
	data := mutate(b.Data, s.Muts)
	e := &Env{Pw: pwOf(s, b), MapSeed: s.mapSeed(0)}
	ref := res.note(parse(data, e))
	e2 := *e
	e2.Del = s.del(0)
	got := res.note(parse(data, &e2))
	if len(s.Muts) == 0 {
		if c, m := checkParse(b, b.Last(), got, aArtefacts|aTree); c != "" {
			return res.fail("model-"+c, "with short reads: %s", m)
		}
		if c, m := checkParse(b, b.Last(), ref, aArtefacts|aTree); c != "" {
			return res.fail("model-"+c, "with whole reads: %s", m)
		}
	}
	if a, c := ref.died(), got.died(); a != "" || c != "" {
		if (a == "") != (c == "") {
			return res.fail("died", "whole reads: %q, divided reads: %q", a, c)
		}
		return res
	}
	if ref.Err != got.Err {
		return res.fail("error", "whole reads: error %q, divided reads: error %q", ref.Err, got.Err)
	}
	if d := diffTrees(ref.Tree, got.Tree); d != "" {
		return res.fail("output", "outputs depend on how the bytes arrive: %s", d)
	}
	if s.Docs[0].Seed%3 == 0 {
		la := res.lib(library(data, e, nil))
		lb := res.lib(library(data, &e2, nil))
		if d := diffLib(la, lb); d != "" {
			return res.fail("library", "objects read through the library depend on how the bytes arrive: %s", d)
		}
	}
	if got.Fired["short_read"]+got.Fired["zero_read"]+got.Fired["eof_with_data"] > 0 {
		res.probe("nontrivial")
	}
	if len(s.Muts) > 0 {
		res.probe("damaged")
	}
	if len(data) > 4096 {
		res.probe("larger-than-buffer")
	}
	return res
}

func diffLib(a, b *LibOut) string {
	if x, y := a.died(), b.died(); x != "" || y != "" {
		if (x == "") != (y == "") {
			return fmt.Sprintf("%q / %q", x, y)
		}
		return ""
	}
	if a.Err != b.Err {
		return fmt.Sprintf("error %q / %q", a.Err, b.Err)
	}
	if fmt.Sprint(a.Nums) != fmt.Sprint(b.Nums) {
		return fmt.Sprintf("objects %v / %v", a.Nums, b.Nums)
	}
	for _, n := range a.Nums {
		x, ok := a.Objs[n]
		y := b.Objs[n]
		if !ok {
			continue
		}
		if x.Canon != y.Canon || x.Gen != y.Gen {
			return fmt.Sprintf("object %d value %s", n, diffBytes([]byte(x.Canon), []byte(y.Canon)))
		}
		if !bytes.Equal(x.Stream, y.Stream) {
			return fmt.Sprintf("object %d stream %s", n, diffBytes(x.Stream, y.Stream))
		}
	}
	return ""
}

// C02 ---------------------------------------------------------------------------

func genC02(r *rt.R, tier string) *Scn {
	s := &Scn{Prop: "C02"}
	o := fullOpt()
	o.MinF, o.MaxF = 2, 9
	s.Docs = []*gen.Doc{anyDoc(r, o)}
	a := uint64(0)
	if r.P(1, 3) {
		a = randMap(r)
	}
	s.Maps = []uint64{a, []uint64{1, r.U64()>>1 | 2, r.U64()>>1 | 2}[r.N(3)]}
	if r.P(1, 3) {
		s.Muts = randMuts(r, 3)
	}
	return s
}

func runC02(s *Scn) *Res {
	res := newRes()
	b := s.Docs[0].Build()
	data := mutate(b.Data, s.Muts)
	var outs []*Out
	for i := range s.Maps {
		o := res.note(parse(data, &Env{Pw: pwOf(s, b), MapSeed: s.Maps[i]}))
		if len(s.Muts) == 0 {
			if c, m := checkParse(b, b.Last(), o, aArtefacts|aTree); c != "" {
				return res.fail("model-"+c, "map order %d: %s", s.Maps[i], m)
			}
		}
		outs = append(outs, o)
	}
	if outs[0].Ranges > 0 {
		res.probe("nontrivial")
	}
	if len(outs) < 2 {
		return res
	}
	x, y := outs[0], outs[1]
	if a, c := x.died(), y.died(); a != "" || c != "" {
		if (a == "") != (c == "") {
			return res.fail("died", "one map order: %q, another: %q", a, c)
		}
		return res
	}
	if x.Err != y.Err {
		return res.fail("error", "one map order: error %q, another: %q", x.Err, y.Err)
	}
	if d := diffOrderless(x.Tree, y.Tree); d != "" {
		return res.fail("output", "outputs depend on map iteration order: %s", d)
	}
	return res
}

// diffOrderless compares two output trees up to the order of entries.
func diffOrderless(a, b map[string][]byte) string {
	for _, k := range keys(a) {
		v, ok := b[k]
		if !ok {
			return k + " is only written sometimes"
		}
		switch k {
		case "contents.txt":
			if !bytes.Equal(a[k], v) {
				return k + " " + diffBytes(a[k], v)
			}
		case "raw.pdf":
			// reordering objects and dictionary keys keeps the bytes as a multiset
			if hist(a[k]) != hist(v) {
				return "raw.pdf has other content"
			}
		case "javascript.js":
			if hist(a[k]) != hist(v) {
				return "javascript.js has other content"
			}
			fallthrough
		case "urls.txt", "commands.txt", "errors.txt", "files.txt":
			if d := diffLines(lines(a[k]), lines(v)); d != "" {
				return k + ": " + d
			}
		default:
			if !bytes.Equal(a[k], v) {
				return k + " " + diffBytes(a[k], v)
			}
		}
	}
	for _, k := range keys(b) {
		if _, ok := a[k]; !ok {
			return k + " is only written sometimes"
		}
	}
	return ""
}

func hist(b []byte) (h [256]int) {
	for _, c := range b {
		h[c]++
	}
	return
}

// C03 ---------------------------------------------------------------------------

func genC03(r *rt.R, tier string) *Scn {
	s := &Scn{Prop: "C03", Kind: r.Pick("seq", "inter", "inter", "quantum", "quantum", "jitter", "jitter")}
	o := fullOpt()
	o.MinF, o.MaxF, o.Enc = 1, 5, 40
	n := r.In(2, 4)
	for i := 0; i < n; i++ {
		if i > 0 && r.P(1, 4) {
			s.Docs = append(s.Docs, s.Docs[i-1])
		} else {
			s.Docs = append(s.Docs, anyDoc(r, o))
		}
		a := Act{K: "job", A: r.N(1 << 20)}
		switch r.N(7) {
		case 0:
			a.K = "wrongpw"
		case 1:
			a.K = "damaged"
		case 2:
			a.K = "iofail"
		case 3:
			a.K = "missing"
		}
		s.Acts = append(s.Acts, a)
	}
	// the same document under different keys, step by step together
	if r.P(1, 8) {
		d := anyDoc(r, o)
		d.EncS = gen.LikeEnc(r, nil)
		s.Docs, s.Acts, s.Kind = nil, nil, r.Pick("quantum", "jitter")
		for i := 0; i < n; i++ {
			t := *d
			if i > 0 {
				t.EncS = gen.LikeEnc(r, d)
			}
			s.Docs = append(s.Docs, &t)
			s.Acts = append(s.Acts, Act{K: "job", A: r.N(1 << 20)})
		}
	}
	s.Maps = []uint64{uint64(r.N(2))}
	if s.Kind == "inter" {
		for i := r.In(1, 12); i > 0; i-- {
			s.Sw = append(s.Sw, Switch{At: r.N(1 << 20), To: r.N(n)})
		}
	}
	s.N = map[string]int{"quantum": []int{1, 1, 2, r.In(1, 8), r.In(1, 60), r.In(1, 600), r.In(1, 5000)}[r.N(7)], "verbose": r.N(3)}
	if s.Kind == "jitter" {
		s.N["jitter"] = r.N(1 << 30)
		s.N["quantum"] = []int{1, 1, 2, 3, r.In(1, 20), r.In(1, 300)}[r.N(6)]
	}
	return s
}

// Job is one parse in a process of several.
type Job struct {
	Data   []byte
	Pw     string
	Out    string
	In     string
	Faults []rt.Fault
}

// JobSet is a whole process.
type JobSet struct {
	Jobs    []Job
	Map     uint64
	Sw      []rt.Switch
	Quantum uint64
	Jitter  uint64
	Seq     bool
	Verbose int
}

func jobsOf(s *Scn) []Job {
	var jobs []Job
	for i, d := range s.Docs {
		b := d.Build()
		j := Job{Data: b.Data, Out: fmt.Sprintf("/work/out%d", i), In: fmt.Sprintf("/in/doc%d.pdf", i)}
		if b.Enc != nil {
			j.Pw = b.Enc.Pw
		}
		a := Act{K: "job"}
		if i < len(s.Acts) {
			a = s.Acts[i]
		}
		r := rt.NewR(uint64(a.A))
		switch a.K {
		case "wrongpw":
			j.Pw += "wrong"
		case "damaged":
			j.Data = mutate(j.Data, randMuts(r, 3))
		case "iofail":
			j.Faults = []rt.Fault{{OnKind: r.Pick("write", "create", "close"), OnPath: j.Out + "/" + reports[r.N(len(reports))], Nth: 1 + r.N(3), Err: "ENOSPC"}}
			if r.P(1, 3) {
				j.Faults = []rt.Fault{{OnKind: r.Pick("read", "seek"), OnPath: j.In, Nth: 1 + r.N(60), Err: "EIO"}}
			}
		case "missing":
			j.In = "/in/none.pdf"
			j.Data = nil
		}
		jobs = append(jobs, j)
	}
	return jobs
}

func runC03(s *Scn) *Res {
	res := newRes()
	jobs := jobsOf(s)
	var solo []*Out
	total := uint64(0)
	for _, j := range jobs {
		o, err := execJobs(&JobSet{Jobs: []Job{j}, Map: s.mapSeed(0), Verbose: s.n("verbose")})
		if err != "" {
			return res.fail("process", "a parse running alone killed its process: %s", err)
		}
		solo = append(solo, res.note(o[0]))
		total += o[0].Steps
	}
	js := &JobSet{Jobs: jobs, Map: s.mapSeed(0), Verbose: s.n("verbose"), Seq: s.Kind == "seq"}
	for _, sw := range s.Sw {
		js.Sw = append(js.Sw, rt.Switch{At: 1 + total*uint64(sw.At)>>20, To: sw.To % len(jobs)})
	}
	if s.Kind == "quantum" || s.Kind == "jitter" {
		js.Quantum = uint64(max(1, s.n("quantum")))
		if s.Kind == "jitter" {
			js.Jitter = uint64(s.n("jitter")) | 1
		}
	}
	outs, err := execJobs(js)
	if err != "" {
		return res.fail("process", "parses that finish alone killed the process when run together: %s", err)
	}
	for i := range jobs {
		a, b := solo[i], res.note(outs[i])
		if x, y := a.died(), b.died(); x != "" || y != "" {
			if (x == "") != (y == "") {
				return res.fail("died", "parse %d alone: %q, with others: %q", i, x, y)
			}
			continue
		}
		if a.Err != b.Err {
			return res.fail("error", "parse %d alone: error %q, with others: error %q", i, a.Err, b.Err)
		}
		if d := diffTrees(a.Tree, b.Tree); d != "" {
			return res.fail("output", "parse %d gives other output when it does not run alone: %s", i, d)
		}
	}
	if len(jobs) > 1 {
		res.probe("nontrivial")
	}
	return res
}

// C05 ---------------------------------------------------------------------------

func genC05(r *rt.R, tier string) *Scn {
	s := &Scn{Prop: "C05"}
	o := fullOpt()
	o.MaxF = 5
	s.Docs = []*gen.Doc{anyDoc(r, o)}
	s.Maps = []uint64{randMap(r)}
	s.Sels = randSels(r, 3)
	for i := range s.Sels {
		if s.Sels[i].Err == "ENOENT" && s.Sels[i].Kind != "open" && s.Sels[i].Kind != "create" {
			s.Sels[i].Err = "EIO"
		}
	}
	if r.P(1, 6) {
		s.Muts = randMuts(r, 2)
	}
	if r.P(1, 4) {
		s.Dels = []rt.Delivery{randDelivery(r)}
	}
	if r.P(1, 3) {
		s.N = map[string]int{"pre": 1}
	}
	return s
}

func preTree(kind int, seed uint64) map[string]*rt.Node {
	w := rt.NewWorld()
	f := w.FS
	if kind == 0 {
		return f.Nodes
	}
	r := rt.NewR(seed + uint64(kind))
	f.PutDir(outPath)
	for i := r.In(1, 8); i > 0; i-- {
		name := []string{"old.txt", "urls.txt", "files.txt", "d41d8cd98f00b204e9800998ecf8427e", "raw.pdf", "sub/deep/file", "errors.txt", ".hidden", "contents.txt", "sub/other", "0123456789abcdef0123456789abcdef", "javascript.js", "empty/"}[r.N(13)]
		if strings.HasSuffix(name, "/") {
			f.PutDir(outPath + "/" + name)
		} else {
			f.Put(outPath+"/"+name, []byte("leftover of an earlier run\n"+string(r.Bytes(r.N(40)))), false)
		}
	}
	return f.Nodes
}

// links puts symbolic links into the output directory or in its place.
func links(nodes map[string]*rt.Node, abs string, kind int) {
	f := rt.NewWorld().FS
	f.Nodes = nodes
	drop := func(p string) {
		for q := range nodes {
			if q == p || strings.HasPrefix(q, p+"/") {
				delete(nodes, q)
			}
		}
	}
	f.Put("/work/keep/note.txt", []byte("must not change: /work/keep/note.txt"), false)
	in := func(name, target string) {
		drop(abs + "/" + name)
		f.PutLink(abs+"/"+name, target)
	}
	switch kind {
	case 1:
		in("contents.txt", "/work/keep/note.txt")
		in("errors.txt", "../keep/note.txt")
	case 2:
		in("raw.pdf", "/work/nowhere.txt")
		in("d41d8cd98f00b204e9800998ecf8427e", "/work/keep/note.txt")
	case 3:
		in("sub", "/work/keep")
		in("loop", "loop")
	case 4:
		drop(abs)
		f.PutLink(abs, "/work/keep")
	case 5:
		drop(abs)
		f.PutLink(abs, "nowhere")
	case 6:
		drop(abs)
		f.PutLink(abs, "/work/keep/note.txt")
	}
}

func runC05(s *Scn) *Res {
	res := newRes()
	b := s.Docs[0].Build()
	data := mutate(b.Data, s.Muts)
	e := &Env{Pw: pwOf(s, b), MapSeed: s.mapSeed(0), Del: s.del(0), Nodes: preTree(s.n("pre"), s.Docs[0].Seed)}
	clean := res.note(parse(data, e))
	if clean.died() != "" {
		if len(s.Muts) == 0 {
			return res.fail("died", "%s", clean.died())
		}
		res.Skip = true
		return res
	}
	e.Nodes = preTree(s.n("pre"), s.Docs[0].Seed)
	e.Faults = faults(s.Sels, clean.Ops)
	o := res.note(parse(data, e))
	if o.FS.FailedOps > 0 {
		res.probe("nontrivial")
	}
	if d := o.died(); d != "" {
		return res.fail("died", "after %s: %s", faultText(o), d)
	}
	if o.OK {
		if !clean.OK {
			return res.fail("success", "the parse fails with %q but reports success after %s", clean.Err, faultText(o))
		}
		if d := diffTrees(clean.Tree, o.Tree); d != "" {
			return res.fail("silent", "success reported after %s, but %s", faultText(o), d)
		}
		if o.FS.FailedOps > 0 {
			res.probe("success-despite-fault")
		}
	} else if clean.OK {
		res.probe("error-reported")
	}
	return res
}

func faultText(o *Out) string {
	var l []string
	for _, op := range o.Ops {
		if op.Fault {
			l = append(l, fmt.Sprintf("%s %s (operation %d) failed with %s", op.Kind, op.Path, op.Seq, op.Err))
			if len(l) > 3 {
				l = append(l, "...")
				break
			}
		}
	}
	if len(l) == 0 {
		return "no fault"
	}
	return strings.Join(l, ", ")
}

// C06 ---------------------------------------------------------------------------

func genC06(r *rt.R, tier string) *Scn {
	s := &Scn{Prop: "C06", Kind: r.Pick("pre", "prev", "crash", "crash", "prep", "file")}
	o := fullOpt()
	o.MaxF, o.MaxRev, o.Enc = 5, 2, 10
	o.Kinds = append([]string{"embed", "embed", "xfa"}, gen.AllKinds...)
	s.Docs = []*gen.Doc{anyDoc(r, o), anyDoc(r, o)}
	s.Maps = []uint64{randMap(r), randMap(r)}
	s.N = map[string]int{"pre": r.N(4), "out": r.N(4)}
	switch s.Kind {
	case "crash":
		for i := r.In(1, 3); i > 0; i-- {
			c := Sel{Nth: r.N(1 << 20), Done: r.N(100)}
			c.Kind = r.Pick("", "write", "write", "create", "close", "removeall", "mkdir", "read")
			s.Crash = append(s.Crash, c)
			s.Acts = append(s.Acts, Act{K: "which", A: r.N(2)})
		}
	case "prep":
		sel := randSel(r)
		sel.Kind = r.Pick("removeall", "removeall", "mkdir", "create", "create", "")
		if sel.Err == "ENOENT" {
			sel.Err = "EBUSY"
		}
		s.Sels = []Sel{sel}
		s.N["pre"] = r.In(1, 4)
	case "pre", "file":
		s.N["pre"] = r.In(1, 9)
		if s.Kind == "pre" && r.P(1, 3) {
			s.N["link"] = r.In(1, 6)
		}
	}
	return s
}

var outSpellings = []string{outPath, outPath + "/", "out", "./out/../out"}

func runC06(s *Scn) *Res {
	res := newRes()
	b := s.Docs[0].Build()
	out := outSpellings[s.n("out")%len(outSpellings)]
	e := &Env{Pw: pwOf(s, b), MapSeed: s.mapSeed(0), Out: out}
	clean := res.note(parse(b.Data, e))
	if c, m := checkParse(b, b.Last(), clean, aTree); c != "" {
		return res.fail("clean-"+c, "into a fresh directory: %s", m)
	}
	nodes := preTree(s.n("pre"), s.Docs[0].Seed)
	if s.Kind == "file" {
		for p := range nodes {
			if strings.HasPrefix(p, outPath) {
				delete(nodes, p)
			}
		}
		nodes[outPath] = &rt.Node{Data: []byte("a plain file in the way")}
	}
	links(nodes, outPath, s.n("link"))
	other := b
	if len(s.Docs) > 1 {
		other = s.Docs[1].Build()
	}
	doc := func(i int) *gen.Built {
		if i%2 == 0 {
			return b
		}
		return other
	}
	what := s.Kind
	switch s.Kind {
	case "prev":
		p := res.note(parse(other.Data, &Env{Pw: pwOf(s, other), MapSeed: s.mapSeed(1), Nodes: nodes, Out: out}))
		nodes = p.FS.Nodes
	case "crash":
		for i, c := range s.Crash {
			w := 0
			if i < len(s.Acts) {
				w = s.Acts[i].A
			}
			d := doc(w)
			probe := res.note(parse(d.Data, &Env{Pw: pwOf(s, d), MapSeed: s.mapSeed(1), Nodes: copyNodes(nodes), Out: out}))
			f, ok := c.pick(probe.Ops)
			if !ok {
				continue
			}
			p := res.note(parse(d.Data, &Env{Pw: pwOf(s, d), MapSeed: s.mapSeed(1), Nodes: nodes, Out: out, CrashAt: f.At, CrashTorn: f.Done}))
			nodes = p.FS.Nodes
			what = fmt.Sprintf("a parse killed at operation %d", f.At)
			res.probe("crash")
		}
	}
	if len(rtTree(nodes, outPath)) > 0 {
		res.probe("nontrivial")
	}
	e.Nodes = nodes
	if len(s.Sels) > 0 {
		probe := *e
		probe.Nodes = copyNodes(nodes)
		p := res.note(parse(b.Data, &probe))
		e.Faults = faults(s.Sels, p.Ops)
	}
	o := res.note(parse(b.Data, e))
	if d := o.died(); d != "" {
		return res.fail("died", "after %s: %s", what, d)
	}
	if o.OK {
		if d := diffTrees(clean.Tree, o.Tree); d != "" {
			return res.fail("leftover", "success reported (prior state: %s; %s), but the directory is not that of a fresh run: %s", what, faultText(o), d)
		}
	} else if o.FS.FailedOps == 0 {
		return res.fail("error", "the parse fails because of what the output path held before (%s): %s", what, o.Err)
	}
	return res
}

func rtTree(nodes map[string]*rt.Node, dir string) []string {
	var out []string
	for p := range nodes {
		if strings.HasPrefix(p, dir+"/") || p == dir {
			out = append(out, p)
		}
	}
	return out
}

func copyNodes(n map[string]*rt.Node) map[string]*rt.Node {
	c := map[string]*rt.Node{}
	for k, v := range n {
		x := *v
		x.Data = append([]byte(nil), v.Data...)
		c[k] = &x
	}
	return c
}

// C07 ---------------------------------------------------------------------------

func genC07(r *rt.R, tier string) *Scn {
	s := &Scn{Prop: "C07", Kind: r.Pick("plain", "fault", "fault", "crash", "damaged", "moving")}
	o := fullOpt()
	o.Kinds = append([]string{"embed", "embed", "embed", "extfile", "launch", "xfa"}, gen.AllKinds...)
	o.MaxF = 6
	s.Docs = []*gen.Doc{anyDoc(r, o)}
	s.Docs[0].Plain = false
	s.Maps = []uint64{randMap(r)}
	s.N = map[string]int{"pre": r.N(4), "out": r.N(7)}
	if r.P(1, 3) {
		s.N["link"] = r.In(1, 6)
	}
	switch s.Kind {
	case "fault":
		s.Sels = randSels(r, 4)
	case "crash":
		s.Crash = []Sel{{Nth: r.N(1 << 20), Done: r.N(100)}}
	case "damaged":
		s.Muts = randMuts(r, 3)
	case "moving":
		s.N["swapAt"], s.N["swap"] = r.N(1<<20), r.N(1<<30)
	}
	return s
}

var outSpellings7 = []string{outPath, outPath + "/", "out", "out", "new/deep/out", "/work/keep/../out", "/work/lnk/out"}
var mutKinds = map[string]bool{"create": true, "write": true, "mkdir": true, "remove": true, "removeall": true, "rename": true, "truncate": true, "chmod": true}
var hashName = regexp.MustCompile(`^[0-9a-f]{32}$`)

func runC07(s *Scn) *Res {
	res := newRes()
	b := s.Docs[0].Build()
	data := mutate(b.Data, s.Muts)
	out := outSpellings7[s.n("out")%len(outSpellings7)]
	abs := out
	if !path.IsAbs(abs) {
		abs = "/work/" + abs
	}
	abs = path.Clean(abs)
	mk := func() map[string]*rt.Node {
		nodes := preTree(s.n("pre"), s.Docs[0].Seed)
		w := rt.NewWorld()
		w.FS.Nodes = nodes
		for _, p := range []string{"/work/keep/note.txt", "/etc/passwd", "/work/contents.txt", "/work/d41d8cd98f00b204e9800998ecf8427e", "/work/x.exe", "/in/other.pdf", "/tmp/t", "/work/out2/urls.txt", "/work/outer.txt", "/work/new.txt"} {
			w.FS.Put(p, []byte("must not change: "+p), false)
		}
		if strings.HasPrefix(out, "/work/lnk/") {
			w.FS.PutDir("/work/real")
			w.FS.PutLink("/work/lnk", "real")
			abs = "/work/real/out"
		}
		links(nodes, abs, s.n("link"))
		return nodes
	}
	e := &Env{Pw: pwOf(s, b), MapSeed: s.mapSeed(0), Out: out, Nodes: mk()}
	if len(s.Sels)+len(s.Crash) > 0 || s.Kind == "moving" {
		probe := res.note(parse(data, e))
		e.Nodes = mk()
		swap(s, e, data, probe.Ops)
		e.Faults = faults(s.Sels, probe.Ops)
		for _, c := range s.Crash {
			if f, ok := c.pick(probe.Ops); ok {
				e.CrashAt, e.CrashTorn = f.At, f.Done
			}
		}
	}
	before := mk()
	before[inPath] = &rt.Node{Data: data}
	o := res.note(parse(data, e))
	if e.SwapAt > 0 && o.FS.SwapAt == 0 {
		before[inPath] = &rt.Node{Data: e.Swap}
	}
	inside := func(p string) bool { return p == abs || strings.HasPrefix(p, abs+"/") }
	muts := 0
	for _, op := range o.Ops {
		if !mutKinds[op.Kind] {
			continue
		}
		muts++
		if inside(op.Path) || op.Kind == "mkdir" && strings.HasPrefix(abs, op.Path+"/") || op.Err == syscall.EEXIST.Error() {
			continue
		}
		return res.fail("outside", "%s %s is outside the output directory %s", op.Kind, op.Path, abs)
	}
	if muts >= 7 || o.FS.FailedOps > 0 {
		res.probe("nontrivial")
	}
	after := o.FS.Nodes
	for _, p := range keys(before) {
		n := before[p]
		if inside(p) {
			continue
		}
		m := after[p]
		if m == nil {
			return res.fail("removed", "%s was removed", p)
		}
		if n.Dir != m.Dir || n.Link != m.Link || !bytes.Equal(n.Data, m.Data) {
			return res.fail("changed", "%s was changed", p)
		}
	}
	for _, p := range keys(after) {
		if before[p] == nil && !inside(p) && !(after[p].Dir && strings.HasPrefix(abs, p+"/")) {
			return res.fail("created", "%s was created", p)
		}
	}
	// names below the directory: reports and content hashes only
	if s.Kind != "crash" && (o.OK || len(s.Sels) == 0) {
		if o.died() == "" && o.OK {
			for _, k := range keys(o.Tree) {
				if isReport(k) {
					continue
				}
				if !hashName.MatchString(k) || gen.MD5(o.Tree[k]) != k {
					return res.fail("name", "%q in the output directory is not named by the hash of its content", k)
				}
			}
		}
	}
	for _, op := range o.Ops {
		if op.Kind == "create" && inside(op.Path) {
			k := strings.TrimPrefix(op.Path, abs+"/")
			if strings.Contains(k, "/") {
				return res.fail("name", "%q created below the output directory", k)
			}
		}
	}
	return res
}

// C08 ---------------------------------------------------------------------------

func genC08(r *rt.R, tier string) *Scn {
	s := &Scn{Prop: "C08"}
	o := fullOpt()
	o.MaxF, o.MaxRev, o.Enc = 4, 2, 35
	n := r.In(1, 3)
	for i := 0; i < n; i++ {
		s.Docs = append(s.Docs, anyDoc(r, o))
		a := Act{K: r.Pick("ok", "fault", "fault", "fault", "wrongpw", "damaged", "missing", "moving", "dir"), A: r.N(1 << 20)}
		s.Acts = append(s.Acts, a)
		s.Sels = append(s.Sels, randSel(r))
		if r.P(1, 3) {
			s.Sels[i].Kind = r.Pick("create", "close", "create")
			s.Sels[i].Repeat = false
		}
	}
	s.Maps = []uint64{randMap(r)}
	s.N = map[string]int{"pre": r.N(3)}
	return s
}

func runC08(s *Scn) *Res {
	res := newRes()
	nodes := preTree(s.n("pre"), s.Seed)
	for i, d := range s.Docs {
		b := d.Build()
		a := Act{K: "ok"}
		if i < len(s.Acts) {
			a = s.Acts[i]
		}
		data := b.Data
		e := &Env{Pw: pwOf(s, b), MapSeed: s.mapSeed(0), Nodes: nodes}
		switch a.K {
		case "wrongpw":
			e.Pw += "wrong"
		case "damaged":
			data = mutate(data, randMuts(rt.NewR(uint64(a.A)), 3))
		case "dir":
			e.InDir = true
		case "missing":
			e.Faults = []rt.Fault{{OnKind: "open", OnPath: inPath, Nth: 1, Err: "ENOENT"}}
		case "fault":
			probe := *e
			probe.Nodes = copyNodes(nodes)
			p := parse(data, &probe)
			if i < len(s.Sels) {
				e.Faults = faults(s.Sels[i:i+1], p.Ops)
			}
		case "moving":
			probe := *e
			probe.Nodes = copyNodes(nodes)
			swap(&Scn{N: map[string]int{"swapAt": a.A, "swap": a.A}}, e, data, parse(data, &probe).Ops)
		}
		o := res.note(parse(data, e))
		nodes = o.FS.Nodes
		delete(nodes, inPath)
		if d := o.died(); d != "" {
			if a.K == "damaged" || a.K == "moving" {
				continue
			}
			return res.fail("died", "%s: %s", faultText(o), d)
		}
		if !o.OK {
			res.probe("nontrivial")
		}
		what := "after success"
		if !o.OK {
			what = fmt.Sprintf("after error %q", o.Err)
		}
		if f := faultText(o); f != "no fault" {
			what += " (" + f + ")"
		}
		if len(o.Open) > 0 {
			sort.Strings(o.Open)
			return res.fail("leak", "%s: never closed: %s", what, strings.Join(o.Open, ", "))
		}
		if len(o.Twice) > 0 {
			return res.fail("double", "%s: closed more than once: %s", what, strings.Join(o.Twice, ", "))
		}
		if len(o.After) > 0 {
			return res.fail("use-after-close", "%s: used after close: %s", what, strings.Join(o.After, ", "))
		}
	}
	return res
}
