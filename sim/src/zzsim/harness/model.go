package main

import (
	"bytes"
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/KarmaPenny/pdfparser/zzsim/gen"
)

// Aspects of an outcome a property makes claims about.
const (
	aText = 1 << iota
	aURLs
	aJS
	aCmds
	aFiles
	aErrors
	aRaw
	aTree      // exactly the seven reports and the extracted files
	aArtefacts = aText | aURLs | aJS | aCmds | aFiles
)

func lines(b []byte) []string {
	if len(b) == 0 {
		return nil
	}
	s := strings.Split(string(b), "\n")
	if s[len(s)-1] == "" {
		s = s[:len(s)-1]
	} else {
		s[len(s)-1] += "<no newline>"
	}
	return s
}

// diffLines compares lines as multisets.
func diffLines(want, got []string) string {
	a, b := append([]string(nil), want...), append([]string(nil), got...)
	sort.Strings(a)
	sort.Strings(b)
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || i < len(a) && a[i] < b[j]:
			return fmt.Sprintf("missing line %q", a[i])
		case i >= len(a) || b[j] < a[i]:
			return fmt.Sprintf("unexpected line %q", b[j])
		}
		i++
		j++
	}
	return ""
}

func trimRight(s []string) []string {
	out := make([]string, len(s))
	for i := range s {
		out[i] = strings.TrimRight(s[i], " ")
	}
	return out
}

// checkParse compares the outcome of a parse with the model. It returns a
// class and a description of the first difference.
func checkParse(b *gen.Built, exp *gen.Expect, o *Out, aspects int) (string, string) {
	if d := o.died(); d != "" {
		return "died", d
	}
	if !o.OK {
		return "error", "the parse failed: " + o.Err
	}
	return checkTree(b, exp, o.Tree, aspects)
}

func checkTree(b *gen.Built, exp *gen.Expect, t map[string][]byte, aspects int) (string, string) {
	for _, r := range reports {
		if _, ok := t[r]; !ok {
			return "no-report", r + " is missing"
		}
	}
	if aspects&aText != 0 {
		if got := t["contents.txt"]; string(got) != exp.Text {
			return "text", "contents.txt " + diffBytes([]byte(exp.Text), got)
		}
	}
	if aspects&aURLs != 0 {
		if d := diffLines(exp.URLs, lines(t["urls.txt"])); d != "" {
			return "urls", "urls.txt: " + d
		}
	}
	if aspects&aJS != 0 {
		if d := diffLines(exp.JS, lines(t["javascript.js"])); d != "" {
			return "js", "javascript.js: " + d
		}
	}
	if aspects&aCmds != 0 {
		if d := diffLines(trimRight(exp.Cmds), trimRight(lines(t["commands.txt"]))); d != "" {
			return "commands", "commands.txt: " + d
		}
	}
	if aspects&aFiles != 0 {
		if d := diffLines(exp.Files, lines(t["files.txt"])); d != "" {
			return "files", "files.txt: " + d
		}
		if d := checkManifest(t); d != "" {
			return "manifest", d
		}
		for _, h := range keys(exp.Extracted) {
			got, ok := t[h]
			if !ok {
				return "extracted", "extracted file " + h + " is missing"
			}
			if !bytes.Equal(got, exp.Extracted[h]) {
				return "extracted", "extracted file " + h + " " + diffBytes(exp.Extracted[h], got)
			}
		}
	}
	if aspects&(aFiles|aTree) != 0 {
		for _, k := range keys(t) {
			if _, ok := exp.Extracted[k]; !ok && !isReport(k) {
				return "extra-file", fmt.Sprintf("unexpected file %q in the output directory", k)
			}
		}
	}
	if aspects&aErrors != 0 {
		if e := t["errors.txt"]; len(e) > 0 {
			return "errors", fmt.Sprintf("errors.txt of a well-formed document: %q", cut(e, 200))
		}
	}
	if aspects&aRaw != 0 {
		if d := checkRaw(b, exp, t["raw.pdf"]); d != "" {
			return "raw", "raw.pdf: " + d
		}
	}
	return "", ""
}

func isReport(k string) bool {
	for _, r := range reports {
		if k == r {
			return true
		}
	}
	return false
}

var hashLine = regexp.MustCompile(`^([0-9a-f]{32}):`)

// checkManifest: every non-zero hash names a file with that content, and every
// extracted file is named.
func checkManifest(t map[string][]byte) string {
	named := map[string]bool{}
	for _, l := range lines(t["files.txt"]) {
		m := hashLine.FindStringSubmatch(l)
		if m == nil {
			return fmt.Sprintf("files.txt has a line without a hash: %q", l)
		}
		if m[1] == gen.ZeroHash {
			continue
		}
		named[m[1]] = true
		d, ok := t[m[1]]
		if !ok {
			return "files.txt names " + m[1] + ", which does not exist"
		}
		if gen.MD5(d) != m[1] {
			return "the content of " + m[1] + " has hash " + gen.MD5(d)
		}
	}
	for _, k := range keys(t) {
		if !isReport(k) && !named[k] {
			return fmt.Sprintf("%q is not named in files.txt", k)
		}
	}
	return ""
}

// checkObjs compares objects read through the library with the model.
func checkObjs(exp *gen.Expect, l *LibOut, skip map[int]bool) (string, string) {
	if d := l.died(); d != "" {
		return "died", d
	}
	if !l.OK {
		return "error", "loading failed: " + l.Err
	}
	for _, n := range objNums(exp) {
		v, read := l.Objs[n]
		if !read || skip[n] {
			continue
		}
		if d := diffObj(exp.Objs[n], v); d != "" {
			return "object", fmt.Sprintf("object %d: %s", n, d)
		}
	}
	var fr []int
	for n := range exp.Freed {
		fr = append(fr, n)
	}
	sort.Ints(fr)
	for _, n := range fr {
		if v, ok := l.Objs[n]; ok && !skip[n] && (v.Canon != "null" || len(v.Stream) > 0) {
			return "deleted-object", fmt.Sprintf("deleted object %d reads as %s", n, cut([]byte(v.Canon), 120))
		}
	}
	return "", ""
}

func objNums(exp *gen.Expect) []int {
	var ns []int
	for n := range exp.Objs {
		ns = append(ns, n)
	}
	sort.Ints(ns)
	return ns
}

// diffObj compares one object with its model.
func diffObj(o *gen.Obj, v ObjView) string {
	if w := gen.Canon(o.Full); w != v.Canon {
		return "value " + diffBytes([]byte(w), []byte(v.Canon))
	}
	if o.IsStream {
		if !bytes.Equal(o.Data, v.Stream) {
			return "stream " + diffBytes(o.Data, v.Stream)
		}
	} else if len(v.Stream) > 0 {
		return "has a stream but should not"
	}
	return ""
}

// raw.pdf ---------------------------------------------------------------------------

var rawHead = regexp.MustCompile(`^(\d+) (\d+) obj\s`)
var rawNext = regexp.MustCompile(`\nendobj\s+(\d+ \d+ obj\s|$)`)

// checkRaw reads raw.pdf back independently and compares it with the model. The
// document must contain only strings and names that need no escaping.
func checkRaw(b *gen.Built, exp *gen.Expect, data []byte) string {
	seen := map[int]bool{}
	optional := map[int]bool{b.EncN: true}
	for _, n := range b.XrefN {
		optional[n] = true
	}
	pos := 0
	ws := func() {
		for pos < len(data) && bytes.IndexByte([]byte("\x00\t\n\f\r "), data[pos]) >= 0 {
			pos++
		}
	}
	for {
		ws()
		if pos >= len(data) {
			break
		}
		m := rawHead.FindSubmatch(data[pos:])
		if m == nil {
			return fmt.Sprintf("no object header at byte %d: %q", pos, cut(data[pos:], 60))
		}
		n, _ := strconv.Atoi(string(m[1]))
		g, _ := strconv.Atoi(string(m[2]))
		pos += len(m[0])
		if seen[n] {
			return fmt.Sprintf("object %d appears twice", n)
		}
		seen[n] = true
		o := exp.Objs[n]
		if optional[n] {
			loc := rawNext.FindIndex(data[pos:])
			if loc == nil {
				return fmt.Sprintf("object %d does not end", n)
			}
			pos += loc[0] + len("\nendobj")
			continue
		}
		if o == nil {
			return fmt.Sprintf("object %d is not live", n)
		}
		if g != o.Gen {
			return fmt.Sprintf("object %d has generation %d instead of %d", n, g, o.Gen)
		}
		r := &rawReader{d: data, p: pos}
		v, err := r.value(0)
		if err != "" {
			return fmt.Sprintf("object %d: %s", n, err)
		}
		if w, got := gen.Canon(o.Full), gen.Canon(v); w != got {
			return fmt.Sprintf("object %d: value %s", n, diffBytes([]byte(w), []byte(got)))
		}
		pos = r.p
		ws()
		if o.IsStream {
			if !bytes.HasPrefix(data[pos:], []byte("stream\n")) {
				return fmt.Sprintf("object %d: no stream: %q", n, cut(data[pos:], 40))
			}
			pos += len("stream\n")
			if !bytes.HasPrefix(data[pos:], o.Data) {
				return fmt.Sprintf("object %d: stream %s", n, diffBytes(o.Data, cut(data[pos:], len(o.Data))))
			}
			pos += len(o.Data)
			if !bytes.HasPrefix(data[pos:], []byte("\nendstream")) {
				return fmt.Sprintf("object %d: stream does not end after its data: %q", n, cut(data[pos:], 40))
			}
			pos += len("\nendstream")
			ws()
		}
		if !bytes.HasPrefix(data[pos:], []byte("endobj")) {
			return fmt.Sprintf("object %d: no endobj: %q", n, cut(data[pos:], 40))
		}
		pos += len("endobj")
	}
	for _, n := range objNums(exp) {
		if !seen[n] && !optional[n] {
			return fmt.Sprintf("live object %d is missing", n)
		}
	}
	return ""
}

type rawReader struct {
	d []byte
	p int
}

func (r *rawReader) ws() {
	for r.p < len(r.d) && bytes.IndexByte([]byte("\x00\t\n\f\r "), r.d[r.p]) >= 0 {
		r.p++
	}
}

func (r *rawReader) token() string {
	s := r.p
	for r.p < len(r.d) && bytes.IndexByte([]byte("\x00\t\n\f\r ()<>[]/%"), r.d[r.p]) < 0 {
		r.p++
	}
	return string(r.d[s:r.p])
}

var rawRef = regexp.MustCompile(`^(\d+) (\d+) R(?:[^A-Za-z0-9]|$)`)

func (r *rawReader) value(depth int) (gen.Val, string) {
	r.ws()
	if r.p >= len(r.d) {
		return nil, "ends in a value"
	}
	rest := r.d[r.p:]
	switch {
	case bytes.HasPrefix(rest, []byte("<<")):
		r.p += 2
		d := &gen.Dict{}
		for {
			r.ws()
			if bytes.HasPrefix(r.d[r.p:], []byte(">>")) {
				r.p += 2
				return d, ""
			}
			if r.p >= len(r.d) || r.d[r.p] != '/' {
				return nil, fmt.Sprintf("bad dictionary key at %q", cut(r.d[r.p:], 30))
			}
			r.p++
			k := r.token()
			v, err := r.value(depth + 1)
			if err != "" {
				return nil, err
			}
			d.KVs = append(d.KVs, gen.KV{K: k, V: v})
		}
	case rest[0] == '[':
		r.p++
		a := gen.Arr{}
		for {
			r.ws()
			if r.p < len(r.d) && r.d[r.p] == ']' {
				r.p++
				return a, ""
			}
			v, err := r.value(depth + 1)
			if err != "" {
				return nil, err
			}
			a = append(a, v)
		}
	case rest[0] == '/':
		r.p++
		return gen.Name(r.token()), ""
	case rest[0] == '(':
		e := bytes.IndexByte(rest, ')')
		if e < 0 {
			return nil, "unclosed string"
		}
		r.p += e + 1
		return gen.Str(rest[1:e]), ""
	case rest[0] == '<':
		e := bytes.IndexByte(rest, '>')
		if e < 0 {
			return nil, "unclosed hex string"
		}
		h := strings.Map(func(c rune) rune {
			if c == ' ' || c == '\n' {
				return -1
			}
			return c
		}, string(rest[1:e]))
		if len(h)%2 == 1 {
			h += "0"
		}
		s := ""
		for i := 0; i < len(h); i += 2 {
			x, err := strconv.ParseUint(h[i:i+2], 16, 8)
			if err != nil {
				return nil, "bad hex string"
			}
			s += string([]byte{byte(x)})
		}
		r.p += e + 1
		return gen.Str(s), ""
	}
	if m := rawRef.FindSubmatch(cut(rest, 40)); m != nil {
		n, _ := strconv.Atoi(string(m[1]))
		g, _ := strconv.Atoi(string(m[2]))
		r.p += len(m[1]) + len(m[2]) + 3
		return gen.Ref{Num: n, Gen: g}, ""
	}
	t := r.token()
	switch t {
	case "null":
		return nil, ""
	case "true", "false":
		return t == "true", ""
	case "":
		return nil, fmt.Sprintf("bad value at %q", cut(rest, 30))
	}
	if !rawNum.MatchString(t) {
		return nil, fmt.Sprintf("bad number %q", t)
	}
	return gen.Real(t), ""
}

var rawNum = regexp.MustCompile(`^[+-]?(\d+\.?\d*|\.\d+)$`)
