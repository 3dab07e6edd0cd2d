// rewrite copies the Go module at -repo to -out, routing every source of
// nondeterminism of its packages through the simulator in zzsim/:
//
//   - imports of os, io/ioutil, sync, maps, path/filepath are replaced by drop-in
//     packages backed by the simulated world;
//   - range over a map takes its order from the world (rt.MapRange);
//   - every function entry and loop iteration calls rt.Step, the simulator's
//     clock and preemption point;
//   - functions that use package-level variables some code may change get a
//     preemption point before every statement (rt.Point);
//   - make with a computed size reports it to the world (rt.Alloc);
//   - goroutines, channels and select become clients and channels of the world,
//     and reads and writes of maps are reported to it (rt.MR, rt.MW).
//
// Edits are textual insertions, so line numbers are unchanged. Test files are not
// copied. Nothing in the source tree is modified.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

var swaps = map[string]string{
	"os":            "os",
	"io/ioutil":     "ioutil",
	"sync":          "sync",
	"maps":          "maps",
	"path/filepath": "filepath",
}

// imports that bring nondeterminism the simulator does not own
var unowned = map[string]bool{"time": true, "math/rand": true, "math/rand/v2": true, "crypto/rand": true, "net": true, "net/http": true, "os/exec": true, "syscall": true, "os/signal": true, "sync/atomic": false, "unsafe": false}

type edit struct {
	at   int
	end  int
	text string
	seq  int
	end2 bool // closes what an earlier edit opened
}

type pkgInfo struct {
	ImportPath string
	Dir        string
	Name       string
	GoFiles    []string
	Export     string
	Standard   bool
	Module     *struct {
		Path string
		Main bool
	}
	EmbedFiles []string
}

type stats struct {
	Files, Funcs, Loops, MapRanges, Makes, GoStmts int
	Points, Chans                                  int
	Swapped                                        map[string]int
	Unowned                                        []string
}

func die(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "rewrite: "+format+"\n", a...)
	os.Exit(3)
}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	statsFile := flag.String("stats", "", "")
	flag.Parse()

	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Dir,Name,GoFiles,Export,Standard,Module,EmbedFiles", "./...")
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	data, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	exports := map[string]string{}
	var pkgs []pkgInfo
	dec := json.NewDecoder(bytes.NewReader(data))
	for {
		var p pkgInfo
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		exports[p.ImportPath] = p.Export
		if p.Module != nil && p.Module.Main {
			pkgs = append(pkgs, p)
		}
	}
	if len(pkgs) == 0 {
		die("no packages")
	}
	mod := pkgs[0].Module.Path

	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})

	st := &stats{Swapped: map[string]int{}}
	for _, p := range pkgs {
		for _, f := range p.GoFiles {
			full := filepath.Join(p.Dir, f)
			af, err := parser.ParseFile(token.NewFileSet(), full, nil, 0)
			if err != nil {
				die("%v", err)
			}
			ast.Inspect(af, func(n ast.Node) bool {
				if _, ok := n.(*ast.GoStmt); ok {
					st.GoStmts++
				}
				return true
			})
		}
	}
	for _, p := range pkgs {
		var files []*ast.File
		var names []string
		var srcs [][]byte
		for _, f := range p.GoFiles {
			full := filepath.Join(p.Dir, f)
			src, err := os.ReadFile(full)
			if err != nil {
				die("%v", err)
			}
			af, err := parser.ParseFile(fset, full, src, parser.ParseComments)
			if err != nil {
				die("%v", err)
			}
			files = append(files, af)
			names = append(names, full)
			srcs = append(srcs, src)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
		conf := types.Config{Importer: imp, GoVersion: ""}
		if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
			die("type check: %v", err)
		}
		rel, _ := filepath.Rel(*repo, p.Dir)
		shared := sharedVars(files, info)
		for i, af := range files {
			res := rewriteFile(fset, af, srcs[i], info, shared, mod, st)
			dst := filepath.Join(*out, rel, filepath.Base(names[i]))
			os.MkdirAll(filepath.Dir(dst), 0755)
			if err := os.WriteFile(dst, res, 0644); err != nil {
				die("%v", err)
			}
			st.Files++
		}
		for _, e := range p.EmbedFiles {
			b, err := os.ReadFile(filepath.Join(p.Dir, e))
			if err != nil {
				die("%v", err)
			}
			dst := filepath.Join(*out, rel, e)
			os.MkdirAll(filepath.Dir(dst), 0755)
			os.WriteFile(dst, b, 0644)
		}
	}
	if *statsFile != "" {
		sort.Strings(st.Unowned)
		b, _ := json.Marshal(st)
		os.WriteFile(*statsFile, b, 0644)
	}
}

func isMap(t types.Type) bool {
	if t == nil {
		return false
	}
	if tp, ok := t.(*types.TypeParam); ok {
		t = tp.Underlying()
		if iface, ok := t.(*types.Interface); ok && iface.NumEmbeddeds() == 1 {
			if u, ok := iface.EmbeddedType(0).(*types.Union); ok && u.Len() == 1 {
				_, m := u.Term(0).Type().Underlying().(*types.Map)
				return m
			}
		}
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

// sharedVars finds the package-level variables that something might change after
// the program has started. Plain values that are only read, compared, indexed,
// or passed to functions of bytes, and regular expressions, are left out.
func sharedVars(files []*ast.File, info *types.Info) map[types.Object]bool {
	vars := map[types.Object]bool{}
	for _, f := range files {
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
				for _, s := range g.Specs {
					for _, id := range s.(*ast.ValueSpec).Names {
						if o := info.Defs[id]; o != nil && id.Name != "_" {
							vars[o] = false
						}
					}
				}
			}
		}
	}
	for _, f := range files {
		var stack []ast.Node
		ast.Inspect(f, func(n ast.Node) bool {
			if n == nil {
				stack = stack[:len(stack)-1]
				return true
			}
			stack = append(stack, n)
			id, ok := n.(*ast.Ident)
			if !ok {
				return true
			}
			o := info.Uses[id]
			if _, ok := vars[o]; !ok {
				return true
			}
			if !calm(o, id, stack[:len(stack)-1]) {
				vars[o] = true
			}
			return true
		})
	}
	return vars
}

func calm(o types.Object, id *ast.Ident, stack []ast.Node) bool {
	switch o.Type().String() {
	case "*regexp.Regexp", "error":
		return true
	}
	var me ast.Node = id
	for i := len(stack) - 1; i >= 0; i-- {
		switch p := stack[i].(type) {
		case *ast.ParenExpr:
			me = p
			continue
		case *ast.BinaryExpr:
			return true
		case *ast.IndexExpr:
			if p.X != me {
				return true
			}
			me = p
			continue
		case *ast.RangeStmt:
			return p.X == me
		case *ast.CallExpr:
			if sel, ok := p.Fun.(*ast.SelectorExpr); ok {
				if pkg, ok := sel.X.(*ast.Ident); ok && (pkg.Name == "bytes" || pkg.Name == "strings") {
					return true
				}
			}
		}
		break
	}
	// other uses of a plain value are reads unless it is changed
	switch o.Type().Underlying().(type) {
	case *types.Basic:
	default:
		return false
	}
	for i := len(stack) - 1; i >= 0; i-- {
		switch p := stack[i].(type) {
		case *ast.AssignStmt:
			for _, l := range p.Lhs {
				if l.Pos() <= id.Pos() && id.End() <= l.End() {
					return false
				}
			}
		case *ast.IncDecStmt:
			return false
		case *ast.UnaryExpr:
			if p.Op == token.AND {
				return false
			}
		}
	}
	return true
}

func rewriteFile(fset *token.FileSet, f *ast.File, src []byte, info *types.Info, shared map[types.Object]bool, mod string, st *stats) []byte {
	var edits []edit
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	ins := func(p token.Pos, text string) {
		o := off(p)
		edits = append(edits, edit{at: o, end: o, text: text, seq: len(edits)})
	}
	fin := func(p token.Pos, text string) {
		o := off(p)
		edits = append(edits, edit{at: o, end: o, text: text, seq: len(edits), end2: true})
	}
	rep := func(a, b token.Pos, text string) {
		edits = append(edits, edit{at: off(a), end: off(b), text: text, seq: len(edits)})
	}
	atomics := false

	for _, is := range f.Imports {
		path := strings.Trim(is.Path.Value, "\"`")
		if u := unowned[path]; u {
			st.Unowned = append(st.Unowned, filepath.Base(fset.Position(is.Pos()).Filename)+":"+path)
		}
		atomics = atomics || path == "sync/atomic"
		pkg, ok := swaps[path]
		if !ok {
			continue
		}
		st.Swapped[path]++
		text := fmt.Sprintf("%q", mod+"/zzsim/"+pkg)
		if is.Name == nil {
			text = pkg + " " + text
		}
		rep(is.Path.Pos(), is.Path.End(), text)
	}
	ins(f.Name.End(), fmt.Sprintf("; import zzsim %q; var _ = zzsim.Step", mod+"/zzsim/rt"))

	// a file-scope "var" between import declarations is not legal, so the use of
	// the import goes to the end of the file instead
	edits[len(edits)-1].text = fmt.Sprintf("; import zzsim %q", mod+"/zzsim/rt")
	tail := "\nvar _ = zzsim.Step\n"
	if atomics {
		tail += "var _ = zzsim.NoRaces()\n"
	}
	edits = append(edits, edit{at: len(src), end: len(src), text: tail, seq: len(edits)})

	body := func(b *ast.BlockStmt) {
		if b != nil {
			ins(b.Lbrace+1, " zzsim.Step(); ")
		}
	}
	// points puts a preemption point before every statement of a function that
	// uses shared state
	points := func(fn ast.Node) {
		uses := st.GoStmts > 0
		ast.Inspect(fn, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok && shared[info.Uses[id]] {
				uses = true
			}
			return !uses
		})
		if !uses {
			return
		}
		list := func(ss []ast.Stmt) {
			for _, s := range ss {
				if _, ok := s.(*ast.EmptyStmt); ok {
					continue
				}
				st.Points++
				ins(s.Pos(), "zzsim.Point(); ")
			}
		}
		ast.Inspect(fn, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				if len(x.List) > 0 {
					switch x.List[0].(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true
					}
				}
				list(x.List)
			case *ast.CaseClause:
				list(x.Body)
			case *ast.CommClause:
				list(x.Body)
			}
			return true
		})
	}
	written, recv2, mine := map[ast.Expr]bool{}, map[ast.Expr]bool{}, map[ast.Node]bool{}
	var selects []*ast.SelectStmt
	arrow := func(e ast.Expr) *ast.UnaryExpr {
		if u, ok := ast.Unparen(e).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			return u
		}
		return nil
	}
	chanOf := func(e ast.Expr) *types.Chan {
		if t := info.Types[e].Type; t != nil {
			c, _ := t.Underlying().(*types.Chan)
			return c
		}
		return nil
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				written[ast.Unparen(l)] = true
			}
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				if u := arrow(x.Rhs[0]); u != nil {
					recv2[u] = true
				}
			}
		case *ast.ValueSpec:
			if len(x.Names) == 2 && len(x.Values) == 1 {
				if u := arrow(x.Values[0]); u != nil {
					recv2[u] = true
				}
			}
		case *ast.IncDecStmt:
			written[ast.Unparen(x.X)] = true
		case *ast.IndexExpr:
			if tv := info.Types[x.X]; tv.IsValue() && isMap(tv.Type) {
				if written[x] {
					ins(x.X.Pos(), "zzsim.MW(")
				} else {
					ins(x.X.Pos(), "zzsim.MR(")
				}
				fin(x.X.End(), ")")
			}
		case *ast.ChanType:
			st.Chans++
			if !mine[x] {
				rep(x.Begin, x.Value.Pos(), "*zzsim.Chan[")
				fin(x.Value.End(), "]")
			}
		case *ast.SendStmt:
			if !mine[x] {
				ins(x.Chan.Pos(), "(")
				rep(x.Arrow, x.Arrow+2, ").Send(")
				fin(x.Value.End(), ")")
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW && !mine[x] {
				rep(x.OpPos, x.X.Pos(), "(")
				if recv2[x] {
					fin(x.X.End(), ").Recv2()")
				} else {
					fin(x.X.End(), ").Recv()")
				}
			}
		case *ast.SelectStmt:
			selects = append(selects, x)
			for _, c := range x.Body.List {
				switch s := c.(*ast.CommClause).Comm.(type) {
				case *ast.SendStmt:
					mine[s] = true
				case *ast.ExprStmt:
					mine[arrow(s.X)] = true
				case *ast.AssignStmt:
					mine[arrow(s.Rhs[0])] = true
				}
			}
		case *ast.GoStmt:
			c := x.Call
			if info.Types[c.Fun].IsBuiltin() {
				rep(x.Go, c.Pos(), "zzsim.Go(func() { ")
				fin(c.End(), " })")
				return true
			}
			fn := "zzf"
			var obj types.Object
			switch id := ast.Unparen(c.Fun).(type) {
			case *ast.Ident:
				obj = info.Uses[id]
			case *ast.SelectorExpr:
				obj = info.Uses[id.Sel]
			}
			if o, ok := obj.(*types.Func); ok && o.Type().(*types.Signature).Recv() == nil {
				fn = string(src[off(c.Fun.Pos()):off(c.Fun.End())])
				rep(x.Go, c.Fun.Pos(), "func() { _ = 0; /* ")
				rep(c.Lparen, c.Lparen+1, " */")
			} else {
				rep(x.Go, c.Fun.Pos(), "func() { zzf := ")
				rep(c.Lparen, c.Lparen+1, "; ")
			}
			last := c.Lparen + 1
			var args []string
			for i, a := range c.Args {
				if i > 0 {
					rep(last, a.Pos(), "; ")
				}
				last = a.End()
				name := fmt.Sprintf("zza%d", i)
				tv := info.Types[a]
				switch {
				case tv.IsNil():
					rep(a.Pos(), a.End(), name+" := 0; _ = "+name)
					name = "nil"
				case tv.Value != nil:
					ins(a.Pos(), "const "+name+" = ")
				default:
					ins(a.Pos(), name+" := ")
				}
				args = append(args, name)
			}
			dots := ""
			if c.Ellipsis.IsValid() {
				dots = "..."
			}
			rep(last, c.Rparen+1, "; zzsim.Go(func() { "+fn+"("+strings.Join(args, ", ")+dots+") }) }()")
		}
		switch x := n.(type) {
		case *ast.FuncDecl:
			if x.Body != nil && !(x.Recv == nil && x.Name.Name == "init") {
				points(x.Body)
			}
			if x.Body != nil {
				st.Funcs++
				if x.Name.Name == "main" && x.Recv == nil && f.Name.Name == "main" {
					ins(x.Body.Lbrace+1, " defer zzsim.CLIDone(); ")
				}
				body(x.Body)
			}
		case *ast.FuncLit:
			st.Funcs++
			body(x.Body)
		case *ast.ForStmt:
			st.Loops++
			body(x.Body)
		case *ast.RangeStmt:
			st.Loops++
			body(x.Body)
			if isMap(info.Types[x.X].Type) {
				st.MapRanges++
				ins(x.X.Pos(), "zzsim.MapRange(")
				fin(x.X.End(), ")")
			} else if chanOf(x.X) != nil {
				ins(x.X.Pos(), "(")
				fin(x.X.End(), ").Seq()")
			}
		case *ast.LabeledStmt:
			// goto loops: one step per pass over the label
			if _, isFor := x.Stmt.(*ast.ForStmt); !isFor {
				if _, isRange := x.Stmt.(*ast.RangeStmt); !isRange {
					if _, isSw := x.Stmt.(*ast.SwitchStmt); !isSw {
						if _, isSel := x.Stmt.(*ast.SelectStmt); !isSel {
							if _, isTS := x.Stmt.(*ast.TypeSwitchStmt); !isTS {
								ins(x.Colon+1, " zzsim.Step(); ")
							}
						}
					}
				}
			}
		case *ast.CallExpr:
			id, ok := x.Fun.(*ast.Ident)
			if !ok {
				return true
			}
			if _, builtin := info.Uses[id].(*types.Builtin); !builtin {
				return true
			}
			switch id.Name {
			case "delete":
				ins(x.Args[0].Pos(), "zzsim.MW(")
				fin(x.Args[0].End(), ")")
			case "close", "len", "cap":
				if chanOf(x.Args[0]) != nil {
					rep(x.Pos(), x.Args[0].Pos(), "(")
					rep(x.Args[0].End(), x.End(), map[string]string{"close": ").Close()", "len": ").Len()", "cap": ").Cap()"}[id.Name])
				}
			case "make":
				if ct, ok := x.Args[0].(*ast.ChanType); ok {
					mine[ct] = true
					rep(x.Pos(), ct.Value.Pos(), "zzsim.MakeChan[")
					if len(x.Args) == 1 {
						rep(ct.Value.End(), x.End(), "](0)")
					} else {
						rep(ct.Value.End(), x.Args[1].Pos(), "](int(")
						fin(x.Args[1].End(), ")")
					}
					return true
				}
				for _, a := range x.Args[1:] {
					if info.Types[a].Value == nil { // not a constant
						st.Makes++
						ins(a.Pos(), "zzsim.Alloc(")
						fin(a.End(), ")")
					}
				}
			}
		}
		return true
	})

	// what select statements wait for moves to their heads, with its edits
	sorted := func(es []edit) {
		sort.SliceStable(es, func(i, j int) bool {
			a, b := es[i], es[j]
			if a.at != b.at {
				return a.at < b.at
			}
			if a.end2 != b.end2 {
				return a.end2
			}
			if a.end2 {
				return a.seq > b.seq
			}
			return a.seq < b.seq
		})
	}
	apply := func(es []edit, lo, hi int) string {
		sorted(es)
		var buf bytes.Buffer
		last := lo
		for _, e := range es {
			buf.Write(src[last:e.at])
			buf.WriteString(e.text)
			last = e.end
		}
		buf.Write(src[last:hi])
		return buf.String()
	}
	take := func(e ast.Expr) string {
		lo, hi := off(e.Pos()), off(e.End())
		var in, out []edit
		for _, x := range edits {
			if x.at >= lo && x.end <= hi && (x.at < hi || x.end2) {
				in = append(in, x)
			} else {
				out = append(out, x)
			}
		}
		edits = out
		return apply(in, lo, hi)
	}
	for i := len(selects) - 1; i >= 0; i-- {
		x := selects[i]
		var names, vals []string
		def := false
		for _, cc := range x.Body.List {
			c := cc.(*ast.CommClause)
			if c.Comm == nil {
				def = true
				continue
			}
			k := len(names)
			name := fmt.Sprintf("zzc%d", k)
			names = append(names, name)
			text := ""
			switch s := c.Comm.(type) {
			case *ast.SendStmt:
				vals = append(vals, "("+take(s.Chan)+").SendCase("+take(s.Value)+")")
			case *ast.ExprStmt:
				vals = append(vals, "zzsim.RecvCase("+take(arrow(s.X).X)+")")
			case *ast.AssignStmt:
				vals = append(vals, "zzsim.RecvCase("+take(arrow(s.Rhs[0]).X)+")")
				var l []string
				for _, e := range s.Lhs {
					l = append(l, take(e))
				}
				get := ".Get()"
				if len(l) == 2 {
					get = ".Get2()"
				}
				text = " " + strings.Join(l, ", ") + " " + s.Tok.String() + " " + name + get + ";"
			}
			rep(c.Case, c.Colon+1, fmt.Sprintf("case %d:%s", k, text))
		}
		head := "switch "
		if len(names) > 0 {
			head += strings.Join(names, ", ") + " := " + strings.Join(vals, ", ") + "; "
		}
		rep(x.Select, x.Body.Lbrace+1, head+"zzsim.Select("+strings.Join(append([]string{fmt.Sprint(def)}, names...), ", ")+") {")
		if !def {
			ins(x.Body.Rbrace, " default: panic(\"unreachable\"); ")
		}
	}
	return []byte(apply(edits, 0, len(src)))
}
