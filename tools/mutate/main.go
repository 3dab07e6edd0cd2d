// mutate lists or applies one-place changes to a Go source tree, to look for
// behaviour no check decides.
//
//	mutate DIR            list: number, file:line, kind, text
//	mutate DIR N          apply change N in place
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type mut struct {
	file     string
	at, end  int
	with     string
	kind     string
	line     int
}

func main() {
	dir := os.Args[1]
	var files []string
	for _, g := range []string{"*.go", "*/*.go"} {
		m, _ := filepath.Glob(filepath.Join(dir, g))
		files = append(files, m...)
	}
	sort.Strings(files)
	var ms []mut
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		src, _ := os.ReadFile(f)
		fset := token.NewFileSet()
		a, err := parser.ParseFile(fset, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		add := func(n ast.Node, at, end token.Pos, with, kind string) {
			ms = append(ms, mut{f, off(at), off(end), with, kind, fset.Position(n.Pos()).Line})
		}
		flip := map[token.Token][]string{
			token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
			token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
			token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"*"},
			token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.XOR: {"&"},
		}
		ast.Inspect(a, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BinaryExpr:
				for _, w := range flip[x.Op] {
					add(x, x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), w, "op "+x.Op.String()+" "+w)
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					v, err := strconv.ParseInt(x.Value, 0, 64)
					if err == nil {
						add(x, x.Pos(), x.End(), fmt.Sprint(v+1), "const "+x.Value+" +1")
						if v > 0 {
							add(x, x.Pos(), x.End(), fmt.Sprint(v-1), "const "+x.Value+" -1")
						}
					}
				} else if x.Kind == token.CHAR {
					add(x, x.Pos(), x.End(), "'\\x01'", "char "+x.Value)
				} else if x.Kind == token.STRING && len(x.Value) > 2 && x.Value[0] == '"' {
					add(x, x.Pos(), x.End(), x.Value[:len(x.Value)-1]+"q\"", "string "+x.Value)
				}
			case *ast.Ident:
				if x.Name == "true" {
					add(x, x.Pos(), x.End(), "false", "true")
				} else if x.Name == "false" {
					add(x, x.Pos(), x.End(), "true", "false")
				}
			case *ast.IfStmt:
				add(x.Cond, x.Cond.Pos(), x.Cond.Pos(), "!(", "negate")
				ms[len(ms)-1].end = -off(x.Cond.End())
				add(x.Cond, x.Cond.Pos(), x.Cond.Pos(), "false && (", "never")
				ms[len(ms)-1].end = -off(x.Cond.End())
				if x.Else != nil {
					if b, ok := x.Else.(*ast.BlockStmt); ok {
						add(x.Else, b.Lbrace+1, b.Rbrace, "", "empty else")
					}
				}
			case *ast.BlockStmt:
				for _, s := range x.List {
					switch t := s.(type) {
					case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt:
						add(s, s.Pos(), s.End(), "", "delete")
					case *ast.AssignStmt:
						if t.Tok != token.DEFINE {
							add(s, s.Pos(), s.End(), "", "delete")
						}
					case *ast.BranchStmt:
						if t.Tok == token.CONTINUE && t.Label == nil {
							add(s, s.Pos(), s.End(), "break", "continue->break")
						} else if t.Tok == token.BREAK && t.Label == nil {
							add(s, s.Pos(), s.End(), "continue", "break->continue")
						}
						add(s, s.Pos(), s.End(), "", "delete")
					case *ast.ReturnStmt:
						if len(t.Results) == 0 {
							add(s, s.Pos(), s.End(), "", "delete")
						}
					}
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					add(x, x.OpPos, x.OpPos+1, "", "drop !")
				}
			}
			return true
		})
	}
	if len(os.Args) == 2 {
		for i, m := range ms {
			rel, _ := filepath.Rel(dir, m.file)
			src, _ := os.ReadFile(m.file)
			l := strings.TrimSpace(strings.Split(string(src), "\n")[m.line-1])
			fmt.Printf("%d\t%s:%d\t%s\t%s\n", i, rel, m.line, m.kind, l)
		}
		return
	}
	k, _ := strconv.Atoi(os.Args[2])
	m := ms[k]
	src, _ := os.ReadFile(m.file)
	var out string
	if m.end < 0 { // wrap
		e := -m.end
		out = string(src[:m.at]) + m.with + string(src[m.at:e]) + ")" + string(src[e:])
	} else {
		out = string(src[:m.at]) + m.with + string(src[m.end:])
	}
	if err := os.WriteFile(m.file, []byte(out), 0644); err != nil {
		panic(err)
	}
}
