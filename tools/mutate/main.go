// mutate lists or applies single small changes to the repository's sources:
//
//	mutate -repo DIR            lists every mutation
//	mutate -repo DIR -n I       applies mutation I in place
package main

import (
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type mutation struct {
	file       string
	start, end int
	text       string
	what       string
	line       int
}

func main() {
	repo := flag.String("repo", "/repo", "")
	n := flag.Int("n", -1, "")
	flag.Parse()
	var ms []mutation
	for _, dir := range []string{"application", "client", "conn", "multiplexer", "packet", "pkg/id", "pkg/net", "pkg/sync", "server", "options"} {
		files, _ := filepath.Glob(filepath.Join(*repo, dir, "*.go"))
		sort.Strings(files)
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			ms = append(ms, mutate(f)...)
		}
	}
	if *n < 0 {
		for i, m := range ms {
			rel, _ := filepath.Rel(*repo, m.file)
			fmt.Printf("%d\t%s:%d\t%s\n", i, rel, m.line, m.what)
		}
		return
	}
	m := ms[*n]
	b, err := os.ReadFile(m.file)
	if err != nil {
		panic(err)
	}
	out := string(b[:m.start]) + m.text + string(b[m.end:])
	if err := os.WriteFile(m.file, []byte(out), 0o644); err != nil {
		panic(err)
	}
}

func mutate(file string) []mutation {
	src, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, file, src, 0)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	one := func(s string) string {
		s = strings.Join(strings.Fields(s), " ")
		if len(s) > 90 {
			s = s[:90] + "..."
		}
		return s
	}
	var ms []mutation
	add := func(n ast.Node, repl, what string) {
		ms = append(ms, mutation{file, off(n.Pos()), off(n.End()), repl, what, fset.Position(n.Pos()).Line})
	}
	isLog := func(s string) bool {
		return strings.Contains(s, ".log.") || strings.Contains(s, ".Log.") || strings.HasPrefix(s, "log.")
	}
	var visit func(n ast.Node) bool
	visit = func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			stmts(x.List, add, text, one, isLog)
		case *ast.CaseClause:
			stmts(x.Body, add, text, one, isLog)
			if len(x.List) > 0 && len(x.Body) > 0 {
				add(x, "", "drop case "+one(text(x)))
			}
		case *ast.CommClause:
			stmts(x.Body, add, text, one, isLog)
			add(x, "", "drop select case "+one(text(x)))
		case *ast.IfStmt:
			c := text(x.Cond)
			add(x.Cond, "!("+c+")", "negate "+one(c))
			add(x.Cond, "("+c+") && false", "never "+one(c))
			add(x.Cond, "("+c+") || true", "always "+one(c))
		case *ast.BinaryExpr:
			swap := map[token.Token]string{token.LAND: "||", token.LOR: "&&", token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">", token.ADD: "-", token.SUB: "+", token.MUL: "+", token.AND: "|", token.OR: "&", token.SHL: ">>", token.SHR: "<<", token.QUO: "*"}
			if r, ok := swap[x.Op]; ok && !strings.Contains(text(x), "\"") {
				add(x, text(x.X)+" "+r+" "+text(x.Y), one(text(x))+"  =>  "+r)
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				add(x, x.Value+"+1", "literal "+x.Value+" + 1")
			}
		case *ast.Ident:
			if x.Name == "true" {
				add(x, "false", "true => false")
			} else if x.Name == "false" {
				add(x, "true", "false => true")
			}
		case *ast.GoStmt:
			add(x, text(x.Call), "no goroutine for "+one(text(x.Call)))
		case *ast.DeferStmt:
			add(x, text(x.Call), "no defer for "+one(text(x.Call)))
		case *ast.ReturnStmt:
			for _, r := range x.Results {
				if id, ok := r.(*ast.Ident); ok && (id.Name == "err" || strings.HasSuffix(id.Name, "err")) {
					add(r, "nil", "return nil for "+id.Name)
				}
			}
		case *ast.SelectorExpr:
			t := text(x)
			for a, b := range map[string]string{"iodefine.IOErr": "iodefine.IOSuccess", "iodefine.IOSuccess": "iodefine.IOErr", "iodefine.IODiscard": "iodefine.IOSuccess", "iodefine.IOClosed": "iodefine.IOSuccess"} {
				if t == a {
					add(x, b, a+" => "+b)
				}
			}
		}
		return true
	}
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
			if fd.Name.Name == "String" {
				continue
			}
			ast.Inspect(fd.Body, visit)
		}
	}
	return ms
}

func stmts(list []ast.Stmt, add func(ast.Node, string, string), text func(ast.Node) string, one func(string) string, isLog func(string) bool) {
	for i, s := range list {
		t := text(s)
		if isLog(t) && !strings.Contains(t, "\n\t\t\t\t\t\t\t") && strings.HasPrefix(strings.TrimSpace(t), "") {
			if _, ok := s.(*ast.ExprStmt); ok {
				continue
			}
		}
		switch x := s.(type) {
		case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.DeferStmt, *ast.GoStmt, *ast.BranchStmt:
			add(s, "", "drop "+one(t))
			// a lock and its unlock together
			if strings.HasSuffix(t, "Lock()") && !strings.HasSuffix(t, "Unlock()") {
				u := strings.Replace(strings.Replace(t, ".Lock()", ".Unlock()", 1), ".RLock()", ".RUnlock()", 1)
				for j := i + 1; j < len(list); j++ {
					if v := text(list[j]); v == u || v == "defer "+u {
						mid := ""
						for k := i + 1; k < j; k++ {
							mid += text(list[k]) + "\n"
						}
						add(span{s, list[j]}, mid, "no lock "+one(t))
						break
					}
				}
			}
		case *ast.AssignStmt:
			if x.Tok.String() != ":=" {
				add(s, "", "drop "+one(t))
			}
		case *ast.IfStmt:
			add(s, "", "drop if "+one(t))
		}
		// exchange with the next statement
		if i+1 < len(list) {
			_, d1 := s.(*ast.ReturnStmt)
			_, d2 := list[i+1].(*ast.ReturnStmt)
			t2 := text(list[i+1])
			if !d1 && !d2 && !isLog(t) && !isLog(t2) {
				switch s.(type) {
				case *ast.ExprStmt, *ast.SendStmt, *ast.AssignStmt, *ast.GoStmt:
					switch list[i+1].(type) {
					case *ast.ExprStmt, *ast.SendStmt, *ast.AssignStmt, *ast.GoStmt:
						add(span{s, list[i+1]}, t2+"\n"+t, "exchange "+one(t)+" / "+one(t2))
					}
				}
			}
		}
	}
}

type span struct{ a, b ast.Node }

func (s span) Pos() token.Pos { return s.a.Pos() }
func (s span) End() token.Pos { return s.b.End() }
