// genshim completes the shim packages with aliases of everything else the
// standard package exports.
package main

import (
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func main() {
	root := os.Args[1]
	for _, m := range [][2]string{{"time", "time"}, {"context", "context"}, {"net", "net"}, {"io", "io"}, {"runtime", "runtime"}, {"rand", "math/rand"}, {"randv2", "math/rand/v2"}, {"crand", "crypto/rand"}} {
		gen(filepath.Join(root, m[0]), m[1])
	}
}

func gen(dir, std string) {
	fset := token.NewFileSet()
	have := map[string]bool{}
	ents, _ := os.ReadDir(dir)
	name := ""
	for _, e := range ents {
		if e.Name() == "zz_std.go" || !strings.HasSuffix(e.Name(), ".go") {
			continue
		}
		f, err := parser.ParseFile(fset, filepath.Join(dir, e.Name()), nil, 0)
		if err != nil {
			panic(err)
		}
		name = f.Name.Name
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil {
					have[d.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.TypeSpec:
						have[s.Name.Name] = true
					case *ast.ValueSpec:
						for _, n := range s.Names {
							have[n.Name] = true
						}
					}
				}
			}
		}
	}
	pkg, err := importer.ForCompiler(fset, "source", nil).Import(std)
	if err != nil {
		panic(err)
	}
	var names []string
	for _, n := range pkg.Scope().Names() {
		if token.IsExported(n) && !have[n] {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	var b strings.Builder
	fmt.Fprintf(&b, "// Code generated by genshim. DO NOT EDIT.\n\npackage %s\n\nimport std %q\n\n", name, std)
	n := 0
	for _, nm := range names {
		o := pkg.Scope().Lookup(nm)
		switch o := o.(type) {
		case *types.Const:
			fmt.Fprintf(&b, "const %s = std.%s\n", nm, nm)
		case *types.TypeName:
			if nt, ok := o.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "type %s = std.%s\n", nm, nm)
		case *types.Var:
			fmt.Fprintf(&b, "var %s = std.%s\n", nm, nm)
		case *types.Func:
			if o.Type().(*types.Signature).TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "var %s = std.%s\n", nm, nm)
		}
		n++
	}
	if n == 0 {
		b.WriteString("var _ = std.Reader\n")
	}
	os.WriteFile(filepath.Join(dir, "zz_std.go"), []byte(b.String()), 0o644)
}
