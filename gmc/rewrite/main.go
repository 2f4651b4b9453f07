// Command rewrite copies Go packages into a workspace, replacing every
// goroutine start, channel operation, lock, timer, clock, network and shared
// memory access by a call into gmc/mc, so that the copy runs under the
// controlled scheduler.  The source of the packages is otherwise unchanged.
//
//	rewrite -harness DIR -repo DIR -gmc DIR -out DIR
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type modInfo struct {
	Path, Version, Dir, GoVersion string
	Main                          bool
	Replace                       *modInfo
}

type pkgInfo struct {
	ImportPath string
	Name       string
	Dir        string
	Export     string
	GoFiles    []string
	Imports    []string
	Standard   bool
	Module     *modInfo
}

var shims = map[string]string{
	"sync":         "gmc/shim/sync",
	"sync/atomic":  "gmc/shim/atomic",
	"time":         "gmc/shim/time",
	"context":      "gmc/shim/context",
	"net":          "gmc/shim/net",
	"io":           "gmc/shim/io",
	"runtime":      "gmc/shim/runtime",
	"math/rand":    "gmc/shim/rand",
	"math/rand/v2": "gmc/shim/randv2",
	"crypto/rand":  "gmc/shim/crand",
}

func main() {
	harness := flag.String("harness", "", "harness module directory")
	repo := flag.String("repo", "", "repository")
	gmc := flag.String("gmc", "", "gmc module directory")
	out := flag.String("out", "", "workspace directory")
	flag.Parse()
	if err := run(*harness, *repo, *gmc, *out); err != nil {
		fmt.Fprintln(os.Stderr, "rewrite:", err)
		os.Exit(1)
	}
}

// keep decides which packages are rewritten; the others are copied or used as
// they are.
func rewritable(p *pkgInfo) bool {
	if p.Standard || p.Module == nil {
		return false
	}
	ip := p.ImportPath
	if ip == "gmc" || strings.HasPrefix(ip, "gmc/") || strings.HasPrefix(ip, "github.com/singchia/go-timer/") {
		return false
	}
	if strings.HasSuffix(ip, "armorigo/log") {
		return false
	}
	return true
}

// repoModfile copies the go.mod of the harness with the repository replaced by the given tree.
func repoModfile(harness, repo, out string) (string, error) {
	if err := os.MkdirAll(out, 0o755); err != nil {
		return "", err
	}
	b, err := os.ReadFile(filepath.Join(harness, "go.mod"))
	if err != nil {
		return "", err
	}
	const from = "replace github.com/singchia/geminio => /repo\n"
	if !strings.Contains(string(b), from) {
		return "", fmt.Errorf("%s/go.mod doesn't replace the repository", harness)
	}
	to := "replace github.com/singchia/geminio => " + repo + "\n"
	mod := filepath.Join(out, "list.mod")
	if err := os.WriteFile(mod, []byte(strings.Replace(string(b), from, to, 1)), 0o644); err != nil {
		return "", err
	}
	sum, err := os.ReadFile(filepath.Join(harness, "go.sum"))
	if err != nil {
		return "", err
	}
	return mod, os.WriteFile(filepath.Join(out, "list.sum"), sum, 0o644)
}

func run(harness, repo, gmc, out string) error {
	modfile, err := repoModfile(harness, repo, out)
	if err != nil {
		return err
	}
	cmd := exec.Command("go", "list", "-modfile="+modfile, "-export", "-deps", "-json=ImportPath,Name,Dir,Export,GoFiles,Imports,Standard,Module", ".")
	cmd.Dir = harness
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	b, err := cmd.Output()
	if err != nil {
		return fmt.Errorf("go list: %v\n%s", err, stderr.String())
	}
	var pkgs []*pkgInfo
	dec := json.NewDecoder(bytes.NewReader(b))
	exports := map[string]string{}
	for {
		p := new(pkgInfo)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			return err
		}
		exports[p.ImportPath] = p.Export
		pkgs = append(pkgs, p)
	}
	fset := token.NewFileSet()
	gc := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f := exports[path]
		if f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	imp := &mixed{gc: gc, done: map[string]*types.Package{}}
	ids := &idTable{m: map[string]int{}}
	mods := map[string]*modInfo{}
	var harnessOut string
	for _, p := range pkgs { // go list -deps: dependencies first
		if p.Standard || p.Module == nil {
			continue
		}
		if strings.HasPrefix(p.ImportPath, "gmc/") || p.ImportPath == "gmc" || strings.HasPrefix(p.ImportPath, "github.com/singchia/go-timer/") {
			continue
		}
		m := p.Module
		mods[m.Path] = m
		root := m.Dir
		rel, err := filepath.Rel(root, p.Dir)
		if err != nil {
			return err
		}
		dst := filepath.Join(out, modDir(m), rel)
		if m.Main {
			harnessOut = dst
		}
		if err := os.MkdirAll(dst, 0o755); err != nil {
			return err
		}
		if !rewritable(p) {
			for _, f := range p.GoFiles {
				b, err := os.ReadFile(filepath.Join(p.Dir, f))
				if err != nil {
					return err
				}
				if err := os.WriteFile(filepath.Join(dst, f), b, 0o644); err != nil {
					return err
				}
			}
			continue
		}
		if err := rewritePkg(fset, imp, p, dst, ids); err != nil {
			return fmt.Errorf("%s: %w", p.ImportPath, err)
		}
	}
	// field names
	var fb strings.Builder
	fb.WriteString("package main\n\nimport \"gmc/mc\"\n\nfunc init() {\n\tmc.FieldName = []string{\n")
	for _, n := range ids.names {
		fmt.Fprintf(&fb, "\t\t%q,\n", n)
	}
	fb.WriteString("\t}\n}\n")
	if err := os.WriteFile(filepath.Join(harnessOut, "zz_gmc_fields.go"), []byte(fb.String()), 0o644); err != nil {
		return err
	}
	// modules
	var paths []string
	for p := range mods {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		m := mods[p]
		var g strings.Builder
		gv := m.GoVersion
		if !perIteration(gv) {
			gv = "1.21" // generics need it; loop variables keep the old semantics
		}
		fmt.Fprintf(&g, "module %s\n\ngo %s\n", m.Path, gv)
		if m.Main {
			var reqs []string
			for _, q := range paths {
				if q != p {
					reqs = append(reqs, q)
				}
			}
			reqs = append(reqs, "gmc", "github.com/singchia/go-timer/v2")
			for _, q := range reqs {
				v := "v0.0.0"
				if strings.HasSuffix(q, "/v2") {
					v = "v2.0.0"
				}
				fmt.Fprintf(&g, "require %s %s\n", q, v)
			}
			for _, q := range paths {
				if q != p {
					fmt.Fprintf(&g, "replace %s => ../%s\n", q, modDir(mods[q]))
				}
			}
			fmt.Fprintf(&g, "replace gmc => %s\n", gmc)
			fmt.Fprintf(&g, "replace github.com/singchia/go-timer/v2 => %s\n", filepath.Join(gmc, "timer"))
		}
		if err := os.WriteFile(filepath.Join(out, modDir(m), "go.mod"), []byte(g.String()), 0o644); err != nil {
			return err
		}
	}
	return nil
}

func modDir(m *modInfo) string {
	if m.Main {
		return "harness"
	}
	return strings.ReplaceAll(m.Path, "/", "_")
}

type mixed struct {
	gc   types.Importer
	done map[string]*types.Package
}

func (m *mixed) Import(path string) (*types.Package, error) {
	if p := m.done[path]; p != nil {
		return p, nil
	}
	return m.gc.Import(path)
}

type idTable struct {
	m     map[string]int
	names []string
}

func (t *idTable) id(name string) int {
	if i, ok := t.m[name]; ok {
		return i
	}
	i := len(t.names)
	t.m[name] = i
	t.names = append(t.names, name)
	return i
}

func rewritePkg(fset *token.FileSet, imp *mixed, p *pkgInfo, dst string, ids *idTable) error {
	var files []*ast.File
	var srcs [][]byte
	for _, f := range p.GoFiles {
		fn := filepath.Join(p.Dir, f)
		src, err := os.ReadFile(fn)
		if err != nil {
			return err
		}
		af, err := parser.ParseFile(fset, fn, src, parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		files = append(files, af)
		srcs = append(srcs, src)
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}, Scopes: map[ast.Node]*types.Scope{},
		Instances: map[*ast.Ident]types.Instance{},
	}
	conf := types.Config{Importer: imp, GoVersion: "go" + p.Module.GoVersion}
	tp, err := conf.Check(p.ImportPath, fset, files, info)
	if err != nil {
		return err
	}
	imp.done[p.ImportPath] = tp
	r := &rw{fset: fset, info: info, pkg: tp, ids: ids, short: shortPkg(p), mem: !p.Module.Main, harness: p.Module.Main}
	r.perIter = perIteration(p.Module.GoVersion)
	r.findTracked(files)

	// package state reset
	type resetRef struct {
		file int
		fn   string
	}
	extra := make([]strings.Builder, len(files))
	var resets []string
	fileOf := func(pos token.Pos) int {
		for i, f := range files {
			if f.FileStart <= pos && pos < f.FileEnd {
				return i
			}
		}
		return -1
	}
	inited := map[*types.Var]bool{}
	for n, in := range info.InitOrder {
		need := false
		for _, v := range in.Lhs {
			inited[v] = true
			if r.mutableGlobal(v) {
				need = true
			}
		}
		if !need {
			continue
		}
		fi := fileOf(in.Rhs.Pos())
		r.src, r.file = srcs[fi], files[fi]
		fn := fmt.Sprintf("gmc_reset_%d", n)
		var lhs []string
		for _, v := range in.Lhs {
			lhs = append(lhs, v.Name())
		}
		fmt.Fprintf(&extra[fi], "\nfunc %s() { %s = %s }\n", fn, strings.Join(lhs, ", "), r.expr(in.Rhs))
		resets = append(resets, fn)
	}
	var zero []string
	for _, name := range tp.Scope().Names() {
		if v, ok := tp.Scope().Lookup(name).(*types.Var); ok && !inited[v] {
			zero = append(zero, "gmcmc.SetZero(&"+name+")")
		}
	}
	var inits []string
	for i, f := range files {
		r.src, r.file = srcs[i], f
		r.inits = nil
		body := r.fileText(f)
		for range r.inits {
		}
		inits = append(inits, r.inits...)
		o := fmt.Sprintf("//line %s:1\n", filepath.Join(p.Dir, p.GoFiles[i])) + body + "\nvar _ = gmcmc.Gosched\n" + extra[i].String()
		name := p.GoFiles[i]
		if err := os.WriteFile(filepath.Join(dst, name), []byte(o), 0o644); err != nil {
			return err
		}
	}
	if len(resets)+len(zero)+len(inits) > 0 {
		var z strings.Builder
		fmt.Fprintf(&z, "package %s\n\nimport gmcmc \"gmc/mc\"\n\nfunc init() {\n\tgmcmc.ResetHooks = append(gmcmc.ResetHooks, func() {\n", tp.Name())
		if p.Module.Main {
			z.Reset()
			fmt.Fprintf(&z, "package %s\n\nimport gmcmc \"gmc/mc\"\n\nfunc init() {\n\tgmcmc.ResetHooks = append(gmcmc.ResetHooks, func() {\n", tp.Name())
		}
		for _, s := range zero {
			fmt.Fprintf(&z, "\t\t%s\n", s)
		}
		for _, s := range resets {
			fmt.Fprintf(&z, "\t\t%s()\n", s)
		}
		if !p.Module.Main { // the harness registers scenarios in init: not repeated
			for _, s := range inits {
				fmt.Fprintf(&z, "\t\t%s()\n", s)
			}
		}
		z.WriteString("\t})\n}\n")
		if err := os.WriteFile(filepath.Join(dst, "zz_gmc_reset.go"), []byte(z.String()), 0o644); err != nil {
			return err
		}
	}
	return nil
}

func perIteration(v string) bool {
	parts := strings.Split(v, ".")
	if len(parts) < 2 {
		return true
	}
	n, err := strconv.Atoi(parts[1])
	return err != nil || n >= 22
}

func shortPkg(p *pkgInfo) string {
	s := strings.TrimPrefix(p.ImportPath, "github.com/singchia/")
	s = strings.TrimPrefix(s, "github.com/jumboframes/")
	s = strings.TrimPrefix(s, "geminio/")
	return s
}
