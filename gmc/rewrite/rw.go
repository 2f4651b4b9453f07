package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

type rw struct {
	fset    *token.FileSet
	info    *types.Info
	pkg     *types.Package
	ids     *idTable
	short   string
	src     []byte
	file    *ast.File
	n       int
	mem     bool
	harness bool
	perIter bool
	tracked map[*types.Var]bool
	mutated map[*types.Var]bool
	inits   []string
}

func (r *rw) text(from, to token.Pos) string {
	b := r.file.FileStart
	return string(r.src[int(from-b):int(to-b)])
}
func (r *rw) verb(n ast.Node) string { return r.text(n.Pos(), n.End()) }
func (r *rw) tmp() string            { r.n++; return fmt.Sprintf("gmc_%d", r.n) }

// ---------------------------------------------------------------- analysis

func (r *rw) findTracked(files []*ast.File) {
	declIn := map[*types.Var]ast.Node{}
	captured := map[*types.Var]bool{}
	mutated := map[*types.Var]bool{}
	r.tracked = map[*types.Var]bool{}
	mut := func(e ast.Expr) {
		if id, ok := unparen(e).(*ast.Ident); ok {
			if v, ok := r.info.Uses[id].(*types.Var); ok {
				mutated[v] = true
			}
		}
	}
	for _, f := range files {
		var stack []ast.Node
		var funcs []ast.Node
		ast.Inspect(f, func(n ast.Node) bool {
			if n == nil {
				top := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				switch top.(type) {
				case *ast.FuncDecl, *ast.FuncLit:
					funcs = funcs[:len(funcs)-1]
				}
				return true
			}
			stack = append(stack, n)
			switch x := n.(type) {
			case *ast.FuncDecl, *ast.FuncLit:
				funcs = append(funcs, n)
			case *ast.Ident:
				var cur ast.Node
				if len(funcs) > 0 {
					cur = funcs[len(funcs)-1]
				}
				if v, ok := r.info.Defs[x].(*types.Var); ok && !v.IsField() {
					declIn[v] = cur
				}
				if v, ok := r.info.Uses[x].(*types.Var); ok && !v.IsField() {
					if d, ok := declIn[v]; ok && d != nil && d != cur {
						captured[v] = true
					}
				}
			case *ast.AssignStmt:
				for _, l := range x.Lhs {
					mut(l)
				}
			case *ast.IncDecStmt:
				mut(x.X)
			case *ast.UnaryExpr:
				if x.Op == token.AND {
					mut(x.X)
				}
			case *ast.RangeStmt:
				if x.Tok == token.ASSIGN {
					if x.Key != nil {
						mut(x.Key)
					}
					if x.Value != nil {
						mut(x.Value)
					}
				}
			}
			return true
		})
	}
	r.mutated = mutated
	for v := range mutated {
		if v.IsField() {
			continue
		}
		global := v.Parent() == r.pkg.Scope()
		if (global || captured[v]) && r.instrumentable(v.Type()) {
			r.tracked[v] = true
		}
	}
}

// mutableGlobal reports whether package variable v can change at run time.
func (r *rw) mutableGlobal(v *types.Var) bool {
	if r.mutated[v] {
		return true
	}
	switch u := v.Type().Underlying().(type) {
	case *types.Basic:
		return false
	case *types.Interface:
		return !types.Identical(v.Type(), types.Universe.Lookup("error").Type())
	case *types.Signature:
		return false
	default:
		_ = u
		return true
	}
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (r *rw) instrumentable(t types.Type) bool {
	return r.mem && !hasSync(t, 0)
}

func hasSync(t types.Type, depth int) bool {
	if depth > 4 {
		return false
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if p := n.Obj().Pkg(); p != nil && (p.Path() == "sync" || p.Path() == "sync/atomic") {
			if _, isIface := n.Underlying().(*types.Interface); !isIface {
				return true
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasSync(u.Field(i).Type(), depth+1) {
				return true
			}
		}
	case *types.Array:
		return hasSync(u.Elem(), depth+1)
	}
	return false
}

func (r *rw) typeOf(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := r.info.ObjectOf(id); o != nil {
			return o.Type()
		}
	}
	return nil
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	return t.Underlying()
}

func isMap(t types.Type) bool  { _, ok := under(t).(*types.Map); return ok }
func isChan(t types.Type) bool { _, ok := under(t).(*types.Chan); return ok }
func isPtr(t types.Type) bool  { _, ok := under(t).(*types.Pointer); return ok }

func (r *rw) trackedVar(e ast.Expr) *types.Var {
	if id, ok := e.(*ast.Ident); ok {
		if v, ok := r.info.Uses[id].(*types.Var); ok && r.tracked[v] {
			return v
		}
	}
	return nil
}

func (r *rw) fieldSel(e ast.Expr) (*ast.SelectorExpr, *types.Selection) {
	if s, ok := e.(*ast.SelectorExpr); ok {
		if sel := r.info.Selections[s]; sel != nil && sel.Kind() == types.FieldVal {
			return s, sel
		}
	}
	return nil, nil
}

func (r *rw) addressable(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return r.addressable(x.X)
	case *ast.Ident:
		_, ok := r.info.ObjectOf(x).(*types.Var)
		return ok
	case *ast.SelectorExpr:
		sel := r.info.Selections[x]
		if sel == nil {
			_, ok := r.info.Uses[x.Sel].(*types.Var)
			return ok
		}
		if sel.Kind() != types.FieldVal {
			return false
		}
		return isPtr(r.typeOf(x.X)) || sel.Indirect() || r.addressable(x.X)
	case *ast.IndexExpr:
		switch u := under(r.typeOf(x.X)).(type) {
		case *types.Slice:
			return true
		case *types.Array:
			return r.addressable(x.X)
		case *types.Pointer:
			_ = u
			return true
		}
		return false
	case *ast.StarExpr:
		return true
	}
	return false
}

// access returns the name of the memory location if e is an instrumented one.
func (r *rw) access(e ast.Expr) (string, bool) {
	if !r.mem {
		return "", false
	}
	switch x := e.(type) {
	case *ast.ParenExpr:
		return r.access(x.X)
	case *ast.Ident:
		if v := r.trackedVar(x); v != nil {
			return r.short + ".var " + v.Name(), true
		}
	case *ast.SelectorExpr:
		s, sel := r.fieldSel(x)
		if s == nil || !r.instrumentable(sel.Type()) || !r.addressable(e) {
			return "", false
		}
		return fieldName(sel), true
	case *ast.StarExpr:
		tv := r.info.Types[e]
		if tv.IsValue() && r.instrumentable(tv.Type) {
			return r.short + ".*" + typeName(tv.Type), true
		}
	}
	return "", false
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func fieldName(sel *types.Selection) string {
	f := sel.Obj().(*types.Var)
	// owner: last struct on the path
	t := sel.Recv()
	idx := sel.Index()
	for i, k := range idx {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		if i == len(idx)-1 {
			break
		}
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			break
		}
		t = st.Field(k).Type()
	}
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Pkg().Name() + "." + n.Obj().Name() + "." + f.Name()
	}
	return "struct." + f.Name()
}

// ---------------------------------------------------------------- rendering

func kids(n ast.Node) []ast.Node {
	var out []ast.Node
	first := true
	ast.Inspect(n, func(c ast.Node) bool {
		if first {
			first = false
			return true
		}
		if c != nil {
			switch c.(type) {
			case *ast.CommentGroup, *ast.Comment:
				return false
			}
			out = append(out, c)
		}
		return false
	})
	sort.SliceStable(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

// def copies the text of n with its children rendered.
func (r *rw) def(n ast.Node, over map[ast.Node]string) string {
	var b strings.Builder
	pos := n.Pos()
	for _, c := range kids(n) {
		if c.Pos() < pos || c.End() > n.End() {
			continue
		}
		b.WriteString(r.text(pos, c.Pos()))
		if s, ok := over[c]; ok {
			b.WriteString(s)
		} else {
			b.WriteString(r.node(c))
		}
		pos = c.End()
	}
	b.WriteString(r.text(pos, n.End()))
	return b.String()
}

func (r *rw) node(n ast.Node) string {
	switch x := n.(type) {
	case ast.Expr:
		return r.expr(x)
	case ast.Stmt:
		return r.stmt(x, false)
	case *ast.ImportSpec:
		p := strings.Trim(x.Path.Value, `"`)
		if s, ok := shims[p]; ok {
			return r.text(x.Pos(), x.Path.Pos()) + `"` + s + `"`
		}
		return r.verb(x)
	case *ast.Field, *ast.FieldList, *ast.TypeSpec:
		return r.verb(n)
	case *ast.FuncDecl:
		if x.Body == nil {
			return r.verb(x)
		}
		if x.Name.Name == "init" && x.Recv == nil {
			name := "gmc_init_" + fmt.Sprint(len(r.inits)) + "_" + fmt.Sprint(int(x.Pos()))
			r.inits = append(r.inits, name)
			return "func " + name + "() " + r.stmt(x.Body, false) + "; func init() { " + name + "() }"
		}
		return r.text(x.Pos(), x.Body.Pos()) + r.stmt(x.Body, false)
	}
	return r.def(n, nil)
}

func (r *rw) fileText(f *ast.File) string {
	var b strings.Builder
	start := f.FileStart
	b.WriteString(r.text(start, f.Name.End()))
	b.WriteString(`; import gmcmc "gmc/mc"`)
	pos := f.Name.End()
	for _, d := range f.Decls {
		b.WriteString(r.text(pos, d.Pos()))
		b.WriteString(r.node(d))
		pos = d.End()
	}
	b.WriteString(r.text(pos, f.FileEnd))
	return b.String()
}

func (r *rw) id(name string) int {
	if !r.mem { // harness: its own state is not a subject of exploration
		return -1
	}
	return r.ids.id(name)
}

func (r *rw) expr(e ast.Expr) string {
	if e == nil {
		return ""
	}
	tv, ok := r.info.Types[e]
	if ok && (tv.Value != nil || tv.IsType()) {
		return r.verb(e)
	}
	if name, ok := r.access(e); ok {
		if _, isParen := e.(*ast.ParenExpr); !isParen {
			if s, ok := e.(*ast.StarExpr); ok {
				return fmt.Sprintf("(*gmcmc.R(%s, %d))", r.expr(s.X), r.id(name))
			}
			return fmt.Sprintf("(*gmcmc.R(&%s, %d))", r.addr(e), r.id(name))
		}
	}
	switch x := e.(type) {
	case *ast.Ident, *ast.BasicLit:
		return r.verb(e)
	case *ast.SelectorExpr:
		sel := r.info.Selections[x]
		if sel == nil {
			return r.verb(e)
		}
		switch sel.Kind() {
		case types.MethodExpr:
			return r.verb(e)
		case types.MethodVal:
			f := sel.Obj().(*types.Func)
			recv := f.Type().(*types.Signature).Recv()
			base := r.expr(x.X)
			if recv != nil && isPtr(recv.Type()) && !isPtr(r.typeOf(x.X)) && r.addressable(x.X) {
				base = r.addr(x.X)
			}
			return base + r.text(x.X.End(), x.End())
		default:
			base := r.expr(x.X)
			if !isPtr(r.typeOf(x.X)) && r.addressable(x.X) {
				base = r.addr(x.X)
			}
			return base + r.text(x.X.End(), x.End())
		}
	case *ast.IndexExpr:
		if r.isGenericInst(x.X) {
			return r.verb(e)
		}
		t := r.typeOf(x.X)
		if isMap(t) && r.mem {
			return fmt.Sprintf("gmcmc.MR(%s, %d)[%s]", r.expr(x.X), r.id(r.mapName(x.X)), r.expr(x.Index))
		}
		base := r.expr(x.X)
		if _, ok := under(t).(*types.Array); ok && r.addressable(x.X) {
			base = r.addr(x.X)
		}
		return base + "[" + r.expr(x.Index) + "]"
	case *ast.IndexListExpr:
		return r.verb(e)
	case *ast.SliceExpr:
		if _, ok := under(r.typeOf(x.X)).(*types.Array); ok {
			return r.def(x, map[ast.Node]string{x.X: r.addr(x.X)})
		}
	case *ast.UnaryExpr:
		switch x.Op {
		case token.AND:
			if _, ok := unparen(x.X).(*ast.CompositeLit); ok {
				return "&" + r.expr(x.X)
			}
			return "&" + r.addr(x.X)
		case token.ARROW:
			fn := "Recv"
			if tv, ok := r.info.Types[e]; ok {
				if _, isT := tv.Type.(*types.Tuple); isT {
					fn = "Recv2"
				}
			}
			return "gmcmc." + fn + "(" + r.expr(x.X) + ")"
		}
	case *ast.CallExpr:
		return r.call(x)
	case *ast.FuncLit:
		m := r.mem
		r.mem = !r.harness
		s := r.text(x.Pos(), x.Body.Pos()) + r.stmt(x.Body, false)
		r.mem = m
		return s
	case *ast.CompositeLit:
		over := map[ast.Node]string{}
		if x.Type != nil {
			over[x.Type] = r.verb(x.Type)
		}
		if _, isStruct := under(derefT(r.typeOf(x))).(*types.Struct); isStruct {
			for _, el := range x.Elts {
				if kv, ok := el.(*ast.KeyValueExpr); ok {
					over[kv] = r.verb(kv.Key) + r.text(kv.Key.End(), kv.Value.Pos()) + r.expr(kv.Value)
				}
			}
		}
		return r.def(x, over)
	}
	return r.def(e, nil)
}

func derefT(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (r *rw) isGenericInst(x ast.Expr) bool {
	tv, ok := r.info.Types[x]
	if ok {
		if _, ok := tv.Type.(*types.Signature); ok {
			return true
		}
		return tv.IsType()
	}
	return false
}

func (r *rw) mapName(e ast.Expr) string {
	e = unparen(e)
	if s, sel := r.fieldSel(e); s != nil {
		return fieldName(sel) + "[]"
	}
	if id, ok := e.(*ast.Ident); ok {
		return r.short + ".map " + id.Name
	}
	return r.short + ".map"
}

func (r *rw) addr(e ast.Expr) string {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return "(" + r.addr(x.X) + ")"
	case *ast.Ident:
		return r.verb(x)
	case *ast.SelectorExpr:
		if s, _ := r.fieldSel(x); s != nil {
			if isPtr(r.typeOf(x.X)) || !r.addressable(x.X) {
				return r.expr(x.X) + r.text(x.X.End(), x.End())
			}
			return r.addr(x.X) + r.text(x.X.End(), x.End())
		}
		return r.verb(x)
	case *ast.IndexExpr:
		if r.isGenericInst(x.X) {
			return r.verb(x)
		}
		t := r.typeOf(x.X)
		if isMap(t) && r.mem {
			return fmt.Sprintf("gmcmc.MW(%s, %d)[%s]", r.expr(x.X), r.id(r.mapName(x.X)), r.expr(x.Index))
		}
		if _, ok := under(t).(*types.Array); ok && r.addressable(x.X) {
			return r.addr(x.X) + "[" + r.expr(x.Index) + "]"
		}
		return r.expr(x.X) + "[" + r.expr(x.Index) + "]"
	case *ast.StarExpr:
		return "*" + r.expr(x.X)
	}
	return r.expr(e)
}

func (r *rw) isLogCall(x *ast.CallExpr) bool {
	s, ok := x.Fun.(*ast.SelectorExpr)
	if !ok {
		return false
	}
	o := r.info.Uses[s.Sel]
	f, ok := o.(*types.Func)
	if !ok || f.Pkg() == nil {
		return false
	}
	return strings.HasSuffix(f.Pkg().Path(), "armorigo/log") && s.Sel.Name != "NewLog"
}

func (r *rw) builtin(x *ast.CallExpr) string {
	if id, ok := unparen(x.Fun).(*ast.Ident); ok {
		if b, ok := r.info.Uses[id].(*types.Builtin); ok {
			return b.Name()
		}
	}
	return ""
}

func (r *rw) call(x *ast.CallExpr) string {
	switch r.builtin(x) {
	case "recover":
		return "gmcmc.Recover(recover())"
	case "close":
		return "gmcmc.Close(" + r.expr(x.Args[0]) + ")"
	case "len":
		t := r.typeOf(x.Args[0])
		if isChan(t) {
			return "gmcmc.LenC(" + r.expr(x.Args[0]) + ")"
		}
		if isMap(t) && r.mem {
			return fmt.Sprintf("len(gmcmc.MR(%s, %d))", r.expr(x.Args[0]), r.id(r.mapName(x.Args[0])))
		}
	case "delete":
		if r.mem {
			return fmt.Sprintf("delete(gmcmc.MW(%s, %d), %s)", r.expr(x.Args[0]), r.id(r.mapName(x.Args[0])), r.expr(x.Args[1]))
		}
	case "clear":
		if isMap(r.typeOf(x.Args[0])) {
			return fmt.Sprintf("clear(gmcmc.MW(%s, %d))", r.expr(x.Args[0]), r.id(r.mapName(x.Args[0])))
		}
	case "new", "make":
		over := map[ast.Node]string{x.Args[0]: r.verb(x.Args[0])}
		return r.def(x, over)
	}
	if r.isLogCall(x) {
		m := r.mem
		fun := r.expr(x.Fun)
		r.mem = false
		s := r.def(x, map[ast.Node]string{x.Fun: fun})
		r.mem = m
		return s
	}
	return r.def(x, nil)
}

// ---------------------------------------------------------------- statements

func pad(orig, out string) string {
	a, b := strings.Count(orig, "\n"), strings.Count(out, "\n")
	if a > b {
		out += strings.Repeat("\n", a-b)
	}
	return out
}

// stmt renders s; simple is true where only a simple statement may stand.
func (r *rw) stmt(s ast.Stmt, simple bool) string {
	switch x := s.(type) {
	case nil:
		return ""
	case *ast.AssignStmt:
		return pad(r.verb(x), r.assign(x, simple))
	case *ast.IncDecStmt:
		op := "+"
		if x.Tok == token.DEC {
			op = "-"
		}
		if name, ok := r.access(x.X); ok {
			return r.opAssign(x.X, name, op, "1", simple)
		}
		return r.addr(x.X) + r.text(x.X.End(), x.End())
	case *ast.SendStmt:
		return pad(r.verb(x), "gmcmc.SW("+r.expr(x.Chan)+").Send("+r.expr(x.Value)+")")
	case *ast.GoStmt:
		return pad(r.verb(x), r.goStmt(x))
	case *ast.SelectStmt:
		return pad(r.verb(x), r.selectStmt(x, ""))
	case *ast.RangeStmt:
		return pad(r.verb(x), r.rangeStmt(x, ""))
	case *ast.LabeledStmt:
		l := x.Label.Name + ":"
		switch y := x.Stmt.(type) {
		case *ast.SelectStmt:
			return pad(r.verb(x), r.selectStmt(y, l))
		case *ast.RangeStmt:
			return pad(r.verb(x), r.rangeStmt(y, l))
		}
		return r.text(x.Pos(), x.Stmt.Pos()) + r.stmt(x.Stmt, false)
	case *ast.IfStmt:
		over := map[ast.Node]string{}
		if x.Init != nil {
			over[x.Init] = r.stmt(x.Init, true)
		}
		return r.def(x, over)
	case *ast.ForStmt:
		over := map[ast.Node]string{}
		if x.Init != nil {
			over[x.Init] = r.stmt(x.Init, true)
		}
		if x.Post != nil {
			over[x.Post] = r.stmt(x.Post, true)
		}
		return r.def(x, over)
	case *ast.SwitchStmt:
		over := map[ast.Node]string{}
		if x.Init != nil {
			over[x.Init] = r.stmt(x.Init, true)
		}
		return r.def(x, over)
	case *ast.TypeSwitchStmt:
		over := map[ast.Node]string{}
		if x.Init != nil {
			over[x.Init] = r.stmt(x.Init, true)
		}
		if a, ok := x.Assign.(*ast.AssignStmt); ok {
			over[x.Assign] = r.text(a.Pos(), a.Rhs[0].Pos()) + r.expr(a.Rhs[0])
		}
		return r.def(x, over)
	case *ast.BranchStmt:
		return r.verb(x)
	}
	return r.def(s, nil)
}

func (r *rw) opAssign(lhs ast.Expr, name, op, rhs string, simple bool) string {
	p := r.tmp()
	s := fmt.Sprintf("%s := %s; %s.Set(%s.Get() %s (%s))", p, r.ptr(lhs, name), p, p, op, rhs)
	if simple {
		return "func() { " + s + " }()"
	}
	return "{ " + s + " }"
}

func (r *rw) ptr(lhs ast.Expr, name string) string {
	lhs = unparen(lhs)
	if s, ok := lhs.(*ast.StarExpr); ok {
		return fmt.Sprintf("gmcmc.P(%s, %d)", r.expr(s.X), r.id(name))
	}
	return fmt.Sprintf("gmcmc.P(&%s, %d)", r.addr(lhs), r.id(name))
}

func (r *rw) isConstOrNil(e ast.Expr) bool {
	tv, ok := r.info.Types[e]
	return ok && (tv.Value != nil || tv.IsNil())
}

func (r *rw) assign(x *ast.AssignStmt, simple bool) string {
	switch x.Tok {
	case token.DEFINE:
		over := map[ast.Node]string{}
		var after []string
		for _, l := range x.Lhs {
			id, ok := l.(*ast.Ident)
			if !ok {
				continue
			}
			over[l] = id.Name
			if _, isDef := r.info.Defs[id]; isDef {
				continue
			}
			if name, ok := r.access(l); ok && !simple {
				t := r.tmp()
				over[l] = t
				after = append(after, fmt.Sprintf("; gmcmc.P(&%s, %d).Set(%s)", id.Name, r.id(name), t))
			}
		}
		return r.def(x, over) + strings.Join(after, "")
	case token.ASSIGN:
		any := false
		for _, l := range x.Lhs {
			if _, ok := r.access(l); ok {
				any = true
			}
		}
		if !any {
			over := map[ast.Node]string{}
			for _, l := range x.Lhs {
				over[l] = r.addr(l)
			}
			return r.def(x, over)
		}
		if len(x.Lhs) == 1 {
			name, _ := r.access(x.Lhs[0])
			return r.ptr(x.Lhs[0], name) + ".Set(" + r.expr(x.Rhs[0]) + ")"
		}
		var pre, mid, post []string
		tmps := make([]string, len(x.Lhs))
		for i := range x.Lhs {
			tmps[i] = r.tmp()
		}
		if len(x.Rhs) == len(x.Lhs) {
			var a, b []string
			for i, rh := range x.Rhs {
				if r.isConstOrNil(rh) {
					tmps[i] = r.verb(rh)
					continue
				}
				a = append(a, tmps[i])
				b = append(b, r.expr(rh))
			}
			if len(a) > 0 {
				mid = append(mid, strings.Join(a, ", ")+" := "+strings.Join(b, ", "))
			}
		} else {
			for i, l := range x.Lhs {
				if id, ok := l.(*ast.Ident); ok && id.Name == "_" {
					tmps[i] = "_"
				}
			}
			mid = append(mid, strings.Join(tmps, ", ")+" := "+r.expr(x.Rhs[0]))
		}
		for i, l := range x.Lhs {
			if id, ok := l.(*ast.Ident); ok && id.Name == "_" {
				if tmps[i] != "_" {
					post = append(post, "_ = "+tmps[i])
				}
				continue
			}
			if name, ok := r.access(l); ok {
				p := r.tmp()
				pre = append(pre, p+" := "+r.ptr(l, name))
				post = append(post, p+".Set("+tmps[i]+")")
			} else {
				post = append(post, r.addr(l)+" = "+tmps[i])
			}
		}
		s := strings.Join(append(append(pre, mid...), post...), "; ")
		if simple {
			return "func() { " + s + " }()"
		}
		return "{ " + s + " }"
	default:
		op := strings.TrimSuffix(x.Tok.String(), "=")
		if name, ok := r.access(x.Lhs[0]); ok {
			return r.opAssign(x.Lhs[0], name, op, r.expr(x.Rhs[0]), simple)
		}
		return r.addr(x.Lhs[0]) + " " + x.Tok.String() + " " + r.expr(x.Rhs[0])
	}
}

func (r *rw) goStmt(x *ast.GoStmt) string {
	c := x.Call
	if r.builtin(c) != "" {
		return "gmcmc.Go(func() { " + r.expr(c) + " })"
	}
	var b strings.Builder
	b.WriteString("{ ")
	var fun string
	_, isLit := unparen(c.Fun).(*ast.FuncLit)
	switch {
	case isLit && len(c.Args) == 0:
		if lit := unparen(c.Fun).(*ast.FuncLit); lit.Type.Results != nil && len(lit.Type.Results.List) > 0 {
			return "gmcmc.Go(func() { " + r.expr(c.Fun) + "() })"
		}
		return "gmcmc.Go(" + r.expr(c.Fun) + ")"
	case r.isStaticFunc(c.Fun):
		fun = r.verb(c.Fun)
	default:
		fun = r.tmp()
		fmt.Fprintf(&b, "%s := %s; ", fun, r.expr(c.Fun))
	}
	var args []string
	if len(c.Args) == 1 {
		if t, ok := r.info.TypeOf(c.Args[0]).(*types.Tuple); ok && t.Len() > 1 {
			for i := 0; i < t.Len(); i++ {
				args = append(args, r.tmp())
			}
			fmt.Fprintf(&b, "%s := %s; gmcmc.Go(func() { %s(%s) }) }", strings.Join(args, ", "), r.expr(c.Args[0]), fun, strings.Join(args, ", "))
			return b.String()
		}
	}
	for i, a := range c.Args {
		if r.isConstOrNil(a) {
			args = append(args, r.verb(a))
			continue
		}
		t := r.tmp()
		fmt.Fprintf(&b, "%s := %s; ", t, r.expr(a))
		if i == len(c.Args)-1 && c.Ellipsis.IsValid() {
			t += "..."
		}
		args = append(args, t)
	}
	fmt.Fprintf(&b, "gmcmc.Go(func() { %s(%s) }) }", fun, strings.Join(args, ", "))
	return b.String()
}

func (r *rw) isStaticFunc(e ast.Expr) bool {
	switch x := unparen(e).(type) {
	case *ast.Ident:
		_, ok := r.info.Uses[x].(*types.Func)
		return ok
	case *ast.SelectorExpr:
		if r.info.Selections[x] == nil {
			_, ok := r.info.Uses[x.Sel].(*types.Func)
			return ok
		}
	case *ast.IndexExpr:
		return r.isStaticFunc(x.X)
	case *ast.IndexListExpr:
		return r.isStaticFunc(x.X)
	}
	return false
}

func (r *rw) bodyText(list []ast.Stmt, from, to token.Pos) string {
	var b strings.Builder
	pos := from
	for _, s := range list {
		b.WriteString(r.text(pos, s.Pos()))
		b.WriteString(r.stmt(s, false))
		pos = s.End()
	}
	b.WriteString(r.text(pos, to))
	return b.String()
}

func (r *rw) selectStmt(x *ast.SelectStmt, label string) string {
	if len(x.Body.List) == 0 {
		return label + " for { gmcmc.BlockForever() }"
	}
	var pre strings.Builder
	var cases []string
	var sw strings.Builder
	hasDef := false
	for _, c := range x.Body.List {
		if c.(*ast.CommClause).Comm == nil {
			hasDef = true
		}
	}
	n := 0
	for i, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		end := x.Body.Rbrace
		if i+1 < len(x.Body.List) {
			end = x.Body.List[i+1].Pos()
		}
		head := ""
		switch s := cc.Comm.(type) {
		case nil:
		case *ast.SendStmt:
			v := r.tmp()
			fmt.Fprintf(&pre, "%s := gmcmc.SC(%s).Val(%s); ", v, r.expr(s.Chan), r.expr(s.Value))
			cases = append(cases, v)
		case *ast.ExprStmt:
			v := r.tmp()
			u := unparen(s.X).(*ast.UnaryExpr)
			fmt.Fprintf(&pre, "%s := gmcmc.RC(%s); ", v, r.expr(u.X))
			cases = append(cases, v)
		case *ast.AssignStmt:
			v := r.tmp()
			u := unparen(s.Rhs[0]).(*ast.UnaryExpr)
			fmt.Fprintf(&pre, "%s := gmcmc.RC(%s); ", v, r.expr(u.X))
			cases = append(cases, v)
			vals := []string{v + ".V", v + ".OK"}[:len(s.Lhs)]
			if s.Tok == token.DEFINE {
				var ls []string
				blank := true
				for _, l := range s.Lhs {
					ls = append(ls, r.verb(l))
					if l.(*ast.Ident).Name != "_" {
						blank = false
					}
				}
				op := " := "
				if blank {
					op = " = "
				}
				head = strings.Join(ls, ", ") + op + strings.Join(vals, ", ") + "; "
			} else {
				for k, l := range s.Lhs {
					if name, ok := r.access(l); ok {
						head += r.ptr(l, name) + ".Set(" + vals[k] + "); "
					} else {
						head += r.addr(l) + " = " + vals[k] + "; "
					}
				}
			}
		}
		if cc.Comm == nil || !hasDef && i == len(x.Body.List)-1 {
			sw.WriteString("default: ")
		} else {
			fmt.Fprintf(&sw, "case %d: ", n)
		}
		if cc.Comm != nil {
			n++
		}
		sw.WriteString(head)
		sw.WriteString(r.bodyText(cc.Body, cc.Colon+1, end))
	}
	args := ""
	if len(cases) > 0 {
		args = ", " + strings.Join(cases, ", ")
	}
	return fmt.Sprintf("{ %s%s switch gmcmc.Select(%v%s) {%s%s} }", pre.String(), label, hasDef, args,
		r.text(x.Body.Lbrace+1, x.Body.List[0].Pos()), sw.String())
}

func (r *rw) rangeStmt(x *ast.RangeStmt, label string) string {
	t := r.typeOf(x.X)
	isBlank := func(e ast.Expr) bool {
		id, ok := e.(*ast.Ident)
		return e == nil || ok && id.Name == "_"
	}
	setVars := func(vals []string, decl string) (outer, inner string) {
		var ls, vs []string
		for i, e := range []ast.Expr{x.Key, x.Value} {
			if e == nil || isBlank(e) || i >= len(vals) {
				continue
			}
			ls = append(ls, "")
			if x.Tok == token.DEFINE {
				ls[len(ls)-1] = r.verb(e)
			} else {
				ls[len(ls)-1] = r.addr(e)
			}
			vs = append(vs, vals[i])
		}
		if len(ls) == 0 {
			return "", ""
		}
		op := " = "
		if x.Tok == token.DEFINE {
			if r.perIter {
				op = " := "
			} else {
				z := strings.Split(decl, "|")
				var zs []string
				for i, e := range []ast.Expr{x.Key, x.Value} {
					if e == nil || isBlank(e) || i >= len(z) {
						continue
					}
					zs = append(zs, z[i])
				}
				outer = strings.Join(ls, ", ") + " := " + strings.Join(zs, ", ") + "; "
			}
		}
		return outer, strings.Join(ls, ", ") + op + strings.Join(vs, ", ") + "; "
	}
	if isChan(t) {
		v := r.tmp()
		outer, inner := setVars([]string{v + ".V"}, v+".Zero()")
		return fmt.Sprintf("{ %s := gmcmc.RngC(%s); %s%s for %s.Next() { %s %s } }", v, r.expr(x.X), outer, label, v, inner, r.stmt(x.Body, false))
	}
	if isMap(t) && (r.mem || r.harness) {
		m, k, v, ok := r.tmp(), r.tmp(), r.tmp(), r.tmp()
		id := r.id(r.mapName(x.X))
		outer, inner := setVars([]string{k, v}, "gmcmc.ZeroK("+m+")|gmcmc.ZeroV("+m+")")
		vv := v
		if x.Value == nil || isBlank(x.Value) {
			vv = "_"
		}
		return fmt.Sprintf("{ %s := %s; %s%s for _, %s := range gmcmc.Keys(%s, %d) { %s, %s := gmcmc.MR(%s, %d)[%s]; if !%s { continue }; %s %s } }",
			m, r.expr(x.X), outer, label, k, m, id, vv, ok, m, id, k, ok, inner, r.stmt(x.Body, false))
	}
	over := map[ast.Node]string{}
	if x.Key != nil {
		over[x.Key] = r.verb(x.Key)
	}
	if x.Value != nil {
		over[x.Value] = r.verb(x.Value)
	}
	s := r.def(x, over)
	if label != "" {
		return label + " " + s
	}
	return s
}
