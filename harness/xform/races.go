package main

import (
	"fmt"
	"go/ast"
	"go/importer"
	"go/token"
	"go/types"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// Reports of memory accesses: every read or write of memory that other
// goroutines may reach (through a pointer, in a slice, in a package variable)
// becomes (*vsverif.R(&x, "file:line")) or (*vsverif.W(&x, "file:line")).
// Operands whose address is taken are no accesses; nor are local variables.

type fallback struct {
	imp  types.Importer
	made map[string]*types.Package
}

func (f *fallback) Import(path string) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if !strings.Contains(path, ".") {
		if p, err := f.imp.Import(path); err == nil {
			return p, nil
		}
	}
	if p := f.made[path]; p != nil {
		return p, nil
	}
	p := types.NewPackage(path, filepath.Base(path))
	p.MarkComplete()
	f.made[path] = p
	return p, nil
}

type insertion struct {
	off   int
	close bool // belongs to what ends here
	rank  int  // outer expressions have lower ranks
	text  string
}

type racer struct {
	fset *token.FileSet
	info *types.Info
	pkg  *types.Package
	ins  []insertion
	n    int
	tmp  int
	used bool
}

// typecheck is lenient: what it cannot resolve stays as it is.
func typecheck(fset *token.FileSet, files []*ast.File) (*types.Info, *types.Package) {
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}}
	conf := types.Config{Importer: &fallback{importer.ForCompiler(fset, "source", nil), map[string]*types.Package{}}, Error: func(error) {}}
	pkg, _ := conf.Check("p", fset, files, info)
	return info, pkg
}

func (r *racer) off(p token.Pos) int { return r.fset.Position(p).Offset }

func (r *racer) insert(p token.Pos, close bool, text string) {
	r.n++
	r.ins = append(r.ins, insertion{r.off(p), close, r.n, text})
}

func (r *racer) wrap(e ast.Expr, f string) {
	site := r.site(e.Pos())
	r.used = true
	if s, ok := e.(*ast.StarExpr); ok {
		// *p -> *vsverif.R(p, site)
		r.insert(s.X.Pos(), false, "vsverif."+f+"(")
		r.insert(s.End(), true, ", "+site+")")
		return
	}
	r.insert(e.Pos(), false, "(*vsverif."+f+"(&")
	r.insert(e.End(), true, ", "+site+"))")
}

func (r *racer) site(pos token.Pos) string {
	p := r.fset.Position(pos)
	return strconv.Quote(fmt.Sprintf("%s:%d", filepath.Base(p.Filename), p.Line))
}

func (r *racer) typ(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := r.info.Uses[id]; o != nil {
			return o.Type()
		}
	}
	return nil
}

func isPtr(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

// shared tells whether the variable that e denotes may be reached by others.
func (r *racer) shared(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return r.shared(e.X)
	case *ast.StarExpr:
		return true
	case *ast.Ident:
		v, ok := r.info.Uses[e].(*types.Var)
		return ok && r.pkg != nil && v.Parent() == r.pkg.Scope()
	case *ast.SelectorExpr:
		s := r.info.Selections[e]
		if s == nil || s.Kind() != types.FieldVal {
			return false
		}
		return s.Indirect() || isPtr(r.typ(e.X)) || r.shared(e.X)
	case *ast.IndexExpr:
		t := r.typ(e.X)
		if t == nil {
			return false
		}
		switch u := t.Underlying().(type) {
		case *types.Slice:
			return true
		case *types.Pointer:
			return true
		case *types.Array:
			_ = u
			return r.shared(e.X)
		}
	}
	return false
}

func (r *racer) isVar(e ast.Expr) bool {
	if tv, ok := r.info.Types[e]; ok {
		return tv.Addressable() && tv.Value == nil
	}
	_, ok := e.(*ast.Ident)
	return ok
}

// place visits what is evaluated to find the variable e, but not its value.
func (r *racer) place(e ast.Expr) {
	switch e := e.(type) {
	case *ast.ParenExpr:
		r.place(e.X)
	case *ast.StarExpr:
		r.expr(e.X)
	case *ast.SelectorExpr:
		if r.info.Selections[e] == nil {
			if _, ok := e.X.(*ast.Ident); ok {
				return // package.Name, or something unresolved
			}
			r.place(e.X)
			return
		}
		if isPtr(r.typ(e.X)) {
			r.expr(e.X)
		} else {
			r.place(e.X)
		}
	case *ast.IndexExpr:
		if tv, ok := r.info.Types[e.X]; !ok || !tv.IsValue() {
			return // instantiation
		}
		t := r.typ(e.X)
		if _, ok := t.Underlying().(*types.Array); ok {
			r.place(e.X)
		} else {
			r.expr(e.X)
		}
		r.expr(e.Index)
	case *ast.Ident:
	case *ast.CompositeLit:
		r.expr(e)
	default:
		r.expr(e)
	}
}

// expr visits e as something whose value is read.
func (r *racer) expr(e ast.Expr) {
	if e == nil {
		return
	}
	if tv, ok := r.info.Types[e]; ok && (tv.IsType() || tv.Value != nil) {
		return
	}
	switch e := e.(type) {
	case *ast.Ident, *ast.SelectorExpr, *ast.IndexExpr, *ast.StarExpr:
		if r.isVar(e) && r.shared(e) {
			r.wrap(e, "R")
			r.place(e)
			return
		}
	}
	switch e := e.(type) {
	case *ast.ParenExpr:
		r.expr(e.X)
	case *ast.SelectorExpr:
		s := r.info.Selections[e]
		switch {
		case s == nil:
			r.place(e)
		case s.Kind() == types.MethodVal:
			f, _ := s.Obj().(*types.Func)
			ptr := false
			if f != nil {
				if sig, ok := f.Type().(*types.Signature); ok && sig.Recv() != nil {
					ptr = isPtr(sig.Recv().Type())
				}
			}
			if ptr && !isPtr(r.typ(e.X)) {
				r.place(e.X)
			} else {
				r.expr(e.X)
			}
		default:
			r.place(e)
		}
	case *ast.IndexExpr:
		if tv, ok := r.info.Types[e.X]; ok && tv.IsValue() {
			t := tv.Type
			if _, sig := t.Underlying().(*types.Signature); sig {
				return
			}
			if _, arr := t.Underlying().(*types.Array); arr {
				r.place(e.X)
			} else {
				r.expr(e.X)
			}
			r.expr(e.Index)
		}
	case *ast.StarExpr:
		r.expr(e.X)
	case *ast.UnaryExpr:
		if e.Op == token.AND {
			if _, ok := e.X.(*ast.CompositeLit); ok {
				r.expr(e.X)
				r.insert(e.Pos(), false, "vsverif.New(")
				r.insert(e.End(), true, ")")
				r.used = true
				return
			}
			r.place(e.X)
			return
		}
		r.expr(e.X)
	case *ast.BinaryExpr:
		r.expr(e.X)
		r.expr(e.Y)
	case *ast.CallExpr:
		r.call(e)
	case *ast.CompositeLit:
		t := r.typ(e)
		st := false
		if t != nil {
			_, st = t.Underlying().(*types.Struct)
		}
		for _, x := range e.Elts {
			if kv, ok := x.(*ast.KeyValueExpr); ok {
				if !st {
					r.expr(kv.Key)
				}
				r.expr(kv.Value)
			} else {
				r.expr(x)
			}
		}
	case *ast.SliceExpr:
		t := r.typ(e.X)
		if t != nil {
			if _, ok := t.Underlying().(*types.Array); ok {
				r.place(e.X)
			} else {
				r.expr(e.X)
			}
		}
		r.expr(e.Low)
		r.expr(e.High)
		r.expr(e.Max)
	case *ast.TypeAssertExpr:
		r.expr(e.X)
	case *ast.FuncLit:
		r.block(e.Body)
	case *ast.KeyValueExpr:
		r.expr(e.Key)
		r.expr(e.Value)
	}
}

func (r *racer) call(e *ast.CallExpr) {
	if tv, ok := r.info.Types[e.Fun]; ok && tv.IsType() {
		for _, a := range e.Args {
			r.expr(a)
		}
		return
	}
	if id, ok := ast.Unparen(e.Fun).(*ast.Ident); ok {
		if _, ok := r.info.Uses[id].(*types.Builtin); ok {
			switch id.Name {
			case "new", "make":
				for _, a := range e.Args[1:] {
					r.expr(a)
				}
				return
			case "len", "cap":
				if t := r.typ(e.Args[0]); t != nil {
					u := t.Underlying()
					if p, ok := u.(*types.Pointer); ok {
						u = p.Elem().Underlying()
					}
					if _, ok := u.(*types.Array); ok {
						return
					}
				}
			}
			for _, a := range e.Args {
				r.expr(a)
			}
			return
		}
	}
	if s, ok := ast.Unparen(e.Fun).(*ast.SelectorExpr); ok {
		if id, ok := s.X.(*ast.Ident); ok {
			if p, ok := r.info.Uses[id].(*types.PkgName); ok {
				if p.Imported().Path() == "unsafe" && (s.Sel.Name == "Sizeof" || s.Sel.Name == "Offsetof" || s.Sel.Name == "Alignof") {
					return
				}
				for _, a := range e.Args {
					r.expr(a)
				}
				return
			}
		}
	}
	r.expr(e.Fun)
	for _, a := range e.Args {
		r.expr(a)
	}
}

func (r *racer) target(e ast.Expr) {
	if r.isVar(e) && r.shared(e) {
		r.wrap(e, "W")
	}
	r.place(e)
}

func (r *racer) sharedTarget(e ast.Expr) bool { return r.isVar(e) && r.shared(e) }

// realCalls ignores conversions.
func (r *racer) realCalls(e ast.Node) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.CallExpr:
			if tv, ok := r.info.Types[n.Fun]; !ok || !tv.IsType() {
				found = true
			}
		}
		return !found
	})
	return found
}

func (r *racer) block(b *ast.BlockStmt) {
	if b != nil {
		r.stmts(b.List)
	}
}

func (r *racer) stmts(l []ast.Stmt) {
	for _, s := range l {
		r.stmt(s, true)
	}
}

// stmt visits a statement; inList tells that others could be put beside it.
func (r *racer) stmt(s ast.Stmt, inList bool) {
	switch s := s.(type) {
	case nil:
	case *ast.AssignStmt:
		if s.Tok == token.DEFINE {
			for _, x := range s.Rhs {
				r.expr(x)
			}
			return
		}
		// x.f = g(): the write comes after the call. Only then does it count.
		late := false
		if inList && len(s.Lhs) == 1 && len(s.Rhs) == 1 && r.sharedTarget(s.Lhs[0]) && r.realCalls(s.Rhs[0]) {
			if tv, ok := r.info.Types[s.Rhs[0]]; ok && tv.IsValue() && tv.Value == nil && tv.Type != nil {
				if b, ok := tv.Type.(*types.Basic); !ok || b.Info()&types.IsUntyped == 0 {
					late = true
				}
			}
		}
		if late {
			// { p := &x.f; *p = g(); W(p) }
			r.tmp++
			r.used = true
			t := fmt.Sprintf("verifP%d", r.tmp)
			r.insert(s.Pos(), false, "{ "+t+" := &")
			r.place(s.Lhs[0])
			r.insert(s.Lhs[0].End(), true, "; *"+t)
			r.expr(s.Rhs[0])
			r.insert(s.End(), true, "; vsverif.W("+t+", "+r.site(s.Pos())+") }")
			return
		}
		for _, x := range s.Lhs {
			r.target(x)
		}
		for _, x := range s.Rhs {
			r.expr(x)
		}
	case *ast.IncDecStmt:
		r.target(s.X)
	case *ast.ExprStmt:
		r.expr(s.X)
	case *ast.SendStmt:
		r.expr(s.Chan)
		r.expr(s.Value)
	case *ast.GoStmt:
		r.call(s.Call)
	case *ast.DeferStmt:
		r.call(s.Call)
	case *ast.ReturnStmt:
		for _, x := range s.Results {
			r.expr(x)
		}
	case *ast.BlockStmt:
		r.block(s)
	case *ast.IfStmt:
		r.stmt(s.Init, false)
		r.expr(s.Cond)
		r.block(s.Body)
		r.stmt(s.Else, false)
	case *ast.ForStmt:
		r.stmt(s.Init, false)
		r.expr(s.Cond)
		r.stmt(s.Post, false)
		r.block(s.Body)
	case *ast.RangeStmt:
		if s.Tok == token.ASSIGN {
			for _, x := range []ast.Expr{s.Key, s.Value} {
				if x != nil {
					r.place(x)
				}
			}
		}
		t := r.typ(s.X)
		arr := false
		if t != nil {
			_, arr = t.Underlying().(*types.Array)
		}
		if arr && s.Value == nil {
			r.place(s.X)
		} else {
			r.expr(s.X)
		}
		r.block(s.Body)
	case *ast.SwitchStmt:
		r.stmt(s.Init, false)
		r.expr(s.Tag)
		r.clauses(s.Body)
	case *ast.TypeSwitchStmt:
		r.stmt(s.Init, false)
		r.stmt(s.Assign, false)
		r.clauses(s.Body)
	case *ast.SelectStmt:
		r.clauses(s.Body)
	case *ast.LabeledStmt:
		r.stmt(s.Stmt, false)
	case *ast.DeclStmt:
		if g, ok := s.Decl.(*ast.GenDecl); ok {
			for _, sp := range g.Specs {
				if v, ok := sp.(*ast.ValueSpec); ok {
					for _, x := range v.Values {
						r.expr(x)
					}
				}
			}
		}
	}
}

func (r *racer) clauses(b *ast.BlockStmt) {
	for _, c := range b.List {
		switch c := c.(type) {
		case *ast.CaseClause:
			for _, x := range c.List {
				r.expr(x)
			}
			r.stmts(c.Body)
		case *ast.CommClause:
			r.stmt(c.Comm, false)
			r.stmts(c.Body)
		}
	}
}

// file rewrites one file; es are the edits of its imports.
func (r *racer) file(f *ast.File, text []byte, es []edit) []byte {
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			r.block(d.Body)
		}
	}
	if r.used && !hasVs(es) {
		p := r.off(f.Name.End())
		es = append(es, edit{p, p, "\n\nimport vsverif \"skipmapverif/vs\"\n"})
	}
	// what ends at an offset comes before what begins there; of those that
	// begin, the outer first; of those that end, the inner first
	sort.SliceStable(r.ins, func(i, j int) bool {
		a, b := r.ins[i], r.ins[j]
		if a.off != b.off {
			return a.off < b.off
		}
		if a.close != b.close {
			return a.close
		}
		if a.close {
			return a.rank > b.rank
		}
		return a.rank < b.rank
	})
	for i := 0; i < len(r.ins); {
		j, t := i, ""
		for j < len(r.ins) && r.ins[j].off == r.ins[i].off {
			t += r.ins[j].text
			j++
		}
		es = append(es, edit{r.ins[i].off, r.ins[i].off, t})
		i = j
	}
	return apply(text, es)
}

func hasVs(es []edit) bool {
	for _, e := range es {
		if strings.Contains(e.text, "import vsverif") {
			return true
		}
	}
	return false
}
