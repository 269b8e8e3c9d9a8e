package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

// names of types as this file can write them; "" when it cannot.
func (f *file) typ(t types.Type) string {
	bad := false
	s := types.TypeString(t, func(p *types.Package) string {
		if p == f.pkg {
			return ""
		}
		n, ok := f.imports[p.Path()]
		if !ok {
			bad = true
		}
		return n
	})
	var deep func(t types.Type, d int)
	deep = func(t types.Type, d int) {
		switch t := t.(type) {
		case *types.TypeParam:
			bad = true
		case *types.Named:
			if t.Obj().Pkg() != nil && t.Obj().Pkg() != f.pkg && !t.Obj().Exported() {
				bad = true
			}
			if t.Obj().Parent() != nil && t.Obj().Pkg() != nil && t.Obj().Parent() != t.Obj().Pkg().Scope() {
				bad = true // declared in a function
			}
			for i := 0; i < t.TypeArgs().Len(); i++ {
				deep(t.TypeArgs().At(i), d+1)
			}
		case *types.Pointer:
			deep(t.Elem(), d+1)
		case *types.Slice:
			deep(t.Elem(), d+1)
		case *types.Array:
			deep(t.Elem(), d+1)
		case *types.Chan:
			deep(t.Elem(), d+1)
		case *types.Map:
			deep(t.Key(), d+1)
			deep(t.Elem(), d+1)
		case *types.Signature:
			for i := 0; i < t.Params().Len(); i++ {
				deep(t.Params().At(i).Type(), d+1)
			}
			for i := 0; i < t.Results().Len(); i++ {
				deep(t.Results().At(i).Type(), d+1)
			}
		case *types.Struct, *types.Interface:
			if d > 0 {
				return
			}
		}
	}
	deep(t, 0)
	if bad || strings.Contains(s, "untyped") || strings.Contains(s, "invalid") {
		return ""
	}
	return s
}

// free gives the local variables that nodes use and that are declared before at; ok is false when they cannot be passed.
func (f *file) free(at token.Pos, ns ...ast.Node) (vars []*types.Var, ok bool) {
	seen := map[*types.Var]bool{}
	ok = true
	for _, n := range ns {
		ast.Inspect(n, func(c ast.Node) bool {
			id, is := c.(*ast.Ident)
			if !is {
				return true
			}
			switch o := f.info.Uses[id].(type) {
			case *types.Var:
				if o.IsField() || o.Parent() == nil || o.Pkg() == nil || o.Parent() == o.Pkg().Scope() || o.Pos() >= at {
					return true
				}
				if !seen[o] {
					seen[o] = true
					vars = append(vars, o)
				}
			case *types.TypeName, *types.Const:
				if o.Pkg() != nil && o.Parent() != o.Pkg().Scope() {
					ok = false
				}
			case *types.Label:
				ok = false
			}
			return true
		})
	}
	sort.Slice(vars, func(i, j int) bool { return vars[i].Pos() < vars[j].Pos() })
	return
}

func (f *file) params(vars []*types.Var) (ps, as string, ok bool) {
	var p, a []string
	for _, v := range vars {
		if _, st := v.Type().Underlying().(*types.Struct); st {
			return "", "", false // a copy may not be the same
		}
		t := f.typ(v.Type())
		if t == "" {
			return "", "", false
		}
		p = append(p, v.Name()+" "+t)
		a = append(a, v.Name())
	}
	return strings.Join(p, ", "), strings.Join(a, ", "), true
}

// written: the node may change one of the variables, or keeps a reference to it.
func (f *file) written(vars []*types.Var, n ast.Node) (out bool) {
	is := map[types.Object]bool{}
	for _, v := range vars {
		is[v] = true
	}
	root := func(e ast.Expr) types.Object {
		for {
			switch x := e.(type) {
			case *ast.ParenExpr:
				e = x.X
			case *ast.SelectorExpr:
				e = x.X
			case *ast.IndexExpr:
				e = x.X
			case *ast.Ident:
				return f.info.Uses[x]
			default:
				return nil
			}
		}
	}
	ast.Inspect(n, func(c ast.Node) bool {
		switch c := c.(type) {
		case *ast.AssignStmt:
			for _, l := range c.Lhs {
				if is[root(l)] {
					out = true
				}
			}
		case *ast.IncDecStmt:
			if is[root(c.X)] {
				out = true
			}
		case *ast.UnaryExpr:
			if c.Op == token.AND && is[root(c.X)] {
				out = true
			}
		case *ast.FuncLit:
			out = true
		case *ast.CallExpr: // methods with pointer receivers
			if s, ok := c.Fun.(*ast.SelectorExpr); ok {
				if sel := f.info.Selections[s]; sel != nil && is[root(s.X)] {
					if _, ptr := sel.Recv().Underlying().(*types.Pointer); !ptr {
						if fn, ok := sel.Obj().(*types.Func); ok {
							if _, ptr := fn.Type().(*types.Signature).Recv().Type().(*types.Pointer); ptr {
								out = true
							}
						}
					}
				}
			}
		}
		return !out
	})
	return
}

func (f *file) fresh(what string, n ast.Node) string {
	base := f.fset.Position(f.start).Filename
	base = base[strings.LastIndex(base, "/")+1:]
	id := ""
	for _, r := range base {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
			id += string(r)
		}
	}
	return fmt.Sprintf("%s_%s_%d", what, id, f.off(n.Pos()))
}

func (f *file) extract(what string, e ast.Expr) (string, bool) {
	tv := f.info.Types[e]
	if tv.Value != nil || tv.Type == nil {
		return "", false
	}
	vars, ok := f.free(e.Pos(), e)
	if !ok || f.written(vars, e) {
		return "", false
	}
	t := tv.Type
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.UntypedBool {
		t = types.Typ[types.Bool]
	}
	ts := f.typ(t)
	ps, as, ok := f.params(vars)
	if !ok || ts == "" || f.generic[e] {
		return "", false
	}
	name := f.fresh(what, e)
	f.extra = append(f.extra, "func "+name+"("+ps+") "+ts+" {\nreturn "+f.inner(e)+"\n}")
	return name + "(" + as + ")", true
}

func init() {
	variants["predicate"] = func(f *file, n ast.Node) (string, bool) {
		s, ok := n.(*ast.IfStmt)
		if !ok {
			return "", false
		}
		if _, ok := s.Cond.(*ast.Ident); ok {
			return "", false
		}
		c, ok := f.extract("is", s.Cond)
		if !ok {
			return "", false
		}
		out := "if "
		if s.Init != nil {
			out += f.inner(s.Init) + "; "
		}
		out += c + " " + f.render(s.Body)
		if s.Else != nil {
			out += " else " + f.render(s.Else)
		}
		return out, true
	}
	variants["rhshelper"] = func(f *file, n ast.Node) (string, bool) {
		s, ok := n.(*ast.AssignStmt)
		if !ok || len(s.Rhs) != 1 || len(s.Lhs) != 1 || s.Tok != token.DEFINE && s.Tok != token.ASSIGN || calls(s.Rhs[0]) == 0 {
			return "", false
		}
		for _, l := range s.Lhs {
			if calls(l) > 0 {
				return "", false
			}
		}
		c, ok := f.extract("get", s.Rhs[0])
		if !ok {
			return "", false
		}
		return f.text(s.Pos(), s.Rhs[0].Pos()) + c, true
	}
	tail := func(k int) func(f *file, n ast.Node) (string, bool) {
		return func(f *file, n ast.Node) (string, bool) {
			d, ok := n.(*ast.FuncDecl)
			if !ok || d.Body == nil || len(d.Body.List) < 3 || d.Name.Name == "main" || d.Name.Name == "init" || d.Type.TypeParams != nil {
				return "", false
			}
			if d.Type.Results != nil && len(d.Type.Results.List) > 0 && len(d.Type.Results.List[0].Names) > 0 {
				return "", false
			}
			at := len(d.Body.List) * k / 3
			head, rest := d.Body.List[:at], d.Body.List[at:]
			vars, ok := f.free(rest[0].Pos(), stmts(rest)...)
			if !ok || f.generic[d.Body.List[0]] {
				return "", false
			}
			for _, h := range head {
				bad := false
				ast.Inspect(h, func(c ast.Node) bool {
					switch c := c.(type) {
					case *ast.FuncLit, *ast.DeferStmt, *ast.LabeledStmt:
						bad = true
					case *ast.UnaryExpr:
						if c.Op == token.AND {
							if _, lit := c.X.(*ast.CompositeLit); !lit {
								bad = true
							}
						}
					case *ast.SelectorExpr:
						if strings.HasPrefix(c.Sel.Name, "Caller") {
							bad = true
						}
					}
					return !bad
				})
				if bad {
					return "", false
				}
			}
			ps, as, ok := f.params(vars)
			if !ok {
				return "", false
			}
			// variables that only the tail used count as unused without it: passing them uses them
			name := f.fresh("finish", d)
			res, ret := "", ""
			if d.Type.Results != nil {
				res = f.text(d.Type.Results.Pos(), d.Type.Results.End())
				ret = "return "
			}
			f.extra = append(f.extra, "func "+name+"("+ps+") "+res+" {\n"+f.body(rest, 0)+"}")
			return f.text(d.Pos(), d.Body.Pos()) + "{\n" + f.body(head, 0) + ret + name + "(" + as + ")\n}", true
		}
	}
	variants["tail1"] = tail(1)
	variants["tail2"] = tail(2)
	variants["boolret"] = func(f *file, n ast.Node) (string, bool) {
		s, ok := n.(*ast.ReturnStmt)
		if !ok || !f.lists[s] || len(s.Results) != 1 {
			return "", false
		}
		t := f.info.Types[s.Results[0]]
		b, ok := t.Type.(*types.Basic)
		if !ok || b.Info()&types.IsBoolean == 0 || t.Value != nil {
			return "", false
		}
		return "{\nif " + f.render(s.Results[0]) + " {\nreturn true\n}\nreturn false\n}", true
	}
	variants["constlit"] = func(f *file, n ast.Node) (string, bool) {
		if !f.inbody[n] {
			return "", false
		}
		l, ok := n.(*ast.BasicLit)
		if !ok || l.Kind != token.STRING || f.info.TypeOf(l) == nil {
			return "", false
		}
		name := f.fresh("text", l)
		f.extra = append(f.extra, "const "+name+" = "+l.Value)
		return name, true
	}
	variants["fieldset"] = func(f *file, n ast.Node) (string, bool) {
		s, ok := n.(*ast.AssignStmt)
		if !ok || !f.lists[s] || s.Tok != token.DEFINE || len(s.Rhs) != 1 || len(s.Lhs) != 1 {
			return "", false
		}
		id, ok := s.Lhs[0].(*ast.Ident)
		if !ok || id.Name == "_" {
			return "", false
		}
		x := s.Rhs[0]
		amp := ""
		if u, ok := x.(*ast.UnaryExpr); ok && u.Op == token.AND {
			x, amp = u.X, "&"
		}
		c, ok := x.(*ast.CompositeLit)
		if !ok || c.Type == nil || len(c.Elts) == 0 {
			return "", false
		}
		if _, ok := f.info.TypeOf(c).Underlying().(*types.Struct); !ok {
			return "", false
		}
		out := id.Name + " := " + amp + f.text(c.Type.Pos(), c.Type.End()) + "{}\n"
		for _, e := range c.Elts {
			kv, ok := e.(*ast.KeyValueExpr)
			if !ok {
				return "", false
			}
			used := false
			ast.Inspect(kv.Value, func(m ast.Node) bool {
				if i, ok := m.(*ast.Ident); ok && i.Name == id.Name {
					used = true
				}
				return true
			})
			if used {
				return "", false
			}
			out += id.Name + "." + kv.Key.(*ast.Ident).Name + " = " + f.render(kv.Value) + "\n"
		}
		return out, true
	}
	variants["ifchain"] = func(f *file, n ast.Node) (string, bool) { // if-else as a switch
		s, ok := n.(*ast.IfStmt)
		if !ok || !f.lists[s] || s.Else == nil || s.Init != nil || breaks(s) {
			return "", false
		}
		out := "switch {\n"
		for s != nil {
			if s.Init != nil {
				return "", false
			}
			out += "case " + f.render(s.Cond) + ":\n" + f.body(s.Body.List, 0)
			switch e := s.Else.(type) {
			case *ast.IfStmt:
				s = e
				continue
			case *ast.BlockStmt:
				out += "default:\n" + f.body(e.List, 0)
			}
			s = nil
		}
		return out + "}", true
	}
	variants["appendloop"] = func(f *file, n ast.Node) (string, bool) {
		s, ok := n.(*ast.AssignStmt)
		if !ok || !f.lists[s] || len(s.Rhs) != 1 || len(s.Lhs) != 1 || s.Tok != token.ASSIGN {
			return "", false
		}
		c, ok := s.Rhs[0].(*ast.CallExpr)
		if !ok || !c.Ellipsis.IsValid() || len(c.Args) != 2 {
			return "", false
		}
		if id, ok := c.Fun.(*ast.Ident); !ok || id.Name != "append" {
			return "", false
		}
		l := f.text(s.Lhs[0].Pos(), s.Lhs[0].End())
		if l != f.text(c.Args[0].Pos(), c.Args[0].End()) || calls(s.Lhs[0]) > 0 {
			return "", false
		}
		if t := f.info.TypeOf(c.Args[1]); t == nil {
			return "", false
		} else if _, ok := t.Underlying().(*types.Slice); !ok {
			return "", false
		}
		return "for _, elem_ := range " + f.render(c.Args[1]) + " {\n" + l + " = append(" + l + ", elem_)\n}", true
	}
	variants["nothing"] = func(f *file, n ast.Node) (string, bool) { // statements that do nothing
		b, ok := n.(*ast.BlockStmt)
		if !ok || f.fn[b] == nil {
			return "", false
		}
		return "{\nnothing_ := 0\n_ = nothing_\n" + f.body(b.List, 0) + "}", true
	}
	variants["logging"] = func(f *file, n ast.Node) (string, bool) { // a debug message in every function
		b, ok := n.(*ast.BlockStmt)
		if !ok || f.fn[b] == nil || !strings.Contains(string(f.src), "log/slog\"") {
			return "", false
		}
		return "{\nslog.Debug(\"here\")\n" + f.body(b.List, 0) + "}", true
	}
}

func stmts(l []ast.Stmt) (out []ast.Node) {
	for _, s := range l {
		out = append(out, s)
	}
	return
}
