// Command refac rewrites a copy of the repository without changing what it does, to see that the checks stay quiet.
//
//	refac -repo COPY -do ifswap [-only regexp]
//
// It rewrites every place it can of every package, type-checks what it gets, and undoes the files that do not compile.
package main

import (
	"flag"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"

	"golang.org/x/tools/go/packages"
	"verif/analyzer/load"
)

type file struct {
	fset    *token.FileSet
	info    *types.Info
	src     []byte
	base    int
	lists   map[ast.Stmt]bool       // statements of a list
	owner   map[ast.Stmt][]ast.Stmt // the list a statement is of
	label   map[ast.Stmt]bool       // statements that have a label
	loop    map[*ast.BlockStmt]bool
	fn      map[ast.Node]*ast.FuncType
	done    int
	tr      func(f *file, n ast.Node) (string, bool)
	extra   []string
	pkg     *types.Package
	imports map[string]string
	start   token.Pos
	generic map[ast.Node]bool
	inbody  map[ast.Node]bool
	locals  map[types.Object]bool
}

func (f *file) off(p token.Pos) int { return f.fset.Position(p).Offset }

func (f *file) text(a, b token.Pos) string { return string(f.src[f.off(a):f.off(b)]) }

// render gives the text of a node, rewritten.
func (f *file) render(n ast.Node) string {
	if s, ok := f.tr(f, n); ok {
		f.done++
		return s
	}
	return f.inner(n)
}

// inner gives the text of a node with what is in it rewritten.
func (f *file) inner(n ast.Node) string {
	var b strings.Builder
	at := f.off(n.Pos())
	ast.Inspect(n, func(c ast.Node) bool {
		if c == nil || c == n {
			return true
		}
		if f.off(c.Pos()) < at {
			return false
		}
		if _, ok := c.(*ast.CommentGroup); ok {
			return false
		}
		if s, ok := f.tr(f, c); ok {
			f.done++
			b.Write(f.src[at:f.off(c.Pos())])
			b.WriteString(s)
			at = f.off(c.End())
			return false
		}
		return true
	})
	b.Write(f.src[at:f.off(n.End())])
	return b.String()
}

func (f *file) body(list []ast.Stmt, end token.Pos) string {
	var b strings.Builder
	for _, s := range list {
		b.WriteString(f.render(s))
		b.WriteString("\n")
	}
	return b.String()
}

// jumps: the node leaves itself other than at its end.
func jumps(n ast.Node) (out bool) {
	ast.Inspect(n, func(c ast.Node) bool {
		switch c.(type) {
		case *ast.FuncLit:
			return false
		case *ast.ReturnStmt, *ast.BranchStmt, *ast.DeferStmt, *ast.LabeledStmt:
			out = true
		}
		return !out
	})
	return
}

// breaks: there is a break (or fallthrough or goto) in the node.
func breaks(n ast.Node) (out bool) {
	ast.Inspect(n, func(c ast.Node) bool {
		switch c := c.(type) {
		case *ast.FuncLit, *ast.ForStmt, *ast.RangeStmt, *ast.SelectStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt:
			return c == n
		case *ast.BranchStmt:
			out = out || c.Tok != token.CONTINUE
		}
		return !out
	})
	return
}

func calls(n ast.Node) (k int) {
	ast.Inspect(n, func(c ast.Node) bool {
		switch c := c.(type) {
		case *ast.CallExpr:
			k++
		case *ast.UnaryExpr:
			if c.Op == token.ARROW {
				k++
			}
		case *ast.FuncLit:
			return false
		}
		return true
	})
	return
}

func leaves(s ast.Stmt) bool {
	switch s := s.(type) {
	case *ast.ReturnStmt:
		return true
	case *ast.BranchStmt:
		return s.Tok == token.CONTINUE || s.Tok == token.BREAK
	}
	return false
}

var variants = map[string]func(f *file, n ast.Node) (string, bool){
	"ifswap": func(f *file, n ast.Node) (string, bool) {
		s, ok := n.(*ast.IfStmt)
		if !ok {
			return "", false
		}
		els, ok := s.Else.(*ast.BlockStmt)
		if !ok {
			return "", false
		}
		init := ""
		if s.Init != nil {
			init = f.inner(s.Init) + "; "
		}
		return "if " + init + "!(" + f.render(s.Cond) + ") " + f.render(els) + " else " + f.render(s.Body), true
	},
	"andsplit": func(f *file, n ast.Node) (string, bool) {
		s, ok := n.(*ast.IfStmt)
		if !ok || s.Else != nil {
			return "", false
		}
		c, ok := s.Cond.(*ast.BinaryExpr)
		if !ok || c.Op != token.LAND {
			return "", false
		}
		init := ""
		if s.Init != nil {
			init = f.inner(s.Init) + "; "
		}
		return "if " + init + f.render(c.X) + " {\nif " + f.render(c.Y) + f.render(s.Body) + "\n}", true
	},
	"orsplit": func(f *file, n ast.Node) (string, bool) {
		s, ok := n.(*ast.IfStmt)
		if !ok || s.Else != nil || !f.lists[s] || len(s.Body.List) == 0 || !leaves(s.Body.List[len(s.Body.List)-1]) {
			return "", false
		}
		c, ok := s.Cond.(*ast.BinaryExpr)
		if !ok || c.Op != token.LOR || s.Init != nil {
			return "", false
		}
		return "if " + f.render(c.X) + f.render(s.Body) + "\nif " + f.render(c.Y) + f.render(s.Body), true
	},
	"initlift": func(f *file, n ast.Node) (string, bool) {
		s, ok := n.(*ast.IfStmt)
		if !ok || s.Init == nil || !f.lists[s] {
			return "", false
		}
		out := "{\n" + f.inner(s.Init) + "\nif " + f.render(s.Cond) + f.render(s.Body)
		if s.Else != nil {
			out += " else " + f.render(s.Else)
		}
		return out + "\n}", true
	},
	"condvar": func(f *file, n ast.Node) (string, bool) {
		s, ok := n.(*ast.IfStmt)
		if !ok || !f.lists[s] {
			return "", false
		}
		out := "{\n"
		if s.Init != nil {
			out += f.inner(s.Init) + "\n"
		}
		out += "cond_ := " + f.render(s.Cond) + "\nif cond_ " + f.render(s.Body)
		if s.Else != nil {
			out += " else " + f.render(s.Else)
		}
		return out + "\n}", true
	},
	"elsewrap": func(f *file, n ast.Node) (string, bool) {
		b, ok := n.(*ast.BlockStmt)
		if !ok {
			return "", false
		}
		for i, s := range b.List {
			if d, ok := s.(*ast.DeclStmt); ok && d != nil {
				continue
			}
			x, ok := s.(*ast.IfStmt)
			if !ok || x.Else != nil || len(x.Body.List) == 0 || !leaves(x.Body.List[len(x.Body.List)-1]) || i == len(b.List)-1 {
				continue
			}
			for _, r := range b.List {
				if _, ok := r.(*ast.LabeledStmt); ok {
					return "", false
				}
			}
			return "{\n" + f.body(b.List[:i], 0) + f.render(x) + " else {\n" + f.body(b.List[i+1:], 0) + "}\n}", true
		}
		return "", false
	},
	"guard": func(f *file, n ast.Node) (string, bool) {
		b, ok := n.(*ast.BlockStmt)
		if !ok || !f.loop[b] || len(b.List) == 0 {
			return "", false
		}
		x, ok := b.List[len(b.List)-1].(*ast.IfStmt)
		if !ok || x.Else != nil || x.Init != nil {
			return "", false
		}
		return "{\n" + f.body(b.List[:len(b.List)-1], 0) + "if !(" + f.render(x.Cond) + ") {\ncontinue\n}\n" + f.body(x.Body.List, 0) + "}", true
	},
	"rangeidx": func(f *file, n ast.Node) (string, bool) {
		s, ok := n.(*ast.RangeStmt)
		if !ok || !f.lists[s] || s.Tok != token.DEFINE || s.Value == nil {
			return "", false
		}
		t := f.info.TypeOf(s.X)
		if t == nil {
			return "", false
		}
		if _, ok := t.Underlying().(*types.Slice); !ok {
			return "", false
		}
		k := f.off(s.Pos())
		out := fmt.Sprintf("{\nlist%d := %s\nfor at%d := 0; at%d < len(list%d); at%d++ {\n", k, f.render(s.X), k, k, k, k)
		if id, ok := s.Key.(*ast.Ident); ok && id.Name != "_" {
			out += fmt.Sprintf("%s := at%d\n", id.Name, k)
		}
		if id, ok := s.Value.(*ast.Ident); ok && id.Name != "_" {
			out += fmt.Sprintf("%s := list%d[at%d]\n", id.Name, k, k)
		}
		return out + f.body(s.Body.List, 0) + "}\n}", true
	},
	"retvar": func(f *file, n ast.Node) (string, bool) {
		s, ok := n.(*ast.ReturnStmt)
		if !ok || !f.lists[s] || len(s.Results) == 0 {
			return "", false
		}
		out := "{\n"
		var names []string
		did := false
		for i, r := range s.Results {
			tv := f.info.Types[r]
			if tup, ok := tv.Type.(*types.Tuple); ok {
				var ns []string
				for j := 0; j < tup.Len(); j++ {
					ns = append(ns, fmt.Sprintf("ret%d_", j))
				}
				out += strings.Join(ns, ", ") + " := " + f.render(r) + "\n"
				return out + "return " + strings.Join(ns, ", ") + "\n}", true
			}
			_, id := r.(*ast.Ident)
			if id || tv.Value != nil || tv.IsNil() {
				names = append(names, f.render(r))
				continue
			}
			did = true
			out += fmt.Sprintf("ret%d_ := %s\n", i, f.render(r))
			names = append(names, fmt.Sprintf("ret%d_", i))
		}
		return out + "return " + strings.Join(names, ", ") + "\n}", did
	},
	"arghoist": func(f *file, n ast.Node) (string, bool) {
		s, ok := n.(ast.Stmt)
		if !ok || !f.lists[s] {
			return "", false
		}
		var call *ast.CallExpr
		switch s := s.(type) {
		case *ast.ExprStmt:
			call, _ = s.X.(*ast.CallExpr)
		case *ast.AssignStmt:
			if len(s.Rhs) == 1 {
				call, _ = s.Rhs[0].(*ast.CallExpr)
			}
			for _, l := range s.Lhs {
				if calls(l) > 0 {
					call = nil
				}
			}
		case *ast.ReturnStmt:
			if len(s.Results) == 1 {
				call, _ = s.Results[0].(*ast.CallExpr)
			}
		}
		if call == nil || calls(call.Fun) > 0 || f.info.Types[call.Fun].IsType() {
			return "", false
		}
		pre, args := "", []string{}
		for i, a := range call.Args {
			tv := f.info.Types[a]
			_, tup := tv.Type.(*types.Tuple)
			if calls(a) == 0 || tup || tv.Value != nil || tv.IsType() {
				args = append(args, f.render(a))
				continue
			}
			v := fmt.Sprintf("arg%d_%d", f.off(call.Pos()), i)
			pre += v + " := " + f.render(a) + "\n"
			args = append(args, v)
		}
		if pre == "" {
			return "", false
		}
		dots := ""
		if call.Ellipsis.IsValid() {
			dots = "..."
		}
		return pre + f.text(s.Pos(), call.Pos()) + f.render(call.Fun) + "(" + strings.Join(args, ", ") + dots + ")", true
	},
	"helper": func(f *file, n ast.Node) (string, bool) {
		d, ok := n.(*ast.FuncDecl)
		if !ok || d.Body == nil || d.Name.Name == "main" || d.Name.Name == "init" || d.Name.Name == "_" {
			return "", false
		}
		bad := false
		ast.Inspect(d.Body, func(c ast.Node) bool {
			if s, ok := c.(*ast.SelectorExpr); ok && strings.HasPrefix(s.Sel.Name, "Caller") {
				bad = true
			}
			if id, ok := c.(*ast.Ident); ok && id.Name == "recover" {
				bad = true
			}
			return !bad
		})
		var args []string
		for _, p := range d.Type.Params.List {
			if len(p.Names) == 0 {
				bad = true
			}
			for _, x := range p.Names {
				if x.Name == "_" {
					bad = true
				}
				if _, ok := p.Type.(*ast.Ellipsis); ok {
					args = append(args, x.Name+"...")
				} else {
					args = append(args, x.Name)
				}
			}
		}
		recv, call := "", ""
		if d.Recv != nil {
			if len(d.Recv.List[0].Names) == 0 || d.Recv.List[0].Names[0].Name == "_" {
				return "", false
			}
			recv = f.text(d.Recv.Pos(), d.Recv.End()) + " "
			call = d.Recv.List[0].Names[0].Name + "."
		}
		if bad {
			return "", false
		}
		name := "do" + d.Name.Name + "Impl"
		targs, tps := "", ""
		if d.Type.TypeParams != nil {
			var ns []string
			for _, p := range d.Type.TypeParams.List {
				for _, x := range p.Names {
					ns = append(ns, x.Name)
				}
			}
			targs = "[" + strings.Join(ns, ", ") + "]"
			tps = f.text(d.Type.TypeParams.Pos(), d.Type.TypeParams.End())
		}
		sig := f.text(d.Type.Params.Pos(), d.Body.Pos())
		ret := ""
		if d.Type.Results != nil {
			ret = "return "
		}
		f.extra = append(f.extra, "func "+recv+name+tps+sig+f.render(d.Body))
		return f.text(d.Pos(), d.Body.Pos()) + "{\n" + ret + call + name + targs + "(" + strings.Join(args, ", ") + ")\n}", true
	},
	"closure": func(f *file, n ast.Node) (string, bool) {
		b, ok := n.(*ast.BlockStmt)
		if !ok || len(b.List) == 0 || f.fn[b] != nil || jumps(b) {
			return "", false
		}
		return "{\nfunc() {\n" + f.body(b.List, 0) + "}()\n}", true
	},
	"swchain": func(f *file, n ast.Node) (string, bool) {
		s, ok := n.(*ast.SwitchStmt)
		if !ok || !f.lists[s] || s.Init != nil || breaks(s) || f.label[s] {
			return "", false
		}
		out, def := "", ""
		tag := ""
		if s.Tag != nil {
			tag = fmt.Sprintf("tag%d", f.off(s.Pos()))
			if f.info.Types[s.Tag].Value != nil {
				return "", false
			}
		}
		for _, c := range s.Body.List {
			c := c.(*ast.CaseClause)
			blk := "{\n" + f.body(c.Body, 0) + "}"
			if c.List == nil {
				def = " else " + blk
				continue
			}
			var cs []string
			for _, e := range c.List {
				if tag != "" {
					cs = append(cs, tag+" == ("+f.render(e)+")")
				} else {
					cs = append(cs, "("+f.render(e)+")")
				}
			}
			if out != "" {
				out += " else "
			}
			out += "if " + strings.Join(cs, " || ") + " " + blk
		}
		if out == "" {
			return "", false
		}
		if tag != "" {
			return "{\n" + tag + " := " + f.render(s.Tag) + "\n" + out + def + "\n}", true
		}
		return out + def, true
	},
	"typesw": func(f *file, n ast.Node) (string, bool) {
		s, ok := n.(*ast.TypeSwitchStmt)
		if !ok || !f.lists[s] || s.Init != nil || breaks(s) || f.label[s] {
			return "", false
		}
		var x ast.Expr
		name := ""
		switch a := s.Assign.(type) {
		case *ast.AssignStmt:
			name = a.Lhs[0].(*ast.Ident).Name
			x = a.Rhs[0].(*ast.TypeAssertExpr).X
		case *ast.ExprStmt:
			x = a.X.(*ast.TypeAssertExpr).X
		}
		v := fmt.Sprintf("dyn%d", f.off(s.Pos()))
		out, def := "", ""
		for _, c := range s.Body.List {
			c := c.(*ast.CaseClause)
			used := false
			if obj := f.info.Implicits[c]; obj != nil {
				for _, st := range c.Body {
					ast.Inspect(st, func(m ast.Node) bool {
						if id, ok := m.(*ast.Ident); ok && f.info.Uses[id] == obj {
							used = true
						}
						return true
					})
				}
			}
			blk := f.body(c.Body, 0)
			if c.List == nil || len(c.List) > 1 {
				if used {
					blk = name + " := " + v + "\n" + blk
				}
				if c.List == nil {
					def = " else {\n" + blk + "}"
					continue
				}
			}
			cond := ""
			if len(c.List) == 1 {
				if f.info.Types[c.List[0]].IsNil() {
					if used {
						blk = name + " := " + v + "\n" + blk
					}
					cond = v + " == nil"
				} else if used {
					cond = name + ", ok_ := " + v + ".(" + f.render(c.List[0]) + "); ok_"
				} else {
					cond = "_, ok_ := " + v + ".(" + f.render(c.List[0]) + "); ok_"
				}
			} else {
				return "", false
			}
			if out != "" {
				out += " else "
			}
			out += "if " + cond + " {\n" + blk + "}"
		}
		if out == "" {
			return "", false
		}
		return "{\n" + v + " := " + f.render(x) + "\n" + out + def + "\n}", true
	},
	"demorgan": func(f *file, n ast.Node) (string, bool) {
		b, ok := n.(*ast.BinaryExpr)
		if !ok {
			return "", false
		}
		x, y := f.render(b.X), f.render(b.Y)
		switch b.Op {
		case token.LAND:
			return "!(!(" + x + ") || !(" + y + "))", true
		case token.LOR:
			return "!(!(" + x + ") && !(" + y + "))", true
		case token.EQL:
			return "!(" + x + " != " + y + ")", true
		case token.NEQ:
			return "!(" + y + " == " + x + ")", calls(b) < 2
		case token.LSS:
			return "(" + y + " > " + x + ")", calls(b) < 2
		}
		return "", false
	},
	"rename": func(f *file, n ast.Node) (string, bool) {
		id, ok := n.(*ast.Ident)
		if !ok {
			return "", false
		}
		obj := f.info.Defs[id]
		if obj == nil {
			obj = f.info.Uses[id]
		}
		if obj == nil || !f.locals[obj] {
			return "", false
		}
		return id.Name + "Local_", true
	},
	"deferfunc": func(f *file, n ast.Node) (string, bool) {
		s, ok := n.(*ast.DeferStmt)
		if !ok || len(s.Call.Args) > 0 || calls(s.Call.Fun) > 0 {
			return "", false
		}
		if _, ok := s.Call.Fun.(*ast.SelectorExpr); !ok {
			return "", false
		}
		return "defer func() {\n" + f.render(s.Call) + "\n}()", true
	},
	"fieldrev": func(f *file, n ast.Node) (string, bool) {
		c, ok := n.(*ast.CompositeLit)
		if !ok || len(c.Elts) < 2 || calls(c) > 1 {
			return "", false
		}
		t := f.info.TypeOf(c)
		if t == nil {
			return "", false
		}
		if _, ok := t.Underlying().(*types.Struct); !ok {
			return "", false
		}
		var es []string
		for _, e := range c.Elts {
			if _, ok := e.(*ast.KeyValueExpr); !ok {
				return "", false
			}
			es = append([]string{f.render(e)}, es...)
		}
		ty := ""
		if c.Type != nil {
			ty = f.render(c.Type)
		}
		return ty + "{" + strings.Join(es, ", ") + "}", true
	},
	"swap": func(f *file, n ast.Node) (string, bool) {
		b, ok := n.(*ast.BlockStmt)
		if !ok {
			return "", false
		}
		pure := func(s ast.Stmt) (*ast.AssignStmt, bool) {
			a, ok := s.(*ast.AssignStmt)
			if !ok || a.Tok != token.DEFINE || calls(a) > 0 {
				return nil, false
			}
			for _, r := range a.Rhs {
				bad := false
				ast.Inspect(r, func(m ast.Node) bool {
					switch m.(type) {
					case *ast.IndexExpr, *ast.StarExpr, *ast.SliceExpr, *ast.SelectorExpr, *ast.TypeAssertExpr, *ast.BinaryExpr, *ast.FuncLit:
						bad = true
					}
					return true
				})
				if bad {
					return nil, false
				}
			}
			return a, true
		}
		var out []string
		did := false
		for i := 0; i < len(b.List); i++ {
			if i+1 < len(b.List) {
				p, ok1 := pure(b.List[i])
				_, ok2 := b.List[i+1].(*ast.AssignStmt)
				if ok1 && ok2 && b.List[i+1].(*ast.AssignStmt).Tok == token.DEFINE {
					dep := false
					defs := map[types.Object]bool{}
					names := map[string]bool{}
					ast.Inspect(p, func(m ast.Node) bool {
						if id, ok := m.(*ast.Ident); ok {
							names[id.Name] = true
							if o := f.info.Defs[id]; o != nil {
								defs[o] = true
							}
						}
						return true
					})
					ast.Inspect(b.List[i+1], func(m ast.Node) bool {
						if id, ok := m.(*ast.Ident); ok && (defs[f.info.Uses[id]] || names[id.Name]) {
							dep = true
						}
						return true
					})
					if !dep {
						out = append(out, f.render(b.List[i+1]), f.render(b.List[i]))
						i++
						did = true
						continue
					}
				}
			}
			out = append(out, f.render(b.List[i]))
		}
		if !did {
			return "", false
		}
		return "{\n" + strings.Join(out, "\n") + "\n}", true
	},
	"forcond": func(f *file, n ast.Node) (string, bool) {
		s, ok := n.(*ast.ForStmt)
		if !ok || s.Cond == nil {
			return "", false
		}
		init, post := "", ""
		if s.Init != nil {
			init = f.inner(s.Init)
		}
		if s.Post != nil {
			post = f.inner(s.Post)
		}
		return "for " + init + "; ; " + post + " {\nif !(" + f.render(s.Cond) + ") {\nbreak\n}\n" + f.body(s.Body.List, 0) + "}", true
	},
	"vardecl": func(f *file, n ast.Node) (string, bool) {
		s, ok := n.(*ast.AssignStmt)
		if !ok || !f.lists[s] || s.Tok != token.DEFINE || len(s.Lhs) != 1 || len(s.Rhs) != 1 {
			return "", false
		}
		return "var " + f.inner(s.Lhs[0]) + " = " + f.render(s.Rhs[0]), true
	},
	"sprintf": func(f *file, n ast.Node) (string, bool) { // "a" + b as one Sprintf
		b, ok := n.(*ast.BinaryExpr)
		if !ok || b.Op != token.ADD || f.info.Types[b].Value != nil {
			return "", false
		}
		t, ok := f.info.TypeOf(b).(*types.Basic)
		if !ok || t.Kind() != types.String || !strings.Contains(string(f.src), "\"fmt\"") {
			return "", false
		}
		return "fmt.Sprintf(\"%s%s\", " + f.render(b.X) + ", " + f.render(b.Y) + ")", true
	},
	"format": func(f *file, n ast.Node) (string, bool) { // Sprintf with only %s as a sum
		c, ok := n.(*ast.CallExpr)
		if !ok || len(c.Args) < 2 {
			return "", false
		}
		sel, ok := c.Fun.(*ast.SelectorExpr)
		if !ok || sel.Sel.Name != "Sprintf" {
			return "", false
		}
		lit, ok := c.Args[0].(*ast.BasicLit)
		if !ok || lit.Value[0] != '"' {
			return "", false
		}
		parts := strings.Split(lit.Value[1:len(lit.Value)-1], "%s")
		if len(parts) != len(c.Args) || strings.Contains(strings.Join(parts, ""), "%") {
			return "", false
		}
		out := "(\"" + parts[0] + "\""
		for i, a := range c.Args[1:] {
			t, ok := f.info.TypeOf(a).(*types.Basic)
			if !ok || t.Info()&types.IsString == 0 {
				return "", false
			}
			out += " + (" + f.render(a) + ") + \"" + parts[i+1] + "\""
		}
		return out + ")", true
	},
}

func prepare(f *file, a *ast.File) {
	ast.Inspect(a, func(n ast.Node) bool {
		list := func(l []ast.Stmt) {
			for _, s := range l {
				f.lists[s] = true
				f.owner[s] = l
			}
		}
		switch n := n.(type) {
		case *ast.BlockStmt:
			list(n.List)
		case *ast.CaseClause:
			list(n.Body)
		case *ast.CommClause:
			list(n.Body)
		case *ast.LabeledStmt:
			f.label[n.Stmt] = true
		case *ast.ForStmt:
			f.loop[n.Body] = true
		case *ast.RangeStmt:
			f.loop[n.Body] = true
		case *ast.FuncDecl:
			if n.Body != nil {
				f.fn[n.Body] = n.Type
				gen := n.Type.TypeParams != nil
				if n.Recv != nil {
					ast.Inspect(n.Recv, func(m ast.Node) bool {
						switch m.(type) {
						case *ast.IndexExpr, *ast.IndexListExpr:
							gen = true
						}
						return true
					})
				}
				ast.Inspect(n.Body, func(m ast.Node) bool {
					if m != nil {
						f.inbody[m] = true
						f.generic[m] = gen
					}
					if id, ok := m.(*ast.Ident); ok {
						if v, ok := f.info.Defs[id].(*types.Var); ok && !v.IsField() && id.Name != "_" {
							f.locals[v] = true
						}
					}
					return true
				})
			}
		case *ast.FuncLit:
			f.fn[n.Body] = n.Type
		}
		return true
	})
}

func main() {
	repo := flag.String("repo", "", "copy to rewrite")
	do := flag.String("do", "", "what to do")
	only := flag.String("only", ".", "files")
	list := flag.Bool("list", false, "list what can be done")
	flag.Parse()
	if *list {
		for k := range variants {
			fmt.Println(k)
		}
		return
	}
	tr := variants[*do]
	if tr == nil || *repo == "" || *repo == "/repo" {
		fmt.Fprintln(os.Stderr, "what, or where?")
		os.Exit(2)
	}
	re := regexp.MustCompile(*only)
	tmp, _ := os.MkdirTemp("", "refac")
	defer os.RemoveAll(tmp)
	ov, err := load.Overlay(*repo, tmp)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	env := load.Env(ov)
	total, undone := 0, 0
	for _, mod := range []string{"blueprint", "runtime", "plugins"} {
		dir := filepath.Join(*repo, mod)
		cfg := &packages.Config{Dir: dir, Env: env, Mode: packages.LoadAllSyntax&^packages.NeedDeps | packages.NeedImports | packages.NeedDeps}
		pkgs, err := packages.Load(cfg, "./...")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		orig := map[string][]byte{}
		for _, p := range pkgs {
			for _, a := range p.Syntax {
				name := p.Fset.Position(a.Pos()).Filename
				if strings.HasSuffix(name, "_test.go") || !strings.HasPrefix(name, dir) || !re.MatchString(name) || orig[name] != nil {
					continue
				}
				src, _ := os.ReadFile(name)
				f := &file{fset: p.Fset, info: p.TypesInfo, src: src, tr: tr, lists: map[ast.Stmt]bool{}, owner: map[ast.Stmt][]ast.Stmt{}, label: map[ast.Stmt]bool{},
					generic: map[ast.Node]bool{}, inbody: map[ast.Node]bool{}, pkg: p.Types, start: a.Pos(), imports: map[string]string{}, loop: map[*ast.BlockStmt]bool{}, fn: map[ast.Node]*ast.FuncType{}, locals: map[types.Object]bool{}}
				for _, im := range a.Imports {
					path := strings.Trim(im.Path.Value, "\"")
					if q := p.Imports[path]; q != nil && q.Types != nil {
						f.imports[path] = q.Types.Name()
					}
					if im.Name != nil {
						f.imports[path] = im.Name.Name
						if im.Name.Name == "_" || im.Name.Name == "." {
							delete(f.imports, path)
						}
					}
				}
				prepare(f, a)
				var b strings.Builder
				at := 0
				for _, d := range a.Decls {
					b.Write(src[at:f.off(d.Pos())])
					b.WriteString(f.render(d))
					at = f.off(d.End())
				}
				b.Write(src[at:])
				if f.done == 0 {
					continue
				}
				total += f.done
				out := b.String() + "\n" + strings.Join(f.extra, "\n\n") + "\n"
				orig[name] = src
				os.WriteFile(name, []byte(out), 0o644)
			}
		}
		ls := exec.Command("go", "list", "-e", "-f", "{{if .GoFiles}}{{.ImportPath}}{{end}}", "./...")
		ls.Dir = dir
		ls.Env = env
		names, _ := ls.Output()
		var known []string
		for _, n := range strings.Fields(string(names)) {
			if !strings.HasSuffix(n, "/xtrace") { // its client library is not here
				known = append(known, n)
			}
		}
		for try := 0; try < 30; try++ {
			cmd := exec.Command("go", append([]string{"build", "-gcflags=-e"}, known...)...)
			cmd.Dir = dir
			cmd.Env = env
			msg, err := cmd.CombinedOutput()
			if err == nil {
				break
			}
			back := false
			for _, m := range regexp.MustCompile(`(?m)^(?:vet: )?(\S+\.go):\d+:\d+: .*`).FindAllStringSubmatch(string(msg), -1) {
				name := m[1]
				if strings.Contains(m[0], "module lookup") {
					continue
				}
				if !filepath.IsAbs(name) {
					name = filepath.Join(dir, name)
				}
				if src := orig[name]; src != nil {
					fmt.Println("undone", m[0])
					os.WriteFile(name, src, 0o644)
					delete(orig, name)
					undone++
					back = true
				}
			}
			if !back {
				fmt.Fprintln(os.Stderr, "does not build:\n"+string(msg))
				os.Exit(1)
			}
		}
	}
	fmt.Println(*do, total, "rewritten,", undone, "files undone")
}
