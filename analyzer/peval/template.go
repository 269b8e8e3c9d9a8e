package peval

import (
	"fmt"
	"go/types"
	"strings"
	"text/template"
	"text/template/parse"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/core"
)

type tmplTree = parse.Tree

// Tmpl models *text/template.Template.
type Tmpl struct {
	Name  string
	Body  string
	HTML  bool // of html/template: what is printed is escaped
	Funcs map[string]Value
	Defs  map[string]*tmplTree
	root  *tmplTree
}

var builtinFuncs = map[string]bool{"and": true, "or": true, "not": true, "len": true, "index": true, "print": true,
	"printf": true, "println": true, "eq": true, "ne": true, "lt": true, "le": true, "gt": true, "ge": true, "slice": true, "call": true, "html": true, "js": true, "urlquery": true}

func (t *Tmpl) parse(body string) error {
	t.Body = body
	fm := map[string]any{}
	for k := range t.Funcs {
		fm[k] = true
	}
	bf := map[string]any{}
	for k := range builtinFuncs {
		bf[k] = true
	}
	trees, err := parse.Parse(t.Name, body, "", "", fm, bf)
	if err != nil {
		return err
	}
	t.root = trees[t.Name]
	t.Defs = trees
	return nil
}

// tv is a typed value inside a template.
type tv struct {
	T types.Type
	V Value
}

type tmplErr struct{ error }

type tstate struct {
	m    *Machine
	t    *Tmpl
	out  *strings.Builder
	vars []tvar
}

type tvar struct {
	name string
	v    tv
}

type tctl int

const (
	tNone tctl = iota
	tBreak
	tContinue
)

func (s *tstate) fail(format string, args ...any) {
	panic(tmplErr{fmt.Errorf("template: %s: %s", s.t.Name, fmt.Sprintf(format, args...))})
}

// Exec expands a template over a value.
func (m *Machine) Exec(t *Tmpl, data Value) (out string, err error) {
	if t.root == nil {
		return "", fmt.Errorf("template: %s is empty", t.Name)
	}
	s := &tstate{m: m, t: t, out: &strings.Builder{}}
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(tmplErr); ok {
				out, err = s.out.String(), e.error
				return
			}
			panic(r)
		}
	}()
	dot := s.iface(data)
	s.vars = []tvar{{"$", dot}}
	s.walk(dot, t.root.Root)
	return s.out.String(), nil
}

// iface unwraps an interface value.
func (s *tstate) iface(v Value) tv {
	for {
		i, ok := v.(Iface)
		if !ok {
			break
		}
		if in, ok := i.V.(Iface); ok {
			v = in
			continue
		}
		return tv{i.T, i.V}
	}
	return tv{nil, v}
}

func (s *tstate) norm(x tv) tv {
	if i, ok := x.V.(Iface); ok {
		return s.iface(i)
	}
	if x.T != nil {
		if _, ok := x.T.Underlying().(*types.Interface); ok && x.V == nil {
			return tv{nil, nil}
		}
	}
	return x
}

func (s *tstate) walk(dot tv, n parse.Node) tctl {
	switch n := n.(type) {
	case *parse.TextNode:
		s.out.Write(n.Text)
	case *parse.CommentNode:
	case *parse.ListNode:
		for _, c := range n.Nodes {
			if r := s.walk(dot, c); r != tNone {
				return r
			}
		}
	case *parse.ActionNode:
		v := s.pipe(dot, n.Pipe)
		if len(n.Pipe.Decl) == 0 {
			if s.t.HTML {
				out := s.out
				s.out = &strings.Builder{}
				s.print(v)
				out.WriteString(strings.ReplaceAll(template.HTMLEscapeString(s.out.String()), "+", "&#43;"))
				s.out = out
			} else {
				s.print(v)
			}
		}
	case *parse.IfNode:
		return s.ifWith(dot, n.Pipe, n.List, n.ElseList, false)
	case *parse.WithNode:
		return s.ifWith(dot, n.Pipe, n.List, n.ElseList, true)
	case *parse.RangeNode:
		return s.rng(dot, n)
	case *parse.BreakNode:
		return tBreak
	case *parse.ContinueNode:
		return tContinue
	case *parse.TemplateNode:
		tr := s.t.Defs[n.Name]
		if tr == nil {
			s.fail("template %q not defined", n.Name)
		}
		d := tv{}
		if n.Pipe != nil {
			d = s.pipe(dot, n.Pipe)
		}
		saved := s.vars
		s.vars = []tvar{{"$", d}}
		s.walk(d, tr.Root)
		s.vars = saved
	default:
		s.fail("unsupported node %T", n)
	}
	return tNone
}

func (s *tstate) ifWith(dot tv, p *parse.PipeNode, list, els *parse.ListNode, with bool) tctl {
	mark := len(s.vars)
	defer func() { s.vars = s.vars[:mark] }()
	v := s.pipe(dot, p)
	if s.truth(v) {
		if with {
			return s.walk(v, list)
		}
		return s.walk(dot, list)
	}
	if els != nil {
		return s.walk(dot, els)
	}
	return tNone
}

func (s *tstate) truth(v tv) bool {
	v = s.norm(v)
	switch x := v.V.(type) {
	case nil:
		return false
	case bool:
		return x
	case int64:
		return x != 0
	case float64:
		return x != 0
	case string:
		return x != ""
	case Slice:
		return len(x) > 0
	case *Map:
		return x.Len() > 0
	case *Ref:
		return x != nil
	case *Opaque:
		undecided("template %s branches on an unknown value (%s)", s.t.Name, x.Why)
	}
	return true
}

func elemType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Pointer:
		return elemType(u.Elem())
	}
	return nil
}

func (s *tstate) rng(dot tv, n *parse.RangeNode) tctl {
	mark := len(s.vars)
	defer func() { s.vars = s.vars[:mark] }()
	v := s.norm(s.pipeNoDecl(dot, n.Pipe))
	mark2 := len(s.vars)
	one := func(k, e tv) tctl {
		s.vars = s.vars[:mark2]
		if len(n.Pipe.Decl) > 0 {
			if len(n.Pipe.Decl) == 1 {
				s.setOrPush(n.Pipe, 0, e)
			} else {
				s.setOrPush(n.Pipe, 0, k)
				s.setOrPush(n.Pipe, 1, e)
			}
		}
		return s.walk(e, n.List)
	}
	cnt := 0
	switch x := v.V.(type) {
	case nil:
	case Slice:
		et := elemType(v.T)
		for i, e := range x {
			cnt++
			if one(tv{types.Typ[types.Int], int64(i)}, s.norm(tv{et, e})) == tBreak {
				break
			}
		}
	case *Map:
		var kt types.Type
		if v.T != nil {
			if mt, ok := v.T.Underlying().(*types.Map); ok {
				kt = mt.Key()
			}
		}
		et := elemType(v.T)
		for _, k := range x.SortedKeys() {
			e, _ := x.Get(k)
			cnt++
			if one(s.norm(tv{kt, k}), s.norm(tv{et, e})) == tBreak {
				break
			}
		}
	case int64:
		for i := int64(0); i < x; i++ {
			cnt++
			if one(tv{types.Typ[types.Int], i}, tv{types.Typ[types.Int], i}) == tBreak {
				break
			}
		}
	case *Opaque:
		undecided("template %s ranges over an unknown value (%s)", s.t.Name, x.Why)
	default:
		s.fail("range can't iterate over %T", x)
	}
	if cnt == 0 && n.ElseList != nil {
		s.vars = s.vars[:mark2]
		return s.walk(dot, n.ElseList)
	}
	return tNone
}

func (s *tstate) setOrPush(p *parse.PipeNode, i int, v tv) {
	name := p.Decl[i].Ident[0]
	if p.IsAssign {
		for k := len(s.vars) - 1; k >= 0; k-- {
			if s.vars[k].name == name {
				s.vars[k].v = v
				return
			}
		}
		s.fail("undefined variable %s", name)
	}
	s.vars = append(s.vars, tvar{name, v})
}

func (s *tstate) pipeNoDecl(dot tv, p *parse.PipeNode) tv {
	var v tv
	for i, c := range p.Cmds {
		if i == 0 {
			v = s.cmd(dot, c, nil)
		} else {
			f := v
			v = s.cmd(dot, c, &f)
		}
		v = s.norm(v)
	}
	return v
}

func (s *tstate) pipe(dot tv, p *parse.PipeNode) tv {
	v := s.pipeNoDecl(dot, p)
	for i := range p.Decl {
		s.setOrPush(p, i, v)
	}
	return v
}

func (s *tstate) lookup(name string) tv {
	for k := len(s.vars) - 1; k >= 0; k-- {
		if s.vars[k].name == name {
			return s.vars[k].v
		}
	}
	s.fail("undefined variable %s", name)
	return tv{}
}

func (s *tstate) args(dot tv, ns []parse.Node, final *tv) []tv {
	var out []tv
	for _, n := range ns {
		out = append(out, s.arg(dot, n))
	}
	if final != nil {
		out = append(out, *final)
	}
	return out
}

func (s *tstate) arg(dot tv, n parse.Node) tv {
	switch n := n.(type) {
	case *parse.DotNode:
		return dot
	case *parse.NilNode:
		return tv{}
	case *parse.FieldNode:
		return s.fields(dot, dot, n.Ident, nil, nil)
	case *parse.VariableNode:
		v := s.lookup(n.Ident[0])
		if len(n.Ident) > 1 {
			return s.fields(dot, v, n.Ident[1:], nil, nil)
		}
		return v
	case *parse.PipeNode:
		return s.pipe(dot, n)
	case *parse.IdentifierNode:
		return s.callFunc(dot, n.Ident, nil, nil)
	case *parse.ChainNode:
		return s.fields(dot, s.norm(s.arg(dot, n.Node)), n.Field, nil, nil)
	case *parse.StringNode:
		return tv{types.Typ[types.String], n.Text}
	case *parse.BoolNode:
		return tv{types.Typ[types.Bool], n.True}
	case *parse.NumberNode:
		if n.IsInt {
			return tv{types.Typ[types.Int], n.Int64}
		}
		return tv{types.Typ[types.Float64], n.Float64}
	}
	s.fail("can't handle %s", n)
	return tv{}
}

func (s *tstate) cmd(dot tv, c *parse.CommandNode, final *tv) tv {
	first := c.Args[0]
	rest := c.Args[1:]
	switch n := first.(type) {
	case *parse.FieldNode:
		return s.fields(dot, dot, n.Ident, rest, final)
	case *parse.ChainNode:
		return s.fields(dot, s.norm(s.arg(dot, n.Node)), n.Field, rest, final)
	case *parse.IdentifierNode:
		return s.callFunc(dot, n.Ident, rest, final)
	case *parse.PipeNode:
		return s.pipe(dot, n)
	case *parse.VariableNode:
		v := s.lookup(n.Ident[0])
		if len(n.Ident) > 1 {
			return s.fields(dot, v, n.Ident[1:], rest, final)
		}
		if len(rest) > 0 || final != nil {
			s.fail("can't give argument to non-function %s", first)
		}
		return v
	}
	if len(rest) > 0 || final != nil {
		s.fail("can't give argument to non-function %s", first)
	}
	return s.arg(dot, first)
}

func (s *tstate) fields(dot, recv tv, idents []string, rest []parse.Node, final *tv) tv {
	for i, id := range idents {
		if i == len(idents)-1 {
			return s.norm(s.field(dot, recv, id, rest, final))
		}
		recv = s.norm(s.field(dot, recv, id, nil, nil))
	}
	return recv
}

func (s *tstate) field(dot, recv tv, name string, rest []parse.Node, final *tv) tv {
	recv = s.norm(recv)
	if o, ok := recv.V.(*Opaque); ok {
		return tv{nil, &Opaque{o.Why + "." + name}}
	}
	if st, ok := recv.V.(*Stub); ok {
		f, ok := st.Methods[name]
		if !ok {
			return tv{nil, &Opaque{st.Name + "." + name}}
		}
		var av []Value
		for _, a := range s.args(dot, rest, final) {
			av = append(av, a.V)
		}
		return s.result(f(s.m, av), nil)
	}
	if recv.T == nil && recv.V == nil {
		s.fail("nil data; no entry for key %q", name)
	}
	// methods
	if recv.T != nil {
		t, v := recv.T, recv.V
		if fn := s.method(t, name); fn != nil {
			return s.call(fn.Signature, fn, []Value{v}, name, s.args(dot, rest, final))
		}
		// struct values obtained through a pointer are addressable
		if _, isPtr := t.Underlying().(*types.Pointer); !isPtr {
			if fn := s.method(types.NewPointer(t), name); fn != nil {
				return s.call(fn.Signature, fn, []Value{NewRef(v)}, name, s.args(dot, rest, final))
			}
		}
	}
	hasArgs := len(rest) > 0 || final != nil
	v := recv.V
	if r, ok := v.(*Ref); ok && r != nil {
		v = *r.P
	}
	switch x := v.(type) {
	case *Struct:
		// possibly promoted
		obj, idx, _ := types.LookupFieldOrMethod(x.T, true, pkgOf(x.T), name)
		fv, ok := obj.(*types.Var)
		if !ok || !fv.Exported() {
			s.fail("can't evaluate field %s in type %s", name, core.TypeName(x.T))
		}
		cur := Value(x)
		for _, k := range idx {
			if r, ok := cur.(*Ref); ok && r != nil {
				cur = *r.P
			}
			st, ok := cur.(*Struct)
			if !ok {
				s.fail("nil pointer evaluating %s.%s", core.TypeName(x.T), name)
			}
			cur = st.F[k]
		}
		if hasArgs {
			s.fail("%s has arguments but cannot be invoked as function", name)
		}
		return tv{fv.Type(), cur}
	case *Map:
		if hasArgs {
			s.fail("%s is not a method but has arguments", name)
		}
		r, ok := x.Get(name)
		if !ok {
			return tv{nil, "<no value>"}
		}
		return tv{elemType(recv.T), r}
	}
	s.fail("can't evaluate field %s in type %v", name, recv.T)
	return tv{}
}

func pkgOf(t types.Type) *types.Package {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Pkg()
	}
	return nil
}

func (s *tstate) method(t types.Type, name string) *ssa.Function {
	ms := s.m.Prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		sel := ms.At(i)
		if sel.Obj().Name() == name && sel.Obj().Exported() {
			return s.m.Prog.MethodValue(sel)
		}
	}
	return nil
}

func (s *tstate) result(v Value, r *types.Tuple) tv {
	if tp, ok := v.(Tuple); ok {
		if len(tp) == 2 && tp[1] != nil {
			if !isOpaque(tp[1]) {
				s.fail("error calling function: %s", s.m.Sprint(tp[1]))
			}
		}
		v = tp[0]
	}
	if r != nil && r.Len() > 0 {
		return s.norm(tv{r.At(0).Type(), v})
	}
	return s.norm(tv{nil, v})
}

// call applies a function to template arguments, converting as text/template does.
func (s *tstate) call(sig *types.Signature, f Value, pre []Value, name string, args []tv) tv {
	ps := sig.Params()
	np := ps.Len()
	if sig.Variadic() {
		if len(args) < np-1 {
			s.fail("wrong number of args for %s: want at least %d got %d", name, np-1, len(args))
		}
	} else if len(args) != np {
		s.fail("wrong number of args for %s: want %d got %d", name, np, len(args))
	}
	vals := append([]Value(nil), pre...)
	conv := func(a tv, t types.Type) Value {
		a = s.norm(a)
		if isOpaque(a.V) {
			return a.V
		}
		if _, ok := t.Underlying().(*types.Interface); ok {
			if a.T == nil {
				if st, ok := a.V.(*Stub); ok {
					return Iface{nil, st}
				}
				if a.V == nil {
					return nil
				}
				return Iface{basicOf(a.V), a.V}
			}
			it := t.Underlying().(*types.Interface)
			if it.NumMethods() > 0 {
				if _, st := a.V.(*Stub); !st && !types.Implements(a.T, it) {
					if types.Implements(types.NewPointer(a.T), it) {
						return Iface{types.NewPointer(a.T), NewRef(copyVal(a.V))}
					}
					s.fail("wrong type for value passed to %s; expected %s; got %s", name, core.TypeName(t), core.TypeName(a.T))
				}
			}
			return Iface{a.T, copyVal(a.V)}
		}
		if a.T != nil && !types.AssignableTo(a.T, t) {
			if types.Identical(core.Deref(a.T), t) {
				if r, ok := a.V.(*Ref); ok && r != nil {
					return copyVal(*r.P)
				}
			}
			if p, ok := t.Underlying().(*types.Pointer); ok && types.Identical(p.Elem(), a.T) {
				return NewRef(copyVal(a.V))
			}
			ub, ok1 := a.T.Underlying().(*types.Basic)
			tb, ok2 := t.Underlying().(*types.Basic)
			if ok1 && ok2 && ub.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
				return a.V
			}
			if ok1 && ok2 && ub.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0 {
				return a.V
			}
			s.fail("wrong type for value passed to %s; expected %s; got %s", name, core.TypeName(t), core.TypeName(a.T))
		}
		return copyVal(a.V)
	}
	fixed := np
	if sig.Variadic() {
		fixed = np - 1
	}
	for i := 0; i < fixed; i++ {
		vals = append(vals, conv(args[i], ps.At(i).Type()))
	}
	if sig.Variadic() {
		et := ps.At(np - 1).Type().Underlying().(*types.Slice).Elem()
		if len(args) == fixed {
			vals = append(vals, nil)
		} else {
			var sl Slice
			for _, a := range args[fixed:] {
				sl = append(sl, conv(a, et))
			}
			vals = append(vals, sl)
		}
	}
	return s.result(s.m.Call(f, vals), sig.Results())
}

func basicOf(v Value) types.Type {
	switch v.(type) {
	case string:
		return types.Typ[types.String]
	case int64:
		return types.Typ[types.Int]
	case bool:
		return types.Typ[types.Bool]
	case float64:
		return types.Typ[types.Float64]
	}
	return types.NewInterfaceType(nil, nil)
}

func (s *tstate) callFunc(dot tv, name string, rest []parse.Node, final *tv) tv {
	if fv, ok := s.t.Funcs[name]; ok {
		args := s.args(dot, rest, final)
		i, _ := fv.(Iface)
		sig, ok := i.T.Underlying().(*types.Signature)
		if !ok {
			s.fail("%s is not a function", name)
		}
		return s.call(sig, i.V, nil, name, args)
	}
	switch name {
	case "and", "or":
		var v tv
		for k, n := range rest {
			v = s.norm(s.arg(dot, n))
			if s.truth(v) == (name == "or") {
				return v
			}
			_ = k
		}
		if final != nil {
			return *final
		}
		return v
	}
	args := s.args(dot, rest, final)
	for i := range args {
		args[i] = s.norm(args[i])
	}
	b := func(v bool) tv { return tv{types.Typ[types.Bool], v} }
	switch name {
	case "not":
		return b(!s.truth(args[0]))
	case "len":
		switch x := args[0].V.(type) {
		case nil:
			return tv{types.Typ[types.Int], int64(0)}
		case string:
			return tv{types.Typ[types.Int], int64(len(x))}
		case Slice:
			return tv{types.Typ[types.Int], int64(len(x))}
		case *Map:
			return tv{types.Typ[types.Int], int64(x.Len())}
		}
		undecided("len of unknown value in template %s", s.t.Name)
	case "index":
		v := args[0]
		for _, ix := range args[1:] {
			switch x := v.V.(type) {
			case Slice:
				i, ok := ix.V.(int64)
				if !ok || i < 0 || int(i) >= len(x) {
					s.fail("index out of range")
				}
				v = s.norm(tv{elemType(v.T), x[i]})
			case *Map:
				e, ok := x.Get(ix.V)
				if !ok {
					if et := elemType(v.T); et != nil {
						e = Zero(et)
					}
				}
				v = s.norm(tv{elemType(v.T), e})
			default:
				s.fail("can't index %T", x)
			}
		}
		return v
	case "print", "printf", "println":
		var gs []Value
		for _, a := range args {
			if a.T != nil {
				gs = append(gs, Iface{a.T, a.V})
			} else {
				gs = append(gs, a.V)
			}
		}
		if name == "printf" {
			return tv{types.Typ[types.String], s.m.Sprintf(args[0].V, gs[1:])}
		}
		var as []any
		for _, g := range gs {
			as = append(as, s.m.goArg(g))
		}
		if name == "println" {
			return tv{types.Typ[types.String], fmt.Sprintln(as...)}
		}
		return tv{types.Typ[types.String], fmt.Sprint(as...)}
	case "eq":
		for _, a := range args[1:] {
			if isOpaque(a.V) || isOpaque(args[0].V) {
				undecided("template %s compares an unknown value", s.t.Name)
			}
			if keyOf(args[0].V) == keyOf(a.V) {
				return b(true)
			}
		}
		return b(false)
	case "ne":
		if isOpaque(args[0].V) || isOpaque(args[1].V) {
			undecided("template %s compares an unknown value", s.t.Name)
		}
		return b(keyOf(args[0].V) != keyOf(args[1].V))
	case "lt", "le", "gt", "ge":
		l := s.m.less(args[0].V, args[1].V)
		g := s.m.less(args[1].V, args[0].V)
		switch name {
		case "lt":
			return b(l)
		case "le":
			return b(!g)
		case "gt":
			return b(g)
		}
		return b(!l)
	}
	s.fail("function %q not defined", name)
	return tv{}
}

func (s *tstate) print(v tv) {
	v = s.norm(v)
	if r, ok := v.V.(*Ref); ok && r != nil {
		if str, ok := s.m.stringer(v.T, v.V); ok {
			s.out.WriteString(str)
			return
		}
		s.out.WriteString(s.m.format(core.Deref(v.T), *r.P, false))
		return
	}
	if v.T == nil && v.V == nil {
		s.out.WriteString("<no value>")
		return
	}
	// addressable struct values print with their pointer methods
	if _, ok := v.V.(*Struct); ok && v.T != nil {
		if _, has := s.m.stringer(v.T, v.V); !has {
			if str, ok := s.m.stringer(types.NewPointer(v.T), NewRef(v.V)); ok {
				s.out.WriteString(str)
				return
			}
		}
	}
	s.out.WriteString(s.m.format(v.T, v.V, false))
}
