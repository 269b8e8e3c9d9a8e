package checks

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/core"
	"verif/analyzer/flow"
)

func init() {
	register(&Check{
		ID: "R14",
		Rules: "Every path of the helpers that hand results to a caller's variable, on every pair of a source and a destination from a list of types, with opaque contents and a model of reflection: " +
			"copies: the variable holds exactly the source when its type can hold it, element by element for lists; " +
			"refuses: otherwise there is an error and the variable is as it was; nothing panics; " +
			"lists: a list that was copied does not share memory with its source.",
		Run:       runR14,
		NotDecide: "Types outside the list.",
	})
}

// result is a shape of a value: a type, and for lists what is in them.
type result struct {
	name string
	t    types.Type // nil: an untyped nil
	null bool       // the zero value
	list []result
}

func runR14(c *core.Ctx) {
	r := newRT(c, "runtime/core/backend")
	cp := r.fn("runtime/core/backend", "CopyResult")
	zero := r.fn("runtime/core/backend", "SetZero")
	deref := r.fn("runtime/core/backend", "GetPointerValue")
	if cp == nil || zero == nil || deref == nil {
		return
	}
	copiesTo(c, r, &copier{fn: cp, zero: zero, deref: deref})
	c.Floor("copies", 600)
}

// copier is what copies a value to a variable.
type copier struct {
	fn, zero, deref *ssa.Function
	// before gives the arguments that stand for a source; without it is the source itself
	before func(st *flow.State, src flow.Val) []flow.Val
	// either: an untyped nil may be refused as well
	either bool
	only   func(x result) bool
}

func (k *copier) args(st *flow.State, src, dst flow.Val) []flow.Val {
	if k.before == nil {
		return []flow.Val{src, dst}
	}
	return append(k.before(st, src), dst)
}

// copiesTo decides the helpers that copy a value to a variable; zero and deref may be nil.
func copiesTo(c *core.Ctx, r *rt, k *copier) {
	m := &cells{}
	r.model = m.model
	r.fork = 8
	cp, zero, deref := k.fn, k.zero, k.deref
	basic := func(k types.BasicKind) types.Type { return types.Typ[k] }
	anyT := types.Type(types.NewInterfaceType(nil, nil))
	str, num := basic(types.String), basic(types.Int)
	pkg := cp.Pkg.Pkg
	named := func(n string, u types.Type) types.Type {
		return types.NewNamed(types.NewTypeName(token.NoPos, pkg, n, nil), u, nil)
	}
	item := named("item", types.NewStruct([]*types.Var{types.NewField(0, pkg, "A", num, false), types.NewField(0, pkg, "B", str, false)}, nil))
	id := named("id", str)
	slice := func(t types.Type) types.Type { return types.NewSlice(t) }
	mp := types.NewMap(str, num)
	fn := types.NewSignatureType(nil, nil, nil, nil, nil, false)
	ch := types.NewChan(types.SendRecv, num)
	s := func(t types.Type) result { return result{name: types.TypeString(t, (*types.Package).Name), t: t} }
	null := func(t types.Type) result {
		return result{name: "nil " + types.TypeString(t, (*types.Package).Name), t: t, null: true}
	}
	list := func(et types.Type, els ...result) result {
		x := result{name: types.TypeString(slice(et), (*types.Package).Name) + "{", t: slice(et), list: els}
		if els == nil {
			x.list = []result{}
		}
		for i, e := range els {
			if i > 0 {
				x.name += ", "
			}
			x.name += e.name
		}
		x.name += "}"
		return x
	}
	untyped := result{name: "nil"}
	srcs := []result{untyped, s(str), s(num), s(id), s(basic(types.Int64)), s(basic(types.Float64)), s(basic(types.Bool)), s(item), s(types.NewPointer(item)), null(types.NewPointer(item)), s(mp), null(mp), s(fn), s(ch),
		s(types.NewArray(num, 2)), list(str), list(str, s(str), s(str)), list(anyT, s(str), s(str)), list(anyT, s(str), s(num)), list(anyT, s(num), s(str)), list(anyT, untyped, s(str)), list(anyT, untyped),
		list(num, s(num)), list(item, s(item), s(item)), list(anyT, s(item)), list(types.NewPointer(item), s(types.NewPointer(item))), list(anyT, list(anyT, s(str)), list(str, s(str))),
		list(slice(str), list(str, s(str)), list(str)), list(anyT, list(anyT, s(num))), list(anyT, s(str), s(str), s(num)), list(id, s(id))}
	dsts := []types.Type{str, num, id, basic(types.Int64), basic(types.Float64), basic(types.Bool), item, types.NewPointer(item), mp, fn, ch, types.NewArray(num, 2), anyT, slice(str), slice(num), slice(anyT), slice(item), slice(types.NewPointer(item)),
		slice(slice(str)), slice(slice(anyT)), slice(id), core.ErrorType, slice(anyT)}
	// make a value of a shape; opaque contents have names of their own
	var build func(st *flow.State, x result, id string) flow.Val
	build = func(st *flow.State, x result, id string) flow.Val {
		switch {
		case x.t == nil:
			return flow.NilV{}
		case x.null:
			return &flow.Iface{V: flow.NilV{}, T: x.t}
		case x.list != nil:
			et := x.t.(*types.Slice).Elem()
			l := st.NewSlice(et, int64(len(x.list)))
			for i, e := range x.list {
				v := build(st, e, fmt.Sprintf("%s.%d", id, i))
				if !types.IsInterface(et) {
					v = flow.Strip(v)
				}
				st.Store(l.Elem(int64(i)), v)
			}
			return &flow.Iface{V: l, T: x.t}
		}
		v := &flow.Sym{ID: id, T: x.t}
		switch x.t.Underlying().(type) {
		case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
			st.Assume(v, false)
		}
		return &flow.Iface{V: v, T: x.t}
	}
	isSlice := func(t types.Type) (*types.Slice, bool) { s, ok := t.Underlying().(*types.Slice); return s, ok }
	// fits: what a variable of type t holds afterwards can be x
	var fits func(x result, t types.Type) bool
	fits = func(x result, t types.Type) bool {
		if x.t == nil {
			switch t.Underlying().(type) {
			case *types.Interface, *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature:
				return true
			}
			return false
		}
		_, from := isSlice(x.t)
		to, ok := isSlice(t)
		if from && ok {
			for _, e := range x.list {
				if !fits(e, to.Elem()) {
					return false
				}
			}
			return true
		}
		return types.AssignableTo(x.t, t)
	}
	// holds: a cell of type t has the content x
	var holds func(st *flow.State, v flow.Val, x result, t types.Type, id string) bool
	holds = func(st *flow.State, v flow.Val, x result, t types.Type, id string) bool {
		if i, ok := v.(*flow.Iface); ok && types.IsInterface(t) && x.t != nil && (i.T == nil || !types.Identical(i.T, x.t)) {
			return false
		}
		v = flow.Strip(v)
		switch {
		case x.t == nil || x.null:
			_, none := v.(flow.NilV)
			return none
		case x.list != nil:
			l, ok := v.(*flow.SliceV)
			if !ok {
				_, none := v.(flow.NilV)
				return none && len(x.list) == 0
			}
			if l.Len != int64(len(x.list)) {
				return false
			}
			et := x.t.(*types.Slice).Elem()
			if s, ok := isSlice(t); ok {
				et = s.Elem()
			}
			for i, e := range x.list {
				if !holds(st, st.Load(l.Elem(int64(i))), e, et, fmt.Sprintf("%s.%d", id, i)) {
					return false
				}
			}
			return true
		}
		return v.Key() == id
	}
	cell := func(st *flow.State, t types.Type) (*flow.Addr, flow.Val) {
		a := st.New(t)
		var old flow.Val = &flow.Sym{ID: "old", T: t}
		st.Store(a, old)
		return a, old
	}
	same := func(st *flow.State, a *flow.Addr, old flow.Val) bool { return sameVal(st.Load(a), old) }
	for _, x := range srcs {
		if k.only != nil && !k.only(x) {
			continue
		}
		for _, t := range dsts {
			what := x.name + " to " + types.TypeString(t, (*types.Package).Name)
			st := flow.NewState()
			src := build(st, x, "src")
			dst, old := cell(st, t)
			told := false
			for _, p := range r.step(st, cp, k.args(st, src, &flow.Iface{V: dst, T: types.NewPointer(t)})...) {
				told = true
				c.Ok("copies", what)
				ok := fits(x, t)
				switch {
				case succeeded(p) == 0:
					r14bad(r, cp, p, "undecided", "%s: whether it is copied is not known", what)
				case ok && succeeded(p) == -1 && k.either && x.t == nil && same(p.St, dst, old):
				case ok && succeeded(p) == -1:
					r14bad(r, cp, p, "copies", "%s is refused", what)
				case !ok && succeeded(p) == 1:
					r14bad(r, cp, p, "refuses", "%s is not refused", what)
				case !ok && !same(p.St, dst, old):
					r14bad(r, cp, p, "refuses", "%s is refused and the variable has changed", what)
				case ok && !holds(p.St, p.St.Load(dst), x, t, "src"):
					r14bad(r, cp, p, "copies", "%s: the variable does not hold the source afterwards", what)
				case ok && x.list != nil && len(x.list) > 0 && !types.IsInterface(t):
					l, is := flow.Strip(p.St.Load(dst)).(*flow.SliceV)
					from := flow.Strip(src).(*flow.SliceV)
					if is && l.Arr.Base == from.Arr.Base {
						r14bad(r, cp, p, "lists", "%s: the variable shares memory with the source", what)
					}
				}
			}
			if !told {
				r14bad(r, cp, nil, "copies", "%s: it never ends normally", what)
			}
		}
	}
	// what is not a variable
	none := []struct {
		name string
		v    flow.Val
	}{
		{"nil", flow.NilV{}},
		{"a string", &flow.Iface{V: &flow.Sym{ID: "dst", T: str}, T: str}},
		{"a struct", &flow.Iface{V: &flow.Sym{ID: "dst", T: item}, T: item}},
		{"a list", &flow.Iface{V: &flow.Sym{ID: "dst", T: slice(str)}, T: slice(str)}},
		{"a nil pointer", &flow.Iface{V: flow.NilV{}, T: types.NewPointer(str)}},
	}
	for _, n := range none {
		for _, f := range []*ssa.Function{cp, zero, deref} {
			if f == nil {
				continue
			}
			st := flow.NewState()
			args := []flow.Val{n.v}
			if f == cp {
				from := srcs[1]
				for _, x := range srcs {
					if k.only != nil && k.only(x) {
						from = x
					}
				}
				args = k.args(st, build(st, from, "src"), n.v)
			}
			ok := false
			for _, p := range r.step(st, f, args...) {
				ok = true
				c.Ok("refuses", core.Name(f)+" "+n.name)
				if succeeded(p) != -1 {
					r14bad(r, f, p, "refuses", "%s is not refused", n.name)
				}
			}
			if !ok {
				r14bad(r, f, nil, "refuses", "%s: it never ends normally", n.name)
			}
		}
	}
	for _, t := range dsts {
		st := flow.NewState()
		a, old := cell(st, t)
		ptr := &flow.Iface{V: a, T: types.NewPointer(t)}
		name := types.TypeString(t, (*types.Package).Name)
		if zero == nil {
			continue
		}
		for _, p := range r.step(st, zero, ptr) {
			c.Ok("copies", core.Name(zero)+" "+name)
			if succeeded(p) != 1 || !sameVal(p.St.Load(a), flow.ZeroOf(t)) {
				r14bad(r, zero, p, "copies", "a variable of type %s does not have its zero value afterwards", name)
			}
		}
		if deref == nil {
			continue
		}
		for _, p := range r.step(st, deref, ptr) {
			c.Ok("copies", core.Name(deref)+" "+name)
			i, _ := p.Ret[0].(*flow.Iface)
			if succeeded(p) != 1 || !sameVal(p.Ret[0], old) || !types.IsInterface(t) && (i == nil || !types.Identical(i.T, t)) || !same(p.St, a, old) {
				r14bad(r, deref, p, "copies", "it does not give the value of a variable of type %s", name)
			}
		}
	}
}

func r14bad(r *rt, fn *ssa.Function, p *flow.Path, rule, format string, a ...any) {
	r.bad(fn, p, rule, fmt.Sprintf(format, a...))
}
