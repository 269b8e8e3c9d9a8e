package checks

import (
	"go/constant"
	"go/token"
	"go/types"

	"verif/analyzer/core"
	"verif/analyzer/flow"
)

func init() {
	register(&Check{
		ID: "C10",
		Rules: "Every path of reading the one value, or all values, of a property of a definition, for every pair of a value and a variable from a list of types, with opaque contents and a model of reflection: " +
			"copies: the variable holds exactly the value when its type can hold it, element by element for lists, and its zero value when there is none; " +
			"refuses: otherwise there is an error and the variable is as it was; nothing panics; " +
			"lists: a list that was read does not share memory with the definition.",
		Run:       runC10,
		NotDecide: "Types outside the list.",
	})
}

func runC10(c *core.Ctx) {
	t := c.NamedType("blueprint/pkg/wiring", "WiringDef")
	if t == nil {
		return
	}
	r := newRT(c, "blueprint/pkg/wiring")
	one, all := ownMethod(c, t, "GetProperty"), ownMethod(c, t, "GetProperties")
	var props *types.Var
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if specMaps(&flow.Sym{T: s.Field(i).Type()}) == "props" {
				props = s.Field(i)
			}
		}
	}
	if one == nil || all == nil || props == nil {
		c.Fail("undecided", "properties", token.NoPos, "how properties of a definition are kept is not known")
		return
	}
	r.fork = 8
	anyT := types.Type(types.NewInterfaceType(nil, nil))
	key := flow.Const{V: constant.MakeString("key")}
	def := func(st *flow.State, vals flow.Val) []flow.Val {
		d := st.New(t)
		m := st.NewMap(props.Type())
		if vals != nil {
			st.MapSet(m, key, vals)
		}
		st.Store(&flow.Addr{Base: d.Base + "." + props.Name(), T: props.Type(), Alloc: d.Alloc}, m)
		return []flow.Val{d, key}
	}
	copiesTo(c, r, &copier{fn: one, either: true, before: func(st *flow.State, src flow.Val) []flow.Val {
		l := st.NewSlice(anyT, 1)
		st.Store(l.Elem(0), src)
		return def(st, l)
	}})
	copiesTo(c, r, &copier{fn: all, either: true,
		only: func(x result) bool {
			s, ok := x.t.(*types.Slice)
			return ok && x.list != nil && types.Identical(s.Elem(), anyT)
		},
		before: func(st *flow.State, src flow.Val) []flow.Val { return def(st, flow.Strip(src)) },
	})
	c.Floor("copies", 800)
	// no value
	for _, ty := range []types.Type{types.Typ[types.String], types.Typ[types.Int], types.Typ[types.Bool], types.NewPointer(t), anyT, types.NewSlice(types.Typ[types.String])} {
		name := types.TypeString(ty, (*types.Package).Name)
		st := flow.NewState()
		a := st.New(ty)
		st.Store(a, &flow.Sym{ID: "old", T: ty})
		told := false
		for _, p := range r.step(st, one, append(def(st, nil), &flow.Iface{V: a, T: types.NewPointer(ty)})...) {
			told = true
			c.Ok("none", name)
			if succeeded(p) != 1 || !sameVal(p.St.Load(a), flow.ZeroOf(ty)) {
				r14bad(r, one, p, "none", "a variable of type %s does not have its zero value when the property has none", name)
			}
		}
		if !told {
			r14bad(r, one, nil, "none", "reading a property without values never ends normally")
		}
	}
	c.Floor("none", 6)
}
