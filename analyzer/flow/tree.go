package flow

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"verif/analyzer/core"
)

// Tree is a value with everything it reaches, independent of a state and of named types.
type Tree struct {
	Kind string // leaf, nil, ptr, struct, slice, map
	V    Val    // leaf
	T    types.Type
	F    map[string]*Tree // struct
	L    []*Tree          // ptr (one), slice, map keys
	Vs   []*Tree          // map values
}

// Schematic makes an opaque value of type t. full: pointers set, two elements per slice and map.
func (st *State) Schematic(t types.Type, id string, full bool) Val {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s := &Struct{Base: Zero{t}, F: map[string]Val{}}
		for i := 0; i < u.NumFields(); i++ {
			s.F[u.Field(i).Name()] = st.Schematic(u.Field(i).Type(), id+"."+u.Field(i).Name(), full)
		}
		return s
	case *types.Pointer:
		if !full {
			return NilV{}
		}
		a := st.New(u.Elem())
		st.Store(a, st.Schematic(u.Elem(), id+"*", full))
		return a
	case *types.Slice:
		if !full {
			return NilV{}
		}
		s := st.NewSlice(u.Elem(), 2)
		for i := int64(0); i < 2; i++ {
			st.Store(s.Elem(i), st.Schematic(u.Elem(), fmt.Sprintf("%s[%d]", id, i), full))
		}
		return s
	case *types.Map:
		if !full {
			return NilV{}
		}
		m := st.NewMap(t)
		for i := 0; i < 2; i++ {
			st.MapSet(m, st.Schematic(u.Key(), fmt.Sprintf("%s.key%d", id, i), full), st.Schematic(u.Elem(), fmt.Sprintf("%s[%d]", id, i), full))
		}
		return m
	}
	return &Sym{ID: id, T: t}
}

// Snapshot captures v, of static type t, as it is in this state.
func (st *State) Snapshot(v Val, t types.Type) *Tree { return st.snap(v, t, 0) }

func (st *State) snap(v Val, t types.Type, depth int) *Tree {
	if depth > 40 {
		return &Tree{Kind: "leaf", V: v, T: t}
	}
	if t == nil {
		t = TypeOf(v)
	}
	if t == nil {
		return &Tree{Kind: "leaf", V: v}
	}
	v = Strip(v)
	if y, ok := v.(*Sym); ok && y.ID == "typednil" {
		v = NilV{}
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		n := &Tree{Kind: "struct", T: t, F: map[string]*Tree{}}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			n.F[f.Name()] = st.snap(fieldOf(v, f.Name(), f.Type()), f.Type(), depth+1)
		}
		return n
	case *types.Pointer:
		switch a := v.(type) {
		case NilV:
			return &Tree{Kind: "nil", T: t}
		case *Addr:
			c := *a
			c.T = u.Elem()
			return &Tree{Kind: "ptr", T: t, L: []*Tree{st.snap(st.Load(&c), u.Elem(), depth+1)}}
		}
	case *types.Slice:
		switch s := v.(type) {
		case NilV:
			return &Tree{Kind: "slice", T: t}
		case *SliceV:
			n := &Tree{Kind: "slice", T: t}
			for i := int64(0); i < s.Len; i++ {
				n.L = append(n.L, st.snap(st.Load(&Addr{Base: s.Elem(i).Base, T: u.Elem(), Alloc: s.Arr.Alloc}), u.Elem(), depth+1))
			}
			return n
		}
	case *types.Map:
		if _, isNil := v.(NilV); isNil {
			return &Tree{Kind: "map", T: t}
		}
		if ks, vs, ok := st.MapEntries(v); ok {
			n := &Tree{Kind: "map", T: t}
			for i := range ks {
				n.L = append(n.L, st.snap(ks[i], u.Key(), depth+1))
				n.Vs = append(n.Vs, st.snap(vs[i], u.Elem(), depth+1))
			}
			return n
		}
	}
	return &Tree{Kind: "leaf", V: v, T: t}
}

// Build makes a value of type t from a tree, matching struct fields by name.
func (st *State) Build(n *Tree, t types.Type) (Val, error) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if n.Kind != "struct" {
			break
		}
		s := &Struct{Base: Zero{t}, F: map[string]Val{}}
		seen := map[string]bool{}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			c, ok := n.F[f.Name()]
			if !ok {
				return nil, fmt.Errorf("the receiver expects a field %s that the sender does not have", f.Name())
			}
			seen[f.Name()] = true
			v, err := st.Build(c, f.Type())
			if err != nil {
				return nil, err
			}
			s.F[f.Name()] = v
		}
		for k := range n.F {
			if !seen[k] {
				return nil, fmt.Errorf("the receiver does not have the field %s that the sender sends", k)
			}
		}
		return s, nil
	case *types.Pointer:
		if n.Kind == "nil" {
			return NilV{}, nil
		}
		if n.Kind != "ptr" {
			break
		}
		v, err := st.Build(n.L[0], u.Elem())
		if err != nil {
			return nil, err
		}
		a := st.New(u.Elem())
		st.Store(a, v)
		return a, nil
	case *types.Slice:
		if n.Kind != "slice" {
			break
		}
		if len(n.L) == 0 {
			return NilV{}, nil
		}
		s := st.NewSlice(u.Elem(), int64(len(n.L)))
		for i, c := range n.L {
			v, err := st.Build(c, u.Elem())
			if err != nil {
				return nil, err
			}
			st.Store(s.Elem(int64(i)), v)
		}
		return s, nil
	case *types.Map:
		if n.Kind != "map" {
			break
		}
		if len(n.L) == 0 {
			return NilV{}, nil
		}
		m := st.NewMap(t)
		for i := range n.L {
			k, err := st.Build(n.L[i], u.Key())
			if err != nil {
				return nil, err
			}
			v, err := st.Build(n.Vs[i], u.Elem())
			if err != nil {
				return nil, err
			}
			st.MapSet(m, k, v)
		}
		return m, nil
	default:
		if n.Kind == "leaf" {
			return n.V, nil
		}
	}
	if n.Kind == "leaf" && n.T != nil && types.TypeString(n.T, nil) == types.TypeString(t, nil) {
		return n.V, nil
	}
	return nil, fmt.Errorf("a %s (%s) arrives where %s is expected", n.Kind, core.TypeName(n.T), core.TypeName(t))
}

// wider reports that a conversion from a to b and back loses nothing.
func wider(a, b *types.Basic) bool {
	if a.Kind() == b.Kind() {
		return true
	}
	size := func(t *types.Basic) int {
		switch t.Kind() {
		case types.Int8, types.Uint8:
			return 8
		case types.Int16, types.Uint16:
			return 16
		case types.Int32, types.Uint32, types.Float32:
			return 32
		}
		return 64
	}
	ia, ib := a.Info(), b.Info()
	switch {
	case ia&types.IsInteger != 0 && ib&types.IsInteger != 0:
		return size(b) >= size(a)
	case ia&types.IsFloat != 0 && ib&types.IsFloat != 0:
		return size(b) >= size(a)
	}
	return false
}

// Normal strips conversions that lose nothing, given that the value ends up in its original type.
func Normal(v Val, t types.Type) Val {
	v = Strip(v)
	var chain []types.Type
	w := v
	for {
		a, ok := w.(*App)
		if !ok || !strings.HasPrefix(a.Op, "conv:") || len(a.Args) != 1 {
			break
		}
		chain = append(chain, a.T)
		w = Strip(a.Args[0])
	}
	if len(chain) == 0 {
		return v
	}
	orig := TypeOf(w)
	if orig == nil {
		return v
	}
	ob, ok := orig.Underlying().(*types.Basic)
	if !ok {
		return v
	}
	if tb, ok := t.Underlying().(*types.Basic); !ok || tb.Kind() != ob.Kind() {
		return v
	}
	for _, c := range chain {
		cb, ok := c.Underlying().(*types.Basic)
		if !ok || !wider(ob, cb) {
			return v
		}
	}
	return w
}

// Diff describes the first difference between two trees, or is empty. Empty and absent
// collections are the same.
func Diff(want, got *Tree, at string) string {
	if want.Kind != got.Kind {
		return fmt.Sprintf("%s: sent as %s, arrives as %s", at, want.show(), got.show())
	}
	switch want.Kind {
	case "leaf":
		w, g := Normal(want.V, want.T), got.V
		if want.T != nil {
			g = Normal(got.V, want.T)
		}
		if w.Key() != g.Key() {
			return fmt.Sprintf("%s: sent %s, arrives as %s", at, short(w), short(g))
		}
	case "ptr":
		return Diff(want.L[0], got.L[0], at+"*")
	case "struct":
		var ks []string
		for k := range want.F {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			g, ok := got.F[k]
			if !ok {
				return at + "." + k + ": lost"
			}
			if d := Diff(want.F[k], g, at+"."+k); d != "" {
				return d
			}
		}
	case "slice", "map":
		if len(want.L) != len(got.L) {
			return fmt.Sprintf("%s: sent with %d elements, arrives with %d", at, len(want.L), len(got.L))
		}
		for i := range want.L {
			if d := Diff(want.L[i], got.L[i], fmt.Sprintf("%s[%d]", at, i)); d != "" {
				return d
			}
		}
		for i := range want.Vs {
			if d := Diff(want.Vs[i], got.Vs[i], fmt.Sprintf("%s[key%d]", at, i)); d != "" {
				return d
			}
		}
	}
	return ""
}

func short(v Val) string {
	s := v.Key()
	if len(s) > 160 {
		s = s[:160] + "..."
	}
	return s
}

func (n *Tree) show() string {
	if n.Kind == "leaf" {
		return short(n.V)
	}
	return n.Kind
}

var _ = constant.MakeBool
