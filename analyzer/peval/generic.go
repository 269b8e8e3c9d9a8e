package peval

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// sub replaces the type parameters that are bound where the machine is.
func (m *Machine) sub(t types.Type) types.Type {
	if len(m.targs) == 0 || t == nil {
		return t
	}
	return subst(t, m.targs)
}

func subst(t types.Type, b map[*types.TypeParam]types.Type) types.Type {
	switch x := t.(type) {
	case *types.TypeParam:
		if r, ok := b[x]; ok {
			return r
		}
	case *types.Pointer:
		if e := subst(x.Elem(), b); e != x.Elem() {
			return types.NewPointer(e)
		}
	case *types.Slice:
		if e := subst(x.Elem(), b); e != x.Elem() {
			return types.NewSlice(e)
		}
	case *types.Array:
		if e := subst(x.Elem(), b); e != x.Elem() {
			return types.NewArray(e, x.Len())
		}
	case *types.Map:
		k, e := subst(x.Key(), b), subst(x.Elem(), b)
		if k != x.Key() || e != x.Elem() {
			return types.NewMap(k, e)
		}
	case *types.Alias:
		return subst(types.Unalias(x), b)
	case *types.Named:
		n := x.TypeArgs().Len()
		if n == 0 {
			return t
		}
		args, changed := make([]types.Type, n), false
		for i := range args {
			args[i] = subst(x.TypeArgs().At(i), b)
			changed = changed || args[i] != x.TypeArgs().At(i)
		}
		if changed {
			if r, err := types.Instantiate(nil, x.Origin(), args, false); err == nil {
				return r
			}
		}
	}
	return t
}

// within runs f with more type parameters bound.
func (m *Machine) within(targs map[*types.TypeParam]types.Type, f func() Value) Value {
	old := m.targs
	m.targs = targs
	defer func() { m.targs = old }()
	return f()
}

func typeParams(fn *ssa.Function) *types.TypeParamList {
	if ps := fn.TypeParams(); ps.Len() > 0 {
		return ps
	}
	if o := fn.Origin(); o != nil {
		return o.TypeParams()
	}
	return nil
}

// binding are the type parameters of a function that is called with type arguments of which some
// are type parameters of the caller.
func (m *Machine) binding(fn *ssa.Function) map[*types.TypeParam]types.Type {
	o := fn.Origin()
	if len(m.targs) == 0 || o == nil || o == fn || len(fn.TypeArgs()) == 0 || o.Blocks == nil {
		return nil
	}
	changed := false
	b := map[*types.TypeParam]types.Type{}
	for k, v := range m.targs {
		b[k] = v
	}
	ps := typeParams(o)
	if ps.Len() != len(fn.TypeArgs()) {
		return nil
	}
	for i, a := range fn.TypeArgs() {
		r := m.sub(a)
		changed = changed || r != a
		b[ps.At(i)] = r
	}
	if !changed {
		return nil
	}
	return b
}

// Generic calls a generic function with the given type arguments.
func (m *Machine) Generic(fn *ssa.Function, targs []types.Type, args []Value) Value {
	b := map[*types.TypeParam]types.Type{}
	for i := 0; i < typeParams(fn).Len() && i < len(targs); i++ {
		b[typeParams(fn).At(i)] = targs[i]
	}
	return m.within(b, func() Value { return m.callFn(fn, args, nil) })
}

// TypeArg is what a type parameter of the current function is bound to, by position.
func (m *Machine) TypeArg(fn *ssa.Function, i int) types.Type {
	if i < len(fn.TypeArgs()) {
		return m.sub(fn.TypeArgs()[i])
	}
	if ps := typeParams(fn); i < ps.Len() {
		return m.sub(ps.At(i))
	}
	return nil
}
