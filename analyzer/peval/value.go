// Package peval partially evaluates the code generators of /repo: given a schematic service (whose
// methods stand for every method shape) it folds the generator's constant computation, so that the
// source a generator would emit becomes available to the analyses. Nothing of /repo is compiled or
// executed: the machine interprets SSA over its own value domain, with an Opaque value for
// everything that comes from outside the program, and gives up ("undecided") when control flow
// depends on an Opaque value.
package peval

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one of: nil, bool, int64 (all integer kinds), float64, string, *Ref, *Struct, *Array,
// Slice, *Map, Iface, *Closure, *ssa.Function, *ssa.Builtin, *Native, Tuple, *Opaque, *Stub, *RType, *RVal, ...
type Value any

type Ref struct{ P *Value }

type Struct struct {
	T types.Type
	F []Value
}

type Array struct{ E []Value }

type Slice []Value

type Map struct {
	keys []Value
	vals map[string]*Value
	ks   map[string]int
}

type Iface struct {
	T types.Type
	V Value
}

type Closure struct {
	Fn    *ssa.Function
	Env   []Value
	Targs map[*types.TypeParam]types.Type
}

// Bound is a method value of an interface.
type Bound struct {
	Recv   Iface
	Method *types.Func
}

type Native struct {
	Name string
	F    func(m *Machine, args []Value) Value
}

type Tuple []Value

// Opaque stands for any value of its type; it comes from outside the program.
type Opaque struct{ Why string }

// Stub is a schematic object: an implementation of an interface known only by what its methods answer.
type Stub struct {
	Name    string
	Methods map[string]func(m *Machine, args []Value) Value
	Is      func(t types.Type) bool
}

type Undecided struct{ Msg string }

func (u Undecided) Error() string { return u.Msg }

func undecided(format string, args ...any) { panic(Undecided{fmt.Sprintf(format, args...)}) }

// Panicked: the evaluated code panics.
type Panicked struct {
	V   Value
	Msg string
}

func NewMap() *Map { return &Map{vals: map[string]*Value{}, ks: map[string]int{}} }

func (mp *Map) Get(k Value) (Value, bool) {
	if mp == nil {
		return nil, false
	}
	p, ok := mp.vals[keyOf(k)]
	if !ok {
		return nil, false
	}
	return *p, true
}

func (mp *Map) Set(k, v Value) {
	s := keyOf(k)
	if p, ok := mp.vals[s]; ok {
		*p = v
		return
	}
	nv := v
	mp.vals[s] = &nv
	mp.ks[s] = len(mp.keys)
	mp.keys = append(mp.keys, k)
}

func (mp *Map) Delete(k Value) {
	s := keyOf(k)
	if _, ok := mp.vals[s]; !ok {
		return
	}
	delete(mp.vals, s)
	delete(mp.ks, s)
	var nk []Value
	for _, o := range mp.keys {
		if keyOf(o) != s {
			nk = append(nk, o)
		}
	}
	mp.keys = nk
}

func (mp *Map) Len() int {
	if mp == nil {
		return 0
	}
	return len(mp.keys)
}

// Keys in insertion order.
func (mp *Map) Keys() []Value {
	if mp == nil {
		return nil
	}
	return append([]Value(nil), mp.keys...)
}

func (mp *Map) SortedKeys() []Value {
	ks := mp.Keys()
	sort.SliceStable(ks, func(i, j int) bool {
		a, b := ks[i], ks[j]
		if x, ok := a.(int64); ok {
			if y, ok := b.(int64); ok {
				return x < y
			}
		}
		return keyOf(a) < keyOf(b)
	})
	return ks
}

func keyOf(v Value) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case bool:
		return "b" + strconv.FormatBool(x)
	case int64:
		return "i" + strconv.FormatInt(x, 10)
	case float64:
		return "f" + strconv.FormatUint(math.Float64bits(x), 16)
	case string:
		return "s" + x
	case *Ref:
		return fmt.Sprintf("p%p", x.P)
	case *Struct:
		var b strings.Builder
		b.WriteString("{")
		for _, f := range x.F {
			b.WriteString(keyOf(f) + "\x00")
		}
		return b.String() + "}"
	case *Array:
		var b strings.Builder
		b.WriteString("[")
		for _, f := range x.E {
			b.WriteString(keyOf(f) + "\x00")
		}
		return b.String() + "]"
	case Iface:
		return "I" + types.TypeString(x.T, nil) + ":" + keyOf(x.V)
	case *RType:
		return "T" + types.TypeString(x.T, nil)
	case *Opaque:
		undecided("an unknown value (%s) is used as a key or compared", x.Why)
	}
	return fmt.Sprintf("%T%p", v, v)
}

// copyVal copies aggregates, as assignment does.
func copyVal(v Value) Value {
	switch x := v.(type) {
	case *Struct:
		n := &Struct{x.T, make([]Value, len(x.F))}
		for i, f := range x.F {
			n.F[i] = copyVal(f)
		}
		return n
	case *Array:
		n := &Array{make([]Value, len(x.E))}
		for i, f := range x.E {
			n.E[i] = copyVal(f)
		}
		return n
	}
	return v
}

// store assigns into a cell, keeping the identity of nested cells.
func store(p *Value, v Value) {
	switch x := v.(type) {
	case *Struct:
		if o, ok := (*p).(*Struct); ok && len(o.F) == len(x.F) {
			if o == x {
				return
			}
			for i := range x.F {
				store(&o.F[i], x.F[i])
			}
			return
		}
		*p = copyVal(v)
	case *Array:
		if o, ok := (*p).(*Array); ok && len(o.E) == len(x.E) {
			for i := range x.E {
				store(&o.E[i], x.E[i])
			}
			return
		}
		*p = copyVal(v)
	default:
		*p = v
	}
}

// Zero value of a type.
func Zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsInteger != 0:
			return int64(0)
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Info()&types.IsString != 0:
			return ""
		}
		return nil
	case *types.Struct:
		s := &Struct{T: t, F: make([]Value, u.NumFields())}
		for i := range s.F {
			s.F[i] = Zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := &Array{make([]Value, u.Len())}
		for i := range a.E {
			a.E[i] = Zero(u.Elem())
		}
		return a
	case *types.Tuple:
		tp := make(Tuple, u.Len())
		for i := range tp {
			tp[i] = Zero(u.At(i).Type())
		}
		return tp
	}
	return nil
}

// NewRef allocates a cell.
func NewRef(v Value) *Ref {
	c := v
	return &Ref{&c}
}

// Obj returns the struct a pointer value points to.
func Obj(v Value) *Struct {
	if i, ok := v.(Iface); ok {
		v = i.V
	}
	if r, ok := v.(*Ref); ok && r != nil {
		v = *r.P
	}
	s, _ := v.(*Struct)
	return s
}

// Field reads a field by name.
func (s *Struct) Field(name string) Value {
	st := s.T.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return s.F[i]
		}
	}
	return nil
}

func (s *Struct) Set(name string, v Value) bool {
	st := s.T.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			s.F[i] = v
			return true
		}
	}
	return false
}

// Str is the string in v, or "" if it is not one.
func Str(v Value) string {
	if i, ok := v.(Iface); ok {
		v = i.V
	}
	s, _ := v.(string)
	return s
}
