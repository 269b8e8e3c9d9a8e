// Package flow is a path-sensitive dataflow analysis over SSA. Values are abstract: constants,
// opaque symbols (parameters, results of calls), addresses, and terms over those. Nothing is
// executed and no path condition is solved: a branch is followed both ways unless constant
// propagation or a nil/boolean fact already established on the path decides it, and a branch site
// that stays undecided is followed a bounded number of times per path (loops).
package flow

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{ Key() string }

type Const struct{ V constant.Value }

func (c Const) Key() string { return "c:" + c.V.ExactString() }

type NilV struct{}

func (NilV) Key() string { return "nil" }

// Zero is the zero value of a type that is not a constant or nil.
type Zero struct{ T types.Type }

func (z Zero) Key() string { return "zero(" + types.TypeString(z.T, nil) + ")" }

// Sym is an opaque value.
type Sym struct {
	ID string
	T  types.Type
}

func (s *Sym) Key() string { return s.ID }

// App is a pure term.
type App struct {
	Op   string
	Args []Val
	T    types.Type
	key  string
}

func (a *App) Key() string {
	if a.key == "" {
		var b strings.Builder
		b.WriteString(a.Op)
		b.WriteByte('(')
		for i, x := range a.Args {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(x.Key())
		}
		b.WriteByte(')')
		a.key = b.String()
	}
	return a.key
}

func MkApp(op string, t types.Type, args ...Val) *App { return &App{Op: op, Args: args, T: t} }

// Addr is the address of a memory cell.
type Addr struct {
	Base  string
	T     types.Type // type of the cell
	Alloc bool       // a cell allocated on this path (zero until written)
}

func (a *Addr) Key() string { return "&" + a.Base }

// Struct is a struct value with some known fields over a base.
type Struct struct {
	Base Val
	F    map[string]Val
}

func (s *Struct) Key() string {
	var ks []string
	for k := range s.F {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	b.WriteString("{" + s.Base.Key())
	for _, k := range ks {
		b.WriteString(";" + k + "=" + s.F[k].Key())
	}
	b.WriteString("}")
	return b.String()
}

type Tuple []Val

func (t Tuple) Key() string {
	var s []string
	for _, x := range t {
		s = append(s, x.Key())
	}
	return "<" + strings.Join(s, "|") + ">"
}

// Iface is an interface value with a known dynamic type.
type Iface struct {
	V Val
	T types.Type
}

func (i *Iface) Key() string { return i.V.Key() }

// Func is a function value with its captured variables.
type Func struct {
	Fn   *ssa.Function
	Bind []Val
	Recv Val // bound method
}

func (f *Func) Key() string {
	s := "fn:" + f.Fn.String()
	for _, b := range f.Bind {
		s += "," + b.Key()
	}
	if f.Recv != nil {
		s += "," + f.Recv.Key()
	}
	return s
}

// SliceV is a slice over a known array cell.
type SliceV struct {
	Arr   *Addr
	Off   int64 // where in the array it starts
	Len   int64
	Spare int64 // room after it
}

func (s *SliceV) Key() string {
	if s.Off != 0 {
		return fmt.Sprintf("slice(%s+%d,%d)", s.Arr.Base, s.Off, s.Len)
	}
	return fmt.Sprintf("slice(%s,%d)", s.Arr.Base, s.Len)
}

// Strip removes interface wrappers.
func Strip(v Val) Val {
	for {
		if i, ok := v.(*Iface); ok {
			v = i.V
			continue
		}
		return v
	}
}

// Mentions reports whether v contains the value with key k.
func Mentions(v Val, k string) bool {
	if v == nil {
		return false
	}
	if v.Key() == k {
		return true
	}
	switch x := v.(type) {
	case *App:
		for _, a := range x.Args {
			if Mentions(a, k) {
				return true
			}
		}
	case *Struct:
		if Mentions(x.Base, k) {
			return true
		}
		for _, a := range x.F {
			if Mentions(a, k) {
				return true
			}
		}
	case *Iface:
		return Mentions(x.V, k)
	case Tuple:
		for _, a := range x {
			if Mentions(a, k) {
				return true
			}
		}
	case *Func:
		for _, a := range x.Bind {
			if Mentions(a, k) {
				return true
			}
		}
	}
	return false
}

// TypeOf gives the static type a value is known to have.
func TypeOf(v Val) types.Type {
	switch x := v.(type) {
	case *Sym:
		return x.T
	case *App:
		return x.T
	case *Iface:
		return x.T
	case Zero:
		return x.T
	case *Addr:
		if x.T != nil {
			return types.NewPointer(x.T)
		}
	}
	return nil
}
