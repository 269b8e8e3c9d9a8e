package checks

import (
	"go/constant"
	"go/types"
	"reflect"

	"verif/analyzer/flow"
)

// cells is a model of package reflect on values of known type: reflect values are "rv" terms over a value, or
// "rvcell" terms over the cell that holds it; reflect types are "rtype" terms.
type cells struct {
	types map[string]types.Type
}

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		k := map[types.BasicKind]reflect.Kind{types.Bool: reflect.Bool, types.Int: reflect.Int, types.Int8: reflect.Int8, types.Int16: reflect.Int16, types.Int32: reflect.Int32, types.Int64: reflect.Int64,
			types.Uint: reflect.Uint, types.Uint8: reflect.Uint8, types.Uint16: reflect.Uint16, types.Uint32: reflect.Uint32, types.Uint64: reflect.Uint64, types.Float32: reflect.Float32, types.Float64: reflect.Float64, types.String: reflect.String}
		return k[u.Kind()]
	case *types.Pointer:
		return reflect.Pointer
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Map:
		return reflect.Map
	case *types.Struct:
		return reflect.Struct
	case *types.Interface:
		return reflect.Interface
	case *types.Signature:
		return reflect.Func
	case *types.Chan:
		return reflect.Chan
	}
	return reflect.Invalid
}

func (m *cells) rtype(t types.Type) flow.Val {
	k := "rtype:" + types.TypeString(t, nil)
	if m.types == nil {
		m.types = map[string]types.Type{}
	}
	m.types[k] = t
	return &flow.Sym{ID: k}
}

func (m *cells) model(e *flow.Engine, st *flow.State, ev *flow.Event) ([]flow.Out, bool) {
	one := func(v flow.Val) ([]flow.Out, bool) { return []flow.Out{{Res: v}}, true }
	truth := func(b bool) ([]flow.Out, bool) { return one(flow.Const{V: constant.MakeBool(b)}) }
	var rt types.Type
	if ev.Call != nil {
		if r := ev.Call.Common().Signature().Results(); r.Len() == 1 {
			rt = r.At(0).Type()
		}
	}
	switch ev.Name {
	case "reflect.ValueOf":
		if len(ev.Args) != 1 {
			return nil, false
		}
		if _, none := ev.Args[0].(flow.NilV); none {
			return one(flow.MkApp("rvnone", rt))
		}
		return one(flow.MkApp("rv", rt, ev.Args[0]))
	case "reflect.TypeOf":
		if i, ok := ev.Args[0].(*flow.Iface); ok && i.T != nil {
			return one(m.rtype(i.T))
		}
		return nil, false
	case "reflect.Indirect":
		if r := m.elem(ev.Args[0], rt); r != nil {
			return one(r)
		}
		return one(ev.Args[0])
	case "reflect.MakeSlice", "reflect.New", "reflect.Zero":
		t := m.types[flow.Strip(ev.Args[0]).Key()]
		if t == nil {
			return nil, false
		}
		switch ev.Name {
		case "reflect.New":
			a := st.New(t)
			return one(flow.MkApp("rv", rt, &flow.Iface{V: a, T: types.NewPointer(t)}))
		case "reflect.Zero":
			return one(flow.MkApp("rv", rt, &flow.Iface{V: flow.ZeroOf(t), T: t}))
		}
		n, ok := flow.Strip(ev.Args[1]).(flow.Const)
		if !ok {
			return nil, false
		}
		k, _ := constant.Int64Val(n.V)
		return one(flow.MkApp("rv", rt, &flow.Iface{V: st.NewSlice(t.Underlying().(*types.Slice).Elem(), k), T: t}))
	case "reflect.Append":
		return nil, false
	}
	if t := m.types[keyOf(ev.Recv)]; t != nil {
		switch ev.Method {
		case "AssignableTo", "ConvertibleTo":
			if o := m.types[keyOf(ev.Args[0])]; o != nil {
				if ev.Method == "AssignableTo" {
					return truth(types.AssignableTo(t, o))
				}
				return truth(types.ConvertibleTo(t, o))
			}
		case "Kind":
			return one(kint(int64(kindOf(t))))
		case "Elem":
			if p, ok := t.Underlying().(interface{ Elem() types.Type }); ok {
				return one(m.rtype(p.Elem()))
			}
		case "String":
			return one(kstr(types.TypeString(t, nil)))
		}
		return nil, false
	}
	a, ok := ev.Recv.(*flow.App)
	if !ok || a.Op != "rv" && a.Op != "rvcell" && a.Op != "rvnone" {
		return nil, false
	}
	if a.Op == "rvnone" {
		switch ev.Method {
		case "IsValid":
			return truth(false)
		case "Kind":
			return one(kint(0))
		}
		return nil, false
	}
	t, v := m.content(st, a)
	switch ev.Method {
	case "IsValid":
		return truth(true)
	case "Kind":
		if t != nil {
			return one(kint(int64(kindOf(t))))
		}
	case "Type":
		if t != nil {
			return one(m.rtype(t))
		}
	case "IsNil":
		switch st.NilFact(v) {
		case 1:
			return truth(true)
		case -1:
			return truth(false)
		}
		b := flow.MkApp("==", types.Typ[types.Bool], flow.Strip(v), flow.NilV{})
		return one(b)
	case "CanSet", "CanAddr":
		return truth(a.Op == "rvcell")
	case "CanInterface":
		return truth(true)
	case "Elem":
		if r := m.elem(a, rt); r != nil {
			return one(r)
		}
		if t != nil && types.IsInterface(t) {
			if _, none := v.(flow.NilV); none {
				return one(flow.MkApp("rvnone", rt))
			}
			return one(flow.MkApp("rv", rt, v))
		}
	case "Interface":
		if t == nil {
			return nil, false
		}
		if a.Op == "rv" || types.IsInterface(t) {
			return one(v)
		}
		return one(&flow.Iface{V: v, T: t})
	case "Len":
		switch s := flow.Strip(v).(type) {
		case *flow.SliceV:
			return one(kint(s.Len))
		case flow.NilV:
			return one(kint(0))
		}
	case "Index":
		s, ok := flow.Strip(v).(*flow.SliceV)
		i, ok2 := flow.Strip(ev.Args[0]).(flow.Const)
		if ok && ok2 {
			if n, exact := constant.Int64Val(i.V); exact && n >= 0 && n < s.Len {
				return one(flow.MkApp("rvcell", rt, s.Elem(n)))
			}
		}
	case "Addr":
		if c, ok := a.Args[0].(*flow.Addr); ok && a.Op == "rvcell" {
			return one(flow.MkApp("rv", rt, &flow.Iface{V: c, T: types.NewPointer(c.T)}))
		}
	case "SetZero":
		if c, ok := a.Args[0].(*flow.Addr); ok && a.Op == "rvcell" {
			return []flow.Out{{Res: flow.Tuple{}, Set: func(s *flow.State) { s.Store(c, flow.ZeroOf(c.T)) }}}, true
		}
	case "Set":
		c, ok := a.Args[0].(*flow.Addr)
		src, ok2 := ev.Args[0].(*flow.App)
		if !ok || a.Op != "rvcell" || !ok2 {
			return nil, false
		}
		return []flow.Out{{Res: flow.Tuple{}, Set: func(s *flow.State) {
			st, sv := m.content(s, src)
			switch {
			case src.Op == "rvnone":
				s.Store(c, flow.NilV{})
			case !types.IsInterface(c.T):
				s.Store(c, flow.Strip(sv))
			case st != nil && !types.IsInterface(st):
				s.Store(c, &flow.Iface{V: flow.Strip(sv), T: st})
			default:
				s.Store(c, sv)
			}
		}}}, true
	}
	return nil, false
}

func keyOf(v flow.Val) string {
	if v == nil {
		return ""
	}
	return flow.Strip(v).Key()
}

// content gives the type of a reflect value and what it holds.
func (m *cells) content(st *flow.State, a *flow.App) (types.Type, flow.Val) {
	switch a.Op {
	case "rv":
		if i, ok := a.Args[0].(*flow.Iface); ok && i.T != nil {
			return i.T, a.Args[0]
		}
		t := flow.TypeOf(a.Args[0])
		if t != nil && types.IsInterface(t) {
			t = nil
		}
		return t, a.Args[0]
	case "rvcell":
		c := a.Args[0].(*flow.Addr)
		return c.T, st.Load(c)
	}
	return nil, flow.NilV{}
}

// elem is what a pointer points to.
func (m *cells) elem(v flow.Val, rt types.Type) flow.Val {
	a, ok := v.(*flow.App)
	if !ok || a.Op != "rv" {
		return nil
	}
	i, ok := a.Args[0].(*flow.Iface)
	if !ok || i.T == nil {
		return nil
	}
	p, ok := i.T.Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	switch c := flow.Strip(i).(type) {
	case *flow.Addr:
		return flow.MkApp("rvcell", rt, &flow.Addr{Base: c.Base, T: p.Elem(), Alloc: c.Alloc})
	default:
		return flow.MkApp("rvcell", rt, &flow.Addr{Base: "*" + c.Key(), T: p.Elem()})
	}
}
