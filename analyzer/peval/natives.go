package peval

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"path"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unicode"

	"verif/analyzer/core"
)

var (
	errStruct = types.NewStruct([]*types.Var{types.NewField(token.NoPos, nil, "msg", types.Typ[types.String], false)}, nil)
	errNamed  = types.NewNamed(types.NewTypeName(token.NoPos, nil, "evalError", nil), errStruct, nil)
	errT      = types.NewPointer(errNamed)
)

func MkErr(msg string) Value {
	return Iface{T: errT, V: NewRef(&Struct{T: errNamed, F: []Value{msg}})}
}

var errNotExist = MkErr("file does not exist")

type FileObj struct {
	F      *File
	Closed bool
}

type RType struct{ T types.Type }
type RVal struct {
	T types.Type
	V Value
	P *Value // where it is, if it can be set
}
type Regexp struct{ R *regexp.Regexp }

const Unknown = "‹unknown›"

// Sprint renders a value as %v would.
func (m *Machine) Sprint(v Value) string {
	if i, ok := v.(Iface); ok {
		return m.format(i.T, i.V, false)
	}
	return m.format(nil, v, false)
}

// stringer renders a value with its own method; fmt catches a panic of it.
func (m *Machine) stringer(t types.Type, v Value) (out string, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if x, is := r.(Panicked); is {
				out, ok = "%!v(PANIC=String method: "+x.Msg+")", true
				return
			}
			panic(r)
		}
	}()
	if st, ok := v.(*Stub); ok {
		for _, n := range []string{"Error", "String"} {
			if f, ok := st.Methods[n]; ok {
				return Str(f(m, nil)), true
			}
		}
		return st.Name, true
	}
	if t == nil {
		return "", false
	}
	if types.Identical(t, errT) {
		return Str(Obj(v).F[0]), true
	}
	if _, isPtr := t.Underlying().(*types.Pointer); isPtr && v == nil {
		return "", false
	}
	for _, n := range []string{"Error", "String"} {
		ms := m.Prog.MethodSets.MethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			s := ms.At(i)
			sig := s.Obj().Type().(*types.Signature)
			if s.Obj().Name() == n && sig.Params().Len() == 0 && sig.Results().Len() == 1 {
				fn := m.Prog.MethodValue(s)
				if fn == nil {
					return "", false
				}
				r := m.callFn(fn, []Value{v}, nil)
				if sv, ok := r.(string); ok {
					return sv, true
				}
				return Unknown, true
			}
		}
	}
	return "", false
}

func (m *Machine) format(t types.Type, v Value, nested bool) string {
	if t != nil {
		if s, ok := m.stringer(t, v); ok {
			return s
		}
	}
	switch x := v.(type) {
	case nil:
		if t != nil {
			switch t.Underlying().(type) {
			case *types.Slice:
				return "[]"
			case *types.Map:
				return "map[]"
			}
		}
		return "<nil>"
	case bool, int64, string, float64:
		return fmt.Sprint(x)
	case Iface:
		return m.format(x.T, x.V, nested)
	case *Opaque:
		return Unknown
	case *Stub:
		return x.Name
	case Slice:
		var et types.Type
		if t != nil {
			if s, ok := t.Underlying().(*types.Slice); ok {
				et = s.Elem()
			}
		}
		var ss []string
		for _, e := range x {
			ss = append(ss, m.format(et, e, true))
		}
		return "[" + strings.Join(ss, " ") + "]"
	case *Array:
		var ss []string
		for _, e := range x.E {
			ss = append(ss, m.format(nil, e, true))
		}
		return "[" + strings.Join(ss, " ") + "]"
	case *Map:
		var kt, et types.Type
		if t != nil {
			if s, ok := t.Underlying().(*types.Map); ok {
				kt, et = s.Key(), s.Elem()
			}
		}
		var ss []string
		for _, k := range x.SortedKeys() {
			e, _ := x.Get(k)
			ss = append(ss, m.format(kt, k, true)+":"+m.format(et, e, true))
		}
		return "map[" + strings.Join(ss, " ") + "]"
	case *Struct:
		var ss []string
		st := x.T.Underlying().(*types.Struct)
		for i, f := range x.F {
			ss = append(ss, m.format(st.Field(i).Type(), f, true))
		}
		return "{" + strings.Join(ss, " ") + "}"
	case *Ref:
		if x == nil {
			return "<nil>"
		}
		if s, ok := (*x.P).(*Struct); ok && !nested {
			return "&" + m.format(nil, s, true)
		}
		return "0xc000"
	case *RType:
		return types.TypeString(x.T, func(p *types.Package) string { return p.Name() })
	}
	return fmt.Sprintf("%T", v)
}

// goArg makes a value fit for fmt of the host.
func (m *Machine) goArg(v Value) any {
	t := types.Type(nil)
	if i, ok := v.(Iface); ok {
		t, v = i.T, i.V
	}
	if t != nil {
		if s, ok := m.stringer(t, v); ok {
			return s
		}
	}
	switch x := v.(type) {
	case bool, string, float64:
		return x
	case int64:
		if t != nil {
			if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Uint64 {
				return uint64(x)
			}
		}
		return x
	}
	return m.format(t, v, false)
}

func variadic(v Value) []Value {
	s, _ := v.(Slice)
	return s
}

func (m *Machine) Sprintf(f Value, args []Value) Value {
	fs, ok := f.(string)
	if !ok {
		return &Opaque{"unknown format"}
	}
	var gs []any
	// %T needs types
	verbs := verbsOf(fs)
	for i, a := range args {
		if i < len(verbs) && verbs[i] == 'T' {
			if ii, ok := a.(Iface); ok && ii.T != nil {
				gs = append(gs, rawString(types.TypeString(ii.T, func(p *types.Package) string { return p.Name() })))
			} else {
				gs = append(gs, rawString("<nil>"))
			}
			continue
		}
		gs = append(gs, m.goArg(a))
	}
	fs = strings.ReplaceAll(fs, "%T", "%v")
	fs = strings.ReplaceAll(fs, "%w", "%v")
	return fmt.Sprintf(fs, gs...)
}

type rawString string

func verbsOf(f string) []byte {
	var out []byte
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		i++
		for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			i++
		}
		if i < len(f) && f[i] != '%' {
			out = append(out, f[i])
		}
	}
	return out
}

type natFn func(m *Machine, a []Value) Value

var natives map[string]natFn
var objMethods map[string]func(m *Machine, recv Value, a []Value) Value

func anyOpaque(a []Value) bool {
	for _, v := range a {
		if isOpaque(v) {
			return true
		}
	}
	return false
}

func strs(v Value) []string {
	var out []string
	for _, e := range variadic(v) {
		s, ok := e.(string)
		if !ok {
			s = Unknown
		}
		out = append(out, s)
	}
	return out
}

func fromStrs(ss []string) Value {
	if ss == nil {
		return nil
	}
	out := make(Slice, len(ss))
	for i, s := range ss {
		out[i] = s
	}
	return out
}

// sf lifts a function on strings.
func sf(f func(a []Value) Value) natFn {
	return func(m *Machine, a []Value) Value {
		if anyOpaque(a) {
			return &Opaque{"text computed from an unknown value"}
		}
		return f(a)
	}
}

func s0(a []Value) string { s, _ := a[0].(string); return s }
func s1(a []Value) string { s, _ := a[1].(string); return s }
func s2(a []Value) string { s, _ := a[2].(string); return s }

func recvCell(a []Value) *Value {
	r, ok := a[0].(*Ref)
	if !ok || r == nil {
		return nil
	}
	return r.P
}

func (m *Machine) buf(a []Value) *strings.Builder {
	p := recvCell(a)
	if p == nil {
		return &strings.Builder{}
	}
	if b, ok := m.side[p].(*strings.Builder); ok {
		return b
	}
	b := &strings.Builder{}
	m.side[p] = b
	return b
}

func (m *Machine) write(w Value, s string) {
	if i, ok := w.(Iface); ok {
		w = i.V
	}
	switch x := w.(type) {
	case *Ref:
		m.buf([]Value{x}).WriteString(s)
	case *FileObj:
		x.F.Data += s
	}
}

func (m *Machine) open(p string, trunc bool) *FileObj {
	f := m.Files[p]
	if f == nil {
		f = &File{Path: p}
		m.Files[p] = f
		m.Order = append(m.Order, p)
	} else {
		// a second write replaces the first as far as the analysis is concerned
		f.Data = ""
	}
	f.Trunc = trunc
	return &FileObj{F: f}
}

func bytesToStr(v Value) string {
	s, ok := v.(Slice)
	if !ok {
		if v == nil {
			return ""
		}
		return Unknown
	}
	b := make([]byte, 0, len(s))
	for _, e := range s {
		n, ok := e.(int64)
		if !ok {
			return Unknown
		}
		b = append(b, byte(n))
	}
	return string(b)
}

func (m *Machine) less(a, b Value) bool {
	r, ok := m.binop(token.LSS, types.Typ[types.Int], a, b).(bool)
	return ok && r
}

func okv(v Value) Value { return Tuple{v, nil} }

func init() {
	objMethods = map[string]func(*Machine, Value, []Value) Value{
		"String": func(m *Machine, r Value, a []Value) Value { return m.format(nil, r, false) },
		"Name": func(m *Machine, r Value, a []Value) Value {
			if t, ok := r.(*RType); ok {
				if n, ok := types.Unalias(t.T).(*types.Named); ok {
					return n.Obj().Name()
				}
				if b, ok := t.T.(*types.Basic); ok {
					return b.Name()
				}
				return ""
			}
			return &Opaque{"Name"}
		},
		"Elem": func(m *Machine, r Value, a []Value) Value {
			if t, ok := r.(*RType); ok {
				return Iface{T: types.Typ[types.Invalid], V: &RType{core.Deref(t.T)}}
			}
			return &Opaque{"Elem"}
		},
		"AssignableTo": func(m *Machine, r Value, a []Value) Value {
			t := r.(*RType)
			o, ok := a[0].(Iface)
			if !ok {
				return &Opaque{"AssignableTo"}
			}
			ot, ok := o.V.(*RType)
			if !ok {
				return &Opaque{"AssignableTo"}
			}
			return types.AssignableTo(t.T, ot.T)
		},
		"PkgPath": func(m *Machine, r Value, a []Value) Value {
			if t, ok := r.(*RType); ok {
				if n, ok := types.Unalias(t.T).(*types.Named); ok && n.Obj().Pkg() != nil {
					return n.Obj().Pkg().Path()
				}
				return ""
			}
			return &Opaque{"PkgPath"}
		},
		"Kind": func(m *Machine, r Value, a []Value) Value {
			if t, ok := r.(*RType); ok {
				switch u := t.T.Underlying().(type) {
				case *types.Pointer:
					return int64(reflect.Pointer)
				case *types.Struct:
					return int64(reflect.Struct)
				case *types.Interface:
					return int64(reflect.Interface)
				case *types.Slice:
					return int64(reflect.Slice)
				case *types.Map:
					return int64(reflect.Map)
				case *types.Chan:
					return int64(reflect.Chan)
				case *types.Signature:
					return int64(reflect.Func)
				case *types.Array:
					return int64(reflect.Array)
				case *types.Basic:
					if u.Kind() == types.String {
						return int64(reflect.String)
					}
					if k := u.Kind(); k >= types.Bool && k <= types.Complex128 {
						return int64(k) // numbered alike
					}
				}
			}
			return &Opaque{"reflect kind"}
		},
	}
	join := func(f func(...string) string) natFn {
		return func(m *Machine, a []Value) Value {
			return f(strs(a[0])...)
		}
	}
	wr := func(m *Machine, a []Value) Value {
		b := m.buf(a)
		switch x := a[1].(type) {
		case string:
			b.WriteString(x)
		case int64:
			b.WriteRune(rune(x))
		case Slice:
			b.WriteString(bytesToStr(x))
		case *Opaque:
			b.WriteString(Unknown)
		}
		return Tuple{int64(0), nil}
	}
	sortSlice := func(m *Machine, a []Value) Value {
		s := variadic(a[0])
		if i, ok := a[0].(Iface); ok {
			s = variadic(i.V)
		}
		if len(a) < 2 {
			sort.SliceStable(s, func(i, j int) bool { return m.less(s[i], s[j]) })
			return nil
		}
		// insertion sort, so that the comparison closure can read the slice by index
		for i := 1; i < len(s); i++ {
			for j := i; j > 0; j-- {
				r, ok := m.Call(a[1], []Value{int64(j), int64(j - 1)}).(bool)
				if !ok {
					undecided("unknown comparison in sort")
				}
				if !r {
					break
				}
				s[j], s[j-1] = s[j-1], s[j]
			}
		}
		return nil
	}
	sortFunc := func(m *Machine, a []Value) Value {
		s := variadic(a[0])
		for i := 1; i < len(s); i++ {
			for j := i; j > 0; j-- {
				r := m.Call(a[1], []Value{s[j], s[j-1]})
				lt := false
				switch x := r.(type) {
				case bool:
					lt = x
				case int64:
					lt = x < 0
				default:
					undecided("unknown comparison in sort")
				}
				if !lt {
					break
				}
				s[j], s[j-1] = s[j-1], s[j]
			}
		}
		return nil
	}
	contains := func(m *Machine, a []Value) Value {
		for _, e := range variadic(a[0]) {
			if r, ok := m.equal(e, a[1]).(bool); ok && r {
				return true
			}
		}
		return false
	}
	keys := func(m *Machine, a []Value) Value {
		mp, _ := a[0].(*Map)
		out := Slice{}
		for _, k := range m.mapOrder(mp) {
			out = append(out, k)
		}
		return out
	}
	noop := func(m *Machine, a []Value) Value { return nil }
	errf := func(m *Machine, a []Value) Value { return MkErr(Str(m.Sprintf(a[0], variadic(a[1])))) }
	natives = map[string]natFn{
		"blueprint/pkg/blueprint.Errorf":               errf,
		"blueprint/pkg/blueprint/logging.GetCallstack": func(m *Machine, a []Value) Value { return &Opaque{"call stack"} },
		"fmt.Errorf": errf,
		"errors.New": func(m *Machine, a []Value) Value { return MkErr(Str(a[0])) },
		"errors.Is": func(m *Machine, a []Value) Value {
			if a[0] == nil || a[1] == nil {
				return a[0] == nil && a[1] == nil
			}
			return m.equal(a[0], a[1])
		},
		"fmt.Sprintf": func(m *Machine, a []Value) Value { return m.Sprintf(a[0], variadic(a[1])) },
		"fmt.Sprint": func(m *Machine, a []Value) Value {
			var gs []any
			for _, x := range variadic(a[0]) {
				gs = append(gs, m.goArg(x))
			}
			return fmt.Sprint(gs...)
		},
		"fmt.Sprintln": func(m *Machine, a []Value) Value {
			var gs []any
			for _, x := range variadic(a[0]) {
				gs = append(gs, m.goArg(x))
			}
			return fmt.Sprintln(gs...)
		},
		"fmt.Printf": noop2, "fmt.Println": noop2, "fmt.Print": noop2,
		"fmt.Fprintf": func(m *Machine, a []Value) Value {
			m.write(a[0], Str(m.Sprintf(a[1], variadic(a[2]))))
			return Tuple{int64(0), nil}
		},
		"fmt.Fprint": func(m *Machine, a []Value) Value {
			var gs []any
			for _, x := range variadic(a[1]) {
				gs = append(gs, m.goArg(x))
			}
			m.write(a[0], fmt.Sprint(gs...))
			return Tuple{int64(0), nil}
		},
		"fmt.Fprintln": func(m *Machine, a []Value) Value {
			var gs []any
			for _, x := range variadic(a[1]) {
				gs = append(gs, m.goArg(x))
			}
			m.write(a[0], fmt.Sprintln(gs...))
			return Tuple{int64(0), nil}
		},
		"io.WriteString": func(m *Machine, a []Value) Value { m.write(a[0], Str(a[1])); return Tuple{int64(0), nil} },

		"strings.Join":        func(m *Machine, a []Value) Value { return strings.Join(strs(a[0]), Str(a[1])) },
		"strings.Split":       sf(func(a []Value) Value { return fromStrs(strings.Split(s0(a), s1(a))) }),
		"strings.SplitN":      sf(func(a []Value) Value { return fromStrs(strings.SplitN(s0(a), s1(a), int(a[2].(int64)))) }),
		"strings.Fields":      sf(func(a []Value) Value { return fromStrs(strings.Fields(s0(a))) }),
		"strings.Title":       sf(func(a []Value) Value { return strings.Title(s0(a)) }),
		"strings.ToLower":     sf(func(a []Value) Value { return strings.ToLower(s0(a)) }),
		"strings.ToUpper":     sf(func(a []Value) Value { return strings.ToUpper(s0(a)) }),
		"strings.ToTitle":     sf(func(a []Value) Value { return strings.ToTitle(s0(a)) }),
		"strings.TrimSpace":   sf(func(a []Value) Value { return strings.TrimSpace(s0(a)) }),
		"strings.Trim":        sf(func(a []Value) Value { return strings.Trim(s0(a), s1(a)) }),
		"strings.TrimLeft":    sf(func(a []Value) Value { return strings.TrimLeft(s0(a), s1(a)) }),
		"strings.TrimRight":   sf(func(a []Value) Value { return strings.TrimRight(s0(a), s1(a)) }),
		"strings.TrimPrefix":  sf(func(a []Value) Value { return strings.TrimPrefix(s0(a), s1(a)) }),
		"strings.TrimSuffix":  sf(func(a []Value) Value { return strings.TrimSuffix(s0(a), s1(a)) }),
		"strings.HasPrefix":   sf(func(a []Value) Value { return strings.HasPrefix(s0(a), s1(a)) }),
		"strings.HasSuffix":   sf(func(a []Value) Value { return strings.HasSuffix(s0(a), s1(a)) }),
		"strings.Contains":    sf(func(a []Value) Value { return strings.Contains(s0(a), s1(a)) }),
		"strings.ContainsAny": sf(func(a []Value) Value { return strings.ContainsAny(s0(a), s1(a)) }),
		"strings.EqualFold":   sf(func(a []Value) Value { return strings.EqualFold(s0(a), s1(a)) }),
		"strings.Count":       sf(func(a []Value) Value { return int64(strings.Count(s0(a), s1(a))) }),
		"strings.Index":       sf(func(a []Value) Value { return int64(strings.Index(s0(a), s1(a))) }),
		"strings.LastIndex":   sf(func(a []Value) Value { return int64(strings.LastIndex(s0(a), s1(a))) }),
		"strings.Repeat":      sf(func(a []Value) Value { return strings.Repeat(s0(a), int(a[1].(int64))) }),
		"strings.Replace":     sf(func(a []Value) Value { return strings.Replace(s0(a), s1(a), s2(a), int(a[3].(int64))) }),
		"strings.ReplaceAll":  sf(func(a []Value) Value { return strings.ReplaceAll(s0(a), s1(a), s2(a)) }),
		"strings.Compare":     sf(func(a []Value) Value { return int64(strings.Compare(s0(a), s1(a))) }),
		"strings.Cut": sf(func(a []Value) Value {
			x, y, ok := strings.Cut(s0(a), s1(a))
			return Tuple{x, y, ok}
		}),
		"strings.CutSuffix": sf(func(a []Value) Value {
			x, ok := strings.CutSuffix(s0(a), s1(a))
			return Tuple{x, ok}
		}),
		"strings.CutPrefix": sf(func(a []Value) Value {
			x, ok := strings.CutPrefix(s0(a), s1(a))
			return Tuple{x, ok}
		}),
		"strings.Map": func(m *Machine, a []Value) Value {
			s, ok := a[1].(string)
			if !ok {
				return &Opaque{"text"}
			}
			return strings.Map(func(r rune) rune {
				n, ok := m.Call(a[0], []Value{int64(r)}).(int64)
				if !ok {
					undecided("unknown rune mapping")
				}
				return rune(n)
			}, s)
		},
		"strings.FieldsFunc": func(m *Machine, a []Value) Value {
			s, ok := a[0].(string)
			if !ok {
				return &Opaque{"text"}
			}
			return fromStrs(strings.FieldsFunc(s, func(r rune) bool {
				b, ok := m.Call(a[1], []Value{int64(r)}).(bool)
				if !ok {
					undecided("unknown rune predicate")
				}
				return b
			}))
		},
		"(*strings.Builder).WriteString": wr, "(*strings.Builder).WriteByte": wr, "(*strings.Builder).WriteRune": wr, "(*strings.Builder).Write": wr,
		"(*strings.Builder).String":   func(m *Machine, a []Value) Value { return m.buf(a).String() },
		"(*strings.Builder).Len":      func(m *Machine, a []Value) Value { return int64(m.buf(a).Len()) },
		"(*strings.Builder).Reset":    func(m *Machine, a []Value) Value { m.buf(a).Reset(); return nil },
		"(*strings.Builder).Grow":     noop,
		"(*bytes.Buffer).WriteString": wr, "(*bytes.Buffer).WriteByte": wr, "(*bytes.Buffer).WriteRune": wr, "(*bytes.Buffer).Write": wr,
		"(*bytes.Buffer).String": func(m *Machine, a []Value) Value {
			if a[0] == nil {
				return "<nil>"
			}
			return m.buf(a).String()
		},
		"(*bytes.Buffer).Len": func(m *Machine, a []Value) Value { return int64(m.buf(a).Len()) },
		"(*bytes.Buffer).Bytes": func(m *Machine, a []Value) Value {
			return m.convert(types.Typ[types.String], types.NewSlice(types.Typ[types.Uint8]), m.buf(a).String())
		},
		"strconv.Itoa":       sf(func(a []Value) Value { return strconv.FormatInt(a[0].(int64), 10) }),
		"strconv.FormatInt":  sf(func(a []Value) Value { return strconv.FormatInt(a[0].(int64), int(a[1].(int64))) }),
		"strconv.FormatBool": sf(func(a []Value) Value { return strconv.FormatBool(a[0].(bool)) }),
		"strconv.Quote":      sf(func(a []Value) Value { return strconv.Quote(s0(a)) }),
		"strconv.Atoi": func(m *Machine, a []Value) Value {
			n, err := strconv.Atoi(Str(a[0]))
			if err != nil {
				return Tuple{int64(0), MkErr(err.Error())}
			}
			return Tuple{int64(n), nil}
		},
		"path/filepath.Join": join(filepath.Join), "path.Join": join(path.Join),
		"path/filepath.Base": sf(func(a []Value) Value { return filepath.Base(s0(a)) }), "path.Base": sf(func(a []Value) Value { return path.Base(s0(a)) }),
		"path/filepath.Dir": sf(func(a []Value) Value { return filepath.Dir(s0(a)) }), "path.Dir": sf(func(a []Value) Value { return path.Dir(s0(a)) }),
		"path/filepath.Ext":   sf(func(a []Value) Value { return filepath.Ext(s0(a)) }),
		"path/filepath.Clean": sf(func(a []Value) Value { return filepath.Clean(s0(a)) }), "path.Clean": sf(func(a []Value) Value { return path.Clean(s0(a)) }),
		"path/filepath.ToSlash":   sf(func(a []Value) Value { return s0(a) }),
		"path/filepath.FromSlash": sf(func(a []Value) Value { return s0(a) }),
		"path/filepath.IsAbs":     sf(func(a []Value) Value { return filepath.IsAbs(s0(a)) }),
		"path/filepath.Abs":       sf(func(a []Value) Value { return okv(filepath.Clean("/" + s0(a))) }),
		"path/filepath.Split": sf(func(a []Value) Value {
			d, f := filepath.Split(s0(a))
			return Tuple{d, f}
		}),
		"path/filepath.IsLocal": sf(func(a []Value) Value { return filepath.IsLocal(s0(a)) }),
		"path/filepath.Rel": sf(func(a []Value) Value {
			r, err := filepath.Rel(s0(a), s1(a))
			if err != nil {
				return Tuple{"", MkErr(err.Error())}
			}
			return Tuple{r, nil}
		}),
		"unicode.IsLetter": sf(func(a []Value) Value { return unicode.IsLetter(rune(a[0].(int64))) }),
		"unicode.IsDigit":  sf(func(a []Value) Value { return unicode.IsDigit(rune(a[0].(int64))) }),
		"unicode.IsUpper":  sf(func(a []Value) Value { return unicode.IsUpper(rune(a[0].(int64))) }),
		"unicode.IsLower":  sf(func(a []Value) Value { return unicode.IsLower(rune(a[0].(int64))) }),
		"unicode.IsSpace":  sf(func(a []Value) Value { return unicode.IsSpace(rune(a[0].(int64))) }),
		"unicode.ToUpper":  sf(func(a []Value) Value { return int64(unicode.ToUpper(rune(a[0].(int64)))) }),
		"unicode.ToLower":  sf(func(a []Value) Value { return int64(unicode.ToLower(rune(a[0].(int64)))) }),

		"os.OpenFile": func(m *Machine, a []Value) Value {
			fl, _ := a[1].(int64)
			return Tuple{m.open(Str(a[0]), fl&512 != 0), nil}
		},
		"os.Create": func(m *Machine, a []Value) Value { return Tuple{m.open(Str(a[0]), true), nil} },
		"os.WriteFile": func(m *Machine, a []Value) Value {
			m.open(Str(a[0]), true).F.Data = bytesToStr(a[1])
			return nil
		},
		"os.ReadFile": func(m *Machine, a []Value) Value {
			if f := m.Files[Str(a[0])]; f != nil {
				return Tuple{m.convert(types.Typ[types.String], types.NewSlice(types.Typ[types.Uint8]), f.Data), nil}
			}
			return Tuple{&Opaque{"file content"}, nil}
		},
		"os.MkdirAll": func(m *Machine, a []Value) Value { m.Files[Str(a[0])+"/"] = &File{}; return nil },
		"os.Mkdir":    func(m *Machine, a []Value) Value { m.Files[Str(a[0])+"/"] = &File{}; return nil },
		"os.Stat": func(m *Machine, a []Value) Value {
			p := Str(a[0])
			mk := func(dir bool) Value {
				return Iface{T: nil, V: &Stub{Name: "file info", Is: func(types.Type) bool { return false }, Methods: map[string]func(*Machine, []Value) Value{
					"IsDir": func(m *Machine, a []Value) Value { return dir }}}}
			}
			if m.Files[p+"/"] != nil {
				return Tuple{mk(true), nil}
			}
			if m.Files[p] != nil {
				return Tuple{mk(false), nil}
			}
			return Tuple{nil, errNotExist}
		},
		"os.IsNotExist": func(m *Machine, a []Value) Value { return a[0] != nil },
		"os.Getwd":      func(m *Machine, a []Value) Value { return Tuple{"/work", nil} },
		"(*os.File).Close": func(m *Machine, a []Value) Value {
			if f, ok := a[0].(*FileObj); ok {
				f.Closed = true
				f.F.Closed = true
			}
			return nil
		},
		"(*os.File).WriteString": func(m *Machine, a []Value) Value {
			m.write(a[0], strOrUnknown(a[1]))
			return Tuple{int64(0), nil}
		},
		"(*os.File).Write": func(m *Machine, a []Value) Value { m.write(a[0], bytesToStr(a[1])); return Tuple{int64(0), nil} },

		"sort.Strings": sortSlice, "sort.Ints": sortSlice, "sort.Slice": sortSlice, "sort.SliceStable": sortSlice,
		"slices.Sort": sortSlice, "golang.org/x/exp/slices.Sort": sortSlice,
		"slices.SortFunc": sortFunc, "golang.org/x/exp/slices.SortFunc": sortFunc, "slices.SortStableFunc": sortFunc, "golang.org/x/exp/slices.SortStableFunc": sortFunc,
		"slices.Contains": contains, "golang.org/x/exp/slices.Contains": contains,
		"maps.Keys": keys, "golang.org/x/exp/maps.Keys": keys,
		"slices.Sorted":  func(m *Machine, a []Value) Value { sortSlice(m, a); return a[0] },
		"slices.Collect": func(m *Machine, a []Value) Value { return a[0] },
		"slices.Reverse": func(m *Machine, a []Value) Value {
			s := variadic(a[0])
			for i, j := 0, len(s)-1; i < j; i, j = i+1, j-1 {
				s[i], s[j] = s[j], s[i]
			}
			return nil
		},
		"golang.org/x/exp/slices.Index": func(m *Machine, a []Value) Value {
			for i, e := range variadic(a[0]) {
				if r, ok := m.equal(e, a[1]).(bool); ok && r {
					return int64(i)
				}
			}
			return int64(-1)
		},

		"go/ast.IsExported":   func(m *Machine, a []Value) Value { return token.IsExported(Str(a[0])) },
		"go/token.IsExported": func(m *Machine, a []Value) Value { return token.IsExported(Str(a[0])) },
		"reflect.TypeOf": func(m *Machine, a []Value) Value {
			if i, ok := a[0].(Iface); ok {
				if st, ok := i.V.(*Stub); ok {
					return Iface{T: types.Typ[types.Invalid], V: &Stub{Name: "type of " + st.Name, Is: func(types.Type) bool { return false }, Methods: map[string]func(*Machine, []Value) Value{
						"String": func(m *Machine, a []Value) Value { return "*stub" },
						"Name":   func(m *Machine, a []Value) Value { return "stub" },
						"Elem":   func(m *Machine, a []Value) Value { return &Opaque{"Elem"} },
					}}}
				}
				return Iface{T: types.Typ[types.Invalid], V: &RType{i.T}}
			}
			return nil
		},
		"reflect.ValueOf": func(m *Machine, a []Value) Value {
			if i, ok := a[0].(Iface); ok {
				return &RVal{T: i.T, V: i.V}
			}
			return &RVal{}
		},
		"reflect.Indirect": func(m *Machine, a []Value) Value {
			v := a[0].(*RVal)
			if r, ok := v.V.(*Ref); ok && r != nil {
				return &RVal{T: core.Deref(v.T), V: *r.P, P: r.P}
			}
			return v
		},
		"(reflect.Value).Elem": func(m *Machine, a []Value) Value {
			v := a[0].(*RVal)
			if r, ok := v.V.(*Ref); ok && r != nil {
				return &RVal{T: core.Deref(v.T), V: *r.P, P: r.P}
			}
			if i, ok := v.V.(Iface); ok {
				return &RVal{T: i.T, V: i.V}
			}
			return v
		},
		"(reflect.Value).NumField": func(m *Machine, a []Value) Value {
			if s, ok := a[0].(*RVal).V.(*Struct); ok {
				return int64(len(s.F))
			}
			return int64(0)
		},
		"(reflect.Value).Field": func(m *Machine, a []Value) Value {
			v := a[0].(*RVal)
			s := v.V.(*Struct)
			i := int(a[1].(int64))
			return &RVal{T: s.T.Underlying().(*types.Struct).Field(i).Type(), V: s.F[i], P: &s.F[i]}
		},
		"(reflect.Value).Type": func(m *Machine, a []Value) Value {
			return Iface{T: types.Typ[types.Invalid], V: &RType{a[0].(*RVal).T}}
		},
		"(reflect.Value).Interface": func(m *Machine, a []Value) Value {
			v := a[0].(*RVal)
			if i, ok := v.V.(Iface); ok {
				return i
			}
			return Iface{T: v.T, V: v.V}
		},
		"(reflect.Value).Kind": func(m *Machine, a []Value) Value {
			v := a[0].(*RVal)
			if v.T == nil {
				return int64(reflect.Invalid)
			}
			return objMethods["Kind"](m, &RType{v.T}, nil)
		},
		"(reflect.Value).Len": func(m *Machine, a []Value) Value {
			switch v := a[0].(*RVal).V.(type) {
			case Slice:
				return int64(len(v))
			case nil:
				return int64(0)
			}
			return &Opaque{"reflect length"}
		},
		"(reflect.Value).Index": func(m *Machine, a []Value) Value {
			v := a[0].(*RVal)
			l, _ := v.V.(Slice)
			i, ok := a[1].(int64)
			st, is := v.T.Underlying().(*types.Slice)
			if !ok || !is || int(i) >= len(l) || i < 0 {
				panic(Panicked{nil, "reflect: index"})
			}
			return &RVal{T: st.Elem(), V: l[i], P: &l[i]}
		},
		"(reflect.Value).Addr": func(m *Machine, a []Value) Value {
			v := a[0].(*RVal)
			if v.P == nil {
				panic(Panicked{nil, "reflect: address of what has none"})
			}
			return &RVal{T: types.NewPointer(v.T), V: &Ref{v.P}}
		},
		"(reflect.Value).Set": func(m *Machine, a []Value) Value {
			v, x := a[0].(*RVal), a[1].(*RVal)
			if v.P == nil {
				panic(Panicked{nil, "reflect: set what cannot be"})
			}
			val := x.V
			if _, ok := val.(Iface); !ok && types.IsInterface(v.T) && x.T != nil {
				val = Iface{T: x.T, V: val}
			}
			*v.P = val
			return nil
		},
		"(reflect.Value).SetZero": func(m *Machine, a []Value) Value {
			v := a[0].(*RVal)
			if v.P == nil {
				panic(Panicked{nil, "reflect: set what cannot be"})
			}
			*v.P = Zero(v.T)
			return nil
		},
		"reflect.MakeSlice": func(m *Machine, a []Value) Value {
			i, _ := a[0].(Iface)
			t, ok := i.V.(*RType)
			n, known := a[1].(int64)
			if !ok || !known {
				return &Opaque{"reflect.MakeSlice"}
			}
			out := Slice{}
			for ; n > 0; n-- {
				out = append(out, Zero(t.T.Underlying().(*types.Slice).Elem()))
			}
			return &RVal{T: t.T, V: out}
		},
		"(reflect.Value).IsNil":   func(m *Machine, a []Value) Value { return a[0].(*RVal).V == nil },
		"(reflect.Value).IsValid": func(m *Machine, a []Value) Value { return a[0].(*RVal).T != nil },

		"regexp.MustCompile": func(m *Machine, a []Value) Value {
			r, err := regexp.Compile(Str(a[0]))
			if err != nil {
				panic(Panicked{nil, err.Error()})
			}
			return &Regexp{r}
		},
		"regexp.Compile": func(m *Machine, a []Value) Value {
			r, err := regexp.Compile(Str(a[0]))
			if err != nil {
				return Tuple{nil, MkErr(err.Error())}
			}
			return Tuple{&Regexp{r}, nil}
		},
		"(*regexp.Regexp).ReplaceAllString":   rx(func(r *regexp.Regexp, a []Value) Value { return r.ReplaceAllString(Str(a[0]), Str(a[1])) }),
		"(*regexp.Regexp).MatchString":        rx(func(r *regexp.Regexp, a []Value) Value { return r.MatchString(Str(a[0])) }),
		"(*regexp.Regexp).FindString":         rx(func(r *regexp.Regexp, a []Value) Value { return r.FindString(Str(a[0])) }),
		"(*regexp.Regexp).FindStringSubmatch": rx(func(r *regexp.Regexp, a []Value) Value { return fromStrs(r.FindStringSubmatch(Str(a[0]))) }),

		"text/template.New": func(m *Machine, a []Value) Value {
			return &Tmpl{Name: Str(a[0]), Funcs: map[string]Value{}, Defs: map[string]*tmplTree{}}
		},
		"(*text/template.Template).Funcs": func(m *Machine, a []Value) Value {
			t := a[0].(*Tmpl)
			if mp, ok := a[1].(*Map); ok {
				for _, k := range mp.Keys() {
					v, _ := mp.Get(k)
					t.Funcs[k.(string)] = v
				}
			}
			return t
		},
		"(*text/template.Template).Option": func(m *Machine, a []Value) Value { return a[0] },
		"(*text/template.Template).Parse": func(m *Machine, a []Value) Value {
			t := a[0].(*Tmpl)
			body, ok := a[1].(string)
			if !ok {
				undecided("template %s has an unknown body", t.Name)
			}
			if err := t.parse(body); err != nil {
				return Tuple{nil, MkErr(err.Error())}
			}
			return Tuple{t, nil}
		},
		"text/template.Must": func(m *Machine, a []Value) Value {
			if a[1] != nil {
				panic(Panicked{a[1], m.Sprint(a[1])})
			}
			return a[0]
		},
		"(*text/template.Template).Execute": func(m *Machine, a []Value) Value {
			t := a[0].(*Tmpl)
			out, err := m.Exec(t, a[2])
			m.write(a[1], out)
			if err != nil {
				return MkErr(err.Error())
			}
			return nil
		},
	}
	for n, f := range natives {
		if i := strings.Index(n, "text/template"); i >= 0 {
			natives[n[:i]+"html"+n[i+4:]] = f
		}
	}
	natives["html/template.New"] = func(m *Machine, a []Value) Value {
		return &Tmpl{Name: Str(a[0]), HTML: true, Funcs: map[string]Value{}, Defs: map[string]*tmplTree{}}
	}
	for _, n := range []string{"Info", "Warn", "Error", "Debug"} {
		natives["golang.org/x/exp/slog."+n] = noop
		natives["log/slog."+n] = noop
	}
}

func noop2(m *Machine, a []Value) Value { return Tuple{int64(0), nil} }

func strOrUnknown(v Value) string {
	if s, ok := v.(string); ok {
		return s
	}
	return Unknown
}

func rx(f func(r *regexp.Regexp, a []Value) Value) natFn {
	return func(m *Machine, a []Value) Value {
		r, ok := a[0].(*Regexp)
		if !ok || anyOpaque(a[1:]) {
			return &Opaque{"regexp result"}
		}
		return f(r.R, a[1:])
	}
}
