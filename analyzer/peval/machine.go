package peval

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/core"
)

type Machine struct {
	Prog    *ssa.Program
	Pkgs    map[string]*ssa.Package // by import path
	globals map[*ssa.Global]*Value
	inited  map[*ssa.Package]bool
	side    map[*Value]any // state of modelled external objects (strings.Builder, ...)
	// Hooks see every call to a named function before it is folded; they may answer it.
	Hooks map[string]func(m *Machine, fn *ssa.Function, args []Value) (Value, bool)
	Files map[string]*File
	Order []string
	Notes []string
	steps int
	depth int
	Max   int
	targs map[*types.TypeParam]types.Type
	// Reverse has iterations over maps go the other way round; the order is not specified.
	Reverse bool
}

// File is an emitted file.
type File struct {
	Path   string
	Data   string
	Closed bool
	Trunc  bool
}

func NewMachine(prog *ssa.Program, pkgs map[string]*ssa.Package) *Machine {
	return &Machine{Prog: prog, Pkgs: pkgs, globals: map[*ssa.Global]*Value{}, inited: map[*ssa.Package]bool{},
		side: map[*Value]any{}, Hooks: map[string]func(*Machine, *ssa.Function, []Value) (Value, bool){}, Files: map[string]*File{}, Max: 20000000}
}

func (m *Machine) global(g *ssa.Global) *Value {
	if p, ok := m.globals[g]; ok {
		return p
	}
	pk := g.Pkg
	if pk != nil && m.Pkgs[pk.Pkg.Path()] == pk {
		m.initPkg(pk)
		if p, ok := m.globals[g]; ok {
			return p
		}
		v := Zero(core.Deref(g.Type()))
		m.globals[g] = &v
		return &v
	}
	var v Value = &Opaque{"external variable " + g.String()}
	if core.IsError(core.Deref(g.Type())) {
		v = Iface{T: errT, V: NewRef(&Struct{T: errStruct, F: []Value{g.String()}})}
	}
	if g.Name() == "ErrNotExist" && g.Pkg != nil && (g.Pkg.Pkg.Path() == "os" || g.Pkg.Pkg.Path() == "io/fs") {
		v = errNotExist
	}
	m.globals[g] = &v
	return &v
}

// GlobalValue is what a variable of a package holds.
func (m *Machine) GlobalValue(g *ssa.Global) Value { return *m.global(g) }

func (m *Machine) initPkg(pk *ssa.Package) {
	if m.inited[pk] {
		return
	}
	m.inited[pk] = true
	for _, mem := range pk.Members {
		if g, ok := mem.(*ssa.Global); ok {
			if _, done := m.globals[g]; !done {
				v := Zero(core.Deref(g.Type()))
				m.globals[g] = &v
			}
		}
	}
	f := pk.Func("init")
	if f == nil || f.Blocks == nil {
		return
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(Undecided); ok {
					m.Notes = append(m.Notes, "initialiser of "+pk.Pkg.Path()+": "+u.Msg)
					return
				}
				panic(r)
			}
		}()
		m.run(f, nil, nil)
	}()
}

type frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Value
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	defers []func()
	free   []Value
}

// Call applies a function value.
func (m *Machine) Call(f Value, args []Value) Value {
	switch f := f.(type) {
	case *ssa.Function:
		return m.callFn(f, args, nil)
	case *Closure:
		if len(f.Targs) > 0 {
			return m.within(f.Targs, func() Value { return m.callFn(f.Fn, args, f.Env) })
		}
		return m.callFn(f.Fn, args, f.Env)
	case *Native:
		return f.F(m, args)
	case *Bound:
		return m.Invoke(f.Recv, f.Method, args)
	case *Opaque:
		return &Opaque{"result of unknown function"}
	case nil:
		panic(Panicked{nil, "call of a nil function"})
	}
	undecided("call of %T", f)
	return nil
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return strings.ReplaceAll(fn.RelString(nil), core.Mod, "")
}

func (m *Machine) callFn(fn *ssa.Function, args []Value, env []Value) Value {
	name := fnName(fn)
	if h, ok := m.Hooks[name]; ok {
		if v, done := h(m, fn, args); done {
			return v
		}
	}
	if nf, ok := natives[name]; ok {
		return nf(m, args)
	}
	if b := m.binding(fn); b != nil {
		return m.within(b, func() Value { return m.callFn(fn.Origin(), args, env) })
	}
	if fn.Blocks == nil {
		return m.external(fn.Signature, name, args)
	}
	if fn.Synthetic == "package initializer" {
		return nil
	}
	return m.run(fn, args, env)
}

// external: a call out of the program; errors are taken to be nil, the rest is unknown.
func (m *Machine) external(sig *types.Signature, name string, args []Value) Value {
	r := sig.Results()
	one := func(t types.Type) Value {
		if core.IsError(t) {
			return nil
		}
		return &Opaque{"result of " + name}
	}
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return one(r.At(0).Type())
	}
	tp := make(Tuple, r.Len())
	for i := range tp {
		tp[i] = one(r.At(i).Type())
	}
	return tp
}

func (m *Machine) run(fn *ssa.Function, args []Value, env []Value) (result Value) {
	m.depth++
	defer func() { m.depth-- }()
	if m.depth > 400 {
		undecided("recursion too deep in %s", fn)
	}
	fr := &frame{fn: fn, env: map[ssa.Value]Value{}, free: env}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		} else {
			undecided("too few arguments for %s", fn)
		}
	}
	for i, fv := range fn.FreeVars {
		fr.env[fv] = env[i]
	}
	fr.block = fn.Blocks[0]
	for {
		next, ret, done := m.block(fr)
		if done {
			return ret
		}
		fr.prev, fr.block = fr.block, next
	}
}

func (m *Machine) get(fr *frame, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return Zero(m.sub(x.Type()))
		}
		return constVal(x)
	case *ssa.Global:
		return &Ref{m.global(x)}
	case *ssa.Function:
		return x
	case *ssa.Builtin:
		return x
	}
	r, ok := fr.env[v]
	if !ok {
		undecided("no value for %s in %s", v.Name(), fr.fn)
	}
	return r
}

func constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return Zero(c.Type())
	}
	t := c.Type().Underlying()
	b, ok := t.(*types.Basic)
	if !ok {
		// type parameter instantiated etc.
		switch c.Value.Kind() {
		case constant.String:
			return constant.StringVal(c.Value)
		case constant.Bool:
			return constant.BoolVal(c.Value)
		}
		i, _ := constant.Int64Val(c.Value)
		return i
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return constant.BoolVal(c.Value)
	case b.Info()&types.IsInteger != 0:
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return i
		}
		u, _ := constant.Uint64Val(v)
		return int64(u)
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(c.Value)
		return f
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		i, _ := constant.Int64Val(c.Value)
		return string(rune(i))
	}
	return &Opaque{"constant"}
}

func (m *Machine) block(fr *frame) (next *ssa.BasicBlock, ret Value, done bool) {
	// phis first, simultaneously
	b := fr.block
	i := 0
	var upd []Value
	for ; i < len(b.Instrs); i++ {
		p, ok := b.Instrs[i].(*ssa.Phi)
		if !ok {
			break
		}
		for k, pr := range b.Preds {
			if pr == fr.prev {
				upd = append(upd, m.get(fr, p.Edges[k]))
				break
			}
		}
	}
	for k, v := range upd {
		fr.env[b.Instrs[k].(*ssa.Phi)] = v
	}
	for ; i < len(b.Instrs); i++ {
		m.steps++
		if m.steps > m.Max {
			undecided("folding %s does not finish", fr.fn)
		}
		switch x := b.Instrs[i].(type) {
		case *ssa.DebugRef:
		case *ssa.Return:
			switch len(x.Results) {
			case 0:
				return nil, nil, true
			case 1:
				return nil, copyVal(m.get(fr, x.Results[0])), true
			}
			tp := make(Tuple, len(x.Results))
			for k, r := range x.Results {
				tp[k] = copyVal(m.get(fr, r))
			}
			return nil, tp, true
		case *ssa.Jump:
			return b.Succs[0], nil, false
		case *ssa.If:
			c := m.get(fr, x.Cond)
			bv, ok := c.(bool)
			if !ok {
				why := "unknown condition"
				if o, ok := c.(*Opaque); ok {
					why = o.Why
				}
				undecided("a branch in %s depends on %s", fr.fn, why)
			}
			if bv {
				return b.Succs[0], nil, false
			}
			return b.Succs[1], nil, false
		case *ssa.Panic:
			v := m.get(fr, x.X)
			panic(Panicked{v, "panic in " + core.Name(fr.fn) + ": " + m.Sprint(v)})
		case *ssa.Store:
			r := m.get(fr, x.Addr)
			ref, ok := r.(*Ref)
			if !ok {
				if _, op := r.(*Opaque); op {
					continue
				}
				panic(Panicked{nil, "store through nil pointer in " + fr.fn.String()})
			}
			store(ref.P, m.get(fr, x.Val))
		case *ssa.MapUpdate:
			mv := m.get(fr, x.Map)
			if _, op := mv.(*Opaque); op {
				continue
			}
			mp, _ := mv.(*Map)
			if mp == nil {
				panic(Panicked{nil, "write to a nil map in " + fr.fn.String()})
			}
			mp.Set(copyVal(m.get(fr, x.Key)), copyVal(m.get(fr, x.Value)))
		case *ssa.RunDefers:
			ds := fr.defers
			fr.defers = nil
			for k := len(ds) - 1; k >= 0; k-- {
				ds[k]()
			}
		case *ssa.Defer:
			f, args := m.prepare(fr, &x.Call)
			fr.defers = append(fr.defers, func() { f(args) })
		case *ssa.Go:
			undecided("a generator starts a goroutine")
		case *ssa.Send:
			undecided("a generator uses channels")
		case ssa.Value:
			fr.env[x] = m.eval(fr, x)
		default:
			undecided("instruction %T", x)
		}
	}
	undecided("block without terminator")
	return
}

// prepare resolves a call to something applicable.
func (m *Machine) prepare(fr *frame, c *ssa.CallCommon) (func([]Value) Value, []Value) {
	var args []Value
	for _, a := range c.Args {
		args = append(args, copyVal(m.get(fr, a)))
	}
	if c.IsInvoke() {
		recv := m.get(fr, c.Value)
		switch r := recv.(type) {
		case Iface:
			return func(a []Value) Value { return m.Invoke(r, c.Method, a) }, args
		case *Opaque:
			return func(a []Value) Value { return m.external(c.Signature(), c.Method.FullName(), a) }, args
		case nil:
			panic(Panicked{nil, fmt.Sprintf("method %s called on a nil %s in %s", c.Method.Name(), core.TypeName(c.Value.Type()), core.Name(fr.fn))})
		}
		undecided("invoke on %T", recv)
	}
	if bi, ok := c.Value.(*ssa.Builtin); ok {
		return func(a []Value) Value { return m.builtin(fr, bi, c, a) }, args
	}
	f := m.get(fr, c.Value)
	if _, op := f.(*Opaque); op {
		return func(a []Value) Value { return m.external(c.Signature(), "unknown function", a) }, args
	}
	return func(a []Value) Value { return m.Call(f, a) }, args
}

// Invoke calls an interface method.
func (m *Machine) Invoke(r Iface, method *types.Func, args []Value) Value {
	switch v := r.V.(type) {
	case *Stub:
		if f, ok := v.Methods[method.Name()]; ok {
			return f(m, args)
		}
		return m.external(method.Type().(*types.Signature), v.Name+"."+method.Name(), args)
	case *RType, *RVal, *FileObj, *Tmpl:
		if f, ok := objMethods[method.Name()]; ok {
			return f(m, v, args)
		}
		undecided("method %s of %T", method.Name(), v)
	case *Opaque:
		return m.external(method.Type().(*types.Signature), method.FullName(), args)
	}
	if r.T == nil {
		undecided("invoke %s on untyped", method)
	}
	if types.Identical(r.T, errT) && method.Name() == "Error" {
		return Str(Obj(r.V).F[0])
	}
	fn := m.Prog.LookupMethod(r.T, method.Pkg(), method.Name())
	if fn == nil {
		undecided("no method %s on %s", method.Name(), r.T)
	}
	return m.callFn(fn, append([]Value{r.V}, args...), nil)
}

// Method calls a method by name on an interface or pointer value of the given type.
func (m *Machine) Method(t types.Type, v Value, name string, args ...Value) (Value, bool) {
	if st, ok := v.(*Stub); ok {
		if f, ok := st.Methods[name]; ok {
			return f(m, args), true
		}
		return nil, false
	}
	ms := m.Prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		s := ms.At(i)
		if s.Obj().Name() == name {
			fn := m.Prog.MethodValue(s)
			if fn == nil {
				return nil, false
			}
			return m.callFn(fn, append([]Value{v}, args...), nil), true
		}
	}
	return nil, false
}

func (m *Machine) eval(fr *frame, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Alloc:
		return NewRef(Zero(m.sub(core.Deref(x.Type()))))
	case *ssa.Call:
		f, args := m.prepare(fr, &x.Call)
		return f(args)
	case *ssa.BinOp:
		return m.binop(x.Op, x.X.Type(), m.get(fr, x.X), m.get(fr, x.Y))
	case *ssa.UnOp:
		return m.unop(fr, x)
	case *ssa.ChangeType:
		return m.get(fr, x.X)
	case *ssa.Convert:
		return m.convert(x.X.Type(), x.Type(), m.get(fr, x.X))
	case *ssa.MultiConvert:
		return m.convert(x.X.Type(), x.Type(), m.get(fr, x.X))
	case *ssa.ChangeInterface:
		return m.get(fr, x.X)
	case *ssa.MakeInterface:
		xv := m.get(fr, x.X)
		if _, is := xv.(Iface); is && len(m.targs) > 0 {
			if _, tp := x.X.Type().(*types.TypeParam); tp && types.IsInterface(m.sub(x.X.Type())) {
				return xv
			}
		}
		return Iface{T: m.sub(x.X.Type()), V: copyVal(xv)}
	case *ssa.MakeClosure:
		c := &Closure{Fn: x.Fn.(*ssa.Function), Targs: m.targs}
		for _, b := range x.Bindings {
			c.Env = append(c.Env, m.get(fr, b))
		}
		return c
	case *ssa.MakeMap:
		return NewMap()
	case *ssa.MakeSlice:
		n, ok := m.get(fr, x.Len).(int64)
		c, ok2 := m.get(fr, x.Cap).(int64)
		if !ok || !ok2 || n > 1<<20 {
			undecided("slice of unknown length in %s", fr.fn)
		}
		s := make(Slice, n, c)
		et := m.sub(x.Type()).Underlying().(*types.Slice).Elem()
		full := s[:c]
		for i := range full {
			full[i] = Zero(et)
		}
		return s
	case *ssa.MakeChan:
		return &Opaque{"channel"}
	case *ssa.FieldAddr:
		r := m.get(fr, x.X)
		if o, ok := r.(*Opaque); ok {
			return o
		}
		ref, _ := r.(*Ref)
		if ref == nil {
			panic(Panicked{nil, fmt.Sprintf("nil pointer dereference in %s (field %s)", core.Name(fr.fn), core.FieldName(x.X, x.Field))})
		}
		s, ok := (*ref.P).(*Struct)
		if !ok {
			return &Opaque{"field of unknown struct"}
		}
		return &Ref{&s.F[x.Field]}
	case *ssa.Field:
		s, ok := m.get(fr, x.X).(*Struct)
		if !ok {
			return &Opaque{"field of unknown struct"}
		}
		return s.F[x.Field]
	case *ssa.IndexAddr:
		c := m.get(fr, x.X)
		iv := m.get(fr, x.Index)
		i, ok := iv.(int64)
		if !ok {
			undecided("unknown index in %s", fr.fn)
		}
		switch s := c.(type) {
		case Slice:
			if i < 0 || int(i) >= len(s) {
				panic(Panicked{nil, fmt.Sprintf("index %d out of range [%d] in %s", i, len(s), core.Name(fr.fn))})
			}
			return &Ref{&s[i]}
		case *Ref:
			a := (*s.P).(*Array)
			if i < 0 || int(i) >= len(a.E) {
				panic(Panicked{nil, "index out of range in " + core.Name(fr.fn)})
			}
			return &Ref{&a.E[i]}
		case nil:
			panic(Panicked{nil, fmt.Sprintf("index %d out of range [0] in %s", i, core.Name(fr.fn))})
		}
		return &Opaque{"element of unknown slice"}
	case *ssa.Index:
		i, ok := m.get(fr, x.Index).(int64)
		if !ok {
			undecided("unknown index in %s", fr.fn)
		}
		switch s := m.get(fr, x.X).(type) {
		case *Array:
			return s.E[i]
		case string:
			if i < 0 || int(i) >= len(s) {
				panic(Panicked{nil, "string index out of range in " + core.Name(fr.fn)})
			}
			return int64(s[i])
		}
		return &Opaque{"element"}
	case *ssa.Lookup:
		c := m.get(fr, x.X)
		k := m.get(fr, x.Index)
		if s, ok := c.(string); ok {
			i := k.(int64)
			if i < 0 || int(i) >= len(s) {
				panic(Panicked{nil, "string index out of range in " + core.Name(fr.fn)})
			}
			return int64(s[i])
		}
		if _, op := c.(*Opaque); op {
			if x.CommaOk {
				return Tuple{&Opaque{"map element"}, &Opaque{"map membership"}}
			}
			return &Opaque{"map element"}
		}
		mp, _ := c.(*Map)
		r, ok := mp.Get(k)
		if !ok {
			et := m.sub(x.X.Type()).Underlying().(*types.Map).Elem()
			r = Zero(et)
		}
		r = copyVal(r)
		if x.CommaOk {
			return Tuple{r, ok}
		}
		return r
	case *ssa.Extract:
		t := m.get(fr, x.Tuple)
		if tp, ok := t.(Tuple); ok {
			return tp[x.Index]
		}
		if core.IsError(x.Type()) {
			return nil
		}
		return &Opaque{"result"}
	case *ssa.Slice:
		return m.slice(fr, x)
	case *ssa.TypeAssert:
		return m.assert(fr, x)
	case *ssa.Range:
		return m.rng(m.get(fr, x.X))
	case *ssa.Next:
		return m.get(fr, x.Iter).(*iter).next(x)
	case *ssa.SliceToArrayPointer:
		undecided("slice to array pointer")
	case *ssa.Phi:
		return fr.env[x]
	case *ssa.Select:
		undecided("a generator uses channels")
	}
	undecided("value %T", v)
	return nil
}

type iter struct {
	keys []Value
	mp   *Map
	str  []rune
	offs []int
	i    int
	opq  bool
}

// mapOrder is an order in which a map may be iterated over.
func (m *Machine) mapOrder(x *Map) []Value {
	ks := x.SortedKeys()
	if m.Reverse {
		ks = append([]Value(nil), ks...)
		for i, j := 0, len(ks)-1; i < j; i, j = i+1, j-1 {
			ks[i], ks[j] = ks[j], ks[i]
		}
	}
	return ks
}

// Bytes is the content of a byte slice; FromString is the byte slice of a string.
func (m *Machine) Bytes(v Value) string { return bytesToStr(v) }

func (m *Machine) FromString(s string) Value {
	return m.convert(types.Typ[types.String], types.NewSlice(types.Typ[types.Uint8]), s)
}

func (m *Machine) rng(c Value) Value {
	switch x := c.(type) {
	case *Map:
		return &iter{keys: m.mapOrder(x), mp: x}
	case nil:
		return &iter{}
	case string:
		it := &iter{str: []rune(x)}
		o := 0
		for _, r := range it.str {
			it.offs = append(it.offs, o)
			o += len(string(r))
		}
		return it
	}
	undecided("iteration over an unknown collection")
	return nil
}

func (it *iter) next(x *ssa.Next) Value {
	if x.IsString {
		if it.i >= len(it.str) {
			return Tuple{false, int64(0), int64(0)}
		}
		r := Tuple{true, int64(it.offs[it.i]), int64(it.str[it.i])}
		it.i++
		return r
	}
	for it.mp != nil && it.i < len(it.keys) {
		k := it.keys[it.i]
		it.i++
		if v, ok := it.mp.Get(k); ok {
			return Tuple{true, k, copyVal(v)}
		}
	}
	return Tuple{false, nil, nil}
}

func (m *Machine) slice(fr *frame, x *ssa.Slice) Value {
	c := m.get(fr, x.X)
	num := func(v ssa.Value, d int) int {
		if v == nil {
			return d
		}
		i, ok := m.get(fr, v).(int64)
		if !ok {
			undecided("unknown slice bound in %s", fr.fn)
		}
		return int(i)
	}
	bad := func() {
		panic(Panicked{nil, "slice bounds out of range in " + core.Name(fr.fn)})
	}
	switch s := c.(type) {
	case string:
		lo, hi := num(x.Low, 0), num(x.High, len(s))
		if lo < 0 || hi > len(s) || lo > hi {
			bad()
		}
		return s[lo:hi]
	case Slice:
		lo, hi := num(x.Low, 0), num(x.High, len(s))
		mx := num(x.Max, cap(s))
		if lo < 0 || hi > cap(s) || lo > hi || mx > cap(s) || hi > mx {
			bad()
		}
		return s[lo:hi:mx]
	case *Ref:
		a, ok := (*s.P).(*Array)
		if !ok {
			return &Opaque{"slice"}
		}
		lo, hi := num(x.Low, 0), num(x.High, len(a.E))
		if lo < 0 || hi > len(a.E) || lo > hi {
			bad()
		}
		return Slice(a.E[lo:hi])
	case nil:
		lo, hi := num(x.Low, 0), num(x.High, 0)
		if lo != 0 || hi != 0 {
			bad()
		}
		return nil
	}
	return &Opaque{"slice"}
}

func (m *Machine) implements(i Iface, t *types.Interface, named types.Type) bool {
	if st, ok := i.V.(*Stub); ok {
		return st.Is(named)
	}
	if i.T == nil {
		return false
	}
	return types.Implements(i.T, t)
}

func (m *Machine) assert(fr *frame, x *ssa.TypeAssert) Value {
	v := m.get(fr, x.X)
	to := m.sub(x.AssertedType)
	if _, op := v.(*Opaque); op {
		if x.CommaOk {
			return Tuple{&Opaque{"asserted"}, &Opaque{"type of unknown value"}}
		}
		return &Opaque{"asserted"}
	}
	i, isI := v.(Iface)
	ok := false
	var res Value
	if isI {
		if it, isIt := to.Underlying().(*types.Interface); isIt {
			if m.implements(i, it, to) {
				ok, res = true, i
			}
		} else if i.T != nil && types.Identical(i.T, to) {
			if _, st := i.V.(*Stub); !st {
				ok, res = true, copyVal(i.V)
			}
		}
	}
	if x.CommaOk {
		if !ok {
			res = Zero(to)
		}
		return Tuple{res, ok}
	}
	if !ok {
		panic(Panicked{nil, "failed type assertion to " + core.TypeName(to) + " in " + core.Name(fr.fn)})
	}
	return res
}

func (m *Machine) unop(fr *frame, x *ssa.UnOp) Value {
	v := m.get(fr, x.X)
	switch x.Op {
	case token.MUL:
		if o, ok := v.(*Opaque); ok {
			return o
		}
		r, _ := v.(*Ref)
		if r == nil {
			panic(Panicked{nil, "nil pointer dereference in " + core.Name(fr.fn)})
		}
		return copyVal(*r.P)
	case token.NOT:
		if b, ok := v.(bool); ok {
			return !b
		}
	case token.SUB:
		switch n := v.(type) {
		case int64:
			return wrap(x.Type(), -n)
		case float64:
			return -n
		}
	case token.XOR:
		if n, ok := v.(int64); ok {
			return wrap(x.Type(), ^n)
		}
	case token.ARROW:
		undecided("a generator uses channels")
	}
	return &Opaque{"operation on unknown value"}
}

func wrap(t types.Type, n int64) Value {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return n
	}
	switch b.Kind() {
	case types.Int8:
		return int64(int8(n))
	case types.Int16:
		return int64(int16(n))
	case types.Int32:
		return int64(int32(n))
	case types.Uint8:
		return int64(uint8(n))
	case types.Uint16:
		return int64(uint16(n))
	case types.Uint32:
		return int64(uint32(n))
	}
	return n
}

func isOpaque(v Value) bool { _, ok := v.(*Opaque); return ok }

func (m *Machine) equal(a, b Value) Value {
	// a nil function/map/slice/pointer/interface against anything
	if a == nil || b == nil {
		other := a
		if a == nil {
			other = b
		}
		switch o := other.(type) {
		case nil:
			return true
		case *Opaque:
			// unknown values from outside are taken to be present
			return false
		case *Ref:
			return o == nil
		case Slice:
			return false
		}
		return false
	}
	if isOpaque(a) || isOpaque(b) {
		return &Opaque{"comparison with unknown value"}
	}
	if ia, ok := a.(Iface); ok {
		ib, ok := b.(Iface)
		if !ok {
			return false
		}
		if sa, ok := ia.V.(*Stub); ok {
			sb, ok := ib.V.(*Stub)
			return ok && sa == sb
		}
		if (ia.T == nil) != (ib.T == nil) || ia.T != nil && !types.Identical(ia.T, ib.T) {
			return false
		}
		if isOpaque(ia.V) || isOpaque(ib.V) {
			return &Opaque{"comparison with unknown value"}
		}
		return keyOf(ia.V) == keyOf(ib.V)
	}
	return keyOf(a) == keyOf(b)
}

func (m *Machine) binop(op token.Token, t types.Type, a, b Value) Value {
	switch op {
	case token.EQL:
		return m.equal(a, b)
	case token.NEQ:
		r := m.equal(a, b)
		if v, ok := r.(bool); ok {
			return !v
		}
		return r
	}
	if isOpaque(a) || isOpaque(b) {
		return &Opaque{"operation on unknown value"}
	}
	switch x := a.(type) {
	case int64:
		y, ok := b.(int64)
		if !ok {
			break
		}
		uns := false
		if bt, ok := t.Underlying().(*types.Basic); ok {
			uns = bt.Info()&types.IsUnsigned != 0
		}
		switch op {
		case token.ADD:
			return wrap(t, x+y)
		case token.SUB:
			return wrap(t, x-y)
		case token.MUL:
			return wrap(t, x*y)
		case token.QUO:
			if y == 0 {
				panic(Panicked{nil, "division by zero"})
			}
			if uns {
				return wrap(t, int64(uint64(x)/uint64(y)))
			}
			return wrap(t, x/y)
		case token.REM:
			if y == 0 {
				panic(Panicked{nil, "division by zero"})
			}
			if uns {
				return wrap(t, int64(uint64(x)%uint64(y)))
			}
			return wrap(t, x%y)
		case token.AND:
			return wrap(t, x&y)
		case token.OR:
			return wrap(t, x|y)
		case token.XOR:
			return wrap(t, x^y)
		case token.SHL:
			return wrap(t, x<<uint64(y))
		case token.SHR:
			if uns {
				return wrap(t, int64(uint64(x)>>uint64(y)))
			}
			return wrap(t, x>>uint64(y))
		case token.AND_NOT:
			return wrap(t, x&^y)
		case token.LSS:
			if uns {
				return uint64(x) < uint64(y)
			}
			return x < y
		case token.LEQ:
			if uns {
				return uint64(x) <= uint64(y)
			}
			return x <= y
		case token.GTR:
			if uns {
				return uint64(x) > uint64(y)
			}
			return x > y
		case token.GEQ:
			if uns {
				return uint64(x) >= uint64(y)
			}
			return x >= y
		}
	case float64:
		y, ok := b.(float64)
		if !ok {
			break
		}
		switch op {
		case token.ADD:
			return x + y
		case token.SUB:
			return x - y
		case token.MUL:
			return x * y
		case token.QUO:
			return x / y
		case token.LSS:
			return x < y
		case token.LEQ:
			return x <= y
		case token.GTR:
			return x > y
		case token.GEQ:
			return x >= y
		}
	case string:
		y, ok := b.(string)
		if !ok {
			break
		}
		switch op {
		case token.ADD:
			return x + y
		case token.LSS:
			return x < y
		case token.LEQ:
			return x <= y
		case token.GTR:
			return x > y
		case token.GEQ:
			return x >= y
		}
	case bool:
		y, ok := b.(bool)
		if !ok {
			break
		}
		switch op {
		case token.AND:
			return x && y
		case token.OR:
			return x || y
		}
	}
	return &Opaque{"operation"}
}

func (m *Machine) convert(from, to types.Type, v Value) Value {
	if isOpaque(v) {
		return v
	}
	tu := to.Underlying()
	switch x := v.(type) {
	case int64:
		if b, ok := tu.(*types.Basic); ok {
			switch {
			case b.Info()&types.IsInteger != 0:
				return wrap(to, x)
			case b.Info()&types.IsFloat != 0:
				return float64(x)
			case b.Info()&types.IsString != 0:
				return string(rune(x))
			}
		}
	case float64:
		if b, ok := tu.(*types.Basic); ok {
			switch {
			case b.Info()&types.IsInteger != 0:
				return wrap(to, int64(math.Trunc(x)))
			case b.Info()&types.IsFloat != 0:
				return x
			}
		}
	case string:
		if s, ok := tu.(*types.Slice); ok {
			var out Slice
			if b, ok := s.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Int32 {
				for _, r := range x {
					out = append(out, int64(r))
				}
			} else {
				for i := 0; i < len(x); i++ {
					out = append(out, int64(x[i]))
				}
			}
			return out
		}
		return x
	case Slice:
		if b, ok := tu.(*types.Basic); ok && b.Info()&types.IsString != 0 {
			var sb strings.Builder
			rn := false
			if s, ok := from.Underlying().(*types.Slice); ok {
				if eb, ok := s.Elem().Underlying().(*types.Basic); ok && eb.Kind() == types.Int32 {
					rn = true
				}
			}
			for _, e := range x {
				n, ok := e.(int64)
				if !ok {
					return &Opaque{"bytes"}
				}
				if rn {
					sb.WriteRune(rune(n))
				} else {
					sb.WriteByte(byte(n))
				}
			}
			return sb.String()
		}
		return x
	case nil:
		if b, ok := tu.(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return ""
		}
		return nil
	}
	return v
}

func (m *Machine) builtin(fr *frame, b *ssa.Builtin, c *ssa.CallCommon, a []Value) Value {
	switch b.Name() {
	case "len":
		switch x := a[0].(type) {
		case nil:
			return int64(0)
		case string:
			return int64(len(x))
		case Slice:
			return int64(len(x))
		case *Map:
			return int64(x.Len())
		case *Array:
			return int64(len(x.E))
		case *Ref:
			return int64(len((*x.P).(*Array).E))
		}
		return &Opaque{"length of unknown value"}
	case "cap":
		switch x := a[0].(type) {
		case nil:
			return int64(0)
		case Slice:
			return int64(cap(x))
		}
		return &Opaque{"capacity of unknown value"}
	case "append":
		var s Slice
		switch x := a[0].(type) {
		case nil:
		case Slice:
			s = x
		default:
			return &Opaque{"appended"}
		}
		switch y := a[1].(type) {
		case nil:
			if s == nil {
				return nil
			}
			return s
		case Slice:
			for _, e := range y {
				s = append(s, copyVal(e))
			}
			if s == nil {
				return nil
			}
			return s
		case string:
			for i := 0; i < len(y); i++ {
				s = append(s, int64(y[i]))
			}
			return s
		}
		return &Opaque{"appended"}
	case "copy":
		d, _ := a[0].(Slice)
		switch s := a[1].(type) {
		case Slice:
			n := 0
			for n < len(d) && n < len(s) {
				n++
			}
			tmp := append(Slice(nil), s[:n]...)
			for i := range tmp {
				d[i] = copyVal(tmp[i])
			}
			return int64(n)
		case string:
			n := 0
			for ; n < len(d) && n < len(s); n++ {
				d[n] = int64(s[n])
			}
			return int64(n)
		}
		return int64(0)
	case "delete":
		if mp, ok := a[0].(*Map); ok && mp != nil {
			mp.Delete(a[1])
		}
		return nil
	case "min", "max":
		r := a[0]
		for _, x := range a[1:] {
			op := token.LSS
			if b.Name() == "max" {
				op = token.GTR
			}
			l, ok := m.binop(op, c.Args[0].Type(), x, r).(bool)
			if !ok {
				return &Opaque{"min/max"}
			}
			if l {
				r = x
			}
		}
		return r
	case "print", "println":
		return nil
	case "recover":
		return nil
	case "clear":
		if mp, ok := a[0].(*Map); ok && mp != nil {
			for _, k := range mp.Keys() {
				mp.Delete(k)
			}
		}
		return nil
	case "ssa:wrapnilchk":
		if a[0] == nil {
			panic(Panicked{nil, "nil pointer dereference"})
		}
		return a[0]
	}
	undecided("builtin %s", b.Name())
	return nil
}
