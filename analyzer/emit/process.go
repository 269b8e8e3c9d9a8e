package emit

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/core"
	. "verif/analyzer/peval"
)

// Instantiables lists the node types that say themselves how they are built, but generate no code of
// their own: they are built from code of the runtime or of the workflow.
func Instantiables(c *core.Ctx) []*types.Named {
	var out []*types.Named
	for _, pk := range c.P.Pkgs {
		sh := core.Short(pk.PkgPath)
		if !strings.HasPrefix(sh, "plugins/") || strings.HasPrefix(sh, "plugins/xtrace") {
			continue
		}
		sc := pk.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok || nt.TypeParams().Len() > 0 {
				continue
			}
			if _, ok := nt.Underlying().(*types.Struct); !ok {
				continue
			}
			own := map[string]bool{}
			for i := 0; i < nt.NumMethods(); i++ {
				own[nt.Method(i).Name()] = true
			}
			if own["AddInstantiation"] && !own["GenerateFuncs"] {
				out = append(out, nt)
			}
		}
	}
	return out
}

// Made is a node made for an analysis.
type Made struct {
	Node   Iface
	Type   *types.Named
	Inst   string
	Params map[string]string // what the node's constructor was given, by parameter: the name of a node, or a quoted value
	Order  []string
	Impl   *types.Named // the implementation it asks for
}

// Service is what a workflow or runtime implementation offers: its constructor and interface.
type Service struct {
	Impl  *types.Named
	Ctor  *types.Func
	Iface *types.Named
}

// ServiceOf finds the constructor of an implementation: a function of its package that takes a context,
// and returns it or one of the interfaces it implements, and an error.
func ServiceOf(impl *types.Named) *Service {
	sc := impl.Obj().Pkg().Scope()
	ptr := types.NewPointer(impl)
	iface := func(t types.Type) *types.Named {
		n, _ := types.Unalias(t).(*types.Named)
		if n != nil && types.IsInterface(n) && n.Obj().Pkg() != nil && types.AssignableTo(ptr, n) {
			return n
		}
		return nil
	}
	var out *Service
	for _, name := range sc.Names() {
		f, ok := sc.Lookup(name).(*types.Func)
		if !ok || !f.Exported() {
			continue
		}
		sig := f.Type().(*types.Signature)
		if sig.Results().Len() != 2 || !core.IsError(sig.Results().At(1).Type()) || sig.Params().Len() == 0 || sig.TypeParams().Len() > 0 {
			continue
		}
		r := sig.Results().At(0).Type()
		if types.IsInterface(impl) && types.Identical(r, impl) {
			return &Service{impl, f, impl}
		}
		if i := iface(r); i != nil {
			s := &Service{impl, f, i}
			if strings.Contains(name, impl.Obj().Name()) || out == nil {
				out = s
			}
		} else if types.Identical(r, ptr) && out == nil {
			out = &Service{impl, f, nil}
		}
	}
	return out
}

// describe makes the compiler's description of a service.
func (b *B) describe(s *Service) Value {
	pkg := s.Ctor.Pkg()
	file := b.Ptr(parser_, "ParsedFile", nil)
	pp := b.Ptr(parser_, "ParsedPackage", map[string]Value{"Name": pkg.Path(), "ShortName": pkg.Name()})
	Obj(file).Set("Package", pp)
	fn := Zero(b.named(gocode, "Func")).(*Struct)
	fn.Set("Name", s.Ctor.Name())
	var as Slice
	sig := s.Ctor.Type().(*types.Signature)
	for i := 0; i < sig.Params().Len(); i++ {
		v := Zero(b.named(gocode, "Variable")).(*Struct)
		v.Set("Name", sig.Params().At(i).Name())
		v.Set("Type", b.I(gocode, "BasicType", b.Ptr(gocode, "BasicType", map[string]Value{"Name": "string"})))
		as = append(as, v)
	}
	fn.Set("Arguments", as)
	ctor := b.Ptr(parser_, "ParsedFunc", map[string]Value{"Func": fn, "File": file})
	name := s.Impl.Obj().Name()
	if s.Iface != nil {
		name = s.Iface.Obj().Name()
	}
	pi := b.Ptr(parser_, "ParsedInterface", map[string]Value{"Name": name, "File": file})
	if s.Iface != nil {
		b.parsed[pi.P] = s.Iface
	}
	return b.Ptr("plugins/workflow/workflowspec", "Service", map[string]Value{"Iface": pi, "Constructor": ctor})
}

// realServices has nodes find the implementations that they ask for.
func (b *B) realServices(m *Machine) {
	b.parsed = map[*Value]*types.Named{}
	b.asked = nil
	b.targs = map[*types.TypeParam]types.Type{}
	m.Hooks["plugins/workflow/workflowspec.GetService"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		if len(fn.TypeArgs()) != 1 {
			panic(Undecided{Msg: "GetService for an unknown type"})
		}
		at := types.Unalias(fn.TypeArgs()[0])
		for i := 0; i < 3; i++ {
			if tp, ok := at.(*types.TypeParam); ok && b.targs[tp] != nil {
				at = types.Unalias(b.targs[tp])
			}
		}
		n, ok := at.(*types.Named)
		if !ok {
			panic(Undecided{Msg: "GetService for " + fn.TypeArgs()[0].String()})
		}
		s := ServiceOf(n)
		if s == nil {
			return Tuple{(*Ref)(nil), MkErr("no constructor of " + n.String())}, true
		}
		b.asked = append(b.asked, n)
		return Tuple{b.describe(s), nil}, true
	}
	for _, name := range []string{"ServiceInterface", "Type"} {
		k := "(*plugins/golang/goparser.ParsedInterface)." + name
		old := m.Hooks[k]
		name := name
		m.Hooks[k] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
			r, ok := a[0].(*Ref)
			if !ok || b.parsed[r.P] == nil {
				return old(m, fn, a)
			}
			n := b.parsed[r.P]
			ut := map[string]Value{"Package": n.Obj().Pkg().Path(), "Name": n.Obj().Name()}
			if name == "Type" {
				p := b.Ptr(gocode, "UserType", ut)
				if !types.IsInterface(fn.Signature.Results().At(0).Type()) {
					return p, true
				}
				return b.I(gocode, "UserType", p), true
			}
			v := b.External(n.Obj().Pkg().Path(), n.Obj().Name())
			if i, ok := v.(Iface); ok && !types.IsInterface(fn.Signature.Results().At(0).Type()) {
				return i.V, true
			}
			return v, true
		}
	}
}

// maker is a function that makes a node, and what its type parameters stand for.
type maker struct {
	f     *ssa.Function
	targs map[*types.TypeParam]types.Type
}

// makers are the functions of T's package that make a *T; a generic one once for each type that the
// package uses it for.
func (b *B) makers(t *types.Named) []maker {
	want := types.NewPointer(t)
	// what type parameters stand for
	stands := map[*types.TypeParam][]types.Type{}
	var uses []*ssa.Function
	for _, f := range b.C.Under(core.Short(t.Obj().Pkg().Path())) {
		for _, bl := range f.Blocks {
			for _, in := range bl.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && len(g.TypeArgs()) > 0 && g.Origin() != nil {
						uses = append(uses, g)
						for i, a := range g.TypeArgs() {
							p := g.Origin().TypeParams().At(i)
							if _, open := types.Unalias(a).(*types.TypeParam); !open {
								stands[p] = append(stands[p], a)
							}
						}
					}
				}
			}
		}
	}
	var out []maker
	seen := map[string]bool{}
	add := func(f *ssa.Function) {
		if f.Blocks == nil || f.Signature.Recv() != nil || f.Parent() != nil {
			return
		}
		if f.Signature.Params().Len() == 0 || f.Signature.Results().Len() == 0 || !types.Identical(f.Signature.Results().At(0).Type(), want) {
			return
		}
		if f.TypeParams().Len() > 0 && len(f.TypeArgs()) == 0 {
			return
		}
		envs := []map[*types.TypeParam]types.Type{{}}
		for i, a := range f.TypeArgs() {
			p := f.Origin().TypeParams().At(i)
			as := []types.Type{a}
			if q, open := types.Unalias(a).(*types.TypeParam); open {
				as = stands[q]
			}
			var next []map[*types.TypeParam]types.Type
			for _, e := range envs {
				for _, x := range as {
					n := map[*types.TypeParam]types.Type{p: x}
					for k, v := range e {
						n[k] = v
					}
					next = append(next, n)
				}
			}
			envs = next
		}
		for _, e := range envs {
			k := f.Name()
			for _, x := range e {
				k += " " + x.String()
			}
			if !seen[k] {
				seen[k] = true
				out = append(out, maker{f, e})
			}
		}
	}
	sp := b.C.P.SSAPk[t.Obj().Pkg().Path()]
	for _, m := range sp.Members {
		if f, ok := m.(*ssa.Function); ok {
			add(f)
		}
	}
	for _, f := range uses {
		add(f)
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].f.String() < out[j].f.String() })
	return whole(out, sp)
}

// whole leaves out the functions that only do a part of what another one does.
func whole(ms []maker, sp *ssa.Package) (out []maker) {
	origin := func(f *ssa.Function) *ssa.Function {
		if o := f.Origin(); o != nil {
			return o
		}
		return f
	}
	is := map[*ssa.Function]bool{}
	for _, m := range ms {
		is[origin(m.f)] = true
	}
	part, used := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	look := func(f *ssa.Function) {
		for _, g := range core.WithClosures(f) {
			for _, ci := range core.Calls(g) {
				if h := ci.Common().StaticCallee(); h != nil && is[origin(h)] && origin(h) != origin(f) {
					if is[origin(f)] {
						part[origin(h)] = true
					} else {
						used[origin(h)] = true
					}
				}
			}
		}
	}
	for _, m := range sp.Members {
		switch m := m.(type) {
		case *ssa.Function:
			look(m)
		case *ssa.Type:
			if n, ok := m.Type().(*types.Named); ok {
				for i := 0; i < n.NumMethods(); i++ {
					if f := sp.Prog.FuncValue(n.Method(i)); f != nil {
						look(f)
					}
				}
			}
		}
	}
	for _, m := range ms {
		if !part[origin(m.f)] || used[origin(m.f)] {
			out = append(out, m)
		}
	}
	return
}

// MakeAll makes an instance of a node for every function that makes one.
func (b *B) MakeAll(t *types.Named, prefix string) []*Made {
	var out []*Made
	for k, mk := range b.makers(t) {
		f := mk.f
		b.targs = mk.targs
		md := &Made{Type: t, Params: map[string]string{}, Inst: prefix}
		if k > 0 {
			md.Inst += string(rune('a' + k))
		}
		var args []Value
		sig := f.Signature
		named := false
		for i := 0; i < sig.Params().Len(); i++ {
			p := sig.Params().At(i)
			nm := p.Name()
			var v Value
			switch pt := types.Unalias(p.Type()).(type) {
			case *types.Pointer:
				n, _ := pt.Elem().(*types.Named)
				switch {
				case n == nil:
				case n.Obj().Name() == "IRValue":
					v = b.Node("blueprint/pkg/ir", "IRValue", map[string]Value{"Value": md.Inst + "_" + nm}).V
					md.Params[nm] = `"` + md.Inst + "_" + nm + `"`
				case n.Obj().Name() == "DialConfig":
					v = b.Dial(md.Inst + "." + nm).V
					md.Params[nm] = md.Inst + "." + nm + ".dial_addr"
				case n.Obj().Name() == "BindConfig":
					v = b.Bind(md.Inst+"."+nm, 0).V
					md.Params[nm] = md.Inst + "." + nm + ".bind_addr"
				}
			case *types.Basic:
				if pt.Info()&types.IsString != 0 {
					if !named {
						v, named = md.Inst, true
					} else {
						v = md.Inst + "_" + nm
						md.Params[nm] = `"` + md.Inst + "_" + nm + `"`
					}
				}
			}
			if v == nil {
				panic(Undecided{Msg: "no schematic value of type " + core.TypeName(p.Type()) + " for " + f.String()})
			}
			if md.Params[nm] != "" {
				md.Order = append(md.Order, nm)
			}
			args = append(args, v)
		}
		before := len(b.asked)
		r := b.M.Call(f, args)
		if tp, ok := r.(Tuple); ok {
			if tp[1] != nil {
				panic(Panicked{Msg: "making the node fails: " + b.M.Sprint(tp[1])})
			}
			r = tp[0]
		}
		if Obj(r) == nil {
			panic(Undecided{Msg: "no instance of " + core.TypeName(t)})
		}
		if len(b.asked) > before {
			md.Impl = b.asked[len(b.asked)-1]
		}
		md.Node = Iface{T: types.NewPointer(t), V: r}
		out = append(out, md)
	}
	return out
}

// Recorder is a node of a process that records what the process asks of it.
type Recorder struct {
	Node  Iface
	Calls []string // method, then the kind of its argument
	Fail  string   // the method that fails
}

// Record makes a node that implements the named interfaces of the golang plugin.
func (b *B) Record(name string, methods []string, fail string, log *[]string, declare func(m *Machine, ns Iface) Value) *Recorder {
	r := &Recorder{Fail: fail}
	ms := map[string]func(*Machine, []Value) Value{"Name": ret(name), "String": ret(name), "ImplementsGolangNode": ret(nil)}
	for _, k := range methods {
		k := k
		ms[k] = func(m *Machine, a []Value) Value {
			arg := ""
			tgt, ok := a[len(a)-1].(Iface)
			if ok && tgt.T != nil {
				arg = core.TypeName(core.Deref(tgt.T))
			}
			r.Calls = append(r.Calls, k+" "+arg)
			*log = append(*log, name+" "+k)
			if k == fail {
				return MkErr(name + " fails")
			}
			if k == "AddInstantiation" && declare != nil {
				return declare(m, tgt)
			}
			return nil
		}
	}
	is := func(t types.Type) bool {
		it, ok := t.Underlying().(*types.Interface)
		if !ok {
			return false
		}
		for i := 0; i < it.NumMethods(); i++ {
			if ms[it.Method(i).Name()] == nil {
				return false
			}
		}
		return true
	}
	r.Node = Iface{V: &Stub{Name: name, Methods: ms, Is: is}}
	return r
}

// Services has the machine know the real implementations.
func (b *B) Services() { b.realServices(b.M) }


// Describe makes the compiler's description of a service.
func (b *B) Describe(s *Service) Value { return b.describe(s) }

// Flow is a schematic workflow service whose constructor takes n arguments besides the context.
func (b *B) Flow(n int) *Service {
	pkg := types.NewPackage("flow.org/flow/svc", "svc")
	it := types.NewInterfaceType(nil, nil).Complete()
	named := types.NewNamed(types.NewTypeName(token.NoPos, pkg, "FlowService", nil), it, nil)
	ctx := types.NewVar(token.NoPos, pkg, "ctx", types.NewInterfaceType(nil, nil))
	ps := []*types.Var{ctx}
	for i := 0; i < n; i++ {
		ps = append(ps, types.NewVar(token.NoPos, pkg, "arg"+string(rune('a'+i)), types.Typ[types.String]))
	}
	res := types.NewTuple(types.NewVar(token.NoPos, pkg, "", named), types.NewVar(token.NoPos, pkg, "", types.Universe.Lookup("error").Type()))
	f := types.NewFunc(token.NoPos, pkg, "NewFlowServiceImpl", types.NewSignatureType(nil, nil, nil, types.NewTuple(ps...), res, false))
	return &Service{named, f, named}
}
