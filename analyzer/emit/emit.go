package emit

import (
	"fmt"
	"go/types"
	"path"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/core"
	. "verif/analyzer/peval"
)

const (
	ModName = "emitted.org/mod"
	ModPath = "/work/mod"
	nsPkg   = "wired"
)

// Emission is what one generator node emits for the schematic service.
type Emission struct {
	Node    string // the node type
	Named   *types.Named
	Variant string
	Inst    string            // name of the node instance
	Inst2   string            // name of the second node instance of a pair
	Files   map[string]string // by path relative to the module
	Order   []string
	Failed  string // the generator returned an error or panicked
	Unk     string // the emission could not be evaluated
	Decl    *Decl  // the interface the node says it offers
	Extends bool   // the node adds to the service interface
	Raw     map[string]*File
	Params  map[string]Value // configuration given to the node's constructor, by parameter name
	Notes   []string

	Module   *Module // type-checked emitted module (compile.go)
	downIsMe *Emission
	PkgPath  string
}

func (e *Emission) Name() string {
	if e.Variant != "" {
		return e.Node + "[" + e.Variant + "]"
	}
	return e.Node
}

// New makes an evaluator over the loaded program.
func New(c *core.Ctx) *B {
	b := &B{C: c, inst: "leaf_x", exports: map[string]string{}, impCach: map[string]*types.Package{}}
	b.seed()
	b.reset()
	b.Sample = b.loadSample(SamplePath, sampleSrc, "LeafService")
	return b
}

func nilErr(m *Machine, a []Value) Value { return nil }

func (b *B) reset() {
	m := New0(b)
	b.M = m
	b.others = nil
}

// New0 makes a machine with the program's boundaries closed.
func New0(b *B) *Machine {
	pk := map[string]*ssa.Package{}
	for p, s := range b.C.P.SSAPk {
		pk[p] = s
	}
	m := NewMachine(b.C.P.SSA, pk)
	m.Reverse = b.Rev
	ok := func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) { return nil, true }
	m.Hooks["plugins/golang.AddModule"] = ok
	m.Hooks["plugins/golang.AddToModule"] = ok
	m.Hooks["plugins/golang.AddToWorkspace"] = ok
	svc := func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		return Tuple{b.serviceInfo(), nil}, true
	}
	m.Hooks["plugins/workflow/workflowspec.GetService"] = svc
	m.Hooks["plugins/workflow/workflowspec.GetServiceByName"] = svc
	m.Hooks["(*plugins/workflow/workflowspec.Service).AddToModule"] = ok
	m.Hooks["(*plugins/workflow/workflowspec.Service).AddToWorkspace"] = ok
	m.Hooks["(*plugins/golang/goparser.ParsedInterface).ServiceInterface"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		v := b.ServiceInterface(b.Sample)
		if i, ok := v.(Iface); ok && !types.IsInterface(fn.Signature.Results().At(0).Type()) {
			return i.V, true
		}
		return v, true
	}
	m.Hooks["(*plugins/golang/goparser.ParsedInterface).Type"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		r := b.Ptr(gocode, "UserType", map[string]Value{"Package": b.Sample.Path, "Name": b.Sample.Name})
		if !types.IsInterface(fn.Signature.Results().At(0).Type()) {
			return r, true
		}
		return b.I(gocode, "UserType", r), true
	}
	b.parserHooks(m)
	return m
}

// parserHooks answers questions about the schematic service's package.
func (b *B) parserHooks(m *Machine) {
	for _, n := range []string{"plugins/workflow/workflowspec.Get", "plugins/workflow/workflowspec.Derive"} {
		m.Hooks[n] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
			r := fn.Signature.Results().At(0).Type()
			nt, ok := core.Deref(r).(*types.Named)
			if !ok {
				return nil, false
			}
			s := Zero(nt).(*Struct)
			st := nt.Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				if p, isP := st.Field(i).Type().(*types.Pointer); isP {
					if fn2, isN := p.Elem().(*types.Named); isN && fn2.Obj().Name() == "ParsedModuleSet" {
						s.F[i] = NewRef(Zero(fn2))
					}
				}
			}
			ref := NewRef(s)
			if fn.Signature.Results().Len() == 2 {
				return Tuple{ref, nil}, true
			}
			return ref, true
		}
	}
	m.Hooks["(*plugins/golang/goparser.ParsedModuleSet).AddWorkspace"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		return nil, true
	}
	m.Hooks["(*plugins/golang/goparser.ParsedModuleSet).GetPackage"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		p, _ := a[1].(string)
		if pkg := b.SamplePkgs[p]; pkg != nil {
			return Tuple{b.parsedPackage(pkg), nil}, true
		}
		return Tuple{nil, MkErr("package " + p + " not found")}, true
	}
}

const parser_ = "plugins/golang/goparser"

func (b *B) parsedPackage(pkg *types.Package) Value {
	structs := NewMap()
	for _, n := range pkg.Scope().Names() {
		tn, ok := pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		st, ok := tn.Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		fields := NewMap()
		var list Slice
		for i := 0; i < st.NumFields(); i++ {
			f := Zero(b.named(parser_, "ParsedField")).(*Struct)
			v := b.variable(st.Field(i).Name(), st.Field(i).Type()).(*Struct)
			f.Set("Variable", v)
			f.Set("Position", int64(i))
			r := NewRef(f)
			fields.Set(st.Field(i).Name(), r)
			list = append(list, r)
		}
		ps := b.Ptr(parser_, "ParsedStruct", map[string]Value{"Name": n, "FieldsList": list, "Fields": fields, "Methods": NewMap()})
		structs.Set(n, ps)
	}
	return b.Ptr(parser_, "ParsedPackage", map[string]Value{"Name": pkg.Path(), "ShortName": pkg.Name(), "PackageDir": "/leaf", "Structs": structs, "Interfaces": NewMap(), "Funcs": NewMap(), "DeclaredTypes": NewMap(), "Files": NewMap()})
}

// serviceInfo describes the schematic service as a parsed workflow service.
func (b *B) serviceInfo() Value {
	iface := b.Ptr(parser_, "ParsedInterface", map[string]Value{"Name": b.Sample.Name})
	ctor := b.Ptr(parser_, "ParsedFunc", nil)
	return b.Ptr("plugins/workflow/workflowspec", "Service", map[string]Value{"Iface": iface, "Constructor": ctor})
}

// node stubs ---------------------------------------------------------------------------

func excluded(t types.Type) bool {
	n := core.TypeName(t)
	for _, x := range []string{"ir.IRMetadata", "ir.IRConfig", "ir.IRValue", "NamespaceBuilder", "ModuleBuilder", "WorkspaceBuilder", "address."} {
		if strings.Contains(n, x) {
			return true
		}
	}
	return false
}

func isFor(methods map[string]func(*Machine, []Value) Value) func(t types.Type) bool {
	return func(t types.Type) bool {
		it, ok := t.Underlying().(*types.Interface)
		if !ok || excluded(t) {
			return false
		}
		for i := 0; i < it.NumMethods(); i++ {
			n := it.Method(i).Name()
			if strings.HasPrefix(n, "ImplementsIRMetadata") || strings.HasPrefix(n, "ImplementsIRConfig") {
				return false
			}
			if _, ok := methods[n]; !ok && !strings.HasPrefix(n, "Implements") {
				return false
			}
		}
		return true
	}
}

func ret(v Value) func(*Machine, []Value) Value {
	return func(*Machine, []Value) Value { return v }
}

// serviceStub is some other golang service node offering iface.
func (b *B) serviceStub(name string, iface func() Value) Value {
	ms := map[string]func(*Machine, []Value) Value{
		"Name": ret(name), "String": ret(name), "AddInterfaces": ret(nil), "AddInstantiation": ret(nil), "GenerateFuncs": ret(nil),
		"GetInterface": func(*Machine, []Value) Value { return Tuple{iface(), nil} },
	}
	if b.others == nil {
		b.others = map[string]bool{}
	}
	b.others[name] = true
	return Iface{V: &Stub{Name: name, Methods: ms, Is: isFor(ms)}}
}

// visitedBy says that the key is one by which some other node of the process remembers that it was asked already.
func (b *B) visitedBy(key string) bool {
	for n := range b.others {
		if key == n || strings.HasPrefix(key, n+".") {
			return true
		}
	}
	return false
}

func (b *B) Downstream(name string) Value {
	name = strings.Replace(name, "leaf", b.inst[:strings.IndexByte(b.inst, '_')], 1)
	return b.serviceStub(name, func() Value { return b.ServiceInterface(b.Sample) })
}

func (b *B) Aux(name string) Value {
	return b.serviceStub(name, func() Value { return b.External(core.Mod+"runtime/core/backend", "Tracer") })
}

// module is the module being generated.
func (b *B) module() (Iface, func() []string) {
	visited := map[string]bool{}
	var requires []string
	info := Zero(b.named("plugins/golang", "ModuleInfo")).(*Struct)
	info.Set("Name", ModName)
	info.Set("Version", "v0.0.0")
	info.Set("Path", ModPath)
	wsInfo := Zero(b.named("plugins/golang", "WorkspaceInfo")).(*Struct)
	wsInfo.Set("Path", "/work")
	wms := map[string]func(*Machine, []Value) Value{
		"Info": ret(wsInfo), "AddLocalModule": ret(Tuple{"", nil}), "CreateModule": ret(Tuple{"", nil}), "GetLocalModule": ret(Tuple{"", false}),
		"Visited": ret(true), "ImplementsBuildContext": ret(nil),
	}
	exact := func(name string) func(types.Type) bool {
		return func(t types.Type) bool {
			n := core.TypeName(t)
			return n == "plugins/golang."+name || n == "blueprint/pkg/ir.BuildContext" || n == "blueprint/pkg/ir.VisitTracker"
		}
	}
	ws := Iface{V: &Stub{Name: "workspace", Methods: wms, Is: exact("WorkspaceBuilder")}}
	ms := map[string]func(*Machine, []Value) Value{
		"Info": ret(info),
		"CreatePackage": func(m *Machine, a []Value) Value {
			n, ok := a[0].(string)
			if !ok {
				panic(Undecided{Msg: "package name unknown"})
			}
			p := Zero(b.named("plugins/golang", "PackageInfo")).(*Struct)
			p.Set("ShortName", path.Base(n))
			p.Set("Name", n)
			p.Set("PackageName", ModName+"/"+n)
			p.Set("Path", path.Join(ModPath, n))
			return Tuple{p, nil}
		},
		"Require": func(m *Machine, a []Value) Value {
			requires = append(requires, fmt.Sprint(a[0], " ", a[1]))
			return nil
		},
		"Workspace":              ret(ws),
		"ImplementsBuildContext": ret(nil),
		"Visited": func(m *Machine, a []Value) Value {
			k, _ := a[0].(string)
			v := visited[k] || b.visitedBy(k)
			visited[k] = true
			return v
		},
	}
	return Iface{V: &Stub{Name: "module", Methods: ms, Is: exact("ModuleBuilder")}}, func() []string { return requires }
}

// discovery ----------------------------------------------------------------------------

// Generators lists the node types that declare GenerateFuncs themselves.
func Generators(c *core.Ctx) []*types.Named {
	var out []*types.Named
	for _, pk := range c.P.Pkgs {
		sh := core.Short(pk.PkgPath)
		if !strings.HasPrefix(sh, "plugins/") || strings.HasPrefix(sh, "plugins/xtrace") {
			continue
		}
		sc := pk.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok || nt.TypeParams().Len() > 0 {
				continue
			}
			if _, ok := nt.Underlying().(*types.Struct); !ok {
				continue
			}
			for i := 0; i < nt.NumMethods(); i++ {
				if nt.Method(i).Name() == "GenerateFuncs" {
					out = append(out, nt)
				}
			}
		}
	}
	return out
}

// ctorOf finds the function of T's package that makes a *T.
func (b *B) ctorOf(t *types.Named) *ssa.Function {
	sp := b.C.P.SSAPk[t.Obj().Pkg().Path()]
	var names []string
	for n := range sp.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	var cands []*ssa.Function
	for _, n := range names {
		f, ok := sp.Members[n].(*ssa.Function)
		if !ok || f.Signature.Results().Len() == 0 || f.Blocks == nil {
			continue
		}
		if types.Identical(f.Signature.Results().At(0).Type(), types.NewPointer(t)) && f.Signature.Params().Len() > 0 {
			cands = append(cands, f)
		}
	}
	// one that another calls does a part of its work
	part := map[*ssa.Function]bool{}
	for _, f := range cands {
		for _, g := range core.WithClosures(f) {
			for _, ci := range core.Calls(g) {
				if h := ci.Common().StaticCallee(); h != nil && h != f {
					part[h] = true
				}
			}
		}
	}
	for _, f := range cands {
		if !part[f] {
			return f
		}
	}
	return nil
}

// isService: an interface another golang service node can satisfy.
func isServiceIface(t types.Type) bool {
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	for i := 0; i < it.NumMethods(); i++ {
		if it.Method(i).Name() == "Name" {
			return true
		}
	}
	return false
}

type build struct {
	b     *B
	down  func(name string) Value
	flag  bool
	parms map[string]Value
	inst  string
	pre   string // prefix of the names of addresses
}

// replicas are the services a node that takes several of them is given.
func (bd *build) replicas() Slice {
	r := Slice{bd.down("leaf_0"), bd.down("leaf_1"), bd.down("leaf_2")}
	if bd.b.Alt {
		r = r[:2]
	}
	return r
}

// synth makes an argument of the given type.
func (bd *build) synth(t types.Type, pname string, st *synthState) Value {
	b := bd.b
	switch u := types.Unalias(t).(type) {
	case *types.Pointer:
		if n, ok := u.Elem().(*types.Named); ok {
			return bd.ptrTo(n)
		}
	case *types.Slice:
		if isServiceIface(u.Elem()) {
			return bd.replicas()
		}
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			st.strings++
			if st.strings == 1 {
				return bd.inst
			}
			v := "1500ms"
			if st.strings == 3 {
				v = "9s"
			}
			if b.Alt {
				v = map[string]string{"1500ms": "2750ms", "9s": "13s"}[v]
			}
			bd.parms[pname] = v
			return v
		case u.Info()&types.IsInteger != 0:
			v := []int64{3, 7, 11, 13, 17}[st.ints%5]
			if b.Alt {
				v += 16
			}
			st.ints++
			bd.parms[pname] = v
			return v
		case u.Info()&types.IsFloat != 0:
			st.floats++
			v := 0.25 * float64(st.floats)
			if b.Alt {
				v = 0.3125 * float64(st.floats)
			}
			bd.parms[pname] = v
			return v
		case u.Info()&types.IsBoolean != 0:
			st.bools++
			bd.parms[pname] = bd.flag
			return bd.flag
		}
	case *types.Interface:
		st.nodes++
		if st.nodes == 1 {
			return bd.down("leaf_wrapped")
		}
		return b.Aux("aux_node")
	}
	panic(Undecided{Msg: "no schematic value of type " + core.TypeName(t)})
}

type synthState struct{ strings, bools, nodes, floats, ints int }

func (bd *build) prefix() string {
	if bd.pre != "" {
		return bd.pre
	}
	return "leaf"
}

// ptrTo builds a pointer to a struct of the compiler: an address, a configuration node, or another node.
func (bd *build) ptrTo(n *types.Named) Value {
	s := Zero(n).(*Struct)
	st := n.Underlying().(*types.Struct)
	isAddr := strings.HasSuffix(core.TypeName(n.Obj().Type()), "") && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "coreplugins/address")
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		switch ft := f.Type().(type) {
		case *types.Pointer:
			if fn, ok := ft.Elem().(*types.Named); ok {
				if isAddr && f.Name() == "Server" {
					v, _ := bd.node(fn)
					s.F[i] = v.V
					continue
				}
				if fn.Obj().Pkg() != nil && strings.HasSuffix(fn.Obj().Pkg().Path(), "coreplugins/address") {
					s.F[i] = bd.ptrTo(fn)
				}
			}
		case *types.Named:
			if es, ok := ft.Underlying().(*types.Struct); ok && f.Embedded() {
				e := Zero(ft).(*Struct)
				for j := 0; j < es.NumFields(); j++ {
					if bt, ok := es.Field(j).Type().Underlying().(*types.Basic); ok && bt.Kind() == types.String && es.Field(j).Name() != "Hostname" {
						e.F[j] = bd.prefix() + "." + strings.ToLower(n.Obj().Name())
					}
				}
				s.F[i] = e
			}
		case *types.Basic:
			if ft.Kind() == types.String && s.F[i] == "" {
				s.F[i] = bd.prefix() + ".addr"
			}
		}
	}
	return NewRef(s)
}

// node makes an instance of a generator node.
func (bd *build) node(t *types.Named) (Iface, int) {
	b := bd.b
	pt := types.NewPointer(t)
	st := &synthState{}
	var ref Value
	if f := b.ctorOf(t); f != nil {
		var args []Value
		for i := 0; i < f.Signature.Params().Len(); i++ {
			p := f.Signature.Params().At(i)
			args = append(args, bd.synth(p.Type(), p.Name(), st))
		}
		r := b.M.Call(f, args)
		if tp, ok := r.(Tuple); ok {
			if len(tp) == 2 && tp[1] != nil {
				panic(Panicked{Msg: "constructing the node fails: " + b.M.Sprint(tp[1])})
			}
			ref = tp[0]
		} else {
			ref = r
		}
	} else {
		ref = bd.zeroNode(t, st)
	}
	s := Obj(ref)
	if s == nil {
		panic(Undecided{Msg: "no instance of " + core.TypeName(t)})
	}
	// configuration assigned by the wiring function after construction
	sst := t.Underlying().(*types.Struct)
	for i := 0; i < sst.NumFields(); i++ {
		if p, ok := sst.Field(i).Type().(*types.Pointer); ok && s.F[i] == nil {
			if n, ok := p.Elem().(*types.Named); ok && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "coreplugins/address") {
				s.F[i] = bd.ptrTo(n)
			}
		}
	}
	return Iface{T: pt, V: ref}, st.bools
}

// zeroNode fills a node that has no constructor function the way its wiring function does.
func (bd *build) zeroNode(t *types.Named, st *synthState) Value {
	b := bd.b
	s := Zero(t).(*Struct)
	ref := NewRef(s)
	sst := t.Underlying().(*types.Struct)
	// package functions that initialise the node or a part of it: f(*part, name) error
	sp := b.C.P.SSAPk[t.Obj().Pkg().Path()]
	inited := false
	var names []string
	for n := range sp.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		f, ok := sp.Members[n].(*ssa.Function)
		if !ok || f.Signature.Params().Len() != 2 || f.Blocks == nil {
			continue
		}
		if bt, ok := f.Signature.Params().At(1).Type().(*types.Basic); !ok || bt.Kind() != types.String {
			continue
		}
		p0 := f.Signature.Params().At(0).Type()
		for i := 0; i < sst.NumFields(); i++ {
			if sst.Field(i).Embedded() && types.Identical(p0, types.NewPointer(sst.Field(i).Type())) {
				v := b.M.Call(f, []Value{&Ref{P: &(*ref.P).(*Struct).F[i]}, bd.inst})
				if v != nil {
					panic(Panicked{Msg: "initialising the node fails: " + b.M.Sprint(v)})
				}
				inited = true
			}
		}
	}
	for i := 0; i < sst.NumFields(); i++ {
		f := sst.Field(i)
		if f.Embedded() {
			continue
		}
		switch ft := f.Type().Underlying().(type) {
		case *types.Basic:
			if ft.Kind() == types.String && !inited || ft.Info()&types.IsInteger != 0 {
				s.F[i] = bd.synth(f.Type(), f.Name(), st)
			}
		case *types.Interface:
			if isServiceIface(f.Type()) {
				s.F[i] = bd.synth(f.Type(), f.Name(), st)
			}
		}
	}
	for i := 0; i < t.NumMethods(); i++ {
		m := t.Method(i)
		sig := m.Type().(*types.Signature)
		// an initialiser taking the nodes it is given
		if sig.Params().Len() == 1 && sig.Results().Len() == 1 && core.IsError(sig.Results().At(0).Type()) {
			if sl, ok := sig.Params().At(0).Type().(*types.Slice); ok && isServiceIface(sl.Elem()) {
				r, _ := b.M.Method(types.NewPointer(t), ref, m.Name(), bd.replicas())
				if r != nil {
					panic(Panicked{Msg: "initialising the node fails: " + b.M.Sprint(r)})
				}
			}
		}
	}
	return ref
}

// EmitAll evaluates every generator on the schematic service.
func (b *B) EmitAll() []*Emission {
	var out []*Emission
	gens := Generators(b.C)
	// first pass: which generators extend the interface they offer
	ext := map[string]*types.Named{}
	for _, t := range gens {
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(Undecided); ok {
						return
					}
					if _, ok := r.(Panicked); ok {
						return
					}
					panic(r)
				}
			}()
			bd := &build{b: b, down: b.Downstream, parms: map[string]Value{}, inst: "probe"}
			n, _ := bd.node(t)
			mod, _ := b.module()
			if b.extends(n, mod) {
				ext[t.Obj().Pkg().Path()] = t
			}
		}()
	}
	b.Exts = ext
	for _, t := range gens {
		t := t
		down := b.Downstream
		if x := ext[t.Obj().Pkg().Path()]; x != nil && x != t {
			down = func(name string) Value {
				bd := &build{b: b, down: b.Downstream, parms: map[string]Value{}, inst: name}
				n, _ := bd.node(x)
				return n
			}
		}
		e, nb := b.emit(t, down, false)
		out = append(out, e)
		if nb > 0 {
			e.Variant = "flag=false"
			e2, _ := b.emit(t, down, true)
			e2.Variant = "flag=true"
			out = append(out, e2)
		}
	}
	return out
}

// Decl is the interface a node describes to the nodes that use it.
type Decl struct {
	Kind      string // the type of the description
	Pkg, Name string
	Methods   map[string]bool
}

// declared reads the description of the node's interface, unwrapping those of servers.
func (b *B) declared(n Iface, mod Iface) *Decl {
	r, ok := b.M.Method(n.T, n.V, "GetInterface", mod)
	if !ok {
		return nil
	}
	tp, ok := r.(Tuple)
	if !ok || tp[0] == nil {
		return nil
	}
	d := &Decl{Methods: map[string]bool{}}
	if i, ok := tp[0].(Iface); ok {
		d.Kind = core.TypeName(core.Deref(i.T))
	}
	s := Obj(tp[0])
	if s == nil {
		return nil
	}
	if u, ok := s.Field("UserType").(*Struct); ok {
		d.Pkg, _ = u.Field("Package").(string)
		d.Name, _ = u.Field("Name").(string)
	}
	if ms, ok := s.Field("Methods").(*Map); ok {
		for _, k := range ms.Keys() {
			if k, ok := k.(string); ok {
				d.Methods[k] = true
			}
		}
	}
	return d
}

// extends: the interface the node offers has other methods or signatures than the one it wraps.
func (b *B) extends(n Iface, mod Iface) bool {
	r, ok := b.M.Method(n.T, n.V, "GetInterface", mod)
	if !ok {
		return false
	}
	tp, ok := r.(Tuple)
	if !ok || tp[0] == nil {
		return false
	}
	s := Obj(tp[0])
	if s == nil {
		return false
	}
	ms, ok := s.Field("Methods").(*Map)
	if !ok {
		return false
	}
	for _, k := range ms.Keys() {
		v, _ := ms.Get(k)
		f, ok := v.(*Struct)
		if !ok {
			continue
		}
		args, _ := f.Field("Arguments").(Slice)
		for i := 0; i < b.Sample.Iface.NumMethods(); i++ {
			m := b.Sample.Iface.Method(i)
			if m.Name() == k {
				if m.Type().(*types.Signature).Params().Len()-1 != len(args) {
					return true
				}
			}
		}
	}
	return false
}

func (b *B) emit(t *types.Named, down func(string) Value, flag bool) (e *Emission, bools int) {
	e = &Emission{Node: core.TypeName(t), Named: t, Files: map[string]string{}, Params: map[string]Value{}, Inst: b.inst, PkgPath: t.Obj().Pkg().Path()}
	b.reset()
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case Undecided:
				e.Unk = x.Msg
			case Panicked:
				e.Failed = x.Msg
			default:
				panic(r)
			}
		}
		e.Notes = b.M.Notes
	}()
	bd := &build{b: b, down: down, flag: flag, parms: e.Params, inst: e.Inst}
	n, bools := bd.node(t)
	mod, _ := b.module()
	e.Extends = b.extends(n, mod)
	e.Decl = b.declared(n, mod)
	if e.Failed = b.generate(mod, []genNode{{n: n, t: t, s: b.Sample}}); e.Failed != "" {
		return e, bools
	}
	b.collect(e)
	return e, bools
}

type genNode struct {
	n Iface
	t *types.Named
	s *Sample
}

// generate has the nodes of one process emit their code, as the process builder does.
func (b *B) generate(mod Iface, nodes []genNode) string {
	keep := b.Sample
	defer func() { b.Sample = keep }()
	call := func(g genNode, name string, args ...Value) string {
		b.Sample = g.s
		r, ok := b.M.Method(g.n.T, g.n.V, name, args...)
		if ok && r != nil {
			return name + " fails: " + b.M.Sprint(r)
		}
		return ""
	}
	hasOwn := func(t *types.Named, name string) bool {
		for i := 0; i < t.NumMethods(); i++ {
			if t.Method(i).Name() == name {
				return true
			}
		}
		return false
	}
	for _, g := range nodes {
		if hasOwn(g.t, "AddInterfaces") {
			if f := call(g, "AddInterfaces", mod); f != "" {
				return f
			}
		}
	}
	for _, g := range nodes {
		if f := call(g, "GenerateFuncs", mod); f != "" {
			return f
		}
	}
	// the namespace that instantiates the nodes
	nf := b.C.P.SSAPk[core.Mod+"plugins/golang/gogen"].Func("NewNamespaceBuilder")
	if nf == nil {
		panic(Undecided{Msg: "gogen.NewNamespaceBuilder not found"})
	}
	r := b.M.Call(nf, []Value{mod, "wired", "wired.go", nsPkg, "NewWired"})
	tp := r.(Tuple)
	if tp[1] != nil {
		return "NewNamespaceBuilder fails: " + b.M.Sprint(tp[1])
	}
	nst := nf.Signature.Results().At(0).Type()
	ns := Iface{T: nst, V: tp[0]}
	var others []string
	for n := range b.others {
		others = append(others, n)
	}
	sort.Strings(others)
	for _, n := range others {
		b.M.Method(nst, tp[0], "Visited", n)
	}
	for _, g := range nodes {
		if f := call(g, "AddInstantiation", ns); f != "" {
			return f
		}
	}
	if r, _ := b.M.Method(nst, tp[0], "Build"); r != nil {
		return "building the namespace fails: " + b.M.Sprint(r)
	}
	return ""
}

// EmitPair has two nodes emit their code into one process: the given type for the present service
// with the usual configuration, and then for the other service and configuration.
func (b *B) EmitPair(t, t2 *types.Named, other *Sample, alt bool) (e *Emission) {
	e = &Emission{Node: core.TypeName(t), Named: t, Files: map[string]string{}, Params: map[string]Value{}, Inst: "leaf_x", Inst2: "other_x", PkgPath: t.Obj().Pkg().Path()}
	if t2 != t {
		e.Node += " with " + core.TypeName(t2)
	}
	keep := b.Sample
	b.reset()
	defer func() {
		b.Sample, b.Alt = keep, false
		if r := recover(); r != nil {
			switch x := r.(type) {
			case Undecided:
				e.Unk = x.Msg
			case Panicked:
				e.Failed = x.Msg
			default:
				panic(r)
			}
		}
	}()
	down := func(s *Sample, pre string, t *types.Named) func(string) Value {
		x := b.Exts[t.Obj().Pkg().Path()]
		if x == t {
			x = nil
		}
		return func(name string) Value {
			if x != nil {
				bd := &build{b: b, down: func(name string) Value {
					return b.serviceStub(strings.Replace(name, "leaf", pre, 1), func() Value { return b.ServiceInterface(s) })
				}, parms: map[string]Value{}, inst: strings.Replace(name, "leaf", pre, 1)}
				n, _ := bd.node(x)
				return n
			}
			return b.serviceStub(strings.Replace(name, "leaf", pre, 1), func() Value { return b.ServiceInterface(s) })
		}
	}
	bd := &build{b: b, down: down(b.Sample, "leaf", t), parms: e.Params, inst: e.Inst}
	n1, _ := bd.node(t)
	nodes := []genNode{{n: n1, t: t, s: b.Sample}}
	b.Sample, b.Alt = other, alt
	bd2 := &build{b: b, down: down(other, "other", t2), parms: map[string]Value{}, inst: e.Inst2, pre: "other"}
	n2, _ := bd2.node(t2)
	nodes = append(nodes, genNode{n: n2, t: t2, s: other})
	b.Alt = false
	mod, _ := b.module()
	b.Sample = keep
	if e.Failed = b.generate(mod, nodes); e.Failed == "" {
		b.collect(e)
	}
	return e
}

func (b *B) collect(e *Emission) {
	e.Raw = b.M.Files
	for p, f := range b.M.Files {
		if rel, ok := strings.CutPrefix(p, ModPath+"/"); ok {
			e.Files[rel] = f.Data
			e.Order = append(e.Order, rel)
		}
	}
	sort.Strings(e.Order)
}
