package checks

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/core"
	"verif/analyzer/emit"
	"verif/analyzer/flow"
)

// emitted is one generator's output for the schematic service, ready for analysis.
type emitted struct {
	E *emit.Emission
	M *emit.Module
	// the instance the wiring namespace builds
	Inst    flow.Val
	InstT   types.Type
	St      *flow.State
	Gets    map[string]types.Type // nodes the instantiation code asks the namespace for
	BadPath string                // instantiation code that goes wrong
	Build   *flow.Path            // the instantiation that succeeds
	Init    map[string]flow.Val   // what the instance's changing fields hold at first
	Server  bool
	Down    string // how the wrapped node is obtained: node, nodes, pool, none
	meths   []*meth
}

type genAll struct {
	B  *emit.B
	Es []*emitted
}

func generated(c *core.Ctx) *genAll {
	return core.Memo(c, "generated", func() *genAll { return generate(emit.New(c)) })
}

// generate follows what every generator emits in the setting of b.
func generate(b *emit.B) *genAll {
	g := &genAll{B: b}
	for _, e := range g.B.EmitAll() {
		x := &emitted{E: e}
		if len(e.Files) > 0 {
			x.M = g.B.Compile(e)
			if x.M.Prog != nil {
				instantiate(x)
			}
		}
		g.Es = append(g.Es, x)
	}
	return g
}

// usable reports an emission no rule can be decided on.
func (x *emitted) usable(c *core.Ctx) bool {
	n := x.E.Name()
	switch {
	case x.E.Unk != "":
		c.Fail("undecided", n, token.NoPos, "what the generator emits could not be determined: %s", x.E.Unk)
	case x.E.Failed != "":
		c.Fail("generator", n, token.NoPos, "the generator fails on the schematic service: %s", x.E.Failed)
	case x.M == nil || len(x.M.Errs) > 0:
		msg := "nothing is emitted"
		if x.M != nil {
			msg = strings.Join(x.M.Errs, "; ")
		}
		c.Fail("compiles", n, token.NoPos, "the emitted code does not type-check: %s", trunc(msg))
	case x.Inst == nil:
		c.Fail("instantiates", n, token.NoPos, "the emitted instantiation code yields no instance: %s", x.BadPath)
	default:
		return true
	}
	return false
}

func trunc(s string) string {
	if len(s) > 600 {
		return s[:600] + "..."
	}
	return s
}

func inModule(f *ssa.Function) bool {
	p := f.Pkg
	if p == nil && f.Parent() != nil {
		p = core.Top(f).Pkg
	}
	if p == nil && f.Object() != nil && f.Object().Pkg() != nil {
		return strings.HasPrefix(f.Object().Pkg().Path(), emit.ModName)
	}
	return p != nil && strings.HasPrefix(p.Pkg.Path(), emit.ModName)
}

// stubbed: code of an interface compiler, which the analysis treats as opaque.
func (x *emitted) stubbed(f *ssa.Function) bool {
	t := core.Top(f)
	if t.Pkg == nil {
		return false
	}
	if x.M.Stub[t.Pkg.Pkg.Path()] {
		return true
	}
	return strings.HasSuffix(x.M.Fset.Position(t.Pos()).Filename, ".pb.go")
}

func (x *emitted) engine() *flow.Engine {
	e := flow.New(x.M.Prog)
	e.Inline = func(f *ssa.Function) bool { return inModule(f) && !x.stubbed(f) }
	if x.Inst != nil {
		heap := x.heap()
		e.Shared = func(b string) bool { return heap[cellRoot(b)] || strings.HasPrefix(b, "g:"+emit.ModName) }
	}
	e.NoHavoc = func(t types.Type) bool {
		n, ok := types.Unalias(t).(*types.Named)
		return ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), emit.ModName)
	}
	return e
}

// instantiate follows the emitted namespace code to the instance it builds.
func instantiate(x *emitted) {
	x.Gets = map[string]types.Type{}
	wired := x.M.SSA[emit.ModName+"/wired"]
	if wired == nil || wired.Func("NewWired") == nil {
		x.BadPath = "the namespace has no constructor"
		return
	}
	eng := x.engine()
	var builder *flow.Func
	eng.Model = func(e *flow.Engine, st *flow.State, ev *flow.Event) ([]flow.Out, bool) {
		if ev.Method == "Define" && len(ev.Args) == 2 {
			if n, ok := ev.Args[0].(flow.Const); ok && n.V.Kind() == constant.String && constant.StringVal(n.V) == x.E.Inst {
				if f, ok := flow.Strip(ev.Args[1]).(*flow.Func); ok {
					builder = f
				}
			}
		}
		return nil, false
	}
	eng.Run(wired.Func("NewWired"), []flow.Val{&flow.Sym{ID: "nsname"}}, flow.NewState())
	if builder == nil {
		x.BadPath = "the namespace does not define " + x.E.Inst
		return
	}
	eng = x.engine()
	eng.Model = func(e *flow.Engine, st *flow.State, ev *flow.Event) ([]flow.Out, bool) {
		if ev.Method == "Get" && len(ev.Args) == 2 && strings.Contains(ev.Name, "runtime/plugins/golang.Namespace") {
			n, ok := ev.Args[0].(flow.Const)
			a, ok2 := flow.Strip(ev.Args[1]).(*flow.Addr)
			if !ok || !ok2 {
				return nil, false
			}
			name := constant.StringVal(n.V)
			x.Gets[name] = a.T
			fail := st.Fresh("geterr", core.ErrorType)
			return []flow.Out{
				{Res: fail, Set: func(s *flow.State) { s.Assume(fail, false) }},
				{Res: flow.NilV{}, Set: func(s *flow.State) {
					s.Store(a, &flow.Sym{ID: "node:" + name, T: a.T})
					s.Assume(&flow.Sym{ID: "node:" + name}, false)
				}},
			}, true
		}
		if ev.Method == "Context" {
			return []flow.Out{{Res: &flow.Sym{ID: "nsctx"}}}, true
		}
		return nil, false
	}
	st := flow.NewState()
	n := &flow.Sym{ID: "namespace", T: builder.Fn.Params[0].Type()}
	st.Assume(n, false)
	paths := eng.Run(builder.Fn, []flow.Val{n}, st)
	var best *flow.Path
	for _, p := range paths {
		if p.How != "return" || len(p.Ret) != 2 {
			continue
		}
		failedGet := false
		for _, ev := range p.St.Trace {
			if ev.Method == "Get" {
				if s, ok := ev.Res.(*flow.Sym); ok && strings.HasPrefix(s.ID, "geterr") {
					failedGet = true
					if p.St.NilFact(p.Ret[1]) != -1 {
						x.BadPath = "a node the instance needs is missing but instantiation succeeds"
					}
				}
			}
		}
		if failedGet || p.St.NilFact(p.Ret[1]) != 1 {
			continue
		}
		best = p
	}
	if best == nil {
		x.BadPath = "no path through the instantiation code succeeds"
		return
	}
	i, ok := best.Ret[0].(*flow.Iface)
	if !ok || i.T == nil {
		x.BadPath = "the type of the instance is not known: " + best.Ret[0].Key()
		return
	}
	x.Inst, x.InstT = i, i.T
	x.St = best.St.Fork()
	x.Build = best
	if m := types.NewMethodSet(i.T).Lookup(nil, "Run"); m != nil {
		x.Server = true
	}
	nn := 0
	for n := range x.Gets {
		if strings.HasPrefix(n, "leaf_") {
			nn++
		}
	}
	switch {
	case nn == 1:
		x.Down = "node"
	case nn > 1:
		x.Down = "nodes"
	default:
		x.Down = "none"
	}
	x.havocState()
}

// havocState forgets the fields that methods change while serving.
func (x *emitted) havocState() {
	nt, ok := core.Deref(x.InstT).(*types.Named)
	if !ok {
		return
	}
	written := map[string]types.Type{}
	for _, pk := range x.M.SSA {
		for _, f := range allFuncs(pk) {
			if f.Signature.Recv() == nil && core.Top(f).Signature.Recv() == nil {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					s, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					fa, ok := s.Addr.(*ssa.FieldAddr)
					if !ok || !types.Identical(core.Deref(fa.X.Type()), nt) {
						continue
					}
					fn := core.FieldName(fa.X, fa.Field)
					written[fn] = core.Deref(fa.Type())
				}
			}
		}
	}
	a, ok := flow.Strip(x.Inst).(*flow.Addr)
	if !ok {
		return
	}
	x.Init = map[string]flow.Val{}
	for f, t := range written {
		x.Init[f] = x.St.Load(&flow.Addr{Base: a.Base + "." + f, T: t, Alloc: true})
		x.St.Store(&flow.Addr{Base: a.Base + "." + f, T: t}, &flow.Sym{ID: "state:" + f, T: t})
	}
}

func allFuncs(p *ssa.Package) []*ssa.Function {
	var out []*ssa.Function
	var names []string
	for n := range p.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	add := func(f *ssa.Function) {
		if f != nil && f.Blocks != nil {
			out = append(out, core.WithClosures(f)...)
		}
	}
	for _, n := range names {
		switch m := p.Members[n].(type) {
		case *ssa.Function:
			add(m)
		case *ssa.Type:
			if nt, ok := m.Type().(*types.Named); ok {
				for i := 0; i < nt.NumMethods(); i++ {
					add(p.Prog.FuncValue(nt.Method(i)))
				}
			}
		}
	}
	return out
}

// method finds the implementation of a method on the instance.
func (x *emitted) method(name string) *ssa.Function {
	ms := types.NewMethodSet(x.InstT)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return x.M.Prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

// run follows a method of the instance. Arguments are opaque: "ctx" and "arg0", "arg1", ...
func (x *emitted) run(eng *flow.Engine, fn *ssa.Function) []*flow.Path {
	st := x.St.Fork()
	args := []flow.Val{flow.Strip(x.Inst)}
	for i := 1; i < len(fn.Params); i++ {
		t := fn.Params[i].Type()
		id := fmt.Sprintf("arg%d", i-2)
		if core.IsContext(t) {
			id = "ctx"
		}
		s := &flow.Sym{ID: id, T: t}
		if id == "ctx" {
			st.Assume(s, false)
		}
		args = append(args, s)
	}
	return eng.Run(fn, args, st)
}

func methodNames(it *types.Interface) []string {
	var out []string
	for i := 0; i < it.NumMethods(); i++ {
		out = append(out, it.Method(i).Name())
	}
	return out
}

// downstream: an interface call on something that offers the service.
func (g *genAll) downstream(ev *flow.Event) bool {
	if ev.Kind != "call" || !ev.Invoke {
		return false
	}
	it, ok := ev.Call.Common().Value.Type().Underlying().(*types.Interface)
	if !ok {
		return false
	}
	have := map[string]bool{}
	for i := 0; i < it.NumMethods(); i++ {
		have[it.Method(i).Name()] = true
	}
	for _, n := range methodNames(g.B.Sample.Iface) {
		if !have[n] {
			return false
		}
	}
	return true
}
