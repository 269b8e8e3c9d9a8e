package checks

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/core"
	"verif/analyzer/flow"
)

const specType = "blueprint/pkg/wiring.WiringSpec"
const nsType = "blueprint/pkg/wiring.Namespace"

// wiringFn is one exported wiring option of a plugin, followed along all its paths with its
// parameters opaque ("p0" is the spec, "p1" usually the service name, and so on).
type wiringFn struct {
	Fn    *ssa.Function
	Name  string
	Paths []*flow.Path
	Over  bool
	Defs  []*wiringDef
}

// wiringDef is one node definition made on one of those paths.
type wiringDef struct {
	W       *wiringFn
	Outer   *flow.Path
	Def     *flow.Event // the call of Define
	Builder *flow.Func
	Paths   []*flow.Path // of the build function
	Over    bool
}

func wiringEngine(c *core.Ctx, pkg string) *flow.Engine {
	e := flow.New(c.P.SSA)
	e.Inline = func(f *ssa.Function) bool {
		p := core.PkgOf(f)
		if !strings.HasPrefix(p, "plugins/") {
			return false
		}
		if p != pkg && !takesSpec(f) && token.IsExported(f.Name()) {
			return false
		}
		if r := f.Signature.Results(); r.Len() > 0 {
			// constructors of nodes stay calls
			if n, ok := core.Deref(r.At(0).Type()).(*types.Named); ok {
				if _, isP := r.At(0).Type().(*types.Pointer); isP && f.Signature.Recv() == nil && isNode(n) {
					return false
				}
			}
		}
		return true
	}
	return e
}

func isNode(n *types.Named) bool {
	ms := types.NewMethodSet(types.NewPointer(n))
	return ms.Lookup(nil, "Name") != nil && (ms.Lookup(nil, "ImplementsGolangNode") != nil || ms.Lookup(nil, "String") != nil)
}

// wiringFns follows every exported wiring option of the plugins.
func wiringFns(c *core.Ctx) []*wiringFn {
	return core.Memo(c, "wiringFns", func() []*wiringFn {
		var out []*wiringFn
		for _, f := range c.Under("plugins") {
			if f.Parent() != nil || f.Signature.Recv() != nil || f.Object() == nil || !f.Object().Exported() || len(f.Params) == 0 {
				continue
			}
			if f.Origin() != nil && f.Origin() != f {
				continue
			}
			if core.TypeName(f.Params[0].Type()) != specType || core.InPkg(f, "plugins/xtrace") {
				continue
			}
			w := &wiringFn{Fn: f, Name: core.Name(f)}
			out = append(out, w)
			e := wiringEngine(c, core.PkgOf(f))
			st := flow.NewState()
			var args []flow.Val
			for i, p := range f.Params {
				s := &flow.Sym{ID: fmt.Sprintf("p%d", i), T: p.Type()}
				if i == 0 {
					st.Assume(s, false)
				}
				args = append(args, s)
			}
			w.Paths = e.Run(f, args, st)
			w.Over = e.Over
			for _, p := range w.Paths {
				if p.How != "return" {
					continue
				}
				for _, ev := range p.St.Trace {
					if ev.Kind != "call" || ev.Method != "Define" || !ev.Invoke || len(ev.Args) < 3 {
						continue
					}
					b, ok := flow.Strip(ev.Args[2]).(*flow.Func)
					if !ok {
						continue
					}
					d := &wiringDef{W: w, Outer: p, Def: ev, Builder: b}
					be := wiringEngine(c, core.PkgOf(f))
					be.Model = func(e *flow.Engine, st *flow.State, ev *flow.Event) ([]flow.Out, bool) {
						if ev.Invoke && (ev.Method == "Get" || ev.Method == "Instantiate") && len(ev.Args) == 2 {
							a, ok := flow.Strip(ev.Args[1]).(*flow.Addr)
							if !ok {
								return nil, false
							}
							fail := st.Fresh("geterr", core.ErrorType)
							return []flow.Out{
								{Res: fail, Set: func(s *flow.State) { s.Assume(fail, false) }},
								{Res: flow.NilV{}, Set: func(s *flow.State) {
									v := &flow.Sym{ID: "got:" + flow.Strip(ev.Args[0]).Key(), T: a.T}
									s.Store(a, v)
									s.Assume(v, false)
								}},
							}, true
						}
						return nil, false
					}
					st := p.St.Fork()
					ns := &flow.Sym{ID: "ns", T: b.Fn.Params[0].Type()}
					st.Assume(ns, false)
					// run the build function with the variables it captured
					d.Paths = be.RunFunc(b, []flow.Val{ns}, st)
					d.Over = be.Over
					w.Defs = append(w.Defs, d)
				}
			}
		}
		return out
	})
}

// madeNode is a call on a build path that makes a node of type t, and its arguments by parameter name;
// for a node made as a literal, its fields by name.
func madeNode(p *flow.Path, t *types.Named) map[string]flow.Val {
	if p.How != "return" || len(p.Ret) != 2 {
		return nil
	}
	v := flow.Strip(p.Ret[0])
	for _, ev := range p.St.Trace {
		if ev.Kind != "call" || ev.Call == nil {
			continue
		}
		sig := ev.Call.Common().Signature()
		if sig.Results().Len() == 0 || !types.Identical(core.Deref(sig.Results().At(0).Type()), t) {
			continue
		}
		r := ev.Res
		if tp, ok := r.(flow.Tuple); ok && len(tp) > 0 {
			r = tp[0]
		}
		if flow.Strip(r).Key() != v.Key() {
			continue
		}
		out := map[string]flow.Val{}
		for i := 0; i < sig.Params().Len() && i < len(ev.Args); i++ {
			out[sig.Params().At(i).Name()] = ev.Args[i]
		}
		return out
	}
	a, ok := v.(*flow.Addr)
	if !ok || a.T == nil || !types.Identical(a.T, t) {
		return nil
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	out := map[string]flow.Val{}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		out[f.Name()] = p.St.Load(&flow.Addr{Base: a.Base + "." + f.Name(), T: f.Type(), Alloc: a.Alloc})
	}
	return out
}

// option finds the constructor parameter of node t that the i-th parameter of wiring option w reaches.
// ok is false if it reaches none, or reaches it changed.
func option(w *wiringFn, t *types.Named, i int) (name string, ok bool, why string) {
	want := fmt.Sprintf("p%d", i)
	found := map[string]bool{}
	n := 0
	for _, d := range w.Defs {
		for _, p := range d.Paths {
			m := madeNode(p, t)
			if m == nil {
				continue
			}
			n++
			var ks []string
			for k := range m {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				v := flow.Strip(m[k])
				if v.Key() == want {
					found[k] = true
				} else if a, isA := v.(*flow.App); isA && flow.Mentions(v, want) && carries(a, want) {
					found[k] = true
				}
			}
		}
	}
	var ks []string
	for k := range found {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	switch {
	case n == 0:
		return "", false, "no path of the option makes the node"
	case len(ks) == 0:
		return "", false, "the value does not reach the node"
	case len(ks) > 1:
		return "", false, "the value reaches " + strings.Join(ks, " and ")
	}
	return ks[0], true, ""
}

// carries: a rendering of the value that loses nothing (a number as a decimal string).
func carries(a *flow.App, want string) bool {
	switch a.Op {
	case "strconv.FormatInt", "strconv.Itoa", "fmt.Sprint", "fmt.Sprintf", "strconv.FormatFloat", "conv":
	default:
		if !strings.HasPrefix(a.Op, "conv") {
			return false
		}
	}
	for _, x := range a.Args {
		s := flow.Strip(x)
		if s.Key() == want {
			continue
		}
		if in, ok := s.(*flow.App); ok && carries(in, want) {
			continue
		}
		if c, ok := s.(flow.Const); ok {
			if c.V.Kind() == constant.Int {
				continue
			}
			if c.V.Kind() == constant.String && (constant.StringVal(c.V) == "%d" || constant.StringVal(c.V) == "%v") {
				continue
			}
		}
		return false
	}
	return true
}
