package checks

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/core"
	"verif/analyzer/flow"
)

// rt follows sequences of calls on an object of the runtime library, from its constructor on.
type rt struct {
	c     *core.Ctx
	pkgs  []string
	told  map[string]bool
	model func(e *flow.Engine, st *flow.State, ev *flow.Event) ([]flow.Out, bool)
	inl   func(f *ssa.Function) bool
	share func(base string) bool
	fork  int
}

func newRT(c *core.Ctx, pkgs ...string) *rt {
	return &rt{c: c, pkgs: pkgs, told: map[string]bool{}, fork: 4}
}

// prints: calls that only report.
func prints(name string) bool {
	for _, p := range []string{"fmt.Print", "fmt.Fprint", "log.Print", "log.Default", "(*log.Logger).Print", "golang.org/x/exp/slog.", "log/slog.", "reflect.TypeOf"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func (r *rt) engine() *flow.Engine {
	e := flow.New(r.c.P.SSA)
	e.MaxFork = r.fork
	e.AllLate = true
	e.NoHavoc = func(t types.Type) bool { // what is not exported changes only in the package
		for _, p := range r.pkgs {
			if strings.HasPrefix(core.TypeName(t), p) && !types.IsInterface(t) {
				return true
			}
		}
		return false
	}
	e.Shared = r.share
	e.Inline = func(f *ssa.Function) bool {
		return core.InPkg(f, r.pkgs...) && (r.inl == nil || r.inl(f))
	}
	e.Model = func(e *flow.Engine, st *flow.State, ev *flow.Event) ([]flow.Out, bool) {
		if r.model != nil {
			if o, ok := r.model(e, st, ev); ok {
				return o, true
			}
		}
		if ev.Call != nil && prints(ev.Name) {
			res := ev.Call.Common().Signature().Results()
			switch res.Len() {
			case 0:
				return []flow.Out{{Res: flow.Tuple{}}}, true
			case 1:
				return []flow.Out{{Res: flow.MkApp(ev.Name, res.At(0).Type(), ev.Args...)}}, true
			}
		}
		return nil, false
	}
	return e
}

func (r *rt) bad(fn *ssa.Function, p *flow.Path, rule, format string, a ...any) {
	reporterFor(r.c, r.told, fn, p)(rule, format, a...)
}

// fn finds a function; its absence leaves the property undecided.
func (r *rt) fn(pkg, name string) *ssa.Function {
	f := r.c.Func(pkg, name)
	if f == nil {
		r.c.Fail("undecided", pkg+"."+name, 0, "the function is not there")
	}
	return f
}

// step follows one call and returns the ways it can return.
func (r *rt) step(st *flow.State, fn *ssa.Function, args ...flow.Val) []*flow.Path {
	if fn == nil {
		return nil
	}
	e := r.engine()
	ps := e.Run(fn, args, st.Fork())
	if e.Over || len(ps) == 0 {
		r.bad(fn, nil, "undecided", "the function cannot be followed")
	}
	var out []*flow.Path
	for _, p := range ps {
		switch p.How {
		case "return":
			out = append(out, p)
		case "panic":
			if n := len(p.St.Trace); n > 0 && p.St.Trace[n-1].Kind == "badassert" {
				r.bad(fn, p, "panics", "it panics when a value does not have the type it expects")
			} else {
				r.bad(fn, p, "panics", "it can panic")
			}
		}
	}
	return out
}

func kstr(s string) flow.Val { return flow.Const{V: constant.MakeString(s)} }
func kint(n int64) flow.Val  { return flow.Const{V: constant.MakeInt64(n)} }

// in makes an input that is not nil.
func (r *rt) in(st *flow.State, id string, t types.Type) *flow.Sym {
	s := &flow.Sym{ID: id, T: t}
	st.Assume(s, false)
	return s
}

// succeeded: the last result, an error, is nil (1), not nil (-1) or not known (0).
func succeeded(p *flow.Path) int {
	if len(p.Ret) == 0 {
		return 1
	}
	return p.St.NilFact(p.Ret[len(p.Ret)-1])
}

// param gives the type of a parameter, counting the receiver.
func paramType(fn *ssa.Function, i int) types.Type {
	if i < len(fn.Params) {
		return fn.Params[i].Type()
	}
	return nil
}

func unlocks(ev *flow.Event) bool {
	return ev.Kind == "call" && strings.HasPrefix(ev.Name, "(*sync.") && strings.HasSuffix(ev.Name, "nlock")
}

func locks(ev *flow.Event) bool {
	return ev.Kind == "call" && strings.HasPrefix(ev.Name, "(*sync.") && (strings.HasSuffix(ev.Name, ").Lock") || strings.HasSuffix(ev.Name, ").RLock"))
}
