package checks

import (
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/core"
	"verif/analyzer/flow"
)

func init() {
	register(&Check{
		ID: "R12",
		Rules: "Every path of histories of registering clients, selecting one and getting it, with opaque build functions: " +
			"selects: the client that is built is the selected one, or the first that was registered; an unknown one, or none at all, is an error and builds nothing; " +
			"builds: it is built with the context of the first to ask, once, and everyone gets that instance, or the error of building it, whatever is registered later.",
		Run: runR12,
	})
}

type regState struct {
	st    *flow.State
	told  string
	def   string
	names []string
	how   string   // "", "built", "failed"
	got   flow.Val // what the first Get gave
	err   flow.Val
}

func runR12(c *core.Ctx) {
	r := newRT(c, "runtime/core/registry")
	pkg := "runtime/core/registry"
	mk := r.fn(pkg, "NewServiceRegistry")
	var get, reg, sel *ssa.Function
	for _, f := range c.Under(pkg) {
		if f.Signature.Recv() == nil || f.Origin() != nil && f.Origin() != f || f.Parent() != nil || !strings.HasPrefix(core.Name(f), "(*"+pkg+".ServiceRegistry") {
			continue
		}
		switch f.Name() {
		case "Get":
			get = f
		case "Register":
			reg = f
		case "SetDefault":
			sel = f
		}
	}
	if mk == nil || get == nil || reg == nil || sel == nil {
		c.Fail("undecided", pkg, 0, "the registry is not there")
		return
	}
	if mk.Origin() != nil {
		mk = mk.Origin()
	}
	r.model = func(e *flow.Engine, st *flow.State, ev *flow.Event) ([]flow.Out, bool) {
		if s, ok := flow.Strip(ev.Target).(*flow.Sym); ok && strings.HasPrefix(s.ID, "build:") {
			rs := resultTypes(ev)
			v := st.Fresh("client", rs[0])
			z := st.Fresh("partial", rs[0])
			return []flow.Out{{Res: flow.Tuple{v, flow.NilV{}}}, {Res: flow.Tuple{z, errVal("error:build")}}}, true
		}
		return nil, false
	}
	st := flow.NewState()
	ps := r.step(st, mk, r.in(st, "regname", paramType(mk, 0)))
	if len(ps) == 0 {
		c.Fail("undecided", core.Name(mk), mk.Pos(), "what the constructor returns is not known")
		return
	}
	obj, st := ps[0].Ret[0], ps[0].St
	n := 0
	var run func(s regState, depth int)
	run = func(s regState, depth int) {
		n++
		// ask
		ctx := r.in(s.st, "ctx", paramType(get, 1))
		var next []regState
		gave := map[string]bool{}
		for _, p := range r.step(s.st, get, obj, ctx) {
			c.Ok("builds", s.told)
			var calls []*flow.Event
			for _, ev := range during(p) {
				if t, ok := flow.Strip(ev.Target).(*flow.Sym); ev.Kind == "call" && ok && strings.HasPrefix(t.ID, "build:") {
					calls = append(calls, ev)
				}
			}
			known := false
			for _, m := range s.names {
				known = known || m == s.def
			}
			switch {
			case s.how != "":
				if len(calls) > 0 {
					r.bad(get, p, "builds", "a client is built again")
				} else if !sameVal(p.Ret[0], s.got) || !sameVal(p.Ret[1], s.err) {
					r.bad(get, p, "builds", "a later caller is not given what the first was")
				}
				gave["ok"] = true
			case !known:
				if len(calls) > 0 {
					r.bad(get, p, "selects", "a client is built that was not selected")
				}
				if succeeded(p) != -1 {
					r.bad(get, p, "selects", "there is no such client and the caller is not told")
				}
				gave["ok"] = true
			case len(calls) != 1:
				r.bad(get, p, "builds", "the client is built %d times", len(calls))
			case flow.Strip(calls[0].Target).Key() != "build:"+s.def:
				r.bad(get, p, "selects", "the client that is built is not the selected one")
			case !sameVal(calls[0].Args[0], ctx):
				r.bad(get, p, "builds", "it is built with a context that is not the caller's")
			default:
				res := calls[0].Res.(flow.Tuple)
				failed := p.St.NilFact(res[1]) == -1
				if succeeded(p) == 0 || failed != (succeeded(p) == -1) || !failed && !sameVal(p.Ret[0], res[0]) || failed && !p.St.Derives(p.Ret[1], res[1].Key()) {
					r.bad(get, p, "builds", "the caller is not given the client that was built")
					continue
				}
				o := s
				o.st, o.got, o.err, o.how, o.told = p.St, p.Ret[0], p.Ret[1], "built", s.told+", get"
				if failed {
					o.how, o.told = "failed", s.told+", get that fails"
				}
				gave["ok"] = true
				next = append(next, o)
			}
		}
		if !gave["ok"] {
			r.bad(get, nil, "undecided", "a get never ends")
		}
		if depth == 0 {
			for _, o := range next {
				run(o, 0)
			}
			return
		}
		if s.how == "" {
			for _, o := range next {
				run(o, 0)
				run(o, 1)
			}
		}
		for _, op := range []string{"register a", "register b", "select b", "select z"} {
			o := s
			o.told += ", " + op
			name := op[len(op)-1:]
			f, args := sel, []flow.Val{obj, kstr(name)}
			if strings.HasPrefix(op, "register") {
				f, args = reg, append(args, r.in(s.st, "build:"+name, paramType(reg, 2)))
				if o.def == "" {
					o.def = name
				}
				o.names = append(o.names[:len(o.names):len(o.names)], name)
			} else {
				o.def = name
			}
			ps := r.step(s.st, f, args...)
			for _, p := range ps {
				o.st = p.St
				run(o, depth-1)
			}
		}
	}
	run(regState{st: st, told: "new"}, 3)
	c.Count("histories", n)
	c.Floor("builds", 60)
}
