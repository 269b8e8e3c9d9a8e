package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/core"
	"verif/analyzer/flow"
)

// meth is one method of an emitted instance, followed along all its paths.
type meth struct {
	X     *emitted
	Name  string
	Of    string // the service interface, if not the schematic one
	Fn    *ssa.Function
	Sig   *types.Signature // of the sample's method
	Paths []*flow.Path
	Over  bool
	Depth int // how often a loop was followed
}

// site names the construct a report is about.
func (m *meth) site(what string) string {
	s := m.X.E.Name() + " " + m.Name
	if m.Of != "" {
		s += " for " + m.Of
	}
	if what != "" {
		s += " " + what
	}
	return s
}

// methods follows every method of the schematic service on the emitted instance.
func (g *genAll) methods(x *emitted) []*meth {
	if x.meths != nil {
		return x.meths
	}
	it := g.B.Sample.Iface
	for i := 0; i < it.NumMethods(); i++ {
		f := it.Method(i)
		m := &meth{X: x, Name: f.Name(), Sig: f.Type().(*types.Signature)}
		m.Fn = x.method(f.Name())
		if m.Fn != nil {
			for _, depth := range []int{24, 8, 6, 5, 4, 2} {
				eng := x.engine()
				eng.MaxFork, eng.MaxPath = depth, 1500
				m.Paths = x.run(eng, m.Fn)
				m.Over, m.Depth = eng.Over, depth
				if !m.Over {
					break
				}
			}
		}
		x.meths = append(x.meths, m)
	}
	return x.meths
}

// local: the instance forwards calls to a node (or a pool of them) in its own process.
func (x *emitted) local() bool {
	if x.Server {
		return false
	}
	return x.Down == "node" || x.Down == "nodes" || x.pool()
}

func (x *emitted) pool() bool {
	return x.Down == "none" && strings.HasPrefix(core.Short(x.E.PkgPath), "plugins/clientpool")
}

// wrapped reports whether v is a node the instance was built around.
func (x *emitted) wrapped(v flow.Val, before []*flow.Event) bool {
	v = flow.Strip(v)
	switch y := v.(type) {
	case *flow.Sym:
		if n, ok := strings.CutPrefix(y.ID, "node:"); ok {
			_, have := x.Gets[n]
			return have && strings.HasPrefix(n, "leaf_")
		}
	case *flow.App:
		if y.Op == "choose" {
			n := 0
			for _, a := range y.Args[:len(y.Args)-1] {
				if !x.wrapped(a, before) {
					return false
				}
				n++
			}
			want := 0
			for g := range x.Gets {
				if strings.HasPrefix(g, "leaf_") {
					want++
				}
			}
			return n == want
		}
	}
	for _, ev := range before {
		if poolCall(ev, "Pop") {
			if t, ok := ev.Res.(flow.Tuple); ok && len(t) == 2 && t[0].Key() == v.Key() {
				return true
			}
		}
	}
	return false
}

func poolCall(ev *flow.Event, m string) bool {
	return ev.Kind == "call" && ev.Method == m && strings.Contains(ev.Name, "runtime/plugins/clientpool.ClientPool")
}

func resErr(v flow.Val) (flow.Tuple, flow.Val) {
	if t, ok := v.(flow.Tuple); ok {
		if len(t) == 0 {
			return nil, nil
		}
		return t[:len(t)-1], t[len(t)-1]
	}
	return nil, v
}

// downs lists the calls to the wrapped service that happened before the method returned.
func (g *genAll) downs(p *flow.Path) []*flow.Event {
	var out []*flow.Event
	tr := p.St.Trace
	if p.How == "return" {
		tr = tr[:p.RetAt]
	}
	for _, ev := range tr {
		if g.downstream(ev) {
			out = append(out, ev)
		}
	}
	return out
}

// forwards checks what every path of a forwarding method must do.
func forwards(c *core.Ctx, g *genAll, m *meth) {
	x := m.X
	rule := func(r string) string { return r }
	if m.Fn == nil {
		c.Fail(rule("method-missing"), m.site(""), token.NoPos, "the emitted class has no method %s", m.Name)
		return
	}
	if m.Over {
		c.Fail("undecided", m.site(""), token.NoPos, "the emitted method has too many paths to follow")
		return
	}
	nArgs := m.Sig.Params().Len() - 1
	nRes := m.Sig.Results().Len() - 1
	fail := map[string]bool{}
	bad := func(r, format string, a ...any) {
		if !fail[r] {
			fail[r] = true
			c.Fail(rule(r), m.site(""), token.NoPos, "emitted method: "+format, a...)
		}
	}
	returns, reached := 0, false
	for _, p := range m.Paths {
		c.Ok("paths", m.site(""))
		ds := g.downs(p)
		all := ds
		if p.How == "return" {
			for _, ev := range p.St.Trace[p.RetAt:] {
				if g.downstream(ev) {
					all = append(all[:len(all):len(all)], ev)
				}
			}
		}
		if len(all) > 0 {
			reached = true
		}
		for i, d := range all {
			if d.Method != m.Name {
				bad("same-method", "it calls %s of the wrapped service", d.Method)
				continue
			}
			if !x.wrapped(d.Recv, p.St.Trace) {
				bad("same-service", "it calls %s on something other than the node it wraps: %s", d.Method, trunc(d.Recv.Key()))
			}
			if len(d.Args) < nArgs+1 {
				bad("arguments", "it passes %d arguments, %d expected", len(d.Args), nArgs+1)
				continue
			}
			if !p.St.Derives(d.Args[0], "ctx") {
				bad("context", "the context it passes on is not derived from the caller's: %s", trunc(d.Args[0].Key()))
			}
			for j := 0; j < nArgs; j++ {
				if flow.Strip(d.Args[j+1]).Key() != fmt.Sprintf("arg%d", j) {
					bad("arguments", "argument %d it passes on is %s", j, trunc(d.Args[j+1].Key()))
				}
			}
			_, derr := resErr(d.Res)
			if i < len(all)-1 && p.St.NilFact(derr) != -1 {
				bad("repeat", "it calls the wrapped service again after a call that did not fail")
			}
		}
		for _, ev := range p.St.Trace {
			if ev.Kind == "race" {
				bad("race", "a goroutine it starts and the method itself use %s at the same time", raceVar(ev))
			}
		}
		for range p.St.Queued() {
			bad("leak", "a goroutine it starts can stay blocked forever sending its result")
		}
		switch p.How {
		case "cut":
			continue
		case "panic":
			bad("panic", "it can panic")
			continue
		}
		returns++
		if len(p.Ret) < nRes+1 {
			bad("results", "it returns %d results", len(p.Ret))
			continue
		}
		err := p.Ret[len(p.Ret)-1]
		if len(ds) == 0 {
			if p.St.NilFact(err) != -1 {
				bad("fabricated", "it can return without calling the wrapped service and without an error")
			}
			continue
		}
		last := ds[len(ds)-1]
		dres, derr := resErr(last.Res)
		same := func() bool {
			if len(dres) < nRes {
				return false
			}
			for j := 0; j < nRes; j++ {
				if flow.Strip(p.Ret[j]).Key() != flow.Strip(dres[j]).Key() {
					return false
				}
			}
			return true
		}
		passes := err.Key() == derr.Key() || p.St.Derives(err, derr.Key())
		switch p.St.NilFact(derr) {
		case 1:
			// succeeded: its results, and no error, unless the method reports a failure of its own
			if p.St.NilFact(err) == 1 || passes {
				if !same() {
					bad("results", "after a successful call it returns other results than the call gave: %s", trunc(p.Ret.Key()))
				}
			} else if p.St.NilFact(err) != -1 {
				bad("error", "after a successful call it returns the error %s", trunc(err.Key()))
			}
		case -1:
			if p.St.NilFact(err) != -1 && !passes {
				bad("error", "after a failed call it returns the error %s", trunc(err.Key()))
			}
		default:
			if !passes {
				bad("error", "it returns the error %s without regard to the error of the call", trunc(err.Key()))
			}
			if !same() {
				bad("results", "it returns other results than the call gave: %s", trunc(p.Ret.Key()))
			}
		}
	}
	if returns == 0 || !reached {
		bad("unreached", "no path calls the wrapped service and returns")
	}
	if len(fail) == 0 {
		c.Ok("methods", m.site(""))
	}
}

func raceVar(ev *flow.Event) string { return "the variable in " + ev.Fn.Name() }

func init() {
	register(&Check{
		ID:    "G01",
		Rules: "Every wrapper generator is expanded for a schematic service and the emitted class is followed path by path: each call goes to the same method of the wrapped node with the caller's arguments in order and a context derived from the caller's; a successful call ends the method with exactly its results; a failed call surfaces an error; no path fabricates success, repeats a successful call, panics, races with or leaks a goroutine.",
		Run: func(c *core.Ctx) {
			g := generated(c)
			for _, x := range g.Es {
				if len(x.E.Files) > 0 && x.M != nil && x.Inst != nil && !x.local() {
					continue
				}
				if !x.usable(c) {
					continue
				}
				for _, m := range g.methods(x) {
					forwards(c, g, m)
				}
			}
			for _, s := range shapes(c) {
				if s.Shape.Group != "" {
					continue
				}
				g := &genAll{B: s.B, Es: s.Es}
				for _, x := range g.Es {
					if x.E.Failed != "" || len(x.E.Files) > 0 && x.M != nil && x.Inst != nil && !x.local() || !x.usable(c) {
						continue
					}
					for _, m := range g.methods(x) {
						m.Of = s.Shape.Label
						forwards(c, g, m)
					}
				}
			}
			c.Floor("methods", 60)
		},
	})
}
