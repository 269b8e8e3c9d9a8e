package checks

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"verif/analyzer/core"
	"verif/analyzer/emit"
	"verif/analyzer/flow"
)

// delayed: the call waits for exactly the configured latency before the service sees it.
func delayed(arg int) func(c *core.Ctx, g *genAll, w *wiringFn, x *emitted) {
	return func(c *core.Ctx, g *genAll, w *wiringFn, x *emitted) {
		k, ok := configured(c, x, w, arg)
		if !ok {
			return
		}
		d, ok := duration(k)
		if !ok {
			c.Fail("undecided", w.Name, w.Fn.Pos(), "the latency %s is not a duration", k)
			return
		}
		g.each(c, x, func(m *meth, p *flow.Path, bad func(string, string, ...any)) {
			call := g.firstCall(p)
			sum := lin(flow.Const{V: num(0)})
			for _, w := range waits(p) {
				if call != nil && w.At > call.At {
					bad("latency", "it pauses after the call")
				}
				sum = sum.plus(lin(w.V), 1)
			}
			if call == nil {
				if !cancelled(p) {
					bad("latency", "it does not call the wrapped service")
				}
				return
			}
			if v, ok := sum.konst(); !ok || !numEq(v, num(d)) {
				bad("latency", "it pauses for %s ns before the call; configured are %d", sum.C, d)
			}
		})
	}
}

// randomDelay: the call waits between nothing and the configured number of milliseconds.
func randomDelay(arg int) func(c *core.Ctx, g *genAll, w *wiringFn, x *emitted) {
	return func(c *core.Ctx, g *genAll, w *wiringFn, x *emitted) {
		k, ok := configured(c, x, w, arg)
		if !ok {
			return
		}
		max := constant.BinaryOp(k, token.MUL, num(1e6))
		g.each(c, x, func(m *meth, p *flow.Path, bad func(string, string, ...any)) {
			call := g.firstCall(p)
			ws := waits(p)
			if call == nil {
				if !cancelled(p) {
					bad("delay", "it does not call the wrapped service")
				}
				return
			}
			if len(ws) != 1 || ws[0].At > call.At {
				bad("delay", "it pauses %d times; one pause before the call is asked for", len(ws))
				return
			}
			lo, hi, rnd, ok := interval(p.St, ws[0].V)
			switch {
			case !rnd:
				bad("delay", "the pause is not random")
			case !ok:
				bad("delay", "the pause has no known bounds: %s", trunc(ws[0].V.Key()))
			case constant.Sign(lo) != 0:
				bad("delay", "the pause is at least %s ns", lo)
			case constant.Compare(constant.BinaryOp(hi, token.SUB, num(1e6)), token.GTR, max):
				bad("delay", "the pause can reach %s ns; configured are %s", hi, max)
			case constant.Compare(hi, token.LSS, max):
				bad("delay", "the pause stays below %s ns; configured are %s", hi, max)
			}
		})
	}
}

// induced: of all values of the random draw, the configured percentage fails the call.
func induced(arg int) func(c *core.Ctx, g *genAll, w *wiringFn, x *emitted) {
	return func(c *core.Ctx, g *genAll, w *wiringFn, x *emitted) {
		k, ok := configured(c, x, w, arg)
		if !ok {
			return
		}
		pct, ok := isInt(k)
		if !ok {
			c.Fail("undecided", w.Name, w.Fn.Pos(), "the probability is not a number")
			return
		}
		for _, m := range g.methods(x) {
			if m.Fn == nil || m.Over {
				c.Fail("undecided", m.site(""), token.NoPos, "the emitted method cannot be followed")
				continue
			}
			// the draw
			var draw flow.Val
			var n int64
			many := false
			for _, p := range m.Paths {
				for _, ev := range during(p) {
					if ev.Kind == "call" && strings.HasPrefix(ev.Name, "math/rand") || ev.Kind == "call" && strings.HasPrefix(ev.Name, "(*math/rand") {
						if draw != nil && draw.Key() != ev.Res.Key() {
							many = true
						}
						draw = ev.Res
						n = 0
						if len(ev.Args) == 1 {
							if v, ok := lin(ev.Args[0]).konst(); ok {
								n, _ = isInt(v)
							}
						}
						if strings.HasSuffix(ev.Name, "Float64") || strings.HasSuffix(ev.Name, "Float32") {
							n = -1
						}
					}
				}
			}
			if draw == nil || many || n == 0 || n > 1e6 {
				c.Fail("probability", m.site(""), token.NoPos, "emitted method: it does not draw one random number of a known range")
				continue
			}
			steps := n
			if n < 0 {
				steps = 10000
			}
			fails, errs := int64(0), ""
			for i := int64(0); i < steps; i++ {
				v := num(i)
				if n < 0 {
					v = constant.BinaryOp(constant.ToFloat(num(2*i+1)), token.QUO, constant.ToFloat(num(2*steps)))
				}
				hit := 0
				for _, p := range m.Paths {
					if p.How != "return" || !consistent(p, draw, v) {
						continue
					}
					if g.firstCall(p) == nil {
						hit |= 1
						if p.St.NilFact(retErr(p)) != -1 {
							errs = "it may return without an error although it does not call the wrapped service"
						}
					} else {
						hit |= 2
					}
				}
				switch hit {
				case 1:
					fails++
				case 3:
					errs = "whether a call fails does not depend on the random number alone"
				case 0:
					errs = "for some random numbers nothing is decided"
				}
			}
			c.Count("draws", int(steps))
			switch {
			case errs != "":
				c.Fail("probability", m.site(""), token.NoPos, "emitted method: %s", errs)
			case fails*100 != pct*steps && !(n < 0 && abs(fails*100-pct*steps) <= 100):
				c.Fail("probability", m.site(""), token.NoPos, "emitted method: %d of %d draws fail the call; configured are %d percent", fails, steps, pct)
			default:
				c.Ok("methods", m.site(""))
			}
		}
	}
}

func abs(i int64) int64 {
	if i < 0 {
		return -i
	}
	return i
}

// consistent: no condition of the path contradicts the draw having the value v.
func consistent(p *flow.Path, draw flow.Val, v constant.Value) bool {
	for _, c := range p.St.Conds {
		a, ok := c.V.(*flow.App)
		if !ok || len(a.Args) != 2 {
			continue
		}
		d := lin(a.Args[0]).plus(lin(a.Args[1]), -1)
		coef, has := d.T[flow.Strip(draw).Key()]
		if !has || len(d.T) != 1 {
			continue
		}
		x := constant.BinaryOp(d.C, token.ADD, constant.BinaryOp(coef, token.MUL, v))
		var holds bool
		switch a.Op {
		case "<":
			holds = constant.Sign(x) < 0
		case "==":
			holds = constant.Sign(x) == 0
		default:
			continue
		}
		if holds != c.B {
			return false
		}
	}
	return true
}

// healthy: the health method answers without the service.
func healthy(c *core.Ctx, g *genAll, w *wiringFn, x *emitted) {
	fn := x.method("Health")
	site := x.E.Name() + " Health"
	if fn == nil {
		c.Fail("health", site, token.NoPos, "the emitted class has no Health method")
		return
	}
	for _, p := range x.run(x.engine(), fn) {
		if p.How != "return" || len(p.Ret) != 2 {
			c.Fail("health", site, token.NoPos, "emitted method: it ends with a %s", p.How)
			continue
		}
		k, ok := flow.Strip(p.Ret[0]).(flow.Const)
		if !ok || k.V.Kind() != constant.String || constant.StringVal(k.V) != "Healthy" || p.St.NilFact(p.Ret[1]) != 1 {
			c.Fail("health", site, token.NoPos, "emitted method: the answer is not \"Healthy\" without an error")
			continue
		}
		c.Ok("health", site)
	}
	// the interface offered to clients has it, next to the service's own methods
	d := x.E.Decl
	if d == nil {
		c.Fail("health", site, token.NoPos, "the interface the wrapper offers is not known")
		return
	}
	for _, n := range append(methodNames(g.B.Sample.Iface), "Health") {
		if !d.Methods[n] {
			c.Fail("health", site, token.NoPos, "the interface the wrapper offers to clients has no %s method", n)
		}
	}
	for _, s := range shapes(c) {
		for _, y := range s.Es {
			if y.E.Name() != x.E.Name() || y.E.Failed != "" || y.E.Decl == nil {
				continue
			}
			for _, n := range append(methodNames(s.B.Sample.Iface), "Health") {
				if !y.E.Decl.Methods[n] {
					c.Fail("health", site, token.NoPos, "for a service with %s, the interface the wrapper offers to clients has no %s method", s.Shape.Label, n)
				}
			}
			c.Ok("health", site+" for "+s.Shape.Label)
		}
	}
}

// roundRobin: over any number of calls the replicas take turns.
func roundRobin(c *core.Ctx, g *genAll, x *emitted) {
	var reps []string
	for n := range x.Gets {
		if strings.HasPrefix(n, "leaf_") {
			reps = append(reps, "node:"+n)
		}
	}
	for _, m := range g.methods(x) {
		if m.Fn == nil {
			c.Fail("undecided", m.site(""), token.NoPos, "the emitted method cannot be followed")
			continue
		}
		st := x.St.Fork()
		a, _ := flow.Strip(x.Inst).(*flow.Addr)
		for f, v := range x.Init {
			st.Store(&flow.Addr{Base: a.Base + "." + f, T: flow.TypeOf(v)}, v)
		}
		undecided := ""
		round := func(n int) []string {
			var got []string
			for i := 0; i < n && undecided == ""; i++ {
				eng := x.engine()
				eng.Model = sequentialAtomics
				args := []flow.Val{flow.Strip(x.Inst)}
				for j := 1; j < len(m.Fn.Params); j++ {
					id := "arg" + itoa(j-2)
					if j == 1 {
						id = "ctx"
					}
					s := &flow.Sym{ID: id, T: m.Fn.Params[j].Type()}
					if j == 1 {
						st.Assume(s, false)
					}
					args = append(args, s)
				}
				var next *flow.State
				to := ""
				for _, p := range eng.Run(m.Fn, args, st.Fork()) {
					if p.How != "return" {
						undecided = "it ends with a " + p.How
						continue
					}
					as := g.attempts(p)
					if len(as) != 1 {
						undecided = "it makes " + itoa(len(as)) + " calls"
						continue
					}
					r := flow.Strip(as[0].Ev.Recv).Key()
					if to != "" && to != r {
						undecided = "which replica takes a call is not determined"
					}
					to = r
					next = p.St
				}
				if next == nil {
					break
				}
				got = append(got, to)
				c.Ok("calls", m.site(itoa(i)))
				st = next.Fork()
			}
			return got
		}
		turns := func(got []string) bool {
			for i := 0; i+len(reps) <= len(got); i++ {
				seen := map[string]bool{}
				for _, r := range got[i : i+len(reps)] {
					seen[r] = true
				}
				for _, r := range reps {
					if !seen[r] {
						return false
					}
				}
			}
			return len(reps) > 1
		}
		got := round(2 * len(reps))
		before := st.Fork()
		got = append(got, round(len(reps))...)
		// a counter that keeps growing wraps around one day
		for _, k := range st.Cells(a.Base) {
			v0, ok0 := before.Mem[k].(flow.Const)
			v1, ok1 := st.Mem[k].(flow.Const)
			bits, _ := flow.Width(cellType(flow.TypeOf(x.Inst), strings.TrimPrefix(k, a.Base)))
			if !ok0 || !ok1 || bits == 0 || v0.Key() == v1.Key() || undecided != "" {
				continue
			}
			step := constant.BinaryOp(constant.BinaryOp(v1.V, token.SUB, v0.V), token.QUO_ASSIGN, num(int64(len(reps))))
			if constant.Sign(step) == 0 {
				continue
			}
			// the ends of the ranges it can pass, until it stops growing
			at := st.Fork()
			for _, b := range []uint{7, 8, 15, 16, 31, 32} {
				end := constant.BinaryOp(constant.Shift(num(1), token.SHL, b), token.SUB, num(1))
				if constant.Sign(step) < 0 {
					end = constant.BinaryOp(num(-1), token.SUB, end)
				}
				n := constant.BinaryOp(constant.BinaryOp(constant.BinaryOp(end, token.SUB, v1.V), token.QUO_ASSIGN, step), token.SUB, num(int64(len(reps))))
				if b > bits || constant.Sign(n) < 0 {
					continue
				}
				st = at.Fork()
				st.Mem[k] = flow.Const{V: constant.BinaryOp(v1.V, token.ADD, constant.BinaryOp(n, token.MUL, step))}
				late := round(3 * len(reps))
				if undecided == "" && !turns(late) {
					c.Fail("round-robin", m.site(""), token.NoPos, "emitted method: when %s reaches the end of a range of %d bits, after %s calls, consecutive calls go to %s; every replica should take its turn", k, b, n, strings.Join(late, ", "))
					undecided = "-"
				}
				now, ok := st.Mem[k].(flow.Const)
				if !ok || undecided != "" || constant.Compare(now.V, token.GTR, end) != (constant.Sign(step) > 0) {
					break // it has started over
				}
			}
			st = at
		}
		if undecided == "-" {
			continue
		}
		if undecided != "" {
			c.Fail("round-robin", m.site(""), token.NoPos, "emitted method: %s", undecided)
			continue
		}
		ok := len(got) == 3*len(reps) && turns(got)
		if !ok {
			c.Fail("round-robin", m.site(""), token.NoPos, "emitted method: consecutive calls go to %s; every replica should take its turn", strings.Join(got, ", "))
		} else {
			c.Ok("methods", m.site(""))
		}
	}
}

// cellType is the type of the cell at a path below a value of type t.
func cellType(t types.Type, path string) types.Type {
	for _, f := range strings.Split(strings.TrimPrefix(path, "."), ".") {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			return types.Typ[types.Invalid]
		}
		var next types.Type
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == f {
				next = s.Field(i).Type()
			}
		}
		if next == nil {
			return types.Typ[types.Invalid]
		}
		t = next
	}
	return t
}

// sequentialAtomics gives atomic operations their sequential meaning.
func sequentialAtomics(e *flow.Engine, st *flow.State, ev *flow.Event) ([]flow.Out, bool) {
	name := ev.Name
	var cell *flow.Addr
	var args []flow.Val
	switch {
	case strings.HasPrefix(name, "sync/atomic."):
		if len(ev.Args) == 0 {
			return nil, false
		}
		cell, _ = flow.Strip(ev.Args[0]).(*flow.Addr)
		args = ev.Args[1:]
	case strings.HasPrefix(name, "(*sync/atomic."):
		a, _ := flow.Strip(ev.Recv).(*flow.Addr)
		if a == nil {
			return nil, false
		}
		r := ev.Call.Common().Signature().Results()
		if r.Len() == 0 {
			return nil, false
		}
		cell = &flow.Addr{Base: a.Base + ".v", T: r.At(0).Type(), Alloc: true}
		args = ev.Args
	}
	if cell == nil {
		return nil, false
	}
	cur := st.Load(cell)
	switch {
	case strings.HasPrefix(ev.Method, "Add") && len(args) == 1:
		var v flow.Val = flow.MkApp("+", cell.T, cur, args[0])
		if k, ok := lin(v).konst(); ok {
			v = flow.Const{V: flow.Wrap(k, cell.T)}
		}
		return []flow.Out{{Res: v, Set: func(s *flow.State) { s.Store(cell, v) }}}, true
	case strings.HasPrefix(ev.Method, "Load"):
		return []flow.Out{{Res: cur}}, true
	}
	return nil, false
}

func init() {
	register(&Check{
		ID:    "G09",
		Rules: "With each wiring argument traced to the emitted code: a fixed latency is the exact sum of the pauses before the call on every path; a random delay is one pause whose bounds, by interval analysis of the random draw, are zero and the configured maximum; an induced failure does not call the service and returns a non-nil error for exactly the configured percentage of the values of the draw; the health method answers without an error and is part of the interface offered to clients.",
		Run: func(c *core.Ctx) {
			runRules(c, []modRule{
				{"latency.AddFixed", "latency", delayed(2)},
				{"faultinjector.AddRandomDelay", "faultinjector/delay", randomDelay(2)},
				{"faultinjector.AddProbabilisticFailures", "faultinjector/probabilistic", induced(2)},
				{"healthchecker.AddHealthCheckAPI", "healthchecker", healthy},
			})
			c.Floor("methods", 12)
			c.Floor("health", 6)
		},
	})
	register(&Check{
		ID:    "G10",
		Rules: "The emitted load balancer is followed from its initial state over three rounds of consecutive calls of each method, with two and with three replicas and the state each call leaves behind, and again where a growing counter reaches the end of a range of 7 to 32 bits: every window of as many calls as there are replicas reaches every replica.",
		Run: func(c *core.Ctx) {
			pair := emit.New(c)
			pair.Another()
			for _, g := range []*genAll{generated(c), generate(pair)} {
				for _, x := range g.Es {
					if core.Short(x.E.PkgPath) == "plugins/loadbalancer" && x.usable(c) {
						roundRobin(c, g, x)
					}
				}
			}
			c.Floor("methods", 8)
		},
	})
}
