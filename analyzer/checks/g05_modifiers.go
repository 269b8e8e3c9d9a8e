package checks

import (
	"go/constant"
	"go/token"
	"strings"

	"verif/analyzer/core"
	"verif/analyzer/flow"
)

// modRule is what one wiring option promises about the class it makes.
type modRule struct {
	opt   string
	pkg   string // package of the nodes the rule is about
	check func(c *core.Ctx, g *genAll, w *wiringFn, x *emitted)
}

// runRules decides the rules of one property on every class the options make.
func runRules(c *core.Ctx, rules []modRule) *genAll {
	g := generated(c)
	for _, r := range rules {
		w := wiringOpt(c, r.opt)
		if w == nil {
			continue
		}
		if w.Over {
			c.Fail("undecided", w.Name, w.Fn.Pos(), "the option cannot be followed")
			continue
		}
		n := 0
		for _, x := range g.made(w) {
			if core.Short(x.E.PkgPath) != "plugins/"+r.pkg {
				continue
			}
			n++
			if !x.usable(c) {
				continue
			}
			r.check(c, g, w, x)
		}
		if n == 0 {
			c.Fail("option", w.Name, w.Fn.Pos(), "no path of the option makes a node of %s", r.pkg)
		} else {
			c.Ok("options", w.Name)
		}
	}
	return g
}

// during gives the events of a path up to its return.
func during(p *flow.Path) []*flow.Event {
	if p.How == "return" {
		return p.St.Trace[:p.RetAt]
	}
	return p.St.Trace
}

func retErr(p *flow.Path) flow.Val {
	if p.How != "return" || len(p.Ret) == 0 {
		return nil
	}
	return p.Ret[len(p.Ret)-1]
}

// deadline finds the deadline that context v carries relative to the start of the call, in ns.
// ok is false if there is none, or one that is not now plus a constant.
func deadline(p *flow.Path, v flow.Val) (ns int64, parent flow.Val, ok bool) {
	v = flow.Strip(v)
	a, isA := v.(*flow.App)
	if !isA {
		for _, f := range p.St.From[v.Key()] {
			if core.IsContext(flow.TypeOf(f)) {
				return deadline(p, f)
			}
		}
		return 0, nil, false
	}
	switch a.Op {
	case "context.WithTimeout", "context.WithTimeoutCause":
		k, isK := lin(a.Args[1]).konst()
		if !isK {
			return 0, nil, false
		}
		n, exact := constant.Int64Val(constant.ToInt(k))
		return n, a.Args[0], exact
	case "context.WithDeadline", "context.WithDeadlineCause":
		t, isT := flow.Strip(a.Args[1]).(*flow.App)
		if !isT || t.Op != "(time.Time).Add" || len(t.Args) != 2 || !strings.HasPrefix(t.Args[0].Key(), "time.Now") {
			return 0, nil, false
		}
		k, isK := lin(t.Args[1]).konst()
		if !isK {
			return 0, nil, false
		}
		n, exact := constant.Int64Val(constant.ToInt(k))
		return n, a.Args[0], exact
	case "context.WithValue", "context.WithCancel", "context.WithCancelCause":
		return deadline(p, a.Args[0])
	}
	return 0, nil, false
}

// timeout: the call ends with an error when the configured time is over, and the service is told.
func timeout(arg int) func(c *core.Ctx, g *genAll, w *wiringFn, x *emitted) {
	return func(c *core.Ctx, g *genAll, w *wiringFn, x *emitted) {
		k, ok := configured(c, x, w, arg)
		if !ok {
			return
		}
		d, ok := duration(k)
		if !ok {
			c.Fail("undecided", w.Name, w.Fn.Pos(), "the timeout %s is not a duration", k)
			return
		}
		early := map[string]bool{}
		g.each(c, x, func(m *meth, p *flow.Path, bad func(string, string, ...any)) {
			if p.How != "return" {
				bad("ends", "it does not come to an end (%s)", p.How)
				return
			}
			tr := during(p)
			timed := map[string]bool{} // contexts with the configured deadline
			for i, ev := range p.St.Trace {
				if strings.HasPrefix(ev.Name, "context.With") {
					if tp, isT := ev.Res.(flow.Tuple); isT && len(tp) == 2 {
						n, parent, has := deadline(p, tp[0])
						if has && n == d && p.St.Derives(parent, "ctx") {
							timed[tp[0].Key()] = true
							for _, b := range tr[:min(i, len(tr))] {
								if g.downstream(b) {
									bad("deadline", "the clock starts after the wrapped service was called")
								}
							}
						}
					}
				}
				if g.downstream(ev) && len(ev.Args) > 0 {
					n, parent, has := deadline(p, ev.Args[0])
					switch {
					case !has:
						bad("deadline", "the wrapped service is called with a context without the configured deadline")
					case n != d:
						bad("deadline", "the wrapped service is called with a deadline of %d ns; configured are %d", n, d)
					case !p.St.Derives(parent, "ctx"):
						bad("deadline", "the deadline does not extend the caller's context")
					}
				}
			}
			if len(timed) == 0 {
				bad("deadline", "no context with the configured deadline is made")
			}
			// a path that saw the deadline pass before the service answered
			answered, expired := false, false
			for _, ev := range tr {
				if g.downstream(ev) {
					answered = true
				}
			}
			for k := range timed {
				if p.St.Done[k] {
					expired = true
				}
			}
			e := retErr(p)
			if expired && !answered {
				if p.St.NilFact(e) == -1 {
					early[m.Name] = true
				} else {
					bad("timeout-error", "it may return without an error when the time is over")
				}
			}
			if !answered && !expired && !cancelled(p) {
				bad("waits", "it returns before the wrapped service answered although the time is not over")
			}
			for k := range timed {
				released := false
				for _, ev := range tr {
					if a, isA := ev.Target.(*flow.App); isA && a.Op == "cancel" && ev.Kind == "call" && a.Args[0].Key() == k {
						released = true
					}
				}
				if !released {
					bad("released", "it returns without cancelling the context it made: its timer and the abandoned request live on")
				}
			}
		})
		for _, m := range g.methods(x) {
			if m.Fn != nil && !early[m.Name] {
				c.Fail("timeout-error", m.site("late"), token.NoPos, "emitted method: when the wrapped service does not answer in time, no path returns an error to the caller before it answers")
			}
		}
	}
}

// breaker: an open breaker answers for the service; a closed one lets each call through and hears of its outcome once.
func breaker(reqs, rate, interval int) func(c *core.Ctx, g *genAll, w *wiringFn, x *emitted) {
	return func(c *core.Ctx, g *genAll, w *wiringFn, x *emitted) {
		kr, ok1 := configured(c, x, w, reqs)
		kf, ok2 := configured(c, x, w, rate)
		ki, ok3 := configured(c, x, w, interval)
		if !ok1 || !ok2 || !ok3 {
			return
		}
		ns, okd := duration(ki)
		if !okd {
			c.Fail("undecided", w.Name, w.Fn.Pos(), "the interval %s is not a duration", ki)
			return
		}
		const lib = "github.com/mercari/go-circuitbreaker."
		site := x.E.Name()
		seen := map[string]int{}
		var made flow.Val
		for _, ev := range x.Build.St.Trace {
			if ev.Kind != "call" {
				continue
			}
			switch ev.Name {
			case lib + "WithCounterResetInterval":
				seen["interval"]++
				if v, ok := lin(ev.Args[0]).konst(); !ok || !numEq(v, num(ns)) {
					c.Fail("interval", site, token.NoPos, "the emitted breaker forgets its counts every %s ns; configured are %d", ev.Args[0].Key(), ns)
				}
			case lib + "NewTripFuncFailureRate":
				seen["trip"]++
				if v, ok := lin(ev.Args[0]).konst(); !ok || !numEq(v, kr) {
					c.Fail("trip", site, token.NoPos, "the emitted breaker needs %s requests before it can open; configured are %s", ev.Args[0].Key(), kr)
				}
				if v, ok := lin(ev.Args[1]).konst(); !ok || !numEq(constant.ToFloat(v), constant.ToFloat(kf)) {
					c.Fail("trip", site, token.NoPos, "the emitted breaker opens at a failure rate of %s; configured is %s", ev.Args[1].Key(), kf)
				}
			case lib + "WithTripFunc":
				seen["tripfunc"]++
				if !strings.Contains(ev.Args[0].Key(), "NewTripFuncFailureRate") {
					c.Fail("trip", site, token.NoPos, "the emitted breaker does not open at the configured failure rate")
				}
			case lib + "New":
				made = ev.Res
				if made == nil {
					break
				}
				keys := ""
				for _, a := range ev.Args {
					keys += a.Key() + " "
				}
				for _, o := range []string{"WithCounterResetInterval", "WithTripFunc"} {
					if !strings.Contains(keys, o) {
						c.Fail("trip", site, token.NoPos, "the emitted breaker is made without %s", o)
					}
				}
			}
		}
		if made == nil || seen["trip"] == 0 || seen["interval"] == 0 {
			c.Fail("trip", site, token.NoPos, "the instance is built without a breaker that has the configured rate and interval")
			return
		}
		open, closed := map[string]bool{}, map[string]bool{}
		g.each(c, x, func(m *meth, p *flow.Path, bad func(string, string, ...any)) {
			if p.How != "return" {
				bad("ends", "it does not come to an end (%s)", p.How)
				return
			}
			tr := during(p)
			ready := 0 // 1 yes, -1 no
			var calls []attempt
			var dones []attempt
			for i, ev := range tr {
				switch {
				case ev.Kind != "call":
				case strings.HasSuffix(ev.Name, "circuitbreaker.CircuitBreaker).Ready"):
					if ev.Recv == nil || flow.Strip(ev.Recv).Key() != flow.Strip(made).Key() {
						bad("asks", "it asks a breaker that is not the instance's")
					}
					if ready != 0 {
						bad("asks", "it asks the breaker twice")
					}
					ready = p.St.Bool(ev.Res)
					if ready == 0 {
						bad("asks", "it ignores the breaker's answer")
						ready = 1
					}
				case strings.HasSuffix(ev.Name, "circuitbreaker.CircuitBreaker).Done"):
					dones = append(dones, attempt{ev, i})
				case strings.HasPrefix(ev.Name, "(*"+lib+"CircuitBreaker)."):
					switch ev.Method {
					case "Success", "Fail", "FailWithContext", "Reset", "SetState", "Do":
						bad("reports", "it changes the breaker's state with %s", ev.Method)
					}
				case g.downstream(ev):
					calls = append(calls, attempt{ev, i})
					if ready != 1 {
						bad("open", "it calls the wrapped service without the breaker's consent")
					}
				}
			}
			switch ready {
			case 0:
				bad("asks", "it can return without asking the breaker")
			case -1:
				open[m.Name] = true
				if len(calls) > 0 {
					bad("open", "it calls the wrapped service although the breaker is open")
				}
				if len(dones) > 0 {
					bad("reports", "it reports an outcome although no call was made")
				}
				if p.St.NilFact(retErr(p)) != -1 {
					bad("open-error", "it may return without an error although the breaker is open")
				}
			case 1:
				closed[m.Name] = true
				if len(calls) != 1 {
					bad("closed", "it calls the wrapped service %d times although the breaker is closed", len(calls))
					return
				}
				if len(dones) != 1 {
					bad("reports", "it reports the outcome of the call to the breaker %d times", len(dones))
					return
				}
				_, e := resErr(calls[0].Ev.Res)
				da := dones[0].Ev.Args
				if dones[0].At < calls[0].At {
					bad("reports", "it reports an outcome before the call is over")
				}
				if len(da) != 2 || flow.Strip(da[1]).Key() != flow.Strip(e).Key() {
					bad("reports", "what it reports to the breaker is not the outcome of the call")
				}
				if len(da) == 2 && !p.St.Derives(da[0], "ctx") {
					bad("reports", "it reports the outcome with a context that is not the request's")
				}
			}
		})
		for _, m := range g.methods(x) {
			if m.Fn != nil && (!open[m.Name] || !closed[m.Name]) {
				c.Fail("asks", m.site("both"), token.NoPos, "emitted method: it does not follow both answers of the breaker")
			}
		}
	}
}

// pooled: a client is taken from the pool, used for one request and put back, whatever the outcome.
func pooled(arg int) func(c *core.Ctx, g *genAll, w *wiringFn, x *emitted) {
	return func(c *core.Ctx, g *genAll, w *wiringFn, x *emitted) {
		k, ok := configured(c, x, w, arg)
		if !ok {
			return
		}
		const pool = "runtime/plugins/clientpool."
		var made flow.Val
		n := 0
		for _, ev := range x.Build.St.Trace {
			if ev.Kind == "call" && strings.HasPrefix(ev.Name, pool+"NewClientPool") {
				n++
				made = ev.Res
				if v, ok := lin(ev.Args[0]).konst(); !ok || !numEq(v, k) {
					c.Fail("capacity", x.E.Name(), token.NoPos, "the emitted pool holds %s clients; configured are %s", ev.Args[0].Key(), k)
				}
			}
		}
		if n != 1 {
			c.Fail("capacity", x.E.Name(), token.NoPos, "the instance is built with %d pools", n)
			return
		}
		g.each(c, x, func(m *meth, p *flow.Path, bad func(string, string, ...any)) {
			if p.How != "return" {
				bad("ends", "it does not come to an end (%s)", p.How)
				return
			}
			var have flow.Val
			calls := 0
			for _, ev := range during(p) {
				switch {
				case ev.Kind != "call":
				case strings.HasSuffix(ev.Name, ").Pop") && strings.Contains(ev.Name, pool):
					if have != nil {
						bad("takes", "it takes a second client while it holds one")
					}
					if ev.Recv == nil || flow.Strip(ev.Recv).Key() != flow.Strip(made).Key() {
						bad("takes", "it takes a client from a pool that is not the instance's")
					}
					if len(ev.Args) != 1 || !p.St.Derives(ev.Args[0], "ctx") {
						bad("takes", "it waits for a client without the request's context")
					}
					t, isT := ev.Res.(flow.Tuple)
					if !isT || len(t) != 2 {
						bad("undecided", "the result of Pop is not known")
						return
					}
					switch p.St.NilFact(t[1]) {
					case 1:
						have = t[0]
					case 0:
						bad("takes", "it does not look at whether it got a client")
						have = t[0]
					default:
						if p.St.NilFact(retErr(p)) != -1 {
							bad("takes", "it may return without an error although it got no client")
						}
					}
				case strings.HasSuffix(ev.Name, ").Push") && strings.Contains(ev.Name, pool):
					switch {
					case have == nil:
						bad("returns", "it puts a client back that it does not hold")
					case len(ev.Args) != 1 || flow.Strip(ev.Args[0]).Key() != flow.Strip(have).Key():
						bad("returns", "what it puts back is not the client it took")
					case ev.Recv == nil || flow.Strip(ev.Recv).Key() != flow.Strip(made).Key():
						bad("returns", "it puts the client back into another pool")
					}
					have = nil
				case g.downstream(ev):
					calls++
					if have == nil || ev.Recv == nil || flow.Strip(ev.Recv).Key() != flow.Strip(have).Key() {
						bad("exclusive", "it uses a client that it does not hold")
					}
					if ev.Gor != 0 {
						bad("exclusive", "it uses the client in a goroutine it may not wait for")
					}
				}
			}
			if have != nil {
				bad("returns", "it keeps the client: the pool loses it")
			}
			for _, ev := range p.St.Trace[min(p.RetAt, len(p.St.Trace)):] {
				if g.downstream(ev) {
					bad("exclusive", "it uses the client after the call returned")
				}
			}
		})
	}
}

func init() {
	register(&Check{
		ID:    "G05",
		Rules: "Every path of every method of the class that a timeout option makes: the wrapped service is called with a context derived from the caller's whose deadline is now plus the configured time; a path exists on which that context ends before the service answered and the method returns a non-nil error; no path returns before either happened; the context is cancelled before every return.",
		Run: func(c *core.Ctx) {
			runRules(c, []modRule{
				{"timeouts.Add", "timeouts", timeout(2)},
				{"retries.AddRetriesWithTimeouts", "timeouts", timeout(3)},
			})
			c.Floor("methods", 8)
		},
	})
	register(&Check{
		ID:    "G06",
		Rules: "The breaker of the instance is built with the configured failure rate, minimum of requests and interval. On every path of every method it is asked exactly once; when it refuses, the wrapped service is not called and a non-nil error is returned; when it agrees, the service is called exactly once and exactly that call's error is reported exactly once, after the call.",
		Run: func(c *core.Ctx) {
			runRules(c, []modRule{{"circuitbreaker.AddCircuitBreaker", "circuitbreaker", breaker(2, 3, 4)}})
			c.Floor("methods", 4)
		},
	})
	register(&Check{
		ID:    "G07",
		Rules: "The pool of the instance is built with the configured capacity. On every path of every method a client is taken with the request's context, used only while held, and the same client is put back exactly once before the return; when none was got, the wrapped service is not called and a non-nil error is returned. In the pool itself every built client is paid for by a permit, a permit of a failed build is given back, and waiting ends with the context.",
		Run: func(c *core.Ctx) {
			runRules(c, []modRule{{"clientpool.Create", "clientpool", pooled(2)}})
			c.Floor("methods", 4)
			runtimePool(c)
		},
	})
}
