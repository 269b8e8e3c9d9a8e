package checks

import (
	"go/constant"
	"go/token"
	"strings"

	"verif/analyzer/core"
	"verif/analyzer/flow"
)

// wiringOpt finds a wiring option by its name under plugins/.
func wiringOpt(c *core.Ctx, name string) *wiringFn {
	for _, w := range wiringFns(c) {
		if w.Name == "plugins/"+name {
			return w
		}
	}
	c.Fail("undecided", name, token.NoPos, "the wiring option plugins/%s does not exist", name)
	return nil
}

// configured gives the value that parameter i of a wiring option has in the schematic configuration
// of node x: the node's constructor got it under the parameter the option's argument reaches.
func configured(c *core.Ctx, x *emitted, w *wiringFn, i int) (constant.Value, bool) {
	p, ok, why := option(w, x.E.Named, i)
	if !ok {
		c.Fail("option", w.Name, w.Fn.Pos(), "argument %d (%s) of the option does not configure %s: %s", i, w.Fn.Params[i].Name(), x.E.Node, why)
		return nil, false
	}
	v, ok := x.E.Params[p]
	if !ok {
		c.Fail("undecided", w.Name, w.Fn.Pos(), "no value for the parameter %s of %s", p, x.E.Node)
		return nil, false
	}
	switch y := v.(type) {
	case constant.Value:
		return y, true
	case int64:
		return constant.MakeInt64(y), true
	case float64:
		return constant.MakeFloat64(y), true
	case string:
		return constant.MakeString(y), true
	case bool:
		return constant.MakeBool(y), true
	}
	c.Fail("undecided", w.Name, w.Fn.Pos(), "the value of the parameter %s of %s is not a constant: %T", p, x.E.Node, v)
	return nil, false
}

// duration reads a configured duration in nanoseconds.
func duration(v constant.Value) (int64, bool) {
	if v.Kind() == constant.String {
		return flow.Duration(constant.StringVal(v))
	}
	return constant.Int64Val(v)
}

// wait is a pause on a path.
type wait struct {
	V  flow.Val
	At int // index in the trace
}

// waits lists the pauses of a path: sleeps, and timers whose channel the path received from.
func waits(p *flow.Path) []wait {
	var out []wait
	tr := p.St.Trace
	if p.How == "return" {
		tr = tr[:p.RetAt]
	}
	for i, ev := range tr {
		if ev.Kind != "call" || len(ev.Args) == 0 {
			continue
		}
		switch ev.Name {
		case "time.Sleep":
			out = append(out, wait{ev.Args[0], i})
		case "time.After", "time.NewTimer", "time.Tick", "time.NewTicker":
			r := ev.Res.Key()
			for j := i + 1; j < len(tr); j++ {
				if tr[j].Kind == "recv" && tr[j].Recv != nil && strings.Contains(tr[j].Recv.Key(), r) {
					out = append(out, wait{ev.Args[0], j})
				}
			}
		}
	}
	return out
}

// cancelled: the path saw its context end.
func cancelled(p *flow.Path) bool {
	for k := range p.St.Done {
		if !strings.HasPrefix(k, "closed:") {
			return true
		}
	}
	for _, ev := range p.St.Trace {
		if ev.Kind == "call" && ev.Name == "(context.Context).Err" && p.St.NilFact(ev.Res) == -1 {
			return true
		}
	}
	return false
}

type attempt struct {
	Ev *flow.Event
	At int
}

func (g *genAll) attempts(p *flow.Path) []attempt {
	var out []attempt
	tr := p.St.Trace
	if p.How == "return" {
		tr = tr[:p.RetAt]
	}
	for i, ev := range tr {
		if g.downstream(ev) {
			out = append(out, attempt{ev, i})
		}
	}
	return out
}

func failed(p *flow.Path, a attempt) bool {
	_, e := resErr(a.Ev.Res)
	return p.St.NilFact(e) == -1
}

// retryRule is what one wiring option promises about the class it makes.
type retryRule struct {
	opt    string
	max    int // argument that bounds the attempts, 0 for none
	check  func(c *core.Ctx, g *genAll, r *retryRule, w *wiringFn, x *emitted)
	giveUp bool // may give up before the bound for a reason of its own
}

func (g *genAll) made(w *wiringFn) []*emitted {
	var out []*emitted
	for _, x := range g.Es {
		n := 0
		for _, d := range w.Defs {
			for _, p := range d.Paths {
				if madeNode(p, x.E.Named) != nil {
					n++
				}
			}
		}
		if n > 0 {
			out = append(out, x)
		}
	}
	return out
}

// each runs f once per method and path, and reports at most one violation per rule and method.
func (g *genAll) each(c *core.Ctx, x *emitted, f func(m *meth, p *flow.Path, bad func(rule, format string, a ...any))) {
	for _, m := range g.methods(x) {
		if m.Fn == nil || m.Over {
			c.Fail("undecided", m.site(""), token.NoPos, "the emitted method cannot be followed")
			continue
		}
		seen := map[string]bool{}
		for _, p := range m.Paths {
			c.Ok("paths", m.site(""))
			f(m, p, func(rule, format string, a ...any) {
				if !seen[rule] {
					seen[rule] = true
					c.Fail(rule, m.site(""), token.NoPos, "emitted method: "+format, a...)
				}
			})
		}
		if len(seen) == 0 {
			c.Ok("methods", m.site(""))
		}
	}
}

func isInt(v constant.Value) (int64, bool) {
	if v == nil || v.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(v)
}

// bounded: the method makes up to max attempts, all of them when every one fails, and never more.
func bounded(c *core.Ctx, g *genAll, r *retryRule, w *wiringFn, x *emitted) {
	k, ok := configured(c, x, w, r.max)
	if !ok {
		return
	}
	max, ok := isInt(k)
	if !ok {
		c.Fail("undecided", w.Name, w.Fn.Pos(), "the number of attempts is not a number")
		return
	}
	best := map[string]int{}
	g.each(c, x, func(m *meth, p *flow.Path, bad func(string, string, ...any)) {
		as := g.attempts(p)
		if len(as) > best[m.Name] {
			best[m.Name] = len(as)
		}
		if int64(len(as)) > max {
			bad("attempts", "it calls the wrapped service %d times; configured are %d", len(as), max)
		}
		if p.How != "return" || len(as) == 0 || int64(len(as)) >= max || !failed(p, as[len(as)-1]) {
			return
		}
		if !cancelled(p) && !r.giveUp {
			bad("gives-up", "it gives up after %d failed attempts; configured are %d", len(as), max)
		}
	})
	for _, m := range g.methods(x) {
		if int64(m.Depth) <= max {
			c.Fail("undecided", m.site("depth"), token.NoPos, "the emitted method branches too much to be followed over %d attempts", max+1)
		}
		if int64(best[m.Name]) < max {
			c.Fail("attempts", m.site("reach"), token.NoPos, "emitted method: it makes at most %d attempts; configured are %d", best[m.Name], max)
		}
	}
}

// fixedDelay: exactly the configured pause lies between two attempts.
func fixedDelay(arg int) func(c *core.Ctx, g *genAll, r *retryRule, w *wiringFn, x *emitted) {
	return func(c *core.Ctx, g *genAll, r *retryRule, w *wiringFn, x *emitted) {
		bounded(c, g, r, w, x)
		k, ok := configured(c, x, w, arg)
		if !ok {
			return
		}
		d, ok := duration(k)
		if !ok {
			c.Fail("undecided", w.Name, w.Fn.Pos(), "the delay %s is not a duration", k)
			return
		}
		g.each(c, x, func(m *meth, p *flow.Path, bad func(string, string, ...any)) {
			as, ws := g.attempts(p), waits(p)
			for i := 1; i < len(as); i++ {
				sum := lin(flow.Const{V: num(0)})
				for _, w := range ws {
					if w.At > as[i-1].At && w.At < as[i].At {
						sum = sum.plus(lin(w.V), 1)
					}
				}
				if v, ok := sum.konst(); !ok || !numEq(v, num(d)) {
					bad("delay", "between two attempts it pauses %s; configured are %d ns", sum.C, d)
				}
			}
			if len(as) > 0 && len(ws) > 0 && ws[0].At < as[0].At {
				bad("delay", "it pauses before the first attempt")
			}
		})
	}
}

// backoff: the pauses double from the first one up to the limit, where the method gives up.
func backoff(first, limit, jitter int) func(c *core.Ctx, g *genAll, r *retryRule, w *wiringFn, x *emitted) {
	return func(c *core.Ctx, g *genAll, r *retryRule, w *wiringFn, x *emitted) {
		k1, ok1 := configured(c, x, w, first)
		k2, ok2 := configured(c, x, w, limit)
		kj, ok3 := configured(c, x, w, jitter)
		if !ok1 || !ok2 || !ok3 {
			return
		}
		start, oks := duration(k1)
		lim, okl := duration(k2)
		if !oks || !okl || start <= 0 {
			c.Fail("undecided", w.Name, w.Fn.Pos(), "the delays %s and %s are not durations", k1, k2)
			return
		}
		jit := kj.Kind() == constant.Bool && constant.BoolVal(kj)
		reached := map[string]bool{}
		g.each(c, x, func(m *meth, p *flow.Path, bad func(string, string, ...any)) {
			if p.How == "cut" {
				bad("endless", "the pauses do not come to an end")
			}
			as, ws := g.attempts(p), waits(p)
			at, d := 0, start
			for i := 1; i < len(as); i++ {
				var between []wait
				for _, w := range ws {
					if w.At > as[i-1].At && w.At < as[i].At {
						between = append(between, w)
					}
				}
				at = i
				if d > lim {
					d = lim
				}
				switch {
				case len(between) != 1:
					bad("delay", "it pauses %d times between two attempts", len(between))
				case !jit:
					if v, ok := lin(between[0].V).konst(); !ok || !numEq(v, num(d)) {
						bad("delay", "pause %d is %s; configured are %d ns", i, trunc(between[0].V.Key()), d)
					}
				default:
					lo, hi, rnd, ok := interval(p.St, between[0].V)
					if !rnd {
						bad("jitter", "pause %d does not depend on a random number", i)
					} else if !ok || constant.Sign(lo) < 0 || constant.Compare(hi, token.GTR, num(2*d)) || constant.Compare(hi, token.LSS, num(d/2)) {
						bad("delay", "pause %d is not around %d ns", i, d)
					}
				}
				d *= 2
			}
			if p.How == "return" && len(as) > 0 && failed(p, as[len(as)-1]) && !cancelled(p) {
				if d < lim {
					bad("gives-up", "it gives up after %d pauses although the next one, %d ns, is below the limit of %d ns", at, d, lim)
				} else {
					reached[m.Name] = true
				}
				if d/2 > lim {
					bad("limit", "it goes on after the limit is reached")
				}
			}
		})
		for _, m := range g.methods(x) {
			if !reached[m.Name] {
				c.Fail("gives-up", m.site("end"), token.NoPos, "emitted method: it never gives up when the limit is reached")
			}
		}
	}
}

// interval bounds a term over random numbers. rnd: it depends on one.
func interval(st *flow.State, v flow.Val) (lo, hi constant.Value, rnd, ok bool) {
	v = flow.Strip(v)
	if k, isK := lin(v).konst(); isK {
		return k, k, false, true
	}
	two := func(a *flow.App, f func(l1, h1, l2, h2 constant.Value) (constant.Value, constant.Value, bool)) (constant.Value, constant.Value, bool, bool) {
		l1, h1, r1, ok1 := interval(st, a.Args[0])
		l2, h2, r2, ok2 := interval(st, a.Args[1])
		if !ok1 || !ok2 {
			return nil, nil, r1 || r2, false
		}
		l, h, ok := f(l1, h1, l2, h2)
		return l, h, r1 || r2, ok
	}
	op := func(x constant.Value, o token.Token, y constant.Value) constant.Value {
		return constant.BinaryOp(x, o, y)
	}
	switch x := v.(type) {
	case *flow.Sym:
		name := x.ID
		if i := strings.LastIndex(name, "#"); i > 0 {
			name = name[:i]
		}
		if !strings.Contains(name, "math/rand") {
			return nil, nil, false, false
		}
		var n constant.Value
		for _, f := range st.From[x.Key()] {
			if k, isK := lin(f).konst(); isK {
				n = k
			}
		}
		switch {
		case strings.Contains(name, "Float64"), strings.Contains(name, "Float32"):
			return num(0), num(1), true, true
		case n != nil && (strings.Contains(name, "n.") || strings.HasSuffix(name, "n") || strings.Contains(name, "N")):
			return num(0), n, true, true
		}
		return nil, nil, true, false
	case *flow.App:
		switch {
		case x.Op == "+" && len(x.Args) == 2:
			return two(x, func(l1, h1, l2, h2 constant.Value) (constant.Value, constant.Value, bool) {
				return op(l1, token.ADD, l2), op(h1, token.ADD, h2), true
			})
		case x.Op == "-" && len(x.Args) == 2:
			return two(x, func(l1, h1, l2, h2 constant.Value) (constant.Value, constant.Value, bool) {
				return op(l1, token.SUB, h2), op(h1, token.SUB, l2), true
			})
		case x.Op == "*" && len(x.Args) == 2:
			return two(x, func(l1, h1, l2, h2 constant.Value) (constant.Value, constant.Value, bool) {
				if constant.Sign(l1) < 0 || constant.Sign(l2) < 0 {
					return nil, nil, false
				}
				return op(l1, token.MUL, l2), op(h1, token.MUL, h2), true
			})
		case x.Op == "/" && len(x.Args) == 2:
			return two(x, func(l1, h1, l2, h2 constant.Value) (constant.Value, constant.Value, bool) {
				if constant.Sign(l2) <= 0 || constant.Sign(l1) < 0 {
					return nil, nil, false
				}
				return op(l1, token.QUO, h2), op(h1, token.QUO, l2), true
			})
		case strings.HasPrefix(x.Op, "conv") && len(x.Args) == 1:
			return interval(st, x.Args[0])
		}
		for _, a := range x.Args {
			if _, _, r, _ := interval(st, a); r {
				return nil, nil, true, false
			}
		}
	}
	return nil, nil, false, false
}

// change is an assignment to a numeric field of the instance.
type change struct {
	Field string
	V     flow.Val
	At    int
	Ev    *flow.Event
}

func (x *emitted) changes(p *flow.Path) []change {
	a, ok := flow.Strip(x.Inst).(*flow.Addr)
	if !ok {
		return nil
	}
	var out []change
	tr := p.St.Trace
	if p.How == "return" {
		tr = tr[:p.RetAt]
	}
	for i, ev := range tr {
		if ev.Kind == "store" && strings.HasPrefix(ev.Name, a.Base+".") {
			out = append(out, change{strings.TrimPrefix(ev.Name, a.Base+"."), ev.Args[0], i, ev})
		}
	}
	return out
}

// credit: the numeric fields of the instance that its methods change.
func (x *emitted) credit() []string {
	var out []string
	for f, v := range x.Init {
		if _, ok := lin(v).konst(); ok {
			out = append(out, f)
		}
	}
	return out
}

// rateLimited: every retry takes one token that was there; tokens come back at the configured rate, up to it.
func rateLimited(rateArg int) func(c *core.Ctx, g *genAll, r *retryRule, w *wiringFn, x *emitted) {
	return func(c *core.Ctx, g *genAll, r *retryRule, w *wiringFn, x *emitted) {
		bounded(c, g, r, w, x)
		rate, ok := configured(c, x, w, rateArg)
		if !ok {
			return
		}
		cr := x.credit()
		if len(cr) != 1 {
			c.Fail("tokens", x.E.Name(), token.NoPos, "the emitted class keeps no single account of tokens")
			return
		}
		f := cr[0]
		if k, _ := lin(x.Init[f]).konst(); !numEq(constant.ToFloat(k), constant.ToFloat(rate)) && constant.Sign(k) != 0 {
			c.Fail("tokens", x.E.Name(), token.NoPos, "the emitted class starts with %s tokens; the configured rate is %s", k, rate)
		}
		g.each(c, x, func(m *meth, p *flow.Path, bad func(string, string, ...any)) {
			as, cs := g.attempts(p), x.changes(p)
			for i := 1; i < len(as); i++ {
				took := 0
				for j, ch := range cs {
					if ch.Field != f || ch.At < as[i-1].At || ch.At > as[i].At {
						continue
					}
					var prev flow.Val = &flow.Sym{ID: "state:" + f}
					for _, b := range cs[:j] {
						if b.Field == f {
							prev = b.V
						}
					}
					if d, ok := lin(ch.V).plus(lin(prev), -1).konst(); ok && numEq(d, num(-1)) {
						took++
						if lo, ok := bound(prev, p.St.Conds, false); !ok || constant.Compare(lo, token.LSS, num(1)) {
							bad("tokens", "it takes a token without making sure there is one")
						}
					}
				}
				if took != 1 {
					bad("tokens", "a retry takes %d tokens", took)
				}
			}
			clocks := map[string]bool{}
			for _, ch := range cs {
				if ch.Field != f {
					continue
				}
				l := lin(ch.V)
				for _, t := range l.terms() {
					if t == "state:"+f {
						continue
					}
					if !numEq(constant.ToFloat(l.T[t]), constant.ToFloat(rate)) {
						bad("rate", "tokens come back at a rate of %s per unit of %s; configured are %s per second", l.T[t], trunc(t), rate)
					}
					if !strings.Contains(t, "Seconds") || !strings.Contains(t, "time.Now") && !strings.Contains(t, "time.Since") {
						bad("rate", "the tokens that come back do not follow the seconds passed: %s", trunc(t))
					}
					for s := range x.Init {
						if strings.Contains(t, "state:"+s) {
							clocks[s] = true
						}
					}
				}
			}
			var last flow.Val
			set := map[string]flow.Val{}
			for _, ch := range cs {
				if ch.Field == f {
					last = ch.V
				}
				set[ch.Field] = ch.V
			}
			for s := range clocks {
				if v := set[s]; v == nil || !strings.Contains(v.Key(), "time.Now") {
					bad("rate", "the time up to which tokens were given back is not recorded")
				}
			}
			if last != nil && p.How == "return" {
				if hi, ok := bound(last, p.St.Conds, true); !ok || constant.Compare(hi, token.GTR, rate) {
					bad("rate", "the account can hold more tokens than the configured rate: %s", trunc(last.Key()))
				}
			}
		})
	}
}

// tokenBucket: every retry costs the configured amount, which must be in the bucket; a success gives some back, up to the capacity.
func tokenBucket(capArg, costArg, backArg int) func(c *core.Ctx, g *genAll, r *retryRule, w *wiringFn, x *emitted) {
	return func(c *core.Ctx, g *genAll, r *retryRule, w *wiringFn, x *emitted) {
		capacity, ok1 := configured(c, x, w, capArg)
		cost, ok2 := configured(c, x, w, costArg)
		back, ok3 := configured(c, x, w, backArg)
		if !ok1 || !ok2 || !ok3 {
			return
		}
		cr := x.credit()
		if len(cr) != 1 {
			c.Fail("tokens", x.E.Name(), token.NoPos, "the emitted class keeps no single bucket of tokens")
			return
		}
		f := cr[0]
		if k, _ := lin(x.Init[f]).konst(); !numEq(k, capacity) {
			c.Fail("tokens", x.E.Name(), token.NoPos, "the bucket starts with %s tokens; its configured capacity is %s", k, capacity)
		}
		gave, retried := map[string]bool{}, map[string]bool{}
		tb := affine{T: map[string]constant.Value{"state:" + f: num(1)}, A: map[string]flow.Val{}, C: num(0)}
		g.each(c, x, func(m *meth, p *flow.Path, bad func(string, string, ...any)) {
			if p.How != "return" {
				bad("endless", "it does not come to an end")
				return
			}
			as, cs := g.attempts(p), x.changes(p)
			if len(as) == 0 {
				bad("attempts", "it can return without an attempt")
				return
			}
			var last flow.Val = &flow.Sym{ID: "state:" + f}
			for i := 1; i < len(as); i++ {
				retried[m.Name] = true
				for _, ch := range cs {
					if ch.Field == f && ch.At < as[i].At {
						last = ch.V
					}
				}
				want := tb.plus(affine{C: constant.BinaryOp(num(int64(i)), token.MUL, cost)}, -1)
				if d, ok := lin(last).plus(want, -1).konst(); !ok || constant.Sign(d) != 0 {
					bad("cost", "before retry %d the bucket holds %s; a retry is configured to cost %s", i, trunc(last.Key()), cost)
				} else if lo, ok := bound(last, p.St.Conds, false); !ok || constant.Sign(lo) < 0 {
					bad("cost", "it retries without making sure that the bucket holds the cost")
				}
			}
			paid := lin(last)
			ok := !failed(p, as[len(as)-1])
			for _, ch := range cs {
				if ch.Field == f {
					last = ch.V
				}
			}
			d := lin(last).plus(paid, -1)
			k, same := d.konst()
			if same && constant.Sign(k) == 0 {
				if !ok && len(as) == 1 {
					// gave up at once: only for want of tokens
					if hi, has := bound(last, p.St.Conds, true); !has || constant.Compare(hi, token.GTR, constant.BinaryOp(cost, token.ADD, num(1))) {
						bad("gives-up", "it does not retry although the bucket may hold enough tokens")
					}
				}
				return
			}
			if !ok {
				bad("replenish", "a failed call changes the bucket by more than the cost of its retries: %s", trunc(last.Key()))
				return
			}
			gave[m.Name] = true
			if same {
				if !numEq(k, back) {
					bad("replenish", "a success puts %s tokens back; configured are %s", k, back)
				}
				if hi, has := bound(last, p.St.Conds, true); !has || constant.Compare(hi, token.GTR, capacity) {
					bad("capacity", "the bucket can hold more than its capacity")
				}
				return
			}
			if k, isK := lin(last).konst(); isK && numEq(k, capacity) {
				return // full
			}
			if a, isA := flow.Strip(last).(*flow.App); isA && (a.Op == "math.Min" || a.Op == "min") {
				okCap, okAmt := false, false
				for _, y := range a.Args {
					if k, isK := lin(y).konst(); isK && numEq(k, capacity) {
						okCap = true
					}
					if k, isK := lin(y).plus(paid, -1).konst(); isK && numEq(k, back) {
						okAmt = true
					}
				}
				if !okCap {
					bad("capacity", "the bucket can hold more than its capacity")
				}
				if !okAmt {
					bad("replenish", "a success does not put %s tokens back", back)
				}
				return
			}
			bad("replenish", "a success leaves the bucket at %s", trunc(last.Key()))
		})
		for _, m := range g.methods(x) {
			if !retried[m.Name] {
				c.Fail("attempts", m.site("reach"), token.NoPos, "emitted method: it never retries")
			}
			if !gave[m.Name] {
				c.Fail("replenish", m.site("reach"), token.NoPos, "emitted method: nothing is ever put back into the bucket")
			}
		}
	}
}

func init() {
	rules := []*retryRule{
		{opt: "retries.AddRetries", max: 2, check: bounded},
		{opt: "retries.AddRetriesWithTimeouts", max: 2, check: bounded},
		{opt: "retries.AddRetriesWithFixedDelay", max: 2, check: fixedDelay(3)},
		{opt: "retries.AddRetriesWithExponentialBackoff", check: backoff(2, 3, 4)},
		{opt: "retries.AddRetriesRetryRateLimit", max: 2, giveUp: false, check: rateLimited(3)},
		{opt: "retries.AddRetriesTokenBucket", check: tokenBucket(2, 3, 4)},
	}
	register(&Check{
		ID:    "G04",
		Rules: "For each retry option of the wiring API, the argument that configures it is traced to the node's constructor, and the class the node emits is followed path by path with that value: the number of calls never exceeds the configured attempts and reaches it when all fail; pauses between attempts equal the configured delay or double from the start to the limit (with a random part exactly when asked for); a rate-limited retry takes one available token, refilled at the configured rate and capped by it; a token-bucket retry is paid for and replenished within the capacity.",
		Run: func(c *core.Ctx) {
			g := generated(c)
			for _, r := range rules {
				w := wiringOpt(c, r.opt)
				if w == nil {
					continue
				}
				if w.Over {
					c.Fail("undecided", w.Name, w.Fn.Pos(), "the option cannot be followed")
					continue
				}
				n := 0
				for _, x := range g.made(w) {
					if core.Short(x.E.PkgPath) != "plugins/retries" || !x.usable(c) {
						continue
					}
					n++
					r.check(c, g, r, w, x)
				}
				if n == 0 {
					c.Fail("option", w.Name, w.Fn.Pos(), "the option makes no retrier")
				} else {
					c.Ok("options", w.Name)
				}
			}
			c.Floor("methods", 24)
		},
	})
}
