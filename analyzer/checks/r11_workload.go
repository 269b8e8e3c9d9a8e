package checks

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/core"
	"verif/analyzer/flow"
)

func init() {
	register(&Check{
		ID: "R11",
		Rules: "valid: the decision table of IsValid over lists of up to three opaque proportions says exactly whether none is negative and they add up to 100; " +
			"engine: an engine is made exactly for a positive rate, a duration and a valid workload, and has what it was given; " +
			"share: of the equally likely numbers drawn for a request, each API has exactly its proportion; " +
			"pace: the time between requests is on average one second divided by the rate, counted from the previous request, and ends after the given duration or with the caller's context; " +
			"run: in every order in which requests, the collector and the end of the run can take turns, each request made is in the statistics exactly once when the run returns, nothing panics, and nothing waits for ever; " +
			"stats: what is printed are the numbers of requests, of successes and of failures and the mean latency, and each request is in the file once.",
		Run:       runR11,
		NotDecide: "How accurately the timers of the machine keep the rate; the distribution of the random numbers drawn.",
	})
}

const wldPkg = "runtime/core/workload"

type wldRT struct {
	*rt
	mkW, add, valid, mkE, loop, print *ssa.Function
}

func (w *wldRT) field(st *flow.State, obj flow.Val, f string) flow.Val {
	t := core.Deref(flow.TypeOf(obj))
	base := "*" + flow.Strip(obj).Key()
	if a, ok := flow.Strip(obj).(*flow.Addr); ok {
		base = a.Base
		return st.Load(&flow.Addr{Base: base + "." + f, T: fieldType(t, f), Alloc: a.Alloc})
	}
	return st.Load(&flow.Addr{Base: base + "." + f, T: fieldType(t, f)})
}

func elems(st *flow.State, v flow.Val) ([]flow.Val, bool) {
	switch x := flow.Strip(v).(type) {
	case flow.NilV:
		return nil, true
	case *flow.SliceV:
		var out []flow.Val
		for i := int64(0); i < x.Len; i++ {
			out = append(out, st.Load(x.Elem(i)))
		}
		return out, true
	}
	return nil, false
}

func runR11(c *core.Ctx) {
	w := &wldRT{rt: newRT(c, wldPkg)}
	w.mkW, w.add = w.fn(wldPkg, "NewWorkload"), w.fn(wldPkg, "Workload.AddAPI")
	w.valid, w.mkE = w.fn(wldPkg, "Workload.IsValid"), w.fn(wldPkg, "NewEngine")
	w.loop, w.print = w.fn(wldPkg, "Engine.RunOpenLoop"), w.fn(wldPkg, "Engine.PrintStats")
	if w.mkW == nil || w.add == nil || w.valid == nil || w.mkE == nil || w.loop == nil || w.print == nil {
		return
	}
	w.validity()
	w.engines()
	w.share()
	w.runs()
	w.prints()
	c.Floor("valid", 4)
	c.Floor("engine", 6)
	c.Floor("share", 100)
	c.Floor("run", 4)
	c.Floor("stats", 4)
}

// workload makes one with the given proportions.
func (w *wldRT) workload(props ...flow.Val) (*flow.State, flow.Val, []flow.Val) {
	st := flow.NewState()
	var obj flow.Val
	for _, p := range w.step(st, w.mkW) {
		st, obj = p.St, p.Ret[0]
	}
	var fns []flow.Val
	for i, pr := range props {
		fn := w.in(st, fmt.Sprint("api", i+1), paramType(w.add, 2))
		fns = append(fns, fn)
		name := &flow.Sym{ID: fmt.Sprint("name", i+1), T: types.Typ[types.String]}
		var n int
		for _, p := range w.step(st, w.add, obj, name, fn, pr) {
			if succeeded(p) != 1 {
				w.bad(w.add, p, "engine", "an API cannot be added")
				continue
			}
			n++
			st = p.St
		}
		if n != 1 {
			w.bad(w.add, nil, "undecided", "adding an API has %d outcomes", n)
		}
	}
	as, ok := elems(st, w.field(st, obj, "ApiInfos"))
	if !ok || len(as) != len(props) {
		w.bad(w.add, nil, "engine", "after adding %d APIs the workload does not have that many", len(props))
	}
	for i, a := range as {
		s, ok := a.(*flow.Struct)
		if !ok || i < len(fns) && (s.F["Fn"] == nil || !sameVal(s.F["Fn"], fns[i])) {
			w.bad(w.add, nil, "engine", "an added API does not have the function it was added with")
		} else if i < len(props) && props[i].Key() != (flow.Const{V: constant.MakeInt64(0)}).Key() && (s.F["Proportion"] == nil || !sameVal(s.F["Proportion"], props[i])) {
			w.bad(w.add, nil, "engine", "an added API does not have the proportion it was added with")
		}
	}
	return st, obj, fns
}

func ints(xs ...int64) (out []constant.Value) {
	for _, x := range xs {
		out = append(out, constant.MakeInt64(x))
	}
	return
}

func (w *wldRT) validity() {
	for n := 0; n <= 3; n++ {
		var ps []flow.Val
		var names []string
		for i := 0; i < n; i++ {
			s := &flow.Sym{ID: fmt.Sprint("p", i+1), T: types.Typ[types.Int]}
			ps, names = append(ps, s), append(names, s.ID)
		}
		st, obj, _ := w.workload(ps...)
		w.fork = 8
		paths := w.step(st, w.valid, obj)
		w.fork = 4
		w.c.Ok("valid", fmt.Sprintf("lists of %d", n))
		wrong := map[string]bool{}
		assignments(names, ints(-50, -1, 0, 1, 30, 50, 69, 70, 99, 100, 101, 150), func(asg map[string]constant.Value) {
			sum, want := int64(0), true
			for _, v := range asg {
				i, _ := constant.Int64Val(v)
				sum += i
				want = want && i >= 0
			}
			want = want && sum == 100
			met := false
			for _, p := range paths {
				d := decided(p, asg)
				if d == 0 {
					w.bad(w.valid, p, "undecided", "what the validity depends on is not known")
				}
				if d != 1 {
					continue
				}
				met = true
				if v, ok := valued(p.Ret[0], asg); !ok || constant.BoolVal(v) != want {
					wrong[fmt.Sprint(want)] = true
				}
			}
			if !met {
				wrong["unknown"] = true
			}
		})
		switch {
		case wrong["true"]:
			w.bad(w.valid, nil, "valid", "proportions that add up to 100 are not valid")
		case wrong["false"]:
			w.bad(w.valid, nil, "valid", "proportions are valid that do not add up to 100 or are negative")
		case wrong["unknown"]:
			w.bad(w.valid, nil, "undecided", "the validity of some proportions is not known")
		}
	}
}

func (w *wldRT) stdModel(e *flow.Engine, st *flow.State, ev *flow.Event) ([]flow.Out, bool) {
	switch ev.Name {
	case "sort.Slice", "sort.SliceStable", "sort.Sort", "sort.Stable", "slices.SortFunc", "slices.SortStableFunc":
		s, ok := flow.Strip(ev.Args[0]).(*flow.SliceV)
		if !ok || s.Len != 2 {
			return nil, false
		}
		return []flow.Out{{Res: flow.Tuple{}}, {Res: flow.Tuple{}, Set: func(n *flow.State) {
			n.Store(orderCell, kint(1))
			a, b := n.Load(s.Elem(0)), n.Load(s.Elem(1))
			n.Store(s.Elem(0), b)
			n.Store(s.Elem(1), a)
		}}}, true
	case "time.ParseDuration":
		res := ev.Call.Common().Signature().Results()
		return []flow.Out{
			{Res: flow.Tuple{flow.MkApp("duration", res.At(0).Type(), ev.Args[0]), flow.NilV{}}},
			{Res: flow.Tuple{kint(0), &flow.Iface{V: kstr("error:duration"), T: types.Typ[types.String]}}},
		}, true
	case "time.Until":
		t := flow.MkApp("(time.Time).Sub", ev.Call.Common().Signature().Results().At(0).Type(), ev.Args[0], st.Fresh("time.Now", flow.TypeOf(ev.Args[0])))
		return []flow.Out{{Res: t}}, true
	}
	return nil, false
}

func (w *wldRT) engines() {
	w.model = w.stdModel
	for _, cs := range []struct {
		props []flow.Val
		ok    bool
	}{{[]flow.Val{kint(30), kint(70)}, true}, {[]flow.Val{kint(30), kint(60)}, false}, {[]flow.Val{kint(-1), kint(101)}, false}, {nil, false}} {
		st, wl, _ := w.workload(cs.props...)
		args := []flow.Val{&flow.Sym{ID: "outfile", T: types.Typ[types.String]}, &flow.Sym{ID: "tput", T: types.Typ[types.Int64]}, &flow.Sym{ID: "howlong", T: types.Typ[types.String]}, wl}
		made := false
		for _, p := range w.step(st, w.mkE, args...) {
			w.c.Ok("engine", "NewEngine")
			parsed := true
			for _, ev := range during(p) {
				if t, ok := ev.Res.(flow.Tuple); ok && ev.Name == "time.ParseDuration" && p.St.NilFact(t[1]) == -1 {
					parsed = false
				}
			}
			for _, tput := range ints(-1000, -1, 0, 1, 2, 1000) {
				if decided(p, map[string]constant.Value{"tput": tput}) == -1 {
					continue
				}
				n, _ := constant.Int64Val(tput)
				want := cs.ok && parsed && n > 0
				switch got := succeeded(p); {
				case got == 0:
					w.bad(w.mkE, p, "undecided", "whether there is an engine is not known")
				case got == 1 && !want:
					w.bad(w.mkE, p, "engine", "there is an engine for a workload that is not valid, a rate that is not positive or a duration that cannot be read")
				case got == -1 && want:
					w.bad(w.mkE, p, "engine", "there is no engine although workload, rate and duration are right")
				}
			}
			if succeeded(p) != 1 {
				continue
			}
			made = true
			for f, v := range map[string]flow.Val{"OutFile": args[0], "TargetTput": args[1], "Wld": wl} {
				if !sameVal(w.field(p.St, p.Ret[0], f), v) {
					w.bad(w.mkE, p, "engine", "the engine does not have the %s it was made with", f)
				}
			}
			if d, ok := w.field(p.St, p.Ret[0], "Duration").(*flow.App); !ok || d.Op != "duration" || !sameVal(d.Args[0], args[2]) {
				w.bad(w.mkE, p, "engine", "the engine does not have the duration it was made with")
			}
		}
		if cs.ok && !made {
			w.bad(w.mkE, nil, "engine", "no engine can be made")
		}
	}
}

// loops follows the open loop with two APIs.
func (w *wldRT) loops(fork int, n1, n2 int64, model func(e *flow.Engine, st *flow.State, ev *flow.Event) ([]flow.Out, bool)) ([]*flow.Path, []flow.Val, *flow.Sym, *flow.Engine) {
	w.model = w.stdModel
	st, wl, fns := w.workload(kint(n1), kint(n2))
	var eng flow.Val
	args := []flow.Val{&flow.Sym{ID: "outfile", T: types.Typ[types.String]}, &flow.Sym{ID: "tput", T: types.Typ[types.Int64]}, &flow.Sym{ID: "howlong", T: types.Typ[types.String]}, wl}
	for _, p := range w.step(st, w.mkE, args...) {
		if succeeded(p) == 1 {
			st, eng = p.St, p.Ret[0]
		}
	}
	if eng == nil {
		return nil, nil, nil, nil
	}
	w.model = func(e *flow.Engine, st *flow.State, ev *flow.Event) ([]flow.Out, bool) {
		if o, ok := model(e, st, ev); ok {
			return o, true
		}
		return w.stdModel(e, st, ev)
	}
	st.Store(&flow.Addr{Base: "engine", T: types.Typ[types.Int]}, eng)
	ctx := w.in(st, "ctx", paramType(w.loop, 1))
	e := w.engine()
	e.Sched = true
	e.MaxFork = fork
	e.MaxPath = 40000
	return e.Run(w.loop, []flow.Val{eng, ctx}, st.Fork()), fns, ctx, e
}

func isDraw(ev *flow.Event) bool {
	return ev.Kind == "call" && (ev.Method == "Intn" || ev.Method == "Int63n" || ev.Method == "Int31n" || ev.Method == "IntN" || strings.Contains(ev.Name, "rand") && (strings.HasSuffix(ev.Name, ".Intn") || strings.HasSuffix(ev.Name, ".IntN") || strings.HasSuffix(ev.Name, ".Int63n") || strings.HasSuffix(ev.Name, ".Int31n"))) && len(ev.Args) == 1
}

func (w *wldRT) share() {
	drawn := &flow.Addr{Base: "a:drawn", T: types.Typ[types.Int], Alloc: true}
	seen := map[string]map[int64]map[string]bool{} // order of the APIs, number drawn, what is called
	rng := int64(0)
	const open = -1
	_, fns, _, e := w.loops(1, 30, 70, func(e *flow.Engine, st *flow.State, ev *flow.Event) ([]flow.Out, bool) {
		if isDraw(ev) {
			k, ok := flow.Strip(ev.Args[0]).(flow.Const)
			if !ok {
				return nil, false
			}
			n, _ := constant.Int64Val(k.V)
			if n <= 0 || n > 1000 {
				return nil, false
			}
			rng = n
			var outs []flow.Out
			for i := int64(0); i < n; i++ {
				i := i
				outs = append(outs, flow.Out{Res: kint(i), Set: func(s *flow.State) { s.Store(drawn, kint(i+1)) }})
			}
			return outs, true
		}
		if ev.Target != nil && ev.Call.Common().StaticCallee() == nil && len(ev.Args) == 1 && core.IsContext(flow.TypeOf(ev.Args[0])) {
			n := int64(open)
			if k, ok := st.Load(drawn).(flow.Const); ok {
				n, _ = constant.Int64Val(k.V)
				n--
			}
			o := st.Load(orderCell).Key()
			if seen[o] == nil {
				seen[o] = map[int64]map[string]bool{}
			}
			if seen[o][n] == nil {
				seen[o][n] = map[string]bool{}
			}
			seen[o][n][flow.Strip(ev.Target).Key()] = true
			return []flow.Out{}, true // what comes after is looked at elsewhere
		}
		return nil, false
	})
	if fns == nil || e.Over || rng == 0 || len(seen) == 0 {
		w.bad(w.loop, nil, "undecided", "which API a request is for cannot be followed")
		return
	}
	for _, by := range seen {
		count := map[string]int64{}
		for n := int64(0); n < rng; n++ {
			w.c.Ok("share", fmt.Sprint(n))
			if len(by[n]) != 1 {
				w.bad(w.loop, nil, "share", "the number drawn for a request does not say which API is called")
				return
			}
			for k := range by[n] {
				count[k]++
			}
		}
		for i, want := range []int64{30, 70} {
			if count[fns[i].Key()]*100 != want*rng {
				w.bad(w.loop, nil, "share", "an API does not get its proportion of the requests")
				return
			}
		}
	}
}

var orderCell = &flow.Addr{Base: "a:order", T: types.Typ[types.Int], Alloc: true}

// running: what the run does when one or two requests are made before it ends.
func (w *wldRT) runs() {
	w.rt.share = func(b string) bool { return strings.HasSuffix(b, ".Stats") }
	defer func() { w.rt.share = nil }()
	paths, fns, ctx, e := w.loops(2, 100, 0, func(e *flow.Engine, st *flow.State, ev *flow.Event) ([]flow.Out, bool) {
		if isDraw(ev) {
			return []flow.Out{{Res: kint(0)}}, true
		}
		return nil, false
	})
	if fns == nil || e.Over || len(paths) == 0 {
		w.bad(w.loop, nil, "undecided", "the run cannot be followed")
		return
	}
	most := 0
	paced := false
	for _, p := range paths {
		switch p.How {
		case "panic":
			w.bad(w.loop, p, "run", "it can panic")
			continue
		case "blocked":
			w.bad(w.loop, p, "run", "it can wait for ever")
			continue
		case "return":
		default:
			continue
		}
		w.c.Ok("run", core.Name(w.loop))
		if p.St.Waiting() > 0 {
			w.bad(w.loop, p, "run", "something it started waits for ever")
		}
		var made []flow.Val
		for i, ev := range p.St.Trace {
			if ev.Kind != "call" || ev.Target == nil || len(ev.Args) != 1 || flow.TypeOf(ev.Args[0]) == nil || !core.IsContext(flow.TypeOf(ev.Args[0])) {
				continue
			}
			if i >= p.RetAt {
				w.bad(w.loop, p, "run", "a request is made after the run has returned")
			}
			if !p.St.Derives(ev.Args[0], ctx.Key()) {
				w.bad(w.loop, p, "run", "a request does not get the caller's context")
			}
			made = append(made, ev.Res)
		}
		if len(made) > most {
			most = len(made)
		}
		eng := p.St.Load(&flow.Addr{Base: "engine", T: types.Typ[types.Int]})
		stats, ok := elems(p.St, w.field(p.St, eng, "Stats"))
		if !ok {
			w.bad(w.loop, p, "undecided", "the statistics after the run are not known")
			continue
		}
		left := map[string]int{}
		for _, m := range made {
			left[m.Key()]++
		}
		for _, s := range stats {
			left[s.Key()]--
		}
		for _, n := range left {
			switch {
			case n > 0:
				w.bad(w.loop, p, "run", "a request that was made is not in the statistics when the run returns")
			case n < 0:
				w.bad(w.loop, p, "run", "the statistics have a request that was not made, or have one twice")
			}
		}
		w.collected(p)
		switch w.pace(p, ctx) {
		case 1:
			paced = true
		case -1:
			w.bad(w.loop, p, "pace", "the mean time between requests is not one second divided by the rate")
		}
		if !w.ends(p, ctx) {
			w.bad(w.loop, p, "pace", "the run does not end after its duration or with the caller's context, whichever is first")
		}
	}
	if most < 2 {
		w.bad(w.loop, nil, "run", "no two requests are made in a run")
	}
	if !paced {
		w.bad(w.loop, nil, "pace", "the time between requests is not known")
	}
}

// collected: the statistics are written by one goroutine at a time, before the run returns.
func (w *wldRT) collected(p *flow.Path) {
	by := map[int]bool{}
	var locks []string
	n := 0
	for i, ev := range p.St.Trace {
		if ev.Kind != "store" {
			continue
		}
		if i >= p.RetAt {
			w.bad(w.loop, p, "run", "the statistics are written after the run has returned")
		}
		by[ev.Gor] = true
		if n == 0 {
			locks = ev.Locks
		} else {
			locks = common(locks, ev.Locks)
		}
		n++
	}
	if len(by) > 1 && len(locks) == 0 {
		w.bad(w.loop, p, "run", "the statistics are written by several goroutines at once")
	}
}

func common(a, b []string) (out []string) {
	for _, x := range a {
		for _, y := range b {
			if x == y {
				out = append(out, x)
			}
		}
	}
	return
}

// product is a number times powers of opaque terms.
type product struct {
	c constant.Value
	f map[string]int
	v map[string]flow.Val
}

func factors(v flow.Val) product {
	v = flow.Strip(v)
	one := product{c: constant.MakeInt64(1), f: map[string]int{}, v: map[string]flow.Val{}}
	switch x := v.(type) {
	case flow.Const:
		if x.V.Kind() == constant.Int || x.V.Kind() == constant.Float {
			one.c = constant.ToFloat(x.V)
			return one
		}
	case *flow.App:
		if strings.HasPrefix(x.Op, "conv") && len(x.Args) == 1 {
			return factors(x.Args[0])
		}
		if (x.Op == "*" || x.Op == "/") && len(x.Args) == 2 {
			a, b := factors(x.Args[0]), factors(x.Args[1])
			sign, op := 1, token.MUL
			if x.Op == "/" {
				sign, op = -1, token.QUO
				if constant.Sign(b.c) == 0 {
					break
				}
			}
			a.c = constant.BinaryOp(a.c, op, b.c)
			for k, n := range b.f {
				a.f[k] += sign * n
				a.v[k] = b.v[k]
				if a.f[k] == 0 {
					delete(a.f, k)
				}
			}
			return a
		}
	}
	one.f[v.Key()], one.v[v.Key()] = 1, v
	return one
}

// pace: 1 when the requests made have the right mean distance, -1 when they do not, 0 when no second request was awaited.
func (w *wldRT) pace(p *flow.Path, ctx flow.Val) int {
	rands := map[string]constant.Value{}
	launched, waits := 0, 0
	for _, ev := range p.St.Trace {
		if ev.Kind == "go" && ev.Gor != 0 {
			launched++
		}
		if ev.Kind != "call" || ev.Gor == 0 {
			continue
		}
		switch {
		case ev.Method == "Rand" && ev.Recv != nil:
			if s, ok := ev.Recv.(*flow.Struct); ok && strings.HasSuffix(core.TypeName(flow.TypeOf(s.Base)), "distuv.Poisson") {
				if l, ok := flow.Strip(s.F["Lambda"]).(flow.Const); ok {
					rands[ev.Res.Key()] = l.V
				}
			}
		case ev.Method == "ExpFloat64" || strings.HasSuffix(ev.Name, ".ExpFloat64"):
			rands[ev.Res.Key()] = constant.MakeInt64(1)
		case ev.Name == "(*time.Timer).Reset" || ev.Name == "time.After" || ev.Name == "time.NewTimer" || ev.Name == "time.Sleep":
			if isZeroNum(ev.Args[0]) {
				continue // the first request
			}
			waits++
			sub, ok := flow.Strip(ev.Args[0]).(*flow.App)
			if !ok || sub.Op != "(time.Time).Sub" || !strings.HasPrefix(sub.Args[1].Key(), "time.Now") {
				return -1
			}
			n := 0
			t := flow.Strip(sub.Args[0])
			for {
				add, ok := t.(*flow.App)
				if !ok || add.Op != "(time.Time).Add" {
					break
				}
				n++
				d := factors(add.Args[1])
				mean, tput := d.c, 0
				for k, e := range d.f {
					switch l := rands[k]; {
					case l != nil && e == 1:
						mean = constant.BinaryOp(mean, token.MUL, constant.ToFloat(l))
					case k == "tput":
						tput = e
					default:
						return -1
					}
				}
				if tput != -1 || !constant.Compare(mean, token.EQL, constant.ToFloat(constant.MakeInt64(1e9))) {
					return -1
				}
				t = flow.Strip(add.Args[0])
			}
			if !strings.HasPrefix(t.Key(), "time.Now") || n != launched || sub.Args[1].Key() == t.Key() {
				return -1
			}
		}
	}
	if waits == 0 {
		return 0
	}
	return 1
}

func isZeroNum(v flow.Val) bool {
	c, ok := flow.Strip(v).(flow.Const)
	return ok && c.V.Kind() == constant.Int && constant.Sign(c.V) == 0
}

// ends: what the run waits for before it stops is its duration or the end of the caller's context.
func (w *wldRT) ends(p *flow.Path, ctx flow.Val) bool {
	timers := map[string]bool{}
	for i, ev := range p.St.Trace {
		if i >= p.RetAt || ev.Gor != 0 {
			continue
		}
		if ev.Kind == "call" && (ev.Name == "time.NewTimer" || ev.Name == "time.After") && strings.Contains(ev.Args[0].Key(), "duration(howlong)") {
			if a, ok := flow.Strip(ev.Args[0]).(*flow.App); ok && a.Op == "duration" {
				timers[ev.Res.Key()] = true
			}
		}
		if ev.Kind != "recv" {
			continue
		}
		alts := ev.Alts
		if len(alts) == 0 {
			alts = []string{ev.Recv.Key()}
		}
		timed, done := false, false
		for _, a := range alts {
			if strings.HasPrefix(a, "ctx.Done(") {
				done = done || strings.Contains(a, ctx.Key()) || strings.Contains(a, "context.With")
				timed = timed || strings.Contains(a, "context.WithTimeout") || strings.Contains(a, "context.WithDeadline")
			}
			for t := range timers {
				timed = timed || a == t || strings.Contains(a, t+".C")
			}
		}
		return timed && done
	}
	return false
}

func (w *wldRT) prints() {
	w.model = w.stdModel
	st, wl, _ := w.workload(kint(30), kint(70))
	args := []flow.Val{&flow.Sym{ID: "outfile", T: types.Typ[types.String]}, &flow.Sym{ID: "tput", T: types.Typ[types.Int64]}, &flow.Sym{ID: "howlong", T: types.Typ[types.String]}, wl}
	var eng flow.Val
	for _, p := range w.step(st, w.mkE, args...) {
		if succeeded(p) == 1 {
			st, eng = p.St, p.Ret[0]
		}
	}
	statT := w.c.NamedType(wldPkg, "Stat")
	if eng == nil || statT == nil {
		w.bad(w.print, nil, "undecided", "there is no engine or no type of statistics")
		return
	}
	var stats []flow.Val
	sl := st.NewSlice(statT, 3)
	for i := int64(0); i < 3; i++ {
		f := map[string]flow.Val{}
		for _, n := range []string{"Start", "Duration", "IsError"} {
			f[n] = &flow.Sym{ID: fmt.Sprintf("%s%d", n, i), T: fieldType(statT, n)}
		}
		v := &flow.Struct{Base: flow.Zero{T: statT}, F: f}
		st.Store(sl.Elem(i), v)
		stats = append(stats, v)
	}
	a, ok := flow.Strip(eng).(*flow.Addr)
	if !ok {
		w.bad(w.print, nil, "undecided", "the engine is not known")
		return
	}
	st.Store(&flow.Addr{Base: a.Base + ".Stats", T: types.NewSlice(statT)}, sl)
	w.model = func(e *flow.Engine, st *flow.State, ev *flow.Event) ([]flow.Out, bool) {
		switch ev.Name {
		case "strings.Join":
			if vs, ok := elems(st, ev.Args[0]); ok {
				return []flow.Out{{Res: flow.MkApp("join", types.Typ[types.String], append(vs, ev.Args[1:]...)...)}}, true
			}
			return []flow.Out{{Res: flow.MkApp("join", types.Typ[types.String], ev.Args...)}}, true
		case "os.OpenFile", "os.Create":
			res := ev.Call.Common().Signature().Results()
			f := st.Fresh("file", res.At(0).Type())
			st.Assume(f, false)
			return []flow.Out{{Res: flow.Tuple{f, flow.NilV{}}}, {Res: flow.Tuple{flow.NilV{}, &flow.Iface{V: kstr("error:open"), T: types.Typ[types.String]}}}}, true
		}
		return w.stdModel(e, st, ev)
	}
	w.fork = 8
	defer func() { w.fork = 4 }()
	good := 0
	for _, p := range w.step(st, w.print, eng) {
		w.c.Ok("stats", core.Name(w.print))
		errs, known := int64(0), true
		for i := range stats {
			switch p.St.Bool(stats[i].(*flow.Struct).F["IsError"]) {
			case 1:
				errs++
			case 0:
				known = false
			}
		}
		if succeeded(p) == 0 {
			w.bad(w.print, p, "undecided", "whether the statistics were written is not known")
		}
		if !known {
			w.bad(w.print, p, "stats", "which requests failed is not looked at")
			continue
		}
		nums := map[int64]bool{}
		mean := false
		wrote := map[string]int{}
		var file flow.Val
		for _, ev := range during(p) {
			if ev.Kind != "call" {
				continue
			}
			toFile := false
			for _, a := range append([]flow.Val{ev.Recv}, ev.Args...) {
				if a != nil && file != nil && flow.Strip(a).Key() == file.Key() {
					toFile = true
				}
			}
			switch {
			case ev.Name == "os.OpenFile" || ev.Name == "os.Create":
				t, _ := ev.Res.(flow.Tuple)
				if len(t) == 2 && p.St.NilFact(t[1]) == 1 {
					file = t[0]
				}
				if !sameVal(ev.Args[0], args[0]) {
					w.bad(w.print, p, "stats", "what is written does not go to the given file")
				}
				if ev.Name == "os.OpenFile" {
					fl, _ := flow.Strip(ev.Args[1]).(flow.Const)
					if n, ok := constant.Int64Val(constant.ToInt(fl.V)); fl.V == nil || !ok || n&0x200 == 0 || n&0x40 == 0 || n&3 == 0 || n&0x400 != 0 {
						w.bad(w.print, p, "stats", "the file is not made anew")
					}
				}
			case toFile:
				for _, a := range ev.Args {
					leaves(p.St, a, func(k string) { wrote[k]++ })
				}
			case strings.HasPrefix(ev.Name, "fmt.Print"):
				label := ""
				for _, a := range ev.Args {
					if c, ok := flow.Strip(a).(flow.Const); ok && c.V.Kind() == constant.String {
						label += strings.ToLower(constant.StringVal(c.V))
					}
				}
				for _, a := range ev.Args {
					if c, ok := flow.Strip(a).(flow.Const); ok && c.V.Kind() == constant.Int {
						n, _ := constant.Int64Val(c.V)
						nums[n] = true
						want := int64(-1)
						for word, k := range map[string]int64{"total": 3, "success": 3 - errs, "error": errs, "fail": errs} {
							if strings.Contains(label, word) {
								if want >= 0 && want != k {
									want = -2 // one line tells several
								} else if want != -2 {
									want = k
								}
							}
						}
						if want >= 0 && want != n {
							w.bad(w.print, p, "stats", "a number that is printed is not what it is said to be")
						}
					}
					if q, ok := flow.Strip(a).(*flow.App); ok && q.Op == "/" {
						n := factors(q.Args[1])
						sum := lin(unconv(q.Args[0]))
						all := len(sum.T) == 3 && constant.Sign(sum.C) == 0
						for i := range stats {
							d := sum.T[stats[i].(*flow.Struct).F["Duration"].Key()]
							all = all && d != nil && constant.Compare(d, token.EQL, constant.MakeInt64(1))
						}
						mean = mean || all && len(n.f) == 0 && constant.Compare(n.c, token.EQL, constant.MakeInt64(3))
					}
				}
			}
		}
		if succeeded(p) != 1 {
			continue
		}
		good++
		for _, n := range []int64{3, errs, 3 - errs} {
			if !nums[n] {
				w.bad(w.print, p, "stats", "the numbers printed are not those of requests, successes and failures")
			}
		}
		if !mean {
			w.bad(w.print, p, "stats", "the mean latency is not printed")
		}
		for i := range stats {
			for _, f := range []string{"Start", "Duration", "IsError"} {
				if v := stats[i].(*flow.Struct).F[f]; wrote[v.Key()] != 1 {
					w.bad(w.print, p, "stats", "the file does not have the %s of each request once", f)
				}
			}
		}
	}
	if good == 0 {
		w.bad(w.print, nil, "stats", "the statistics cannot be written")
	}
}

// leaves visits the opaque parts of a term.
func leaves(st *flow.State, v flow.Val, visit func(string)) {
	switch x := flow.Strip(v).(type) {
	case *flow.App:
		for _, a := range x.Args {
			leaves(st, a, visit)
		}
	case flow.Tuple:
		for _, a := range x {
			leaves(st, a, visit)
		}
	default:
		if from := st.From[x.Key()]; len(from) > 0 {
			for _, a := range from {
				leaves(st, a, visit)
			}
			return
		}
		visit(x.Key())
	}
}
