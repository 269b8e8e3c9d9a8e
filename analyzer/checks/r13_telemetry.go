package checks

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/core"
	"verif/analyzer/flow"
)

func init() {
	register(&Check{
		ID: "R13",
		Rules: "Every path of every logger, tracer and metric collector of the runtime library, with opaque messages and every answer of the libraries: " +
			"records: a call makes one record whose text is the formatted message and whose level is that of the call, in the log or the span of the caller's context, and no record only where there is no trace; " +
			"context: the caller gets its own context back or the one that the log continues with; a record that could not be made is an error; " +
			"default: the logger or collector that was built is the one that applications get, and meters come from it; " +
			"exports: the provider that tracers give out is the one that was built, exports to the configured server, and drops nothing.",
		Run:       runR13,
		NotDecide: "What the logging and tracing libraries do with a record; the delivery of spans.",
	})
}

var levels = []string{"DEBUG", "INFO", "WARN", "ERROR"}

func runR13(c *core.Ctx) {
	ts, _ := runtimeTypes(c)
	n := map[string]int{}
	for _, in := range []string{"Logger", "Tracer", "MetricCollector"} {
		iface := c.NamedType("runtime/core/backend", in)
		if iface == nil {
			c.Fail("undecided", "runtime/core/backend."+in, 0, "the interface is not there")
			continue
		}
		for _, t := range ts {
			if !types.Implements(types.NewPointer(t), iface.Underlying().(*types.Interface)) || ownMethod(c, t, iface.Underlying().(*types.Interface).Method(0).Name()) == nil {
				continue
			}
			n[in]++
			q := &telemetry{rt: newRT(c, core.Short(t.Obj().Pkg().Path()), "runtime/core/backend"), t: t, mk: constructor(c, t)}
			if q.mk == nil {
				c.Fail("undecided", core.TypeName(t), t.Obj().Pos(), "the type has no constructor")
				continue
			}
			q.setup()
			switch in {
			case "Logger":
				q.logger()
			case "Tracer":
				q.tracer()
			default:
				q.metrics()
			}
		}
	}
	for k, v := range map[string]int{"Logger": 3, "Tracer": 3, "MetricCollector": 1} {
		if n[k] < v {
			c.Fail("floor", k, 0, "%d implementations were found, %d were confirmed by reading", n[k], v)
		}
	}
	c.Floor("records", 40)
}

type telemetry struct {
	*rt
	t  *types.Named
	mk *ssa.Function
	st *flow.State
}

const vecLib = "github.com/DistributedClocks/GoVector/govec"
const xtrLib = "gitlab.mpi-sws.org/cld/tracing/tracing-framework-go/xtrace/client."

func (q *telemetry) setup() {
	q.fork = 8
	q.st = flow.NewState()
	// package variables are zero when the process starts
	for _, p := range q.pkgs {
		pkg := q.c.P.SSA.ImportedPackage(core.Mod + p)
		if pkg == nil {
			continue
		}
		for _, m := range pkg.Members {
			if g, ok := m.(*ssa.Global); ok && !strings.HasPrefix(g.Name(), "init$") {
				t := core.Deref(g.Type())
				q.st.Store(&flow.Addr{Base: "g:" + core.Short(pkg.Pkg.Path()) + "." + g.Name(), T: t}, flow.ZeroOf(t))
			}
		}
	}
	q.model = func(e *flow.Engine, st *flow.State, ev *flow.Event) ([]flow.Out, bool) {
		if ev.Call == nil {
			return nil, false
		}
		one := func(v flow.Val) ([]flow.Out, bool) { return []flow.Out{{Res: v}}, true }
		rs := resultTypes(ev)
		args := ev.Args
		if ev.Recv != nil {
			args = append([]flow.Val{ev.Recv}, args...)
		}
		name := ev.Name
		switch {
		case strings.HasPrefix(name, xtrLib):
			f := strings.TrimPrefix(name, xtrLib)
			switch f {
			case "HasTask":
				return []flow.Out{{Res: flow.Const{V: constant.MakeBool(true)}}, {Res: flow.Const{V: constant.MakeBool(false)}}}, true
			case "Connect":
				return []flow.Out{{Res: flow.NilV{}}, {Res: errVal("error:connect")}}, true
			}
			if len(rs) == 1 && core.IsContext(rs[0]) {
				return one(flow.MkApp("logged", rs[0], ev.Args...))
			}
		case strings.HasSuffix(name, ".GoLog).LogLocalEvent"):
			return []flow.Out{{Res: flow.Const{V: constant.MakeBool(true)}}, {Res: flow.Const{V: constant.MakeBool(false)}}}, true
		case strings.Contains(name, vecLib), strings.HasPrefix(name, "go.opentelemetry.io/otel"), strings.Contains(name, "(go.opentelemetry.io/otel"), strings.Contains(name, "(*go.opentelemetry.io/otel"):
			switch len(rs) {
			case 0:
				return one(flow.Tuple{})
			case 1:
				if strings.Contains(name, ".New") || strings.HasSuffix(name, "InitGoVector") {
					args = append(args, st.Fresh("object", nil))
				}
				v := flow.MkApp(name, rs[0], args...)
				st.Assume(v, false)
				return one(v)
			case 2:
				v := flow.MkApp(name, rs[0], append(args, st.Fresh("object", nil))...)
				return []flow.Out{
					{Res: flow.Tuple{v, flow.NilV{}}, Set: func(s *flow.State) { s.Assume(v, false) }},
					{Res: flow.Tuple{flow.NilV{}, errVal("error:export")}},
				}, true
			}
		}
		return nil, false
	}
}

// build follows the constructor.
func (q *telemetry) build(st *flow.State, args ...flow.Val) *flow.Path {
	var made *flow.Path
	for _, p := range q.step(st, q.mk, args...) {
		if succeeded(p) == 1 {
			made = p
		}
	}
	if made == nil {
		q.bad(q.mk, nil, "undecided", "the constructor never succeeds")
	}
	return made
}

func (q *telemetry) params(st *flow.State) (args []flow.Val) {
	for _, p := range q.mk.Params {
		args = append(args, q.in(st, p.Name(), p.Type()))
	}
	return
}

// isDefault: the package variable that holds v.
func (q *telemetry) isDefault(st *flow.State, v flow.Val) bool {
	pkg := q.c.P.SSA.ImportedPackage(core.Mod + "runtime/core/backend")
	for _, m := range pkg.Members {
		if g, ok := m.(*ssa.Global); ok && sameVal(st.Load(&flow.Addr{Base: "g:" + core.Short(pkg.Pkg.Path()) + "." + g.Name(), T: core.Deref(g.Type())}), v) {
			return true
		}
	}
	return false
}

type record struct {
	ev    *flow.Event
	level string
	text  flow.Val
	ctx   flow.Val // the context that the caller has to get, if not its own
	fails bool
}

// formatted: v is the message.
func formatted(v flow.Val, format flow.Val, args []flow.Val) bool {
	a, ok := flow.Strip(v).(*flow.App)
	return ok && a.Op == "fmt.Sprintf" && len(a.Args) == 1+len(args) && sameVal(a.Args[0], format) && allSame(a.Args[1:], args)
}

func slogLevel(v flow.Val) string {
	c, ok := unconv(v).(flow.Const)
	if !ok {
		return "?"
	}
	n, _ := constant.Int64Val(c.V)
	switch n {
	case -4:
		return "DEBUG"
	case 0:
		return "INFO"
	case 4:
		return "WARN"
	case 8:
		return "ERROR"
	}
	return fmt.Sprint(n)
}

// records finds the records that a path makes.
func (q *telemetry) records(p *flow.Path, f *ssa.Function, ctx flow.Val) (out []record) {
	for _, ev := range during(p) {
		if ev.Kind != "call" {
			continue
		}
		name := ev.Name
		switch {
		case strings.Contains(name, "slog.") && !strings.Contains(name, "slog.Level") && !strings.Contains(name, "slog.Default"):
			a := ev.Args
			fn := name[strings.LastIndex(name, ".")+1:]
			if len(a) > 0 && core.IsContext(flow.TypeOf(a[0])) {
				a = a[1:]
			}
			switch fn {
			case "Debug", "DebugContext", "Info", "InfoContext", "Warn", "WarnContext", "Error", "ErrorContext":
				l := strings.ToUpper(strings.TrimSuffix(fn, "Context"))
				if len(a) > 0 {
					out = append(out, record{ev: ev, level: l, text: a[0]})
				}
			case "Log", "LogAttrs":
				if len(a) > 1 {
					out = append(out, record{ev: ev, level: slogLevel(a[0]), text: a[1]})
				}
			}
		case strings.HasSuffix(name, "trace.Span).AddEvent"):
			r := record{ev: ev, level: "?", text: ev.Args[0]}
			if s, ok := flow.Strip(ev.Recv).(*flow.App); !ok || !strings.HasSuffix(s.Op, "SpanFromContext") || !sameVal(s.Args[0], ctx) {
				q.bad(f, p, "records", "the record is not in the span of the caller's context")
			}
			var find func(v flow.Val)
			find = func(v flow.Val) {
				a, ok := flow.Strip(v).(*flow.App)
				if !ok {
					return
				}
				if strings.HasSuffix(a.Op, "attribute.String") && len(a.Args) == 2 {
					if c, ok := a.Args[1].(flow.Const); ok {
						for _, l := range levels {
							if constant.StringVal(c.V) == l {
								r.level = l
							}
						}
					}
				}
				for _, x := range a.Args {
					if s, ok := x.(*flow.SliceV); ok {
						for i := int64(0); i < s.Len; i++ {
							find(p.St.Load(s.Elem(i)))
						}
					}
					find(x)
				}
			}
			for _, a := range ev.Args[1:] {
				find(a)
			}
			out = append(out, r)
		case strings.HasSuffix(name, ".GoLog).LogLocalEvent"):
			r := record{ev: ev, level: "?", text: ev.Args[0], fails: p.St.Bool(ev.Res) == -1}
			if a, ok := flow.Strip(ev.Args[1]).(*flow.App); ok && strings.HasSuffix(a.Op, "SetPriority") {
				if c, ok := unconv(last(a.Args)).(flow.Const); ok {
					if n, ok := constant.Int64Val(c.V); ok && n >= 0 && int(n) < len(levels) {
						r.level = levels[n]
					}
				}
			}
			out = append(out, r)
		case strings.HasPrefix(name, xtrLib+"Log"):
			r := record{ev: ev, level: "?", ctx: ev.Res}
			if !sameVal(ev.Args[0], ctx) {
				q.bad(f, p, "records", "the record is not in the trace of the caller's context")
			}
			text := ev.Args[1]
			if name == xtrLib+"Logf" {
				// a format that starts with a constant
				ps, ok := textParts(text)
				if ok && len(ps) == 2 {
					if c, is := ps[0].(flow.Const); is && !strings.Contains(constant.StringVal(c.V), "%") {
						r.level = levelIn(constant.StringVal(c.V))
						r.text = flow.MkApp("fmt.Sprintf", nil, append([]flow.Val{ps[1]}, ev.Args[2:]...)...)
					}
				}
			} else if ps, ok := messageParts(text); ok && len(ps) == 2 {
				if c, is := ps[0].(flow.Const); is {
					r.level, r.text = levelIn(constant.StringVal(c.V)), ps[1]
				}
			}
			out = append(out, r)
		}
	}
	return
}

// levelIn: the level that a prefix names.
func levelIn(s string) string {
	for _, l := range levels {
		if strings.Contains(s, l) {
			return l
		}
	}
	return "?"
}

// messageParts splits a text without looking into the message.
func messageParts(v flow.Val) ([]flow.Val, bool) {
	if a, ok := flow.Strip(v).(*flow.App); ok && a.Op == "+" && len(a.Args) == 2 {
		return a.Args, true
	}
	return textParts(v)
}

func (q *telemetry) logger() {
	c := q.c
	st := q.st.Fork()
	args := q.params(st)
	p := q.build(st, args...)
	if p == nil {
		return
	}
	c.Ok("default", core.Name(q.mk))
	obj := p.Ret[0]
	if !q.isDefault(p.St, obj) {
		q.bad(q.mk, p, "default", "the logger that is built is not the one that applications get")
	}
	if get := q.fn("runtime/core/backend", "GetLogger"); get != nil {
		for _, o := range q.step(p.St, get) {
			if !sameVal(o.Ret[0], obj) {
				q.bad(get, o, "default", "it is not the logger that was built")
			}
		}
	}
	if strings.HasPrefix(core.TypeName(q.t), "runtime/plugins/xtrace") {
		q.connected(p, args)
	}
	for _, m := range []string{"Debug", "Info", "Warn", "Error", "Logf"} {
		f := ownMethod(c, q.t, m)
		if f == nil {
			c.Fail("undecided", core.TypeName(q.t), q.t.Obj().Pos(), "the method %s is not its own", m)
			continue
		}
		for l, level := range levels {
			if m != "Logf" && strings.ToUpper(m) != level {
				continue
			}
			for _, nargs := range []int64{0, 2} {
				st := p.St.Fork()
				ctx, format := q.in(st, "ctx", paramType(f, 1)), q.in(st, "format", types.Typ[types.String])
				in := []flow.Val{obj, ctx}
				if m == "Logf" {
					in = append(in, &flow.Struct{Base: flow.Zero{T: paramType(f, 2)}, F: map[string]flow.Val{"Level": kint(int64(l))}})
				}
				any := types.NewInterfaceType(nil, nil)
				s := st.NewSlice(any, nargs)
				var want []flow.Val
				for k := int64(0); k < nargs; k++ {
					x := &flow.Sym{ID: fmt.Sprintf("arg%d", k), T: any}
					st.Store(s.Elem(k), x)
					want = append(want, x)
				}
				in = append(in, format, s)
				made := false
				for _, o := range q.step(st, f, in...) {
					c.Ok("records", core.Name(f))
					rs := q.records(o, f, ctx)
					untraced := false
					for _, ev := range during(o) {
						untraced = untraced || ev.Kind == "call" && ev.Name == xtrLib+"HasTask" && o.St.Bool(ev.Res) == -1
					}
					switch {
					case len(rs) == 0 && untraced:
						if !sameVal(o.Ret[0], ctx) || succeeded(o) != 1 {
							q.bad(f, o, "context", "the caller is not given its own context")
						}
					case len(rs) != 1:
						q.bad(f, o, "records", "it makes %d records", len(rs))
					case rs[0].text == nil || !formatted(rs[0].text, format, want):
						q.bad(f, o, "records", "the text of the record is not the formatted message")
					case rs[0].level != level:
						q.bad(f, o, "records", "the record of level %s has level %s", level, rs[0].level)
					case rs[0].fails != (succeeded(o) == -1):
						q.bad(f, o, "context", "whether the record was made is not what the caller is told")
					case rs[0].ctx != nil && !sameVal(o.Ret[0], rs[0].ctx), rs[0].ctx == nil && !sameVal(o.Ret[0], ctx):
						q.bad(f, o, "context", "the caller is not given the context that the log continues with")
					default:
						made = made || !rs[0].fails
					}
				}
				if !made {
					q.bad(f, nil, "records", "no record is made")
				}
			}
		}
	}
}

// connected: the connection of the process is to the configured server.
func (q *telemetry) connected(p *flow.Path, args []flow.Val) {
	n := 0
	for _, ev := range during(p) {
		if ev.Kind == "call" && ev.Name == xtrLib+"Connect" {
			n++
			if !sameVal(ev.Args[0], args[1]) {
				q.bad(q.mk, p, "exports", "it does not connect to the configured server")
			}
		}
	}
	if n != 1 {
		q.bad(q.mk, p, "exports", "it connects to the server %d times", n)
	}
}

// termIn looks for a call in a term.
func termIn(st *flow.State, v flow.Val, is func(a *flow.App) bool) (found *flow.App) {
	seen := map[string]bool{}
	var rec func(v flow.Val)
	rec = func(v flow.Val) {
		if v == nil || found != nil || seen[v.Key()] {
			return
		}
		seen[v.Key()] = true
		switch x := flow.Strip(v).(type) {
		case *flow.App:
			if is(x) {
				found = x
				return
			}
			for _, a := range x.Args {
				rec(a)
			}
		case *flow.SliceV:
			for i := int64(0); i < x.Len; i++ {
				rec(st.Load(x.Elem(i)))
			}
		}
	}
	rec(v)
	return
}

func (q *telemetry) provider(p *flow.Path, get string, made string) (*flow.App, *ssa.Function) {
	f := ownMethod(q.c, q.t, get)
	st := p.St.Fork()
	ctx := q.in(st, "ctx2", paramType(f, 1))
	var prov *flow.App
	for _, o := range q.step(st, f, p.Ret[0], ctx) {
		q.c.Ok("exports", core.Name(f))
		a, ok := flow.Strip(o.Ret[0]).(*flow.App)
		if succeeded(o) != 1 || !ok || !strings.HasSuffix(a.Op, made) {
			q.bad(f, o, "exports", "it does not give out the provider")
			continue
		}
		for _, ev := range during(o) {
			if ev.Kind == "call" && strings.HasSuffix(ev.Name, made) {
				q.bad(f, o, "exports", "it makes a provider for each caller")
			}
		}
		prov = a
	}
	return prov, f
}

func (q *telemetry) tracer() {
	st := q.st.Fork()
	args := q.params(st)
	p := q.build(st, args...)
	if p == nil {
		return
	}
	prov, f := q.provider(p, "GetTracerProvider", "NewTracerProvider")
	if prov == nil {
		q.bad(f, p, "undecided", "the provider is not known")
		return
	}
	has := func(v flow.Val, names ...string) *flow.App {
		return termIn(p.St, v, func(a *flow.App) bool {
			for _, n := range names {
				if strings.HasSuffix(a.Op, n) {
					return true
				}
			}
			return false
		})
	}
	sink := has(prov, "sdk/trace.WithBatcher", "sdk/trace.WithSyncer", "sdk/trace.NewBatchSpanProcessor", "sdk/trace.NewSimpleSpanProcessor")
	if sink == nil {
		q.bad(q.mk, p, "exports", "no exporter gets the spans")
		return
	}
	if sink.Op[strings.LastIndex(sink.Op, ".")+1:][0] == 'N' && has(prov, "WithSpanProcessor") == nil {
		q.bad(q.mk, p, "exports", "no exporter gets the spans")
	}
	if s := has(prov, "trace.WithSampler"); s != nil && (has(s, "NeverSample", "TraceIDRatioBased") != nil || has(s, "AlwaysSample") == nil) {
		q.bad(q.mk, p, "exports", "spans are dropped")
	}
	for _, ev := range during(p) {
		if ev.Kind == "call" && (ev.Method == "Shutdown" || ev.Method == "UnregisterSpanProcessor") {
			q.bad(q.mk, p, "exports", "the provider is shut down")
		}
	}
	vals := map[string]flow.Val{"addr": args[1]}
	switch {
	case has(sink, "exporters/zipkin.New") != nil:
		e := has(sink, "exporters/zipkin.New")
		if _, ok := textIs(e.Args[0], "http://{addr}/api/v2/spans", vals); !ok {
			q.bad(q.mk, p, "exports", "spans are sent to %s and not to the configured server", showText(e.Args[0]))
		}
	case has(sink, "exporters/jaeger.New") != nil:
		e := has(sink, "jaeger.WithEndpoint")
		if e == nil {
			q.bad(q.mk, p, "exports", "spans are not sent to the configured server")
		} else if _, ok := textIs(e.Args[0], "http://{addr}/api/traces", vals); !ok {
			q.bad(q.mk, p, "exports", "spans are sent to %s and not to the configured server", showText(e.Args[0]))
		}
	case has(sink, "stdouttrace.New") != nil:
		if w := has(sink, "stdouttrace.WithWriter"); w != nil && !strings.Contains(w.Args[0].Key(), "os.Stdout") {
			q.bad(q.mk, p, "exports", "spans are not printed")
		}
	default:
		q.bad(q.mk, p, "undecided", "the exporter is not understood")
	}
	q.c.Ok("exports", core.Name(q.mk))
}

func (q *telemetry) metrics() {
	c := q.c
	for _, d := range []struct {
		text string
		ns   int64
	}{{"", 1e9}, {"250ms", 250e6}, {"3s", 3e9}, {"often", 0}} {
		st := q.st.Fork()
		args := q.params(st)
		args[1] = kstr(d.text)
		if d.ns == 0 {
			for _, p := range q.step(st, q.mk, args...) {
				if succeeded(p) != -1 {
					q.bad(q.mk, p, "exports", "an interval that cannot be read is accepted")
				}
			}
			continue
		}
		p := q.build(st, args...)
		if p == nil {
			return
		}
		c.Ok("exports", core.Name(q.mk)+" "+d.text)
		prov, f := q.provider(p, "GetMetricProvider", "NewMeterProvider")
		if prov == nil {
			q.bad(f, p, "undecided", "the provider is not known")
			return
		}
		find := func(n string) *flow.App {
			return termIn(p.St, prov, func(a *flow.App) bool { return strings.HasSuffix(a.Op, n) })
		}
		if r, e := find(".NewPeriodicReader"), find("stdoutmetric.New"); find("metric.WithReader") == nil || r == nil || e == nil {
			q.bad(q.mk, p, "exports", "no exporter gets the metrics")
		}
		if w := find(".WithInterval"); w == nil || !constEq(w.Args[0], d.ns) {
			q.bad(q.mk, p, "exports", "the metrics are not exported at the configured interval")
		}
		c.Ok("default", core.Name(q.mk))
		if !q.isDefault(p.St, p.Ret[0]) {
			q.bad(q.mk, p, "default", "the collector that is built is not the one that applications get")
			continue
		}
		meter := q.fn("runtime/core/backend", "Meter")
		if meter == nil {
			return
		}
		st = p.St.Fork()
		ctx, name := q.in(st, "ctx2", paramType(meter, 0)), q.in(st, "name", types.Typ[types.String])
		ot := paramType(meter, 2).Underlying().(*types.Slice).Elem()
		opts := st.NewSlice(ot, 1)
		opt := q.in(st, "opt", ot)
		st.Store(opts.Elem(0), opt)
		for _, o := range q.step(st, meter, ctx, name, opts) {
			c.Ok("default", core.Name(meter))
			m, ok := flow.Strip(o.Ret[0]).(*flow.App)
			if succeeded(o) != 1 || !ok || !strings.HasSuffix(m.Op, "MeterProvider).Meter") || !sameVal(m.Args[0], prov) || !allSame(m.Args[1:], []flow.Val{name, opt}) {
				q.bad(meter, o, "default", "it is not the meter of the collector with the caller's name and options")
			}
		}
	}
}

func constEq(v flow.Val, n int64) bool {
	c, ok := unconv(v).(flow.Const)
	return ok && constant.Compare(constant.ToInt(c.V), token.EQL, constant.MakeInt64(n))
}
