package checks

import (
	"go/constant"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/core"
	"verif/analyzer/flow"
)

const otTrace = "go.opentelemetry.io/otel/trace."

func isCall(ev *flow.Event, name string) bool { return ev.Kind == "call" && ev.Name == name }

func res(ev *flow.Event, i int) flow.Val {
	if t, ok := ev.Res.(flow.Tuple); ok {
		if i < len(t) {
			return t[i]
		}
		return nil
	}
	if i == 0 {
		return ev.Res
	}
	return nil
}

func same(a, b flow.Val) bool {
	return a != nil && b != nil && flow.Strip(a).Key() == flow.Strip(b).Key()
}

// spans follows the spans of a path: all of them are ended once, and the call happens inside the last.
func (g *genAll) spans(x *emitted, p *flow.Path, bad func(string, string, ...any)) (starts []attempt, call *attempt) {
	tr := during(p)
	for i, ev := range tr {
		if isCall(ev, "("+otTrace+"Tracer).Start") {
			starts = append(starts, attempt{ev, i})
		}
		if g.downstream(ev) && call == nil {
			call = &attempt{ev, i}
		}
	}
	for _, s := range starts {
		span := res(s.Ev, 1)
		ends := 0
		for i, ev := range tr {
			if isCall(ev, "("+otTrace+"Span).End") && same(ev.Recv, span) {
				ends++
				if i < s.At || call != nil && i < call.At {
					bad("span-ends", "it ends the span before the call is over")
				}
			}
		}
		if ends != 1 {
			bad("span-ends", "it ends the span it started %d times", ends)
		}
		if call != nil && s.At > call.At {
			bad("span", "it starts the span after the call")
		}
		// the tracer is the collector's
		ok := false
		for _, ev := range tr[:s.At] {
			if ev.Kind == "call" && ev.Method == "GetTracerProvider" && ev.Recv != nil {
				if y, isS := flow.Strip(ev.Recv).(*flow.Sym); isS && strings.HasPrefix(y.ID, "node:") && s.Ev.Recv != nil && p.St.Derives(s.Ev.Recv, res(ev, 0).Key()) {
					ok = true
				}
			}
		}
		if !ok {
			bad("span", "the span is not started with the tracer of the configured collector")
		}
	}
	return
}

// records: the call's error is recorded on the span before it ends, and only then.
func records(p *flow.Path, span flow.Val, call *attempt, bad func(string, string, ...any)) {
	_, e := resErr(call.Ev.Res)
	n := 0
	ended := false
	for i, ev := range during(p) {
		if isCall(ev, "("+otTrace+"Span).End") && same(ev.Recv, span) {
			ended = true
		}
		if isCall(ev, "("+otTrace+"Span).RecordError") && same(ev.Recv, span) {
			n++
			if i < call.At || len(ev.Args) == 0 || !same(ev.Args[0], e) {
				bad("span-error", "what it records on the span is not the error of the call")
			}
			if ended {
				bad("span-error", "it records the error on a span that has ended")
			}
		}
	}
	switch f := p.St.NilFact(e); {
	case f == -1 && n != 1:
		bad("span-error", "a failed call is recorded on the span %d times", n)
	case f == 1 && n != 0:
		bad("span-error", "it records an error although the call succeeded")
	case f == 0 && n == 0:
		bad("span-error", "a failed call may not be recorded on the span")
	}
}

func tracedClient(spans bool) func(c *core.Ctx, g *genAll, w *wiringFn, x *emitted) {
	return func(c *core.Ctx, g *genAll, w *wiringFn, x *emitted) {
		if x.Server || !strings.Contains(x.E.Node, "Client") {
			return
		}
		// the option's choice, which must be a constant
		choice := ""
		for _, d := range w.Defs {
			for _, p := range d.Paths {
				if m := madeNode(p, x.E.Named); m != nil {
					for k, v := range m {
						if k2, ok := v.(flow.Const); ok && k2.V.Kind() == constant.Bool {
							choice = k
							if constant.BoolVal(k2.V) != x.E.Params[k] {
								return // the other variant
							}
						}
					}
				}
			}
		}
		if choice == "" {
			c.Fail("option", w.Name, w.Fn.Pos(), "the option does not choose whether clients make spans")
			return
		}
		g.each(c, x, func(m *meth, p *flow.Path, bad func(string, string, ...any)) {
			if p.How != "return" {
				bad("ends", "it does not come to an end (%s)", p.How)
				return
			}
			starts, call := g.spans(x, p, bad)
			if call == nil {
				return // G01 decides that a call is made
			}
			var span flow.Val
			switch {
			case spans && len(starts) != 1:
				bad("span", "%s asks for one span per call; it starts %d", w.Fn.Name(), len(starts))
				return
			case !spans && len(starts) != 0:
				bad("span", "%s asks for no spans; it starts %d", w.Fn.Name(), len(starts))
				return
			case spans:
				span = res(starts[0].Ev, 1)
				if !p.St.Derives(starts[0].Ev.Args[0], "ctx") {
					bad("parent", "the span is not a child of the caller's")
				}
				if !p.St.Derives(call.Ev.Args[0], res(starts[0].Ev, 0).Key()) {
					bad("inside", "the call is not made inside the span")
				}
			default:
				for _, ev := range during(p) {
					if isCall(ev, otTrace+"SpanFromContext") && p.St.Derives(ev.Args[0], "ctx") {
						span = res(ev, 0)
					}
				}
				if span == nil {
					bad("parent", "it does not look up the caller's span")
					return
				}
			}
			n := len(call.Ev.Args)
			if n != m.Sig.Params().Len()+1 {
				bad("undecided", "the wrapped client takes no trace context")
				return
			}
			sent := call.Ev.Args[n-1]
			ok := false
			for _, ev := range during(p)[:call.At] {
				if ev.Kind == "call" && ev.Name == "("+otTrace+"SpanContext).MarshalJSON" && p.St.Derives(sent, res(ev, 0).Key()) {
					for _, sc := range during(p)[:call.At] {
						if isCall(sc, "("+otTrace+"Span).SpanContext") && same(sc.Recv, span) && same(res(sc, 0), ev.Recv) {
							ok = true
						}
					}
				}
			}
			if !ok {
				bad("propagates", "the trace context sent to the server is not that of the %s span", map[bool]string{true: "client's", false: "caller's"}[spans])
			}
			records(p, span, call, bad)
		})
	}
}

func tracedServer(c *core.Ctx, g *genAll, w *wiringFn, x *emitted) {
	if !strings.Contains(x.E.Node, "Server") {
		return
	}
	linked := map[string]bool{}
	g.each(c, x, func(m *meth, p *flow.Path, bad func(string, string, ...any)) {
		if p.How != "return" {
			bad("ends", "it does not come to an end (%s)", p.How)
			return
		}
		starts, call := g.spans(x, p, bad)
		if call == nil {
			for _, ev := range during(p) {
				if _, e := resErr(ev.Res); isCall(ev, "runtime/core/backend.GetSpanContext") && e != nil && p.St.NilFact(e) == -1 {
					bad("malformed", "a trace context that cannot be decoded makes the call fail")
				}
			}
			return
		}
		if len(starts) != 1 {
			bad("span", "it starts %d spans for a call", len(starts))
			return
		}
		last := m.Fn.Params[len(m.Fn.Params)-1]
		in := &flow.Sym{ID: "arg" + itoa(len(m.Fn.Params)-3), T: last.Type()}
		parent := starts[0].Ev.Args[0]
		if !p.St.Derives(parent, "ctx") {
			bad("parent", "the span is not started in the request's context")
		}
		remote := false
		for _, ev := range during(p)[:starts[0].At] {
			if isCall(ev, otTrace+"ContextWithRemoteSpanContext") && p.St.Derives(parent, res(ev, 0).Key()) && p.St.Derives(ev.Args[1], in.ID) && p.St.Derives(ev.Args[0], "ctx") {
				for _, gs := range during(p)[:starts[0].At] {
					if isCall(gs, "runtime/core/backend.GetSpanContext") && same(gs.Args[0], in) && p.St.Derives(ev.Args[1], res(gs, 0).Key()) {
						remote = true
					}
				}
			}
		}
		switch {
		case remote:
			linked[m.Name] = true
		case !emptyText(p, in):
			bad("parent", "the span is not a child of the span in the trace context it received")
		}
		if !p.St.Derives(call.Ev.Args[0], res(starts[0].Ev, 0).Key()) {
			bad("inside", "the call is not made inside the span")
		}
		records(p, res(starts[0].Ev, 1), call, bad)
	})
	for _, m := range g.methods(x) {
		if m.Fn != nil && !linked[m.Name] {
			c.Fail("parent", m.site("linked"), token.NoPos, "emitted method: no path continues the trace it received")
		}
	}
}

func itoa(i int) string { return constant.MakeInt64(int64(i)).ExactString() }

// emptyText: the path decided that the text v is empty.
func emptyText(p *flow.Path, v flow.Val) bool {
	for _, c := range p.St.Conds {
		a, ok := c.V.(*flow.App)
		if !ok || !strings.Contains(a.Key(), v.Key()) || len(a.Args) != 2 {
			continue
		}
		switch a.Op {
		case "==":
			k, isK := a.Args[1].(flow.Const)
			o := a.Args[0]
			if !isK {
				k, isK = a.Args[0].(flow.Const)
				o = a.Args[1]
			}
			if !isK || !c.B {
				continue
			}
			if same(o, v) && k.V.Kind() == constant.String && constant.StringVal(k.V) == "" {
				return true
			}
			if l, isL := flow.Strip(o).(*flow.App); isL && l.Op == "len" && same(l.Args[0], v) && constant.Sign(k.V) == 0 {
				return true
			}
		case "<":
			// 0 < len(v) is false, or len(v) < 1
			if l, isL := flow.Strip(a.Args[1]).(*flow.App); isL && l.Op == "len" && same(l.Args[0], v) && !c.B {
				return true
			}
			if l, isL := flow.Strip(a.Args[0]).(*flow.App); isL && l.Op == "len" && same(l.Args[0], v) && c.B {
				return true
			}
		}
	}
	return false
}

const govecLog = "(*runtime/plugins/govector.GoVecLogger)."

func (g *genAll) firstCall(p *flow.Path) *attempt {
	if as := g.attempts(p); len(as) > 0 {
		return &as[0]
	}
	return nil
}

func vectorClient(c *core.Ctx, g *genAll, w *wiringFn, x *emitted) {
	if !strings.Contains(x.E.Node, "Client") {
		return
	}
	g.each(c, x, func(m *meth, p *flow.Path, bad func(string, string, ...any)) {
		if p.How != "return" {
			bad("ends", "it does not come to an end (%s)", p.How)
			return
		}
		call := g.firstCall(p)
		if call == nil {
			return
		}
		var log flow.Val
		sent := false
		if n := len(call.Ev.Args); n == m.Sig.Params().Len()+1 {
			for _, ev := range during(p)[:call.At] {
				if isCall(ev, govecLog+"GetSendCtx") {
					if same(call.Ev.Args[n-1], res(ev, 0)) {
						sent = true
						log = ev.Recv
					} else {
						bad("clock-sends", "it advances the clock for a message that is not sent")
					}
				}
			}
		}
		if !sent {
			bad("clock-sends", "the request does not carry the clock of the process")
		}
		t, _ := call.Ev.Res.(flow.Tuple)
		if len(t) < 2 {
			bad("undecided", "the wrapped client returns no clock")
			return
		}
		merged := 0
		for _, ev := range during(p)[call.At:] {
			if isCall(ev, govecLog+"UnpackReceiveCtx") {
				merged++
				if !same(ev.Args[2], t[len(t)-2]) || log != nil && !same(ev.Recv, log) {
					bad("clock-merges", "what it merges into the clock is not what the server returned")
				}
			}
		}
		if merged != 1 {
			bad("clock-merges", "it merges the clock the server returned %d times", merged)
		}
	})
}

func vectorServer(c *core.Ctx, g *genAll, w *wiringFn, x *emitted) {
	if !strings.Contains(x.E.Node, "Server") {
		return
	}
	g.each(c, x, func(m *meth, p *flow.Path, bad func(string, string, ...any)) {
		if p.How != "return" {
			bad("ends", "it does not come to an end (%s)", p.How)
			return
		}
		call := g.firstCall(p)
		if call == nil {
			return
		}
		in := "arg" + itoa(len(m.Fn.Params)-3)
		merged := 0
		for _, ev := range during(p)[:call.At] {
			if isCall(ev, govecLog+"UnpackReceiveCtx") {
				merged++
				if flow.Strip(ev.Args[2]).Key() != in {
					bad("clock-merges", "what it merges into the clock is not what the client sent")
				}
			}
			if isCall(ev, govecLog+"GetSendCtx") {
				bad("clock-sends", "it prepares the response before the call is over")
			}
		}
		if merged != 1 {
			bad("clock-merges", "it merges the clock the client sent %d times before the call", merged)
		}
		if len(p.Ret) < 2 {
			return
		}
		out := p.Ret[len(p.Ret)-2]
		sent := 0
		for _, ev := range during(p)[call.At:] {
			if isCall(ev, govecLog+"GetSendCtx") {
				sent++
				if !same(res(ev, 0), out) {
					bad("clock-sends", "what it returns is not the clock of the process")
				}
			}
		}
		if sent != 1 {
			bad("clock-sends", "it puts the clock into the response %d times", sent)
		}
	})
}

// spanContext: decoding a trace context restores the fields that its encoding wrote.
func spanContext(c *core.Ctx) {
	fn := c.Func("runtime/core/backend", "GetSpanContext")
	if fn == nil {
		c.Fail("undecided", "runtime/core/backend.GetSpanContext", token.NoPos, "the function does not exist")
		return
	}
	e := flow.New(c.P.SSA)
	e.Inline = func(f *ssa.Function) bool { return core.InPkg(f, "runtime/core/backend") }
	site := core.Name(fn)
	good := 0
	st := flow.NewState()
	in := &flow.Sym{ID: "encoded", T: fn.Params[0].Type()}
	for _, p := range e.Run(fn, []flow.Val{in}, st) {
		c.Ok("decode-paths", site)
		if p.How != "return" || len(p.Ret) != 2 {
			c.Fail("decodes", site, fn.Pos(), "it ends with a %s", p.How)
			continue
		}
		if p.St.NilFact(p.Ret[1]) != 1 {
			continue
		}
		good++
		want := map[string][2]string{ // field: decoding function, field of the encoding
			"TraceID":    {otTrace + "TraceIDFromHex", "TraceID"},
			"SpanID":     {otTrace + "SpanIDFromHex", "SpanID"},
			"TraceFlags": {"encoding/hex.DecodeString", "TraceFlags"},
			"TraceState": {otTrace + "ParseTraceState", "TraceState"},
		}
		for f, d := range want {
			v := field(p.Ret[0], f)
			ok := false
			for _, ev := range p.St.Trace {
				if isCall(ev, d[0]) && v != nil && p.St.Derives(v, res(ev, 0).Key()) && strings.HasSuffix(ev.Args[0].Key(), "."+d[1]) {
					ok = true
				}
				if isCall(ev, d[0]) && v != nil && p.St.Derives(v, res(ev, 0).Key()) && mentionsField(ev.Args[0], d[1]) {
					ok = true
				}
			}
			if !ok {
				c.Fail("decodes", site+" "+f, fn.Pos(), "the %s of a trace context is not restored from its encoding", f)
			} else {
				c.Ok("decoded", site+" "+f)
			}
		}
	}
	if good == 0 {
		c.Fail("decodes", site, fn.Pos(), "it never succeeds")
	}
}

func mentionsField(v flow.Val, f string) bool {
	k := v.Key()
	return strings.Contains(k, "."+f+")") || strings.HasSuffix(k, "."+f) || strings.Contains(k, "field:"+f)
}

func field(v flow.Val, name string) flow.Val {
	if s, ok := flow.Strip(v).(*flow.Struct); ok {
		if x, ok := s.F[name]; ok {
			return x
		}
	}
	return nil
}

func init() {
	register(&Check{
		ID:    "G08",
		Rules: "On every path of the tracing wrappers, each span is started with the collector's tracer and ended exactly once after the call, which runs inside it; client spans exist exactly when asked for and are children of the caller's, and the trace context sent is that span's (or the caller's); the server's span is a child of the span in the context it received; an error of the call, and only that, is recorded on the span. Vector-clock wrappers send the clock with the request, merge what the other side sent exactly once, and return the clock with the response. Decoding a trace context restores each encoded field.",
		Run: func(c *core.Ctx) {
			runRules(c, []modRule{
				{"opentelemetry.Instrument", "opentelemetry", tracedClient(true)},
				{"opentelemetry.Instrument", "opentelemetry", tracedServer},
				{"opentelemetry.InstrumentWithoutClientSpans", "opentelemetry", tracedClient(false)},
				{"opentelemetry.InstrumentWithoutClientSpans", "opentelemetry", tracedServer},
				{"govector.Instrument", "govector", vectorClient},
				{"govector.Instrument", "govector", vectorServer},
			})
			spanContext(c)
			c.Floor("methods", 24)
			c.Floor("decoded", 4)
		},
	})
}
