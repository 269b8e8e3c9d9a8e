package checks

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/core"
	"verif/analyzer/flow"
)

// rpc pairs the client and the server one plugin emits for the same service.
type rpc struct {
	Plugin  string
	Cl, Srv *emitted
}

func (g *genAll) rpcs() []*rpc {
	by := map[string]*rpc{}
	var out []*rpc
	for _, x := range g.Es {
		p := core.Short(x.E.PkgPath)
		dial, bind := false, x.Server
		for n := range x.Gets {
			if strings.Contains(n, "dial") {
				dial = true
			}
		}
		if x.Inst == nil { // undetermined: by the name of the node
			n := strings.ToLower(x.E.Node)
			dial, bind = strings.HasSuffix(n, "client") && strings.Contains(n, ".golang"), strings.HasSuffix(n, "server") && strings.Contains(n, ".golang")
		}
		if !dial && !bind {
			continue
		}
		if by[p] == nil {
			by[p] = &rpc{Plugin: p}
			out = append(out, by[p])
		}
		if bind {
			by[p].Srv = x
		} else {
			by[p].Cl = x
		}
	}
	return out
}

// world is what the network carries between a client and a server.
type world struct {
	json  map[string]*flow.Tree // opaque documents
	vals  map[string]flow.Val   // query parameters
	body  *flow.Tree
	resp  *flow.Tree
	route string
}

func (x *emitted) runWith(eng *flow.Engine, fn *ssa.Function, st *flow.State, args []flow.Val) []*flow.Path {
	return eng.Run(fn, append([]flow.Val{flow.Strip(x.Inst)}, args...), st)
}

func docOf(v flow.Val) (string, bool) {
	for {
		v = flow.Strip(v)
		switch y := v.(type) {
		case *flow.Sym:
			return y.ID, strings.HasPrefix(y.ID, "doc:")
		case *flow.App:
			if strings.HasPrefix(y.Op, "conv:") && len(y.Args) == 1 {
				v = y.Args[0]
				continue
			}
		}
		return "", false
	}
}

// codec models encoding/json and net/url on documents and parameters.
func (w *world) codec(st *flow.State, ev *flow.Event) ([]flow.Out, bool) {
	rt := func(i int) types.Type { return ev.Call.Common().Signature().Results().At(i).Type() }
	fails := func(res func(err flow.Val) flow.Val, set func(*flow.State)) ([]flow.Out, bool) {
		e := st.Fresh("codecerr", core.ErrorType)
		return []flow.Out{{Res: res(e), Set: func(s *flow.State) { s.Assume(e, false) }}, {Res: res(flow.NilV{}), Set: set}}, true
	}
	switch ev.Name {
	case "encoding/json.Marshal":
		d := st.Fresh("doc:json", rt(0))
		t := flow.TypeOf(ev.Args[0])
		if t == nil {
			if i, ok := ev.Args[0].(*flow.Iface); ok {
				t = i.T
			}
		}
		tree := st.Snapshot(ev.Args[0], t)
		w.json[d.ID] = tree
		return fails(func(e flow.Val) flow.Val { return flow.Tuple{d, e} }, nil)
	case "encoding/json.Unmarshal":
		id, ok := docOf(ev.Args[0])
		a, isA := flow.Strip(ev.Args[1]).(*flow.Addr)
		tree := w.json[id]
		if !ok || !isA || tree == nil {
			return nil, false
		}
		v, err := st.Build(tree, a.T)
		if err != nil {
			w.route = err.Error()
			return nil, false
		}
		return fails(func(e flow.Val) flow.Val { return e }, func(s *flow.State) { s.Store(a, v) })
	case "(net/url.Values).Get":
		k, ok := ev.Args[0].(flow.Const)
		if !ok || w.vals == nil {
			return nil, false
		}
		v, have := w.vals[constant.StringVal(k.V)]
		if !have {
			return []flow.Out{{Res: flow.Const{V: constant.MakeString("")}}}, true
		}
		if _, isDoc := docOf(v); isDoc { // encoded documents are never empty
			x, y := flow.Val(flow.Const{V: constant.MakeString("")}), v
			if x.Key() > y.Key() {
				x, y = y, x
			}
			eq := flow.MkApp("==", types.Typ[types.Bool], x, y)
			return []flow.Out{{Res: v, Set: func(s *flow.State) { s.AssumeBool(eq, false) }}}, true
		}
		return []flow.Out{{Res: v}}, true
	}
	return nil, false
}

// trip follows one method through client and server.
func trip(c *core.Ctx, g *genAll, r *rpc, name string, sig *types.Signature, full bool) {
	shape := "full"
	if !full {
		shape = "empty"
	}
	site := r.Plugin + " " + name + " [" + shape + "]"
	if l := g.B.Sample.Label; l != "" {
		site = r.Plugin + " " + l + ": " + name + " [" + shape + "]"
	}
	cl, srv := r.Cl.method(name), r.Srv.method(name)
	wire := map[string]bool{name: true}
	if alt := r.Srv.method(name + "_"); srv == nil && alt != nil { // the name an interface compiler gives it
		srv = alt
		wire[name+"_"] = true
	}
	if cl == nil || srv == nil {
		c.Fail("method-missing", site, token.NoPos, "the emitted client or server class has no method %s", name)
		return
	}
	nArgs, nRes := sig.Params().Len()-1, sig.Results().Len()-1
	w := &world{json: map[string]*flow.Tree{}}
	done := map[string]bool{}
	bad := func(rule, format string, a ...any) {
		if !done[rule] {
			done[rule] = true
			c.Fail(rule, site, token.NoPos, format, a...)
		}
	}

	// 1. what the client sends
	st := r.Cl.St.Fork()
	args := []flow.Val{&flow.Sym{ID: "ctx", T: sig.Params().At(0).Type()}}
	st.Assume(args[0], false)
	want := make([]*flow.Tree, nArgs)
	for i := 0; i < nArgs; i++ {
		t := sig.Params().At(i + 1).Type()
		v := st.Schematic(t, fmt.Sprintf("arg%d", i), full)
		want[i] = st.Snapshot(v, t)
		args = append(args, v)
	}
	var req *flow.Tree
	var reqT types.Type
	var sentTo string
	sent, http, multi := false, false, false
	vals := map[string]map[string]flow.Val{}
	client := func(resp func(st *flow.State, ev *flow.Event) (flow.Val, error)) func(e *flow.Engine, st *flow.State, ev *flow.Event) ([]flow.Out, bool) {
		return func(e *flow.Engine, st *flow.State, ev *flow.Event) ([]flow.Out, bool) {
			if outs, ok := w.codec(st, ev); ok {
				return outs, true
			}
			switch ev.Name {
			case "(net/url.Values).Add", "(net/url.Values).Set":
				k, ok := ev.Args[0].(flow.Const)
				if ok {
					key := ev.Recv.Key()
					if vals[key] == nil {
						vals[key] = map[string]flow.Val{}
					}
					vals[key][constant.StringVal(k.V)] = ev.Args[1]
				}
				return []flow.Out{{Res: flow.Tuple{}}}, true
			case "net/url.Parse":
				if s, ok := urlPath(ev.Args[0]); ok {
					sentTo = s
				}
			case "(*net/http.Client).Do":
				http, sent = true, true
				for k, m := range vals {
					if w.vals != nil && resp == nil && !sameVals(w.vals, m) {
						multi = true
					}
					if resp == nil {
						w.vals = m
					}
					// the parameters must be part of the request
					if len(m) > 0 && !st.Derives(ev.Args[0], k) {
						bad("request", "the client's HTTP request is not built from the encoded arguments")
					}
				}
				if !st.Derives(ev.Args[0], "ctx") {
					bad("context", "the client's HTTP request does not carry the caller's context")
				}
				fail := st.Fresh("sendfails", core.ErrorType)
				resT := ev.Call.Common().Signature().Results().At(0).Type()
				rsp := st.New(core.Deref(resT))
				failed := flow.Out{Res: flow.Tuple{flow.NilV{}, fail}, Set: func(s *flow.State) { s.Assume(fail, false) }}
				if resp == nil {
					return []flow.Out{failed}, true
				}
				outs := []flow.Out{failed}
				for _, status := range []int64{200, 204, 302, 404, 500} {
					code := flow.Const{V: constant.MakeInt64(status)}
					outs = append(outs, flow.Out{Res: flow.Tuple{rsp, flow.NilV{}}, Set: func(s *flow.State) {
						body := &flow.Sym{ID: "respbody", T: fieldType(rsp.T, "Body")}
						s.Assume(body, false)
						s.From["status"] = []flow.Val{code}
						s.Store(&flow.Addr{Base: rsp.Base + ".Body", T: body.T, Alloc: true}, body)
						s.Store(&flow.Addr{Base: rsp.Base + ".StatusCode", T: types.Typ[types.Int], Alloc: true}, code)
					}})
				}
				return outs, true
			case "io.ReadAll", "io/ioutil.ReadAll":
				if ev.Args[0].Key() == "respbody" {
					for _, was := range st.Trace {
						if was.Kind == "call" && was.Method == "Close" && was.Recv != nil && flow.Strip(was.Recv).Key() == "respbody" {
							bad("response", "the client reads the response after it has closed it")
						}
					}
					fail := st.Fresh("readfails", core.ErrorType)
					return []flow.Out{
						{Res: flow.Tuple{flow.NilV{}, fail}, Set: func(s *flow.State) { s.Assume(fail, false) }},
						{Res: flow.Tuple{&flow.Sym{ID: "doc:resp", T: ev.Call.Common().Signature().Results().At(0).Type()}, flow.NilV{}}},
					}, true
				}
			case "encoding/json.NewDecoder":
				return []flow.Out{{Res: flow.MkApp("decoder", ev.Call.Common().Signature().Results().At(0).Type(), flow.Strip(ev.Args[0]))}}, true
			case "(*encoding/json.Decoder).Decode":
				if d, ok := ev.Recv.(*flow.App); ok && d.Op == "decoder" && d.Args[0].Key() == "respbody" {
					ev2 := *ev
					ev2.Name = "encoding/json.Unmarshal"
					ev2.Args = []flow.Val{&flow.Sym{ID: "doc:resp"}, ev.Args[0]}
					return w.codec(st, &ev2)
				}
			}
			if wire[ev.Method] && stubCall(r.Cl, ev) {
				sent = true
				if len(ev.Args) < 2 {
					bad("request", "the client sends no request message")
					return nil, false
				}
				if !st.Derives(ev.Args[0], "ctx") {
					bad("context", "the client does not pass the caller's context to the transport")
				}
				p := ev.Call.Common().Signature().Params()
				off := 0
				if !ev.Invoke && ev.Call.Common().Signature().Recv() != nil && p.Len() == ev.Call.Common().Signature().Params().Len() {
					off = 0
				}
				rt := p.At(1 + off).Type()
				if resp == nil {
					req, reqT = st.Snapshot(ev.Args[1], rt), rt
				}
				fail := st.Fresh("sendfails", core.ErrorType)
				outs := []flow.Out{{Res: flow.Tuple{flow.NilV{}, fail}, Set: func(s *flow.State) { s.Assume(fail, false) }}}
				if resp == nil {
					return outs, true
				}
				rv, err := resp(st, ev)
				if err != nil {
					bad("response", "the client cannot read the server's response: %v", err)
					return outs, true
				}
				outs = append(outs, flow.Out{Res: flow.Tuple{rv, flow.NilV{}}, Set: func(s *flow.State) { s.Assume(rv, false) }})
				return outs, true
			}
			return nil, false
		}
	}
	eng := r.Cl.engine()
	eng.MaxFork = 8
	eng.Model = client(nil)
	eng.Run(cl, append([]flow.Val{flow.Strip(r.Cl.Inst)}, args...), st)
	if eng.Over {
		c.Fail("undecided", site, token.NoPos, "the emitted client method has too many paths to follow")
		return
	}
	if !sent {
		bad("request", "no path through the client method sends a request")
		return
	}
	_ = multi

	// 2. what the server hands to the service, and what it sends back
	st = r.Srv.St.Fork()
	var sargs []flow.Val
	results := func(st *flow.State) (flow.Tuple, []*flow.Tree) {
		var t flow.Tuple
		var trees []*flow.Tree
		for i := 0; i < nRes; i++ {
			rt := sig.Results().At(i).Type()
			v := st.Schematic(rt, fmt.Sprintf("ret%d", i), full)
			trees = append(trees, st.Snapshot(v, rt))
			t = append(t, v)
		}
		return t, trees
	}
	var wantRes []*flow.Tree
	called := 0
	if http {
		sargs = []flow.Val{&flow.Sym{ID: "writer", T: srv.Params[1].Type()}, &flow.Sym{ID: "httpreq", T: srv.Params[2].Type()}}
		st.Assume(sargs[0], false)
		st.Assume(sargs[1], false)
	} else {
		pt := srv.Params[2].Type()
		v, err := st.Build(req, pt)
		if err != nil {
			bad("request", "the server cannot read the client's request: %v", err)
			return
		}
		cx := &flow.Sym{ID: "ctx", T: srv.Params[1].Type()}
		st.Assume(cx, false)
		sargs = []flow.Val{cx, v}
	}
	_ = reqT
	eng = r.Srv.engine()
	eng.MaxFork = 8
	type served struct {
		resp  *flow.Tree
		codes []flow.Val
		err   bool
	}
	eng.Model = func(e *flow.Engine, st *flow.State, ev *flow.Event) ([]flow.Out, bool) {
		if outs, ok := w.codec(st, ev); ok {
			return outs, true
		}
		if g.downstream(ev) {
			called++
			if ev.Method != name {
				bad("same-method", "the server calls %s of the service", ev.Method)
			}
			if len(ev.Args) != nArgs+1 {
				bad("arguments", "the server passes %d arguments to the service", len(ev.Args))
				return nil, false
			}
			okctx := st.Derives(ev.Args[0], "ctx")
			if http {
				okctx = st.Derives(ev.Args[0], "httpreq")
			}
			if !okctx {
				bad("context", "the context the server hands to the service is not that of the request")
			}
			for i := 0; i < nArgs; i++ {
				t := sig.Params().At(i + 1).Type()
				if d := flow.Diff(want[i], st.Snapshot(ev.Args[i+1], t), fmt.Sprintf("argument %d", i)); d != "" {
					bad("arguments", "what the client is given and what the service receives differ: %s", d)
				}
			}
			var outs []flow.Out
			ft, _ := results(st)
			fail := st.Fresh("svcerr", core.ErrorType)
			mk := func(t flow.Tuple, err flow.Val) flow.Val {
				if nRes == 0 {
					return err
				}
				return append(t[:len(t):len(t)], err)
			}
			outs = append(outs, flow.Out{Res: mk(ft, fail), Set: func(s *flow.State) { s.Assume(fail, false) }})
			rt, trees := results(st)
			wantRes = trees
			outs = append(outs, flow.Out{Res: mk(rt, flow.NilV{})})
			return outs, true
		}
		switch ev.Name {
		case "encoding/json.NewEncoder":
			return []flow.Out{{Res: flow.MkApp("encoder", ev.Call.Common().Signature().Results().At(0).Type(), flow.Strip(ev.Args[0]))}}, true
		case "(*encoding/json.Encoder).Encode":
			d := st.Fresh("doc:enc", nil)
			t := flow.TypeOf(ev.Args[0])
			if i, ok := ev.Args[0].(*flow.Iface); ok {
				t = i.T
			}
			w.json[d.ID] = st.Snapshot(ev.Args[0], t)
			st.From["enc:"+ev.Recv.Key()] = append(st.From["enc:"+ev.Recv.Key()], d)
			return []flow.Out{{Res: flow.NilV{}, Set: func(s *flow.State) {
				s.From["written"] = append(s.From["written"][:len(s.From["written"]):len(s.From["written"])], d)
			}}}, true
		case "(net/http.ResponseWriter).Write":
			if id, ok := docOf(ev.Args[0]); ok {
				return []flow.Out{{Res: flow.Tuple{&flow.Sym{ID: "n"}, flow.NilV{}}, Set: func(s *flow.State) {
					s.From["written"] = append(s.From["written"][:len(s.From["written"]):len(s.From["written"])], &flow.Sym{ID: id})
				}}}, true
			}
		}
		return nil, false
	}
	paths := eng.Run(srv, append([]flow.Val{flow.Strip(r.Srv.Inst)}, sargs...), st)
	if eng.Over {
		c.Fail("undecided", site, token.NoPos, "the emitted server method has too many paths to follow")
		return
	}
	if called == 0 {
		bad("unserved", "no path through the server method calls the service")
		return
	}
	var resp *flow.Tree
	for _, p := range paths {
		c.Ok("server-paths", site)
		if p.How == "panic" {
			bad("panic", "the server method can panic")
			continue
		}
		if p.How != "return" {
			continue
		}
		ds := g.downs(p)
		if len(ds) > 1 {
			bad("repeat", "the server calls the service more than once for one request")
		}
		failed := len(ds) == 0
		if len(ds) > 0 {
			_, derr := resErr(ds[len(ds)-1].Res)
			failed = p.St.NilFact(derr) == -1
		}
		if http {
			var codes []flow.Val
			for _, ev := range p.St.Trace {
				switch ev.Name {
				case "net/http.Error":
					codes = append(codes, ev.Args[2])
				case "(net/http.ResponseWriter).WriteHeader":
					codes = append(codes, ev.Args[0])
				}
			}
			isErr := false
			for _, k := range codes {
				if n, ok := k.(flow.Const); ok {
					if i, _ := constant.Int64Val(n.V); i >= 300 {
						isErr = true
					}
				}
			}
			if failed && !isErr {
				bad("failure", "when the request or the service fails, the server does not answer with an error status")
			}
			if !failed {
				if isErr {
					bad("failure", "the server answers a successful call with an error status")
				}
				if n := len(p.St.From["written"]); n != 1 {
					bad("response", "the server writes %d response documents", n)
				} else {
					resp = w.json[p.St.From["written"][0].(*flow.Sym).ID]
				}
			}
			continue
		}
		res, err := resErr(p.Ret)
		if failed {
			if p.St.NilFact(err) != -1 {
				bad("failure", "when the service fails, the server does not answer with an error")
			}
			continue
		}
		if p.St.NilFact(err) != 1 {
			bad("failure", "the server answers a successful call with an error")
			continue
		}
		resp = p.St.Snapshot(res[0], srv.Signature.Results().At(0).Type())
	}
	if resp == nil {
		bad("response", "no path through the server method answers a successful call")
		return
	}

	// 3. what the client's caller receives
	st = r.Cl.St.Fork()
	args = args[:1]
	st.Assume(args[0], false)
	for i := 0; i < nArgs; i++ {
		args = append(args, st.Schematic(sig.Params().At(i+1).Type(), fmt.Sprintf("arg%d", i), full))
	}
	w.json["doc:resp"] = resp
	eng = r.Cl.engine()
	eng.MaxFork = 8
	eng.Model = client(func(st *flow.State, ev *flow.Event) (flow.Val, error) {
		return st.Build(resp, ev.Call.Common().Signature().Results().At(0).Type())
	})
	paths = eng.Run(cl, append([]flow.Val{flow.Strip(r.Cl.Inst)}, args...), st)
	okPath := false
	for _, p := range paths {
		c.Ok("client-paths", site)
		if p.How == "panic" {
			bad("panic", "the client method can panic")
			continue
		}
		if p.How != "return" {
			continue
		}
		res, err := resErr(p.Ret)
		failed, wasSent := false, false
		for _, ev := range p.St.Trace {
			if ev.Kind != "call" {
				continue
			}
			if wire[ev.Method] && stubCall(r.Cl, ev) || ev.Name == "(*net/http.Client).Do" {
				wasSent = true
				_, e := resErr(ev.Res)
				if p.St.NilFact(e) == -1 {
					failed = true
				}
			}
			if strings.HasPrefix(ev.Name, "encoding/json.") || ev.Name == "io.ReadAll" || ev.Name == "net/url.Parse" || strings.HasPrefix(ev.Name, "net/http.NewRequest") {
				if _, e := resErr(ev.Res); e != nil && p.St.NilFact(e) == -1 {
					failed = true
				}
			}
		}
		if failed {
			if p.St.NilFact(err) != -1 {
				bad("failure", "a call that failed on the way is reported to the caller without an error")
			}
			continue
		}
		if p.St.NilFact(err) == -1 {
			continue // the client gave up: a deadline, or an error status
		}
		if !wasSent {
			bad("failure", "the client can report success without having sent anything")
			continue
		}
		if http {
			if s := p.St.From["status"]; len(s) == 1 {
				if n, _ := constant.Int64Val(s[0].(flow.Const).V); n < 200 || n > 299 {
					bad("failure", "the client accepts an answer with the status %d", n)
					continue
				}
			}
		}
		okPath = true
		for i := 0; i < nRes; i++ {
			rt := sig.Results().At(i).Type()
			if d := flow.Diff(wantRes[i], p.St.Snapshot(res[i], rt), fmt.Sprintf("result %d", i)); d != "" {
				bad("results", "what the service returns and what the caller receives differ: %s", d)
			}
		}
	}
	if !okPath {
		bad("response", "no path through the client method delivers the response")
	}
	if http {
		// the path the client asks for leads to this method
		routes := serverRoutes(r.Srv)
		if fn := routes[sentTo]; sentTo == "" || fn != srv {
			bad("route", "the client sends the call to %q, which the server routes to %v", sentTo, fn)
		}
	}
	if len(done) == 0 {
		c.Ok("methods", site)
	}
}

func sameVals(a, b map[string]flow.Val) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if b[k] == nil || b[k].Key() != v.Key() {
			return false
		}
	}
	return true
}

func fieldType(t types.Type, name string) types.Type {
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				return s.Field(i).Type()
			}
		}
	}
	return nil
}

// urlPath finds the constant path a URL ends in.
func urlPath(v flow.Val) (string, bool) {
	switch y := flow.Strip(v).(type) {
	case flow.Const:
		if y.V.Kind() == constant.String {
			s := constant.StringVal(y.V)
			if i := strings.IndexByte(s, '?'); i >= 0 {
				s = s[:i]
			}
			if i := strings.LastIndexByte(s, '/'); i >= 0 {
				return s[i:], true
			}
		}
	case *flow.App:
		for i := len(y.Args) - 1; i >= 0; i-- {
			if s, ok := urlPath(y.Args[i]); ok {
				return s, true
			}
		}
	}
	return "", false
}

// stubCall: a call of the code an interface compiler would provide.
func stubCall(x *emitted, ev *flow.Event) bool {
	if ev.Kind != "call" {
		return false
	}
	var pk *types.Package
	if ev.Invoke {
		m := ev.Call.Common().Method
		pos := x.M.Fset.Position(m.Pos()).Filename
		if strings.HasSuffix(pos, ".pb.go") {
			return true
		}
		pk = m.Pkg()
	} else if f := ev.Call.Common().StaticCallee(); f != nil {
		return x.stubbed(f)
	}
	return pk != nil && x.M.Stub[pk.Path()]
}

// serverRoutes reads the routing table the server's Run method sets up.
func serverRoutes(x *emitted) map[string]*ssa.Function {
	out := map[string]*ssa.Function{}
	run := x.method("Run")
	if run == nil {
		return out
	}
	eng := x.engine()
	for _, p := range x.run(eng, run) {
		for _, ev := range p.St.Trace {
			if ev.Kind != "call" {
				continue
			}
			var path string
			var fn *ssa.Function
			for _, a := range append([]flow.Val{ev.Recv}, ev.Args...) {
				switch y := flow.Strip(nonNil(a)).(type) {
				case flow.Const:
					if y.V.Kind() == constant.String {
						path = constant.StringVal(y.V)
					}
				case *flow.Func:
					fn = y.Fn
				}
			}
			if fn == nil {
				continue
			}
			if path == "" && ev.Recv != nil {
				for _, from := range p.St.From[ev.Recv.Key()] {
					if k, ok := from.(flow.Const); ok && k.V.Kind() == constant.String {
						path = constant.StringVal(k.V)
					}
				}
			}
			if path != "" {
				out[path] = fn
			}
		}
	}
	return out
}

func nonNil(v flow.Val) flow.Val {
	if v == nil {
		return flow.NilV{}
	}
	return v
}

func init() {
	register(&Check{
		ID:    "G03",
		Rules: "For each RPC plugin the emitted client and server of a schematic service are followed together: the tree of values the client is given, the message it builds, what the server hands to the service, the service's results, the response message and what the caller receives are compared field by field, for every supported type; failures on either side must surface as errors; the client's route must lead to the same method.",
		Run: func(c *core.Ctx) {
			g := generated(c)
			n := 0
			for _, s := range shapes(c) {
				if s.Shape.Group != "" {
					continue
				}
				g := &genAll{B: s.B, Es: s.Es}
				for _, r := range g.rpcs() {
					if r.Cl == nil || r.Srv == nil || r.Cl.E.Failed != "" || r.Srv.E.Failed != "" {
						continue // refused: G02
					}
					if !r.Cl.usable(c) || !r.Srv.usable(c) {
						continue
					}
					for i := 0; i < g.B.Sample.Iface.NumMethods(); i++ {
						f := g.B.Sample.Iface.Method(i)
						trip(c, g, r, f.Name(), f.Type().(*types.Signature), true)
						trip(c, g, r, f.Name(), f.Type().(*types.Signature), false)
					}
					c.Count("shapes", 1)
				}
			}
			for _, r := range g.rpcs() {
				if r.Cl == nil || r.Srv == nil {
					c.Fail("undecided", r.Plugin, token.NoPos, "client or server generator not found")
					continue
				}
				if !r.Cl.usable(c) || !r.Srv.usable(c) {
					continue
				}
				n++
				for i := 0; i < g.B.Sample.Iface.NumMethods(); i++ {
					f := g.B.Sample.Iface.Method(i)
					trip(c, g, r, f.Name(), f.Type().(*types.Signature), true)
					trip(c, g, r, f.Name(), f.Type().(*types.Signature), false)
				}
			}
			c.Count("plugins", n)
			c.Floor("plugins", 3)
			c.Floor("methods", 24)
			c.Floor("shapes", 3)
		},
	})
}
