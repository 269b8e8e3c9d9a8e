package checks

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/core"
	"verif/analyzer/flow"
)

const mongoLib = "go.mongodb.org/mongo-driver/mongo"

// mongoOp is what an operation has to ask the server for, and what it has to answer.
type mongoOp struct {
	name   string
	req    []string // the requests that do it, with the arguments that have to be in them
	answer string   // the field of the result that is the answer, "" for none
	upsert bool
}

var mongoOps = []mongoOp{
	{name: "DeleteOne", req: []string{"DeleteOne filter"}},
	{name: "DeleteMany", req: []string{"DeleteMany filter"}},
	{name: "InsertOne", req: []string{"InsertOne document"}},
	{name: "InsertMany", req: []string{"InsertMany documents"}},
	{name: "UpdateOne", req: []string{"UpdateOne filter update"}, answer: "ModifiedCount"},
	{name: "UpdateMany", req: []string{"UpdateMany filter update"}, answer: "ModifiedCount"},
	{name: "ReplaceOne", req: []string{"ReplaceOne filter document"}, answer: "MatchedCount"},
	{name: "Upsert", req: []string{"ReplaceOne filter document"}, answer: "matched", upsert: true},
	{name: "UpsertID", req: []string{"ReplaceOne id document"}, answer: "matched", upsert: true},
}

// setting: an option that was set in options given to a request.
func (q *dbClient) setting(st *flow.State, v flow.Val, name string) (flow.Val, bool) {
	var got flow.Val
	switch x := flow.Strip(v).(type) {
	case *flow.App:
		for a := x; a != nil; {
			if a.Op == "option:Set"+name {
				return a.Args[1], true
			}
			if !strings.HasPrefix(a.Op, "option:") || len(a.Args) == 0 {
				break
			}
			a, _ = a.Args[0].(*flow.App)
		}
	case *flow.Addr:
		got = st.Load(&flow.Addr{Base: x.Base + "." + name, T: fieldType(x.T, name), Alloc: x.Alloc})
		if p, ok := got.(*flow.Addr); ok {
			got = st.Load(p)
		}
		if _, none := got.(flow.NilV); !none && got != nil {
			return got, true
		}
	}
	return nil, false
}

// settings: the names of the options that are set.
func (q *dbClient) settings(st *flow.State, v flow.Val) (out []string) {
	switch x := flow.Strip(v).(type) {
	case *flow.App:
		for a := x; a != nil; {
			if !strings.HasPrefix(a.Op, "option:Set") || len(a.Args) == 0 {
				break
			}
			out = append(out, strings.TrimPrefix(a.Op, "option:Set"))
			a, _ = a.Args[0].(*flow.App)
		}
	case *flow.Addr:
		if s, ok := x.T.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if _, ok := q.setting(st, x, s.Field(i).Name()); ok {
					out = append(out, s.Field(i).Name())
				}
			}
		}
	case flow.NilV:
	default:
		out = append(out, "?")
	}
	return
}

func (q *dbClient) mongo(mk *ssa.Function) {
	c := q.c
	coll := func(op string) bool { return strings.HasPrefix(op, "(*"+mongoLib+".Collection).") }
	cursorErr := &flow.Addr{Base: "server:cursor", T: core.ErrorType, Alloc: true}
	q.model = func(e *flow.Engine, st *flow.State, ev *flow.Event) ([]flow.Out, bool) {
		if ev.Call == nil {
			return nil, false
		}
		one := func(v flow.Val) ([]flow.Out, bool) { return []flow.Out{{Res: v}}, true }
		fails := func(s string) flow.Val { return errVal("error:" + s) }
		rs := resultTypes(ev)
		lib := strings.Contains(ev.Name, mongoLib)
		switch {
		case ev.Name == "errors.Is" && len(ev.Args) == 2:
			return one(flow.Const{V: constant.MakeBool(sameVal(ev.Args[0], ev.Args[1]))})
		case strings.Contains(ev.Name, mongoLib+"/options.") && len(rs) == 1:
			args := ev.Args
			if ev.Recv != nil {
				args = append([]flow.Val{ev.Recv}, args...)
			}
			name := ev.Name[strings.LastIndex(ev.Name, ".")+1:]
			if _, isApp := flow.Strip(ev.Recv).(*flow.App); ev.Recv != nil && !isApp {
				return nil, false
			}
			return one(flow.MkApp("option:"+name, rs[0], args...))
		case !lib:
			return nil, false
		case ev.Name == mongoLib+".Connect" || ev.Name == mongoLib+".NewClient":
			cl := flow.MkApp("client", rs[0], ev.Args[len(ev.Args)-1])
			return []flow.Out{{Res: flow.Tuple{cl, flow.NilV{}}, Set: func(s *flow.State) { s.Assume(cl, false) }}, {Res: flow.Tuple{flow.NilV{}, fails("connect")}}}, true
		case strings.HasSuffix(ev.Name, ".Client).Database"):
			return one(flow.MkApp("database", rs[0], ev.Recv, ev.Args[0]))
		case strings.HasSuffix(ev.Name, ".Database).Collection"):
			return one(flow.MkApp("collection", rs[0], ev.Recv, ev.Args[0]))
		case coll(ev.Name):
			switch ev.Method {
			case "FindOne":
				mk := func(how string) flow.Val { return flow.MkApp("single:"+how, rs[0], st.Fresh("one", nil)) }
				return []flow.Out{{Res: mk("found")}, {Res: mk("none")}, {Res: mk("failed")}}, true
			case "Find":
				cur := flow.MkApp("cursor", rs[0], st.Fresh("many", nil))
				return []flow.Out{
					{Res: flow.Tuple{cur, flow.NilV{}}, Set: func(s *flow.State) { s.Assume(cur, false); s.Store(cursorErr, flow.NilV{}) }},
					{Res: flow.Tuple{flow.NilV{}, fails("find")}},
				}, true
			case "Name", "Database", "Clone":
				return nil, false
			}
			if len(rs) != 2 {
				return nil, false
			}
			result := func(s *flow.State, n, matched, modified int64) flow.Val {
				a := s.New(core.Deref(rs[0]))
				put := func(f string, v flow.Val) {
					if t := fieldType(a.T, f); t != nil {
						s.Store(&flow.Addr{Base: a.Base + "." + f, T: t, Alloc: true}, v)
					}
				}
				if n == 0 {
					put("MatchedCount", &flow.Sym{ID: "matched"})
					put("ModifiedCount", &flow.Sym{ID: "modified"})
					put("UpsertedCount", &flow.Sym{ID: "upserted"})
					put("DeletedCount", &flow.Sym{ID: "deleted"})
				} else {
					put("MatchedCount", kint(matched))
					put("ModifiedCount", kint(modified))
					put("UpsertedCount", kint(1-matched))
					if matched == 1 {
						put("UpsertedID", flow.NilV{})
					} else {
						put("UpsertedID", errVal("the new id"))
					}
				}
				return a
			}
			failed := fails("request")
			outs := []flow.Out{{Res: flow.Tuple{flow.NilV{}, failed}}, {Res: flow.Tuple{result(st, 0, 0, 0), failed}}}
			if upsert, ok := q.setting(st, last(ev.Args), "Upsert"); ok && isTrue(upsert) {
				for _, k := range [][2]int64{{1, 1}, {1, 0}, {0, 0}} {
					r := result(st, 1, k[0], k[1])
					st.Assume(r, false)
					outs = append(outs, flow.Out{Res: flow.Tuple{r, flow.NilV{}}})
				}
			} else {
				outs = append(outs, flow.Out{Res: flow.Tuple{result(st, 0, 0, 0), flow.NilV{}}})
			}
			return outs, true
		}
		a, _ := flow.Strip(ev.Recv).(*flow.App)
		if a == nil {
			return nil, false
		}
		none := st.Load(&flow.Addr{Base: "g:" + mongoLib + ".ErrNoDocuments", T: core.ErrorType})
		switch a.Op + "." + ev.Method {
		case "single:found.Err":
			return one(flow.NilV{})
		case "single:none.Err", "single:none.Decode":
			return one(none)
		case "single:failed.Err", "single:failed.Decode":
			return one(fails("find"))
		case "single:found.Decode", "cursor.Decode":
			return []flow.Out{{Res: flow.NilV{}}, {Res: fails("decode")}}, true
		case "cursor.Next", "cursor.TryNext":
			f := fails("next")
			t := flow.Const{V: constant.MakeBool(true)}
			n := flow.Const{V: constant.MakeBool(false)}
			return []flow.Out{{Res: t, Set: func(s *flow.State) { s.Store(cursorErr, flow.NilV{}) }}, {Res: n, Set: func(s *flow.State) { s.Store(cursorErr, flow.NilV{}) }}, {Res: n, Set: func(s *flow.State) { s.Store(cursorErr, f) }}}, true
		case "cursor.Err":
			return one(st.Load(cursorErr))
		case "cursor.All":
			return []flow.Out{{Res: flow.NilV{}}, {Res: fails("all")}}, true
		}
		return nil, false
	}
	st := flow.NewState()
	st.Store(&flow.Addr{Base: "g:" + mongoLib + ".ErrNoDocuments", T: core.ErrorType}, errVal("error:no documents"))
	var args []flow.Val
	vals := map[string]flow.Val{}
	for i, p := range mk.Params {
		args = append(args, q.in(st, p.Name(), p.Type()))
		vals[fmt.Sprint(i)] = args[i]
	}
	var db flow.Val
	for _, p := range q.step(st, mk, args...) {
		c.Ok("connects", core.Name(mk))
		if succeeded(p) != 1 {
			continue
		}
		db, st = p.Ret[0], p.St
		uri := flow.Val(nil)
		for _, ev := range during(p) {
			if ev.Kind == "call" && strings.HasSuffix(ev.Name, "ApplyURI") {
				uri = ev.Args[0]
			}
		}
		if uri == nil {
			q.bad(mk, p, "connects", "it does not connect to the configured server")
			continue
		}
		if rest, ok := textIs(uri, "mongodb://{1}", vals); !ok || rest != "" && rest[0] != '/' {
			q.bad(mk, p, "connects", "it connects to %s and not to the configured server", showText(uri))
		}
	}
	get := ownMethod(c, q.t, "GetCollection")
	if db == nil || get == nil {
		c.Fail("undecided", core.Name(mk), mk.Pos(), "what the constructor returns is not known")
		return
	}
	ctx := q.in(st, "ctx", paramType(get, 1))
	dbname, name := q.in(st, "dbname", types.Typ[types.String]), q.in(st, "collname", types.Typ[types.String])
	var obj flow.Val
	for _, p := range q.step(st, get, db, ctx, dbname, name) {
		if succeeded(p) == 1 {
			obj, st = p.Ret[0], p.St
		}
	}
	ct, _ := core.Deref(flow.TypeOf(obj)).(*types.Named)
	if obj == nil || ct == nil {
		c.Fail("undecided", core.Name(get), get.Pos(), "what it returns is not known")
		return
	}
	right := func(v flow.Val) bool {
		a, ok := flow.Strip(v).(*flow.App)
		if !ok || a.Op != "collection" || !sameVal(a.Args[1], name) {
			return false
		}
		d, ok := flow.Strip(a.Args[0]).(*flow.App)
		return ok && d.Op == "database" && sameVal(d.Args[1], dbname) && strings.HasPrefix(flow.Strip(d.Args[0]).Key(), "client(")
	}
	requests := func(p *flow.Path) (out []*flow.Event) {
		for _, ev := range during(p) {
			if ev.Kind == "call" && (coll(ev.Name) || strings.HasSuffix(ev.Name, ".Client).Database") || strings.HasSuffix(ev.Name, ".Database).Collection")) && ev.Method != "Name" {
				if coll(ev.Name) {
					out = append(out, ev)
				}
			}
		}
		return
	}
	// what is asked for, without context and options
	asked := func(ev *flow.Event) (args []flow.Val, opts flow.Val) {
		for i, a := range ev.Args {
			if core.IsContext(flow.TypeOf(a)) && i == 0 {
				continue
			}
			if _, none := flow.Strip(a).(flow.NilV); none && i == len(ev.Args)-1 {
				continue // no options
			}
			if s, ok := flow.Strip(a).(*flow.App); ok && strings.HasPrefix(s.Op, "option:") {
				opts = a
				continue
			}
			if s, ok := flow.Strip(a).(*flow.Addr); ok && strings.Contains(core.TypeName(s.T), "mongo-driver/mongo/options.") {
				opts = a
				continue
			}
			args = append(args, a)
		}
		return
	}
	checkReq := func(f *ssa.Function, p *flow.Path, want []string, given map[string]flow.Val, upsert, proj bool) (*flow.Event, bool) {
		reqs := requests(p)
		if len(reqs) != 1 {
			q.bad(f, p, "requests", "it makes %d requests", len(reqs))
			return nil, false
		}
		ev := reqs[0]
		if !right(ev.Recv) {
			q.bad(f, p, "requests", "the request is not for the collection of the object")
			return ev, false
		}
		as, opts := asked(ev)
		fits := false
		for _, w := range want {
			fs := strings.Fields(w)
			if ev.Method != fs[0] || len(as) != len(fs)-1 {
				continue
			}
			fits = true
			for i, n := range fs[1:] {
				if n == "id" {
					fits = fits && q.byID(p.St, as[i], given["id"])
				} else {
					fits = fits && sameVal(as[i], given[n])
				}
			}
		}
		if !fits {
			q.bad(f, p, "requests", "the request is not the operation with the caller's arguments: %s", ev.Method)
			return ev, false
		}
		allowed := map[string]bool{}
		if upsert {
			allowed["Upsert"] = true
			if v, ok := q.setting(p.St, opts, "Upsert"); opts == nil || !ok || !isTrue(v) {
				q.bad(f, p, "requests", "nothing is inserted when nothing matches")
				return ev, false
			}
		}
		if proj {
			allowed["Projection"] = true
			if v, ok := q.setting(p.St, opts, "Projection"); opts == nil || !ok || !sameVal(v, given["projection"]) {
				q.bad(f, p, "requests", "the caller's projection is not in the request")
				return ev, false
			}
		}
		if opts != nil {
			for _, s := range q.settings(p.St, opts) {
				if !allowed[s] {
					q.bad(f, p, "requests", "the request has the option %s that the caller did not ask for", s)
				}
			}
		}
		return ev, true
	}
	for _, op := range mongoOps {
		f := ownMethod(c, ct, op.name)
		if f == nil {
			c.Fail("undecided", core.TypeName(ct), ct.Obj().Pos(), "the operation %s is not there", op.name)
			continue
		}
		st := st.Fork()
		in := []flow.Val{obj, ctx}
		given := map[string]flow.Val{}
		names := map[string][]string{"DeleteOne": {"filter"}, "DeleteMany": {"filter"}, "InsertOne": {"document"}, "InsertMany": {"documents"}, "UpdateOne": {"filter", "update"}, "UpdateMany": {"filter", "update"}, "ReplaceOne": {"filter", "document"}, "Upsert": {"filter", "document"}, "UpsertID": {"id", "document"}}[op.name]
		for i, n := range names {
			given[n] = q.in(st, n, paramType(f, i+2))
			in = append(in, given[n])
		}
		told := map[string]bool{}
		for _, p := range q.step(st, f, in...) {
			c.Ok("requests", core.Name(f))
			ev, ok := checkReq(f, p, op.req, given, op.upsert, false)
			if !ok {
				continue
			}
			t, _ := ev.Res.(flow.Tuple)
			if len(t) != 2 {
				q.bad(f, p, "undecided", "the answer is not understood")
				continue
			}
			if p.St.NilFact(t[1]) == -1 {
				told["error"] = true
				if succeeded(p) != -1 {
					q.bad(f, p, "answers", "the request fails and the caller is not told")
				}
				continue
			}
			told["answer"] = true
			if succeeded(p) != 1 {
				q.bad(f, p, "answers", "the request succeeds and the caller is given an error")
				continue
			}
			res, _ := t[0].(*flow.Addr)
			if op.answer == "" || res == nil {
				continue
			}
			field := func(n string) flow.Val {
				return p.St.Load(&flow.Addr{Base: res.Base + "." + n, T: fieldType(res.T, n), Alloc: true})
			}
			switch op.answer {
			case "matched":
				m := sameVal(field("MatchedCount"), kint(1))
				if got := p.St.Bool(p.Ret[0]); got == 0 || (got == 1) != m {
					q.bad(f, p, "answers", "the caller is not told whether a document was replaced")
				}
			default:
				if !sameVal(unconv(p.Ret[0]), field(op.answer)) {
					q.bad(f, p, "answers", "the caller is not told how many documents were changed")
				}
			}
		}
		if !told["answer"] {
			q.bad(f, nil, "answers", "the caller is never given an answer")
		}
	}
	// finding
	for _, many := range []bool{false, true} {
		name, req := "FindOne", "FindOne filter"
		if many {
			name, req = "FindMany", "Find filter"
		}
		f := ownMethod(c, ct, name)
		if f == nil {
			c.Fail("undecided", core.TypeName(ct), ct.Obj().Pos(), "the operation %s is not there", name)
			continue
		}
		for n := int64(0); n <= 2; n++ {
			st := st.Fork()
			pt := paramType(f, len(f.Params)-1).Underlying().(*types.Slice).Elem()
			ps := st.NewSlice(pt, n)
			given := map[string]flow.Val{"filter": q.in(st, "filter", paramType(f, 2))}
			for i := int64(0); i < n; i++ {
				x := q.in(st, fmt.Sprintf("projection%d", i), pt)
				st.Store(ps.Elem(i), x)
				given["projection"] = x
			}
			told := false
			for _, p := range q.step(st, f, obj, ctx, given["filter"], ps) {
				c.Ok("requests", core.Name(f))
				if n == 2 {
					if succeeded(p) != -1 {
						q.bad(f, p, "requests", "it takes several projections")
					}
					continue
				}
				ev, ok := checkReq(f, p, []string{req}, given, false, n == 1)
				if !ok {
					continue
				}
				told = q.found(f, p, ev, ctx, many) || told
			}
			if n < 2 && !told {
				q.bad(f, nil, "answers", "the caller is never given an answer")
			}
		}
	}
}

// byID: a filter for the document with an id.
func (q *dbClient) byID(st *flow.State, v, id flow.Val) bool {
	s, ok := flow.Strip(v).(*flow.SliceV)
	if !ok || s.Len != 1 {
		return false
	}
	e := s.Elem(0)
	f := func(n string) flow.Val { return st.Load(&flow.Addr{Base: e.Base + "." + n, T: fieldType(e.T, n), Alloc: true}) }
	return sameVal(f("Key"), kstr("_id")) && sameVal(f("Value"), id)
}

// found follows what a caller reads from the answer to a query.
func (q *dbClient) found(f *ssa.Function, p *flow.Path, ev *flow.Event, ctx flow.Val, many bool) bool {
	c := q.c
	how := ""
	if many {
		t, _ := ev.Res.(flow.Tuple)
		if len(t) == 2 && p.St.NilFact(t[1]) == -1 {
			how = "failed"
		}
	} else if a, ok := ev.Res.(*flow.App); ok {
		how = strings.TrimPrefix(a.Op, "single:")
	}
	if succeeded(p) != 1 {
		if how != "failed" {
			q.bad(f, p, "answers", "the query succeeds and the caller is given an error")
		}
		return false
	}
	if many && how == "failed" {
		q.bad(f, p, "answers", "the query fails and the caller is not told")
		return false
	}
	t, _ := core.Deref(flow.TypeOf(p.Ret[0])).(*types.Named)
	if t == nil {
		q.bad(f, p, "undecided", "the answer is not understood")
		return false
	}
	one, all := ownMethod(c, t, "One"), ownMethod(c, t, "All")
	if one == nil || all == nil {
		q.bad(f, p, "undecided", "what it returns is not a cursor")
		return false
	}
	decodes := func(o *flow.Path, method string) (out []*flow.Event) {
		for _, ev := range during(o) {
			if ev.Kind == "call" && ev.Method == method && strings.Contains(ev.Name, mongoLib) {
				out = append(out, ev)
			}
		}
		return
	}
	var read func(st *flow.State, depth int)
	read = func(st *flow.State, depth int) {
		dst := q.in(st, "dst", paramType(one, 2))
		gave := false
		for _, o := range q.step(st, one, p.Ret[0], ctx, dst) {
			c.Ok("cursors", core.Name(one))
			ds := decodes(o, "Decode")
			at, failed := how, how == "failed"
			if many {
				ns := append(decodes(o, "Next"), decodes(o, "TryNext")...)
				if len(ns) != 1 {
					q.bad(one, o, "cursors", "it goes on by %d documents", len(ns))
					continue
				}
				at = "none"
				if isTrue(ns[0].Res) {
					at = "found"
				} else if o.St.NilFact(o.St.Load(&flow.Addr{Base: "server:cursor", T: core.ErrorType, Alloc: true})) == -1 {
					at, failed = "failed", true
				}
			}
			got := o.St.Bool(o.Ret[0])
			switch {
			case failed:
				if succeeded(o) != -1 {
					q.bad(one, o, "cursors", "the answer cannot be read and the caller is told that there is no document")
				}
			case at == "none":
				if succeeded(o) != 1 || got != -1 {
					q.bad(one, o, "cursors", "there is no document and the caller is not told so")
				}
			case len(ds) != 1 || !sameVal(ds[0].Args[0], dst):
				q.bad(one, o, "cursors", "the document is not decoded once into the caller's variable")
			case o.St.NilFact(ds[0].Res) == -1:
				if succeeded(o) != -1 {
					q.bad(one, o, "cursors", "the document cannot be decoded and the caller is not told")
				}
			case got != 1 || succeeded(o) == -1 || !sameVal(o.Ret[1], ds[0].Res) && succeeded(o) != 1:
				q.bad(one, o, "cursors", "the caller is given a document and not told so")
			default:
				gave = true
				if many && depth > 0 {
					read(o.St.Fork(), depth-1)
				}
			}
		}
		if (many || how == "found") && !gave {
			q.bad(one, nil, "cursors", "no document is given to the caller")
		}
	}
	read(p.St.Fork(), 1)
	if many {
		st := p.St.Fork()
		dst := q.in(st, "dst", paramType(all, 2))
		for _, o := range q.step(st, all, p.Ret[0], ctx, dst) {
			c.Ok("cursors", core.Name(all))
			as := decodes(o, "All")
			if len(as) != 1 || !sameVal(last(as[0].Args), dst) {
				q.bad(all, o, "cursors", "the documents are not decoded once into the caller's variable")
				continue
			}
			if f := o.St.NilFact(as[0].Res); f == -1 && succeeded(o) != -1 || f == 1 && succeeded(o) == -1 {
				q.bad(all, o, "cursors", "whether the documents could be decoded is not what the caller is told")
			}
		}
	}
	return true
}

func last(vs []flow.Val) flow.Val {
	if len(vs) == 0 {
		return nil
	}
	return vs[len(vs)-1]
}
