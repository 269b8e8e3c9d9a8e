package checks

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/core"
	"verif/analyzer/flow"
)

func init() {
	register(&Check{
		ID: "R08",
		Rules: "Every path of the constructor and of every operation of every client of a database server, with opaque arguments and every answer of the client library: " +
			"connects: the connection is to the configured server, with the configured credentials, database and collection; " +
			"requests: an operation is one request of its kind on that connection with the caller's query, filter, documents, arguments and projection, and nothing else; " +
			"answers: the caller gets the answer of that request, the count of the documents it names, or the error; " +
			"cursors: each document is decoded once for the caller, the end of the answer is told as such, and its failure as an error; " +
			"instances: in-memory SQL databases are apart from each other and one for all connections.",
		Run:       runR08,
		NotDecide: "What the servers do with a request; what the client libraries do below the functions called here.",
	})
}

// dbClient follows a client of a database server.
type dbClient struct {
	*rt
	t    *types.Named
	told map[string]bool
	opts map[string][]flow.Val // by key of an options term
}

func runR08(c *core.Ctx) {
	ts, _ := runtimeTypes(c)
	n := map[string]int{}
	for _, in := range []string{"RelationalDB", "NoSQLDatabase"} {
		iface := c.NamedType("runtime/core/backend", in)
		if iface == nil {
			c.Fail("undecided", "runtime/core/backend."+in, 0, "the interface is not there")
			continue
		}
		for _, t := range ts {
			if !types.Implements(types.NewPointer(t), iface.Underlying().(*types.Interface)) || !external(t) {
				continue
			}
			n[in]++
			q := &dbClient{rt: newRT(c, core.Short(t.Obj().Pkg().Path())), t: t}
			mk := constructor(c, t)
			if mk == nil {
				c.Fail("undecided", core.TypeName(t), t.Obj().Pos(), "the type has no constructor")
				continue
			}
			if in == "RelationalDB" {
				q.sql(mk, iface.Underlying().(*types.Interface))
			} else {
				q.mongo(mk)
			}
		}
	}
	if n["RelationalDB"] < 2 || n["NoSQLDatabase"] < 1 {
		c.Fail("floor", "clients", 0, "%d clients of SQL databases and %d of document databases were found, 2 and 1 were confirmed by reading", n["RelationalDB"], n["NoSQLDatabase"])
	}
	c.Floor("requests", 20)
}

// textParts splits a text into constant parts and values.
func textParts(v flow.Val) (out []flow.Val, ok bool) {
	add := func(s string) {
		if s == "" {
			return
		}
		if n := len(out); n > 0 {
			if c, is := out[n-1].(flow.Const); is && c.V.Kind() == constant.String {
				out[n-1] = kstr(constant.StringVal(c.V) + s)
				return
			}
		}
		out = append(out, kstr(s))
	}
	put := func(ps []flow.Val) {
		for _, p := range ps {
			if c, is := p.(flow.Const); is && c.V.Kind() == constant.String {
				add(constant.StringVal(c.V))
			} else {
				out = append(out, p)
			}
		}
	}
	switch x := flow.Strip(v).(type) {
	case flow.Const:
		switch x.V.Kind() {
		case constant.String:
			add(constant.StringVal(x.V))
		case constant.Int:
			add(x.V.ExactString())
		default:
			return nil, false
		}
		return out, true
	case *flow.App:
		switch {
		case x.Op == "+":
			for _, a := range x.Args {
				ps, ok := textParts(a)
				if !ok {
					return nil, false
				}
				put(ps)
			}
			return out, true
		case x.Op == "strconv.Itoa" || x.Op == "strconv.FormatInt" || x.Op == "fmt.Sprint" && len(x.Args) == 1:
			return textParts(x.Args[0])
		case strings.HasPrefix(x.Op, "conv:") && len(x.Args) == 1:
			return textParts(x.Args[0])
		case x.Op == "fmt.Sprintf" && len(x.Args) > 0:
			f, isC := x.Args[0].(flow.Const)
			if !isC {
				return nil, false
			}
			s, n := constant.StringVal(f.V), 1
			for i := 0; i < len(s); i++ {
				if s[i] != '%' {
					add(s[i : i+1])
					continue
				}
				i++
				switch {
				case i < len(s) && s[i] == '%':
					add("%")
				case i < len(s) && strings.IndexByte("svd", s[i]) >= 0 && n < len(x.Args):
					ps, ok := textParts(x.Args[n])
					if !ok {
						return nil, false
					}
					put(ps)
					n++
				default:
					return nil, false
				}
			}
			return out, n == len(x.Args)
		}
		return []flow.Val{x}, true
	case *flow.Sym:
		return []flow.Val{x}, true
	}
	return nil, false
}

// textIs compares a text with a pattern in which {x} is the value named x.
func textIs(v flow.Val, pattern string, vals map[string]flow.Val) (rest string, ok bool) {
	ps, ok := textParts(v)
	if !ok {
		return "", false
	}
	for _, p := range ps {
		if c, is := p.(flow.Const); is {
			s := constant.StringVal(c.V)
			for s != "" && pattern != "" {
				if s[0] != pattern[0] {
					return "", false
				}
				s, pattern = s[1:], pattern[1:]
			}
			rest += s
			continue
		}
		if rest != "" || !strings.HasPrefix(pattern, "{") {
			return "", false
		}
		i := strings.Index(pattern, "}")
		if i < 0 || !sameVal(p, vals[pattern[1:i]]) {
			return "", false
		}
		pattern = pattern[i+1:]
	}
	return rest, pattern == ""
}

func showText(v flow.Val) string {
	ps, ok := textParts(v)
	if !ok {
		return "a text that is not understood"
	}
	s := ""
	for _, p := range ps {
		if c, is := p.(flow.Const); is {
			s += constant.StringVal(c.V)
		} else {
			s += "{" + p.Key() + "}"
		}
	}
	return fmt.Sprintf("%q", s)
}

func errVal(s string) flow.Val { return &flow.Iface{V: kstr(s), T: types.Typ[types.String]} }

// resultTypes: the types of the results of a call.
func resultTypes(ev *flow.Event) (out []types.Type) {
	rs := ev.Call.Common().Signature().Results()
	for i := 0; i < rs.Len(); i++ {
		out = append(out, rs.At(i).Type())
	}
	return
}

// answers: a call that may fail.
func answers(st *flow.State, ev *flow.Event, what string) []flow.Out {
	rs := resultTypes(ev)
	e := errVal("error:" + what)
	if len(rs) == 1 {
		return []flow.Out{{Res: flow.NilV{}}, {Res: e}}
	}
	v := st.Fresh(what, rs[0])
	return []flow.Out{
		{Res: flow.Tuple{v, flow.NilV{}}, Set: func(s *flow.State) { s.Assume(v, false) }},
		{Res: flow.Tuple{flow.NilV{}, e}},
	}
}

const sqlxDB = "(*github.com/jmoiron/sqlx.DB)."
const sqlDB = "(*database/sql.DB)."

func (q *dbClient) sql(mk *ssa.Function, iface *types.Interface) {
	c := q.c
	conns := map[string][]flow.Val{} // of a connection: driver and source
	n := 0
	q.model = func(e *flow.Engine, st *flow.State, ev *flow.Event) ([]flow.Out, bool) {
		if ev.Call == nil {
			return nil, false
		}
		switch {
		case strings.HasSuffix(ev.Name, "sync/atomic.Int64).Add"), strings.HasSuffix(ev.Name, "sync/atomic.Int32).Add"), strings.HasSuffix(ev.Name, "sync/atomic.Uint64).Add"):
			n++
			return []flow.Out{{Res: kint(int64(n))}}, true
		case strings.HasPrefix(ev.Name, "github.com/jmoiron/sqlx.") && (ev.Method == "Open" || ev.Method == "Connect" || ev.Method == "ConnectContext" || ev.Method == "MustOpen" || strings.HasSuffix(ev.Name, ".Open") || strings.HasSuffix(ev.Name, ".Connect") || strings.HasSuffix(ev.Name, ".ConnectContext")):
			a := ev.Args
			if strings.HasSuffix(ev.Name, "Context") {
				a = a[1:]
			}
			db := st.Fresh("db", resultTypes(ev)[0])
			conns[db.Key()] = a
			return []flow.Out{
				{Res: flow.Tuple{db, flow.NilV{}}, Set: func(s *flow.State) { s.Assume(db, false) }},
				{Res: flow.Tuple{flow.NilV{}, errVal("error:open")}},
			}, true
		case strings.HasPrefix(ev.Name, sqlxDB), strings.HasPrefix(ev.Name, sqlDB):
			rs := resultTypes(ev)
			if len(rs) > 0 && core.IsError(rs[len(rs)-1]) {
				return answers(st, ev, "answer"), true
			}
		}
		return nil, false
	}
	conn := func(v flow.Val) string {
		if v == nil {
			return ""
		}
		k := strings.TrimLeft(strings.TrimPrefix(flow.Strip(v).Key(), "load("), "&*") // the object or the one it is built on
		for id := range conns {
			if k == id || strings.HasPrefix(k, id+".") {
				return id
			}
		}
		return ""
	}
	st := flow.NewState()
	vals := map[string]flow.Val{}
	var args []flow.Val
	for i, p := range mk.Params {
		v := q.in(st, p.Name(), p.Type())
		args = append(args, v)
		vals[p.Name()] = v
		if i > 0 {
			vals[fmt.Sprint(i)] = v
		}
	}
	mysql := len(args) == 5
	isAdmin := func(ev *flow.Event) bool {
		return (strings.HasPrefix(ev.Name, sqlxDB) || strings.HasPrefix(ev.Name, sqlDB)) && strings.Contains(ev.Method, "Exec")
	}
	var objs []*flow.Path
	for _, p := range q.step(st, mk, args...) {
		if succeeded(p) == 1 {
			objs = append(objs, p)
		}
		if succeeded(p) == 0 {
			q.bad(mk, p, "connects", "whether the connection could be made is not known")
		}
	}
	if len(objs) == 0 {
		c.Fail("undecided", core.Name(mk), mk.Pos(), "the constructor never succeeds")
		return
	}
	used := "" // the connection that operations use
	for _, p := range objs {
		obj := p.Ret[0]
		c.Ok("connects", core.Name(mk))
		for i := 0; i < iface.NumMethods(); i++ {
			m := iface.Method(i)
			f := ownMethod(c, q.t, m.Name())
			if f == nil {
				c.Fail("undecided", core.TypeName(q.t), q.t.Obj().Pos(), "the method %s is not its own", m.Name())
				continue
			}
			for _, nargs := range []int64{0, 2} {
				st := p.St.Fork()
				in := []flow.Val{obj}
				var want []flow.Val
				for j := 1; j < len(f.Params); j++ {
					if f.Signature.Variadic() && j == len(f.Params)-1 {
						s := st.NewSlice(types.NewInterfaceType(nil, nil), nargs)
						for k := int64(0); k < nargs; k++ {
							x := &flow.Sym{ID: fmt.Sprintf("arg%d", k), T: types.NewInterfaceType(nil, nil)}
							st.Store(s.Elem(k), x)
							want = append(want, x)
						}
						in = append(in, s)
						continue
					}
					v := q.in(st, f.Params[j].Name(), f.Params[j].Type())
					in = append(in, v)
					if j > 1 {
						want = append(want, v)
					}
				}
				told := false
				for _, o := range q.step(st, f, in...) {
					c.Ok("requests", core.Name(f))
					var reqs []*flow.Event
					for _, ev := range during(o) {
						if ev.Kind == "call" && (strings.HasPrefix(ev.Name, sqlxDB) || strings.HasPrefix(ev.Name, sqlDB)) {
							reqs = append(reqs, ev)
						}
					}
					if len(reqs) != 1 {
						q.bad(f, o, "requests", "it makes %d requests", len(reqs))
						continue
					}
					ev := reqs[0]
					a := ev.Args
					if len(a) > 0 && core.IsContext(flow.TypeOf(a[0])) {
						a = a[1:]
					}
					used = conn(ev.Recv)
					switch {
					case strings.TrimSuffix(ev.Method, "Context") != m.Name():
						q.bad(f, o, "requests", "it makes a request of another kind: %s", ev.Method)
					case used == "":
						q.bad(f, o, "requests", "the request is not for the connection of the object")
					case !allSame(a, want):
						q.bad(f, o, "requests", "the request does not have the caller's query and arguments")
					case !sameAnswer(o, ev):
						q.bad(f, o, "answers", "the caller is not given the answer of the request")
					default:
						told = told || succeeded(o) == 1
					}
				}
				if !told {
					q.bad(f, nil, "answers", "the caller is never given an answer")
				}
			}
		}
		// the connection is the configured one
		src := conns[used]
		if src == nil {
			continue
		}
		for _, ev := range during(p) {
			if ev.Kind == "call" && conn(ev.Recv) == used && (ev.Method == "Close" || strings.Contains(ev.Name, ").Close")) {
				q.bad(mk, p, "connects", "the connection of the object is closed")
			}
		}
		if !mysql {
			q.memory(mk, p, args, used, conns, conn)
			continue
		}
		// address, database, user, password in the order of the parameters
		server := "{3}:{4}@tcp({1})/"
		if !sameVal(src[0], kstr("mysql")) {
			q.bad(mk, p, "connects", "the driver is not that of the server")
		}
		if rest, ok := textIs(src[1], server+"{2}", vals); !ok || rest != "" && rest[0] != '?' {
			q.bad(mk, p, "connects", "it connects to %s and not to the database of the configured server with the configured user", showText(src[1]))
		}
		created := false
		for _, ev := range during(p) {
			if ev.Kind != "call" || !isAdmin(ev) {
				continue
			}
			a := ev.Args
			if len(a) > 0 && core.IsContext(flow.TypeOf(a[0])) {
				a = a[1:]
			}
			if s := conns[conn(ev.Recv)]; s != nil {
				if rest, ok := textIs(s[1], server, vals); !ok || rest != "" && rest[0] != '?' {
					q.bad(mk, p, "connects", "the database is created on %s and not on the configured server", showText(s[1]))
				}
			}
			for _, form := range []string{"CREATE DATABASE IF NOT EXISTS {2}", "CREATE DATABASE IF NOT EXISTS `{2}`"} {
				if rest, ok := textIs(a[0], form, vals); ok && strings.Trim(rest, "; ") == "" {
					created = true
				}
			}
			if !created {
				q.bad(mk, p, "connects", "the statement %s is not part of connecting to the database", showText(a[0]))
			}
		}
		if !created {
			q.bad(mk, p, "connects", "the database is not created when the server does not have it")
		}
	}
}

// memory: a second instance has its own data; all connections of one have the same.
func (q *dbClient) memory(mk *ssa.Function, p *flow.Path, args []flow.Val, used string, conns map[string][]flow.Val, conn func(flow.Val) string) {
	q.c.Ok("instances", core.Name(mk))
	source := func(s []flow.Val) (string, bool) {
		ps, ok := textParts(s[1])
		if !ok || len(ps) != 1 {
			return "", false
		}
		c, ok := ps[0].(flow.Const)
		if !ok {
			return "", false
		}
		return constant.StringVal(c.V), true
	}
	src, ok := source(conns[used])
	if !ok {
		q.bad(mk, p, "undecided", "the name of the database is not known: %s", showText(conns[used][1]))
		return
	}
	private := src == "" || strings.HasPrefix(src, ":memory:") || strings.Contains(src, ":memory:") && !strings.Contains(src, "cache=shared")
	shared := strings.Contains(src, "cache=shared")
	if !private && !strings.Contains(src, "mode=memory") && !strings.Contains(src, ":memory:") {
		q.bad(mk, p, "instances", "the database %q is not in memory", src)
	}
	one := false
	for _, ev := range during(p) {
		if ev.Kind != "call" || conn(ev.Recv) != used {
			continue
		}
		if len(ev.Args) == 1 {
			c, ok := unconv(ev.Args[0]).(flow.Const)
			if !ok {
				continue
			}
			n, _ := constant.Int64Val(c.V)
			switch ev.Method {
			case "SetMaxOpenConns":
				one = n == 1
			case "SetMaxIdleConns":
				if n <= 0 {
					q.bad(mk, p, "instances", "no connection is kept: the data is lost between operations")
				}
			case "SetConnMaxLifetime", "SetConnMaxIdleTime":
				if n > 0 {
					q.bad(mk, p, "instances", "connections are not kept: the data is lost after a while")
				}
			}
		}
	}
	if !shared && !one {
		q.bad(mk, p, "instances", "each connection to %q has data of its own", src)
	}
	for _, o := range q.step(p.St, mk, args...) {
		if succeeded(o) != 1 {
			continue
		}
		for _, ev := range during(o) {
			if r := ev.Res; ev.Kind == "call" && r != nil {
				if t, ok := r.(flow.Tuple); ok && conns[t[0].Key()] != nil {
					other, ok := source(conns[t[0].Key()])
					if !ok {
						q.bad(mk, o, "undecided", "the name of the database is not known")
					} else if other == src && !(private && one) {
						q.bad(mk, o, "instances", "two instances use the same database %q", src)
					}
				}
			}
		}
	}
}

func allSame(a, b []flow.Val) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !sameVal(a[i], b[i]) {
			return false
		}
	}
	return true
}

// sameAnswer: what is returned is the result of the call, or its error.
func sameAnswer(p *flow.Path, ev *flow.Event) bool {
	rs, ok := ev.Res.(flow.Tuple)
	if !ok {
		rs = flow.Tuple{ev.Res}
	}
	if len(rs) != len(p.Ret) {
		return false
	}
	err := rs[len(rs)-1]
	switch f := p.St.NilFact(err); {
	case f == 0:
		return allSame(p.Ret, rs)
	case f == 1:
		return succeeded(p) == 1 && allSame(p.Ret[:len(rs)-1], rs[:len(rs)-1])
	}
	return succeeded(p) == -1 && p.St.Derives(p.Ret[len(rs)-1], err.Key())
}
