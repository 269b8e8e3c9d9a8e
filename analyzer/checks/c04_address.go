package checks

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/core"
	"verif/analyzer/emit"
	"verif/analyzer/flow"
	"verif/analyzer/peval"
)

func init() {
	register(&Check{
		ID: "C04",
		Rules: "define: defining an address defines it, its bind and its dial configuration under three names, all for the same scope, and remembers what it points to; " +
			"agree: binding and dialing an address use the configuration that was defined for it and hand it over; " +
			"assigned (a table of lists of up to three servers): every port that is assigned is free and not zero and the preferred one when that is free, ports that were given are kept, and only a port given twice is an error; " +
			"server: every server a plugin defines binds the address that points to it, with the node that is built; client: every client gets the dial configuration of what follows it; " +
			"container: an off-the-shelf container announces each of its addresses with the port of its image; env: a generated environment file gives the two sides of an address one port and no two addresses the same; fixed: an address is a fixed value exactly when its host and port are known, and is written host:port.",
		Run:       runC04,
		NotDecide: "Host names in environment files that are meant for other machines; whether an image really listens on the port of its documentation (a table).",
	})
}

const addrPkg = "blueprint/pkg/coreplugins/address"

type reporter func(rule, format string, a ...any)

func reporterFor(c *core.Ctx, told map[string]bool, fn *ssa.Function, p *flow.Path) reporter {
	return func(rule, format string, a ...any) {
		k := core.Name(fn) + rule + format
		if !told[k] {
			told[k] = true
			c.Fail(rule, core.Name(fn), fn.Pos(), format, a...)
			if p != nil {
				dumpPath(p)
			}
		}
	}
}

// pureStrings: the string helpers depend on nothing but their arguments.
func pureStrings(e *flow.Engine) {
	in := e.Model
	e.Model = func(e *flow.Engine, st *flow.State, ev *flow.Event) ([]flow.Out, bool) {
		for _, p := range []string{"blueprint/pkg/blueprint/stringutil.", "blueprint/pkg/ir.CleanName", "plugins/linux.", "strings."} {
			if strings.HasPrefix(ev.Name, p) && ev.Call != nil && !ev.Invoke && ev.Recv == nil {
				r := ev.Call.Common().Signature().Results()
				var as []flow.Val
				for _, a := range ev.Args {
					as = append(as, flow.Strip(a))
				}
				if r.Len() == 1 {
					return []flow.Out{{Res: flow.MkApp(ev.Name, r.At(0).Type(), as...)}}, true
				}
			}
		}
		if in != nil {
			return in(e, st, ev)
		}
		return nil, false
	}
}

func runC04(c *core.Ctx) {
	addressOps(c)
	portTable(c)
	addressUse(c)
	containerPorts(c, false)
	envFiles(c)
	fixedAddresses(c)
}

// fixedAddresses: an address is a fixed value once its host and its port are known, and is written host:port.
func fixedAddresses(c *core.Ctx) {
	b := emit.New(c)
	for _, kind := range []string{"BindConfig", "DialConfig"} {
		who := addrPkg + "." + kind
		for _, host := range []string{"", "localhost", "10.0.0.1"} {
			for _, port := range []int64{0, 1, 9000, 65535} {
				var has, val peval.Value
				e := b.Evaluate(false, func(m *peval.Machine) peval.Value {
					n := b.Node(addrPkg, kind, map[string]peval.Value{"AddressName": "a.addr", "Key": "a.addr.k"})
					if !emit.Put(n, "Hostname", host) || !emit.Put(n, "Port", port) {
						panic(peval.Undecided{Msg: "the fields of the address are not there"})
					}
					var ok1, ok2 bool
					has, ok1 = m.Method(n.T, n.V, "HasValue")
					val, ok2 = m.Method(n.T, n.V, "Value")
					if !ok1 || !ok2 {
						panic(peval.Undecided{Msg: "HasValue or Value is not there"})
					}
					return nil
				})
				if e.Unk != "" || e.Failed != "" {
					c.Fail("undecided", who, token.NoPos, "whether an address is fixed cannot be evaluated: %s%s", e.Unk, e.Failed)
					return
				}
				c.Ok("fixed", who)
				if has != (host != "" && port != 0) {
					c.Fail("fixed", who, token.NoPos, "with the host %q and the port %d, HasValue is %v", host, port, has)
				} else if has == true && val != fmt.Sprintf("%s:%d", host, port) {
					c.Fail("fixed", who, token.NoPos, "with the host %q and the port %d, the value is %v", host, port, val)
				}
			}
		}
	}
}

func addressOps(c *core.Ctx) {
	told := map[string]bool{}
	follow := func(name string) (*ssa.Function, []flow.Val, []*flow.Path) {
		fn := c.Func(addrPkg, name)
		if fn == nil {
			c.Fail("undecided", addrPkg+"."+name, token.NoPos, "%s is not declared", name)
			return nil, nil, nil
		}
		e := kernelEngine(c, addrPkg)
		e.Inline = func(f *ssa.Function) bool { return core.InPkg(f, addrPkg) && !logs(f) }
		pureStrings(e)
		st := globals(c, addrPkg)
		args := opaque(fn, st)
		ps := e.Run(fn, args, st)
		if e.Over || len(ps) == 0 {
			c.Fail("undecided", core.Name(fn), fn.Pos(), "the function cannot be followed")
		}
		return fn, args, ps
	}
	def, dargs, dps := follow("Define")
	get, gargs, gps := follow("GetAddress")
	if def == nil || get == nil {
		return
	}
	key := ""
	for _, p := range gps {
		bad := reporterFor(c, told, get, p)
		for _, ev := range p.St.Trace {
			if ev.Kind == "call" && ev.Method == "GetProperty" && len(ev.Args) == 3 && sameVal(ev.Args[0], gargs[1]) && len(ev.Outs) > 0 && sameVal(ev.Outs[0], p.Ret[0]) {
				key = flow.Strip(ev.Args[1]).Key()
			}
		}
		if key == "" {
			bad("define", "the address of the name is not looked up")
		}
	}
	names := map[string]string{} // kind of node -> name it is defined under
	for _, p := range dps {
		bad := reporterFor(c, told, def, p)
		c.Ok("define", core.Name(def))
		if p.How != "return" {
			bad("define", "a path ends with a %s", p.How)
			continue
		}
		name, to := dargs[1], dargs[2]
		opts := (&kpath{Path: p}).cond(func(a *flow.App) bool { return strings.Contains(a.Key(), "len(p3)") })
		set := false
		kinds := map[string]int{}
		for _, ev := range p.St.Trace {
			if ev.Kind != "call" || !ev.Invoke {
				continue
			}
			if ev.Method == "SetProperty" && len(ev.Args) == 3 && sameVal(ev.Args[0], name) && flow.Strip(ev.Args[1]).Key() == key {
				if a, ok := flow.Strip(ev.Args[2]).(*flow.Addr); ok {
					set = sameVal(p.St.Load(&flow.Addr{Base: a.Base + ".PointsTo", T: types.Typ[types.String], Alloc: true}), to)
				}
			}
			if ev.Method != "Define" || len(ev.Args) < 3 {
				continue
			}
			scope := flow.Strip(ev.Args[1])
			app := false
			if x, ok := scope.(*flow.Addr); ok {
				app = strings.HasSuffix(core.TypeName(x.T), "ir.ApplicationNode")
			}
			if opts == 1 && !strings.Contains(scope.Key(), "p3[0].Reachability") || opts != 1 && !app {
				bad("define", "an address is reachable from another scope than asked")
			}
			b, ok := flow.Strip(ev.Args[2]).(*flow.Func)
			if !ok {
				bad("define", "a build function cannot be followed")
				continue
			}
			e := kernelEngine(c, addrPkg)
			pureStrings(e)
			ns := &flow.Sym{ID: "ns", T: b.Fn.Params[0].Type()}
			for _, q := range e.RunFunc(b, []flow.Val{ns}, p.St.Fork()) {
				if q.How != "return" || q.St.NilFact(q.Ret[1]) != 1 {
					bad("define", "an address cannot be built")
					continue
				}
				a, ok := flow.Strip(q.Ret[0]).(*flow.Addr)
				if !ok || !a.Alloc {
					bad("define", "the node of an address is not a new one")
					continue
				}
				kind := core.TypeName(a.T)
				if i := strings.IndexByte(kind, '['); i >= 0 {
					kind = kind[:i]
				}
				kind = strings.TrimPrefix(kind, addrPkg+".")
				str := func(f string) flow.Val {
					return flow.Strip(q.St.Load(&flow.Addr{Base: a.Base + "." + f, T: types.Typ[types.String], Alloc: true}))
				}
				kinds[kind]++
				names[kind] = flow.Strip(ev.Args[0]).Key()
				switch kind {
				case "Address":
					if !sameVal(ev.Args[0], name) || !sameVal(str("AddrName"), name) {
						bad("define", "the address does not have its name")
					}
				case "BindConfig", "DialConfig":
					if !sameVal(str("addressConfig.AddressName"), name) {
						bad("define", "a %s does not say which address it is for", kind)
					}
					if !sameVal(str("addressConfig.Key"), ev.Args[0]) {
						bad("define", "a %s is not defined under its own name", kind)
					}
					if !flow.Mentions(flow.Strip(ev.Args[0]), name.Key()) {
						bad("define", "the %s of two addresses have one name", kind)
					}
				}
			}
		}
		if !set {
			bad("define", "what the address points to is not remembered")
		}
		for _, k := range []string{"Address", "BindConfig", "DialConfig"} {
			if kinds[k] != 1 {
				bad("define", "the address has %d %s", kinds[k], k)
			}
		}
		if names["BindConfig"] == names["DialConfig"] || names["BindConfig"] == names["Address"] || names["DialConfig"] == names["Address"] {
			bad("define", "two nodes of the address have one name")
		}
	}
	for _, m := range []struct{ fn, kind, field string }{{"Bind", "BindConfig", "Bind"}, {"Dial", "DialConfig", "Dial"}} {
		fn, args, ps := follow(m.fn)
		for _, p := range ps {
			bad := reporterFor(c, told, fn, p)
			c.Ok("agree", core.Name(fn))
			if p.How != "return" {
				bad("agree", "a path ends with a %s", p.How)
				continue
			}
			failed := p.St.NilFact(p.Ret[len(p.Ret)-1]) == -1
			var addr, conf flow.Val
			anyErr := false
			for _, ev := range p.St.Trace {
				if !onNS(ev, "Get") && !onNS(ev, "Instantiate") || len(ev.Args) != 2 {
					continue
				}
				var n flow.Val
				if len(ev.Outs) > 0 {
					n = flow.Strip(ev.Outs[0])
				}
				if n == nil {
					if a, ok := flow.Strip(ev.Args[1]).(*flow.Sym); ok {
						n = flow.Strip(p.St.Load(&flow.Addr{Base: "*" + a.ID, T: core.Deref(a.T)}))
					}
				}
				if r := results(ev.Res); len(r) == 1 && p.St.NilFact(r[0]) == -1 {
					anyErr = true
					if !failed {
						bad("agree", "a failure is not returned")
					}
				}
				if ev.Method != "Get" {
					bad("agree", "an address is not recorded as a dependency")
				}
				if addr == nil {
					addr = n
					if !sameVal(ev.Args[0], args[1]) {
						bad("agree", "another address is used")
					}
					continue
				}
				own := "load(&*" + addr.Key() + ".AddrName)"
				if k := strings.ReplaceAll(flow.Strip(ev.Args[0]).Key(), own, "p1"); k != names[m.kind] {
					bad("agree", "%s uses another configuration than the %s of the address", m.fn, m.kind)
				} else if conf == nil {
					conf = n
				}
			}
			if failed {
				if !anyErr {
					bad("agree", "an error is returned although nothing failed")
				}
				continue
			}
			if addr == nil || conf == nil {
				if !anyErr {
					bad("agree", "the address and its configuration are not both obtained")
				}
				continue
			}
			f := func(n string) flow.Val {
				return flow.Strip(p.St.Load(&flow.Addr{Base: "*" + addr.Key() + "." + n, T: conf2(conf)}))
			}
			if !sameVal(f(m.field), conf) {
				bad("agree", "the address does not get its %s", m.kind)
			}
			if m.fn == "Dial" && !sameVal(p.Ret[0], addr) {
				bad("agree", "the address is not returned")
			}
			if m.fn == "Bind" {
				if !sameVal(f("Server"), args[2]) {
					bad("agree", "the address does not get its server")
				}
			}
		}
	}
	// destination
	sd, sargs, sps := follow("Address.SetDestination")
	for _, p := range sps {
		c.Ok("agree", core.Name(sd))
		bad := reporterFor(c, told, sd, p)
		ok := p.How == "return" && p.St.NilFact(p.Ret[0]) == 1
		got := flow.Strip(p.St.Load(&flow.Addr{Base: "*p0.Server", T: sargs[1].(*flow.Sym).T}))
		if ok != sameVal(got, sargs[1]) {
			bad("agree", "success and the new destination do not go together")
		}
	}
	gd, _, gdps := follow("Address.GetDestination")
	for _, p := range gdps {
		c.Ok("agree", core.Name(gd))
		bad := reporterFor(c, told, gd, p)
		server := "load(&*p0.Server)"
		switch {
		case p.How != "return":
			bad("agree", "a path ends with a %s", p.How)
		case p.St.NilFact(p.Ret[0]) == 1:
		case flow.Strip(p.Ret[0]).Key() != server:
			bad("agree", "the destination is not the server")
		}
	}
}

func conf2(v flow.Val) types.Type {
	if t := flow.TypeOf(v); t != nil {
		return t
	}
	return types.Typ[types.UnsafePointer]
}

// portTable decides the assignment of ports by evaluating it on every list of up to three servers
// with given and preferred ports of a few values.
func portTable(c *core.Ctx) {
	fn := c.Func(addrPkg, "AssignPorts")
	if fn == nil {
		return
	}
	who := core.Name(fn)
	b := emit.New(c)
	type srv struct{ given, wants int64 }
	var all []srv
	for _, g := range []int64{0, 2000, 2001, 65535} {
		for _, w := range []int64{0, 2000, 65535} {
			all = append(all, srv{g, w})
		}
	}
	said := map[string]bool{}
	run1 := func(list []srv, names int) {
		c.Ok("assigned", who)
		bad := func(f string, a ...any) {
			if m := fmt.Sprintf(f, a...); !said[f] {
				said[f] = true
				c.Fail("assigned", who, fn.Pos(), "servers (given port, preferred port) %v: %s", list, m)
			}
		}
		var ns []peval.Iface
		var given, free []peval.Value
		conflict := false
		seen := map[int64]bool{}
		for i, s := range list {
			n := b.Bind("s"+itoa(i)+".addr", s.wants)
			emit.Put(n, "Port", s.given)
			switch names {
			case 1:
				emit.Put(n, "Hostname", "host"+itoa(i))
			case 2:
				for _, f := range []string{"Hostname", "AddressName", "Key"} {
					emit.Put(n, f, "same")
				}
			}
			ns = append(ns, n)
			if s.given == 0 {
				free = append(free, n.V)
				continue
			}
			conflict = conflict || seen[s.given]
			seen[s.given] = true
			given = append(given, n.V)
		}
		vs := peval.Slice{}
		for _, n := range ns {
			vs = append(vs, n.V)
		}
		var out peval.Value
		e := b.Evaluate(false, func(m *peval.Machine) peval.Value {
			out = m.Call(fn, []peval.Value{vs})
			return nil
		})
		if e.Unk != "" {
			c.Fail("undecided", who, fn.Pos(), "the assignment for %v could not be determined: %s", list, e.Unk)
			return
		}
		if e.Failed != "" {
			bad("it %s", e.Failed)
			return
		}
		res, _ := out.(peval.Tuple)
		if len(res) != 3 {
			c.Fail("undecided", who, fn.Pos(), "the results are %T", out)
			return
		}
		if failed := res[2] != nil; failed != conflict {
			if failed {
				bad("they are refused although no port is given twice")
			} else {
				bad("a port that is given twice is no error")
			}
			return
		}
		if conflict {
			return
		}
		used := map[int64]bool{}
		for i, n := range ns {
			p, _ := emit.Get(n, "Port").(int64)
			w, _ := emit.Get(n, "PreferredPort").(int64)
			switch {
			case list[i].given != 0 && p != list[i].given:
				bad("a given port becomes %d", p)
			case p <= 0 || p > 65535:
				bad("server %d has the port %d", i, p)
			case used[p]:
				bad("two servers have the port %d", p)
			case list[i].given == 0 && list[i].wants != 0 && p != list[i].wants && !seen[list[i].wants] && !used[list[i].wants]:
				bad("server %d does not keep its preferred port", i)
			case w != p:
				bad("server %d has the port %d but prefers %d afterwards", i, p, w)
			}
			used[p] = true
		}
		for i, want := range [][]peval.Value{given, free} {
			got, _ := res[i].(peval.Slice)
			same := len(got) == len(want)
			for j := range want {
				same = same && got[j] == want[j]
			}
			if !same {
				bad("the lists of given and of assigned ports are not told correctly")
			}
		}
	}
	run := func(list []srv) {
		for names := 0; names < 3; names++ {
			run1(list, names)
		}
	}
	run(nil)
	var pairs []srv
	for _, g := range []int64{0, 1, 80, 1023, 2000, 3306, 8080, 12345, 65534, 65535} {
		for _, w := range []int64{0, 1, 80, 2000, 3306, 12345, 65534, 65535} {
			pairs = append(pairs, srv{g, w})
		}
	}
	for _, x := range pairs {
		for _, y := range pairs {
			run([]srv{x, y})
		}
	}
	for _, x := range all {
		run([]srv{x})
		for _, y := range all {
			for _, z := range all {
				run([]srv{x, y, z})
			}
		}
	}
}

// addressUse decides the plugins' use of addresses.
func addressUse(c *core.Ctx) {
	for _, w := range wiringFns(c) {
		told := map[string]bool{}
		for _, p := range w.Paths {
			if p.How != "return" {
				continue
			}
			bad := reporterFor(c, told, w.Fn, p)
			points := map[string]flow.Val{}
			var addrs []flow.Val
			nexts := map[string]bool{}
			for _, ev := range p.St.Trace {
				if ev.Kind != "call" {
					continue
				}
				if strings.HasPrefix(ev.Name, addrPkg+".Define") && len(ev.Args) >= 3 {
					points[flow.Strip(ev.Args[1]).Key()] = flow.Strip(ev.Args[2])
					addrs = append(addrs, flow.Strip(ev.Args[1]))
				}
				if strings.HasSuffix(ev.Name, ".AddSrcModifier") && ev.Res != nil {
					nexts[flow.Strip(ev.Res).Key()] = true
				}
			}
			added := map[string]bool{}
			for _, ev := range p.St.Trace {
				if ev.Kind == "call" && strings.HasSuffix(ev.Name, ".AddAddrModifier") && len(ev.Args) >= 2 {
					added[flow.Strip(ev.Args[1]).Key()] = true
				}
			}
			bound := map[string]bool{}
			for _, d := range w.Defs {
				if d.Outer != p {
					continue
				}
				dname := flow.Strip(d.Def.Args[0])
				for _, q := range d.Paths {
					qbad := reporterFor(c, told, w.Fn, q)
					if q.How != "return" || len(q.Ret) != 2 || q.St.NilFact(q.Ret[1]) == -1 {
						continue
					}
					mine := map[string]bool{}
					confs := map[string]bool{}
					for _, ev := range q.St.Trace {
						if ev.Kind != "call" {
							continue
						}
						if strings.HasPrefix(ev.Name, addrPkg+".Bind") && len(ev.Args) == 4 {
							a := flow.Strip(ev.Args[1])
							c.Ok("server", w.Name+" "+a.Key())
							bound[a.Key()] = true
							mine[a.Key()] = true
							if to := points[a.Key()]; to == nil || !sameVal(to, dname) {
								qbad("server", "a server binds an address that does not point to it")
							}
							if !sameVal(ev.Args[2], q.Ret[0]) {
								qbad("server", "another node than the server is bound to its address")
							}
							conf, ok := flow.Strip(ev.Args[3]).(*flow.Addr)
							n := flow.Strip(q.Ret[0])
							base := "*" + n.Key()
							if x, isA := n.(*flow.Addr); isA {
								base = x.Base
							}
							if !ok || !strings.HasPrefix(conf.Base, base+".") {
								qbad("server", "the server does not get its bind configuration")
							} else if confs[conf.Base] {
								qbad("server", "two addresses of a server share one bind configuration")
							} else {
								confs[conf.Base] = true
							}
							if r := results(ev.Res); len(r) == 1 && !sameVal(r[0], q.Ret[1]) && q.St.NilFact(r[0]) != 1 {
								qbad("server", "a failure to bind is not returned")
							}
						}
						if strings.HasPrefix(ev.Name, addrPkg+".Dial") && len(ev.Args) == 2 {
							c.Ok("client", w.Name+" "+dname.Key())
							if a := flow.Strip(ev.Args[1]).Key(); !nexts[a] && points[a] == nil {
								qbad("client", "a client dials something that is not an address")
							}
							n := results(ev.Res)[0]
							whole := reaches(q, q.Ret[0], flow.Strip(n).Key(), map[string]bool{})
							part := "load(&*" + flow.Strip(n).Key() + ".Bind)"
							if !whole {
								qbad("client", "the client does not get the address")
							} else if reaches(q, q.Ret[0], part, map[string]bool{}) {
								qbad("client", "the client gets the server's side of the address")
							}
						}
					}
					for a, to := range points {
						if sameVal(to, dname) && !mine[a] {
							qbad("server", "a server may be built that does not bind an address that points to it")
						}
					}
				}
			}
			for _, a := range addrs {
				if !bound[a.Key()] {
					bad("server", "nothing binds an address that is defined")
				}
				if !added[a.Key()] {
					bad("server", "an address is defined but clients are not led to it")
				}
			}
		}
	}
}

// imagePorts: the port an image listens on by default.
var imagePorts = map[string][]int64{
	"redis": {6379}, "memcached": {11211}, "mongo": {27017}, "mysql/mysql-server": {3306}, "rabbitmq:3.8": {5672},
	"openzipkin/zipkin": {9411}, "jaegertracing/all-in-one:latest": {14268, 16686},
}

// imageEnv: the variables without which an image refuses clients from other containers.
var imageEnv = map[string]map[string]string{
	"mysql/mysql-server": {"MYSQL_ROOT_HOST": "%", "MYSQL_ROOT_PASSWORD": ""},
}

// containerPorts decides the containers that run an off-the-shelf image: the ports, or the environment.
func containerPorts(c *core.Ctx, env bool) {
	told := map[string]bool{}
	for _, t := range implsOf(c, "plugins/docker", "ProvidesContainerInstance", "AddContainerInstance") {
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		var binds []string
		for i := 0; i < st.NumFields(); i++ {
			if core.TypeName(core.Deref(st.Field(i).Type())) == addrPkg+".BindConfig" {
				binds = append(binds, st.Field(i).Name())
			}
		}
		if len(binds) == 0 || strings.HasPrefix(core.TypeName(t), "plugins/xtrace") {
			continue
		}
		fn := ownMethod(c, t, "AddContainerInstance")
		e := kernelEngine(c, core.PkgOf(fn))
		pureStrings(e)
		st0 := globals(c, core.PkgOf(fn))
		args := opaque(fn, st0)
		ps := e.Run(fn, args, st0)
		if e.Over || len(ps) == 0 {
			c.Fail("undecided", core.Name(fn), fn.Pos(), "the method cannot be followed")
		}
		for _, p := range ps {
			bad := reporterFor(c, told, fn, p)
			c.Ok("container", core.Name(fn))
			if p.How != "return" {
				bad("container", "a path ends with a %s", p.How)
				continue
			}
			var decl *flow.Event
			for _, ev := range p.St.Trace {
				if ev.Kind == "call" && (ev.Method == "DeclarePrebuiltInstance" || ev.Method == "DeclareLocalImage") {
					if decl != nil {
						bad("container", "the container is declared twice")
					}
					decl = ev
				}
				if ev.Kind == "call" && (ev.Method == "SetEnvironmentVariable" || ev.Method == "SetCustomCommand" || ev.Method == "AddVolume" || ev.Method == "AddCustomConf") {
					if decl == nil || !sameVal(ev.Args[0], decl.Args[0]) {
						bad("container", "%s is for another container than the one declared", ev.Method)
					}
				}
			}
			if decl == nil {
				if p.St.NilFact(p.Ret[0]) != -1 {
					bad("container", "the container is not declared")
				}
				continue
			}
			img := ""
			if k, ok := flow.Strip(decl.Args[1]).(flow.Const); ok && k.V.Kind() == constant.String {
				img = constant.StringVal(k.V)
			}
			want := imagePorts[img]
			if want == nil {
				want = imagePorts[strings.SplitN(img, ":", 2)[0]]
			}
			if env {
				if p.St.NilFact(p.Ret[0]) == -1 {
					continue
				}
				for _, k := range sortedKeys(imageEnv[strings.SplitN(img, ":", 2)[0]]) {
					want := imageEnv[strings.SplitN(img, ":", 2)[0]][k]
					given := false
					for _, ev := range p.St.Trace {
						if ev.Kind == "call" && ev.Method == "SetEnvironmentVariable" && sameVal(flow.Strip(ev.Args[1]), kstr(k)) {
							v := flow.Strip(ev.Args[2])
							if want != "" && !sameVal(v, kstr(want)) || want == "" && sameVal(v, kstr("")) {
								bad("container", "the variable %s of %s is set to %s", k, img, v.Key())
							}
							given = true
						}
					}
					if !given {
						bad("container", "the variable %s, without which clients cannot use %s, is not set", k, img)
					}
				}
				continue
			}
			seen := map[string]bool{}
			for _, f := range binds {
				l := "load(&*p0." + f + ")"
				has := false
				for _, a := range decl.Args[2:] {
					has = has || flow.Strip(a).Key() == l
				}
				if !has {
					bad("container", "the container does not announce its address %s", f)
				}
				v := flow.Strip(p.St.Load(&flow.Addr{Base: "*" + l + ".addressConfig.Port", T: types.Typ[types.Uint16]}))
				k, ok := v.(flow.Const)
				if !ok {
					if want != nil {
						bad("container", "the port of %s is not given", f)
					}
					continue
				}
				n, _ := constant.Int64Val(k.V)
				known := want == nil
				for _, x := range want {
					known = known || x == n
				}
				if !known {
					bad("container", "the port %d of %s is not one that %s listens on", n, f, img)
				}
				if seen[k.Key()] {
					bad("container", "two addresses of one container have one port")
				}
				seen[k.Key()] = true
			}
		}
	}
}

// envFiles evaluates the generator of environment files for every mix of addresses.
func envFiles(c *core.Ctx) {
	const who = "plugins/environment.AssignPorts"
	b := emit.New(c)
	type addr struct {
		name       string
		bind, dial bool
	}
	as := []addr{{"front.http.addr", true, true}, {"back_service.addr", true, true}, {"only.bind.addr", true, false}, {"far.addr", false, true}, {"a_b.c.addr", true, true}}
	for _, first := range []int64{1, 12345, 65531, 65532, 65535} {
		for n := 1; n <= len(as); n++ {
			text := ""
			for _, rev := range []bool{false, true} {
				c.Ok("env", who)
				e := b.Evaluate(rev, func(m *peval.Machine) peval.Value {
					var build peval.Value
					m.Hooks["blueprint/pkg/ir.RegisterDefaultNamespace"] = func(m *peval.Machine, fn *ssa.Function, a []peval.Value) (peval.Value, bool) {
						build = a[1]
						return nil, true
					}
					b.Fn("plugins/environment", "AssignPorts", first)
					if build == nil {
						panic(peval.Undecided{Msg: "no namespace is registered"})
					}
					var ns []peval.Iface
					for i, a := range as[:n] {
						if a.bind && i%2 == 0 {
							ns = append(ns, b.Bind(a.name, 0))
						}
						if a.dial {
							ns = append(ns, b.Dial(a.name))
						}
						if a.bind && i%2 == 1 {
							ns = append(ns, b.Bind(a.name, 0))
						}
					}
					return m.Call(build, []peval.Value{emit.DeployDir, emit.Nodes(ns...)})
				})
				if e.Unk != "" {
					c.Fail("undecided", who, token.NoPos, "the environment files could not be determined: %s", e.Unk)
					continue
				}
				if first+int64(n)-1 > 65535 {
					if e.Failed == "" || strings.HasPrefix(e.Failed, "panics") {
						c.Fail("env", who, token.NoPos, "ports beyond the last one are no error %s", e.Failed)
					}
					continue
				}
				if e.Failed != "" {
					c.Fail("env", who, token.NoPos, "the files cannot be generated: %s", e.Failed)
					continue
				}
				if len(e.Files) == 0 {
					c.Fail("env", who, token.NoPos, "no file is generated")
				}
				all := ""
				for _, f := range sortedKeys(e.Files) {
					all += f + "\n" + e.Files[f]
				}
				if rev && text != all {
					c.Fail("order", who, token.NoPos, "the ports depend on the order of map iteration")
				}
				text = all
				ports := map[string]string{}
				for _, f := range sortedKeys(e.Files) {
					bad := func(s string, a ...any) { c.Fail("env", who, token.NoPos, f+": "+s, a...) }
					vars := map[string]string{}
					for _, l := range strings.Split(strings.TrimSpace(e.Files[f]), "\n") {
						k, v, ok := strings.Cut(l, "=")
						if _, twice := vars[k]; !ok || twice {
							bad("the line %q sets no variable of its own", l)
						}
						vars[k] = v
					}
					used := map[string]bool{}
					want := 0
					for _, a := range as[:n] {
						p := ""
						for _, side := range []string{"bind", "dial"} {
							if side == "bind" && !a.bind || side == "dial" && !a.dial {
								continue
							}
							want++
							h, q, ok := strings.Cut(vars[envVar(b, a.name+"."+side+"_addr")], ":")
							x, err := strconv.Atoi(q)
							if !ok || h == "" || err != nil || x < 1 || x > 65535 {
								bad("%s is not given an address to %s", a.name, side)
								continue
							}
							if side == "bind" && h != "0.0.0.0" {
								bad("%s is told to listen on %s", a.name, h)
							}
							if side == "dial" && strings.Contains(f, "local") && h != "localhost" {
								bad("clients of %s on the same machine are sent to %s", a.name, h)
							}
							if p != "" && p != q {
								bad("the two sides of %s have different ports", a.name)
							}
							p = q
						}
						if used[p] {
							bad("two addresses have port %s", p)
						}
						used[p] = true
						if old, seen := ports[a.name]; seen && old != p {
							bad("the files do not agree on the port of %s", a.name)
						}
						ports[a.name] = p
						if x, _ := strconv.Atoi(p); int64(x) < first {
							bad("a port before the first one is used")
						}
					}
					if len(vars) != want {
						bad("%d variables for %d sides of addresses", len(vars), want)
					}
				}
			}
		}
	}
}
