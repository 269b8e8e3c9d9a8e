package checks

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/core"
	"verif/analyzer/flow"
)

func init() {
	register(&Check{
		ID: "C05",
		Rules: "keep: a namespace's handler keeps every node and every edge it is given, as they are, in lists of their own; " +
			"accepts: for every type of node in the repository, a namespace accepts exactly the nodes that belong inside it; " +
			"add: adding a child to a namespace makes the child (for a pointer, what comes after a new server-side wrapper) a child of that namespace, and the wrapper enters that namespace and nothing else; " +
			"instantiate: a new namespace derives from its parent under its own node's name and later obtains every child that was added; " +
			"place: each wiring option that takes children puts every one of them, once, into the namespace it names or defines; " +
			"node: a namespace node is defined under the type its children are added for, is built under the name it was defined with, collects its own children, and ends up in the application or in a further namespace; " +
			"declared: the type a definition declares belongs in the same namespaces as the node its build function builds; " +
			"unique: a unique node that has been built once is not built again.",
		Run:       runC05,
		NotDecide: "Namespaces defined outside the repository; the operations of namespaces themselves (C01).",
	})
}

const nsutilPkg = "blueprint/pkg/coreplugins/namespaceutil"

func runC05(c *core.Ctx) {
	told := map[string]bool{}
	nsHandlers(c, told)
	childrenOps(c, told)
	placeOptions(c, told)
	uniqueness(c, told)
}

// belongs says what each kind of namespace holds: the type of the handler's node and the type its nodes
// must have.
var belongs = map[string]string{
	"plugins/goproc.golangProcessNamespace":            "plugins/golang.Node",
	"plugins/linuxcontainer.Container":                 "plugins/linux.Process",
	"plugins/dockercompose.Deployment":                 "plugins/docker.Container",
	"plugins/kubernetes/kubepod.PodDeployment":         "plugins/docker.Container",
	"plugins/kubernetes.Application":                   "*plugins/kubernetes/kubepod.PodDeployment",
	"plugins/workload.wlgen":                           "*plugins/goproc.Process",
	"plugins/clientpool.ClientPool":                    "plugins/golang.Node",
	"plugins/gotests.gotests":                          "plugins/golang.Node",
	"blueprint/pkg/wiring.applicationNamespaceHandler": "",
}

// handlerMethods are the methods of wiring.NamespaceHandler as declared on t or a type it embeds.
func handlerTypes(c *core.Ctx) []*types.Named {
	n := c.NamedType("blueprint/pkg/wiring", "NamespaceHandler")
	if n == nil {
		return nil
	}
	return implsOf(c, "blueprint/pkg/wiring", "NamespaceHandler", "AddNode")
}

// nodeTypes are the types of IR nodes of the repository, each with its interface.
func nodeTypes(c *core.Ctx) []*types.Named {
	return core.Memo(c, "nodeTypes", func() []*types.Named {
		n := c.NamedType("blueprint/pkg/ir", "IRNode")
		if n == nil {
			return nil
		}
		iface := n.Underlying().(*types.Interface)
		var out []*types.Named
		for _, p := range c.P.Pkgs {
			if p.Types == nil || !strings.HasPrefix(core.Short(p.Types.Path()), "blueprint/") && !strings.HasPrefix(core.Short(p.Types.Path()), "plugins/") {
				continue
			}
			for _, name := range p.Types.Scope().Names() {
				tn, ok := p.Types.Scope().Lookup(name).(*types.TypeName)
				if !ok || tn.IsAlias() || types.IsInterface(tn.Type()) {
					continue
				}
				t, ok := tn.Type().(*types.Named)
				if ok && t.TypeParams().Len() == 0 && types.Implements(types.NewPointer(t), iface) {
					out = append(out, t)
				}
			}
		}
		return out
	})
}

func nsHandlers(c *core.Ctx, told map[string]bool) {
	nodes := nodeTypes(c)
	found := 0
	for _, t := range handlerTypes(c) {
		name := core.TypeName(t)
		want, known := belongs[name]
		if known {
			found++
		}
		var fields []string
		for _, m := range []string{"AddNode", "AddEdge"} {
			fn := ownMethod(c, t, m)
			if fn == nil {
				c.Fail("undecided", name+"."+m, token.NoPos, "the namespace has no %s of its own", m)
				continue
			}
			e := kernelEngine(c, core.PkgOf(fn))
			st := globals(c, core.PkgOf(fn))
			args := opaque(fn, st)
			kept := ""
			for _, p := range e.Run(fn, args, st) {
				bad := reporterFor(c, told, fn, p)
				c.Ok("keep", core.Name(fn))
				if p.How != "return" {
					bad("keep", "a path ends with a %s", p.How)
					continue
				}
				if p.St.NilFact(p.Ret[0]) == -1 {
					continue
				}
				if m == "AddEdge" && known && strings.HasPrefix(want, "*plugins/goproc.") {
					continue // a workload generator has the one process and nothing else
				}
				n := 0
				for _, ev := range p.St.Trace {
					if ev.Kind != "store" || len(ev.Args) != 1 {
						continue
					}
					v := flow.Strip(ev.Args[0])
					to := ev.Recv
					if a, ok := v.(*flow.App); ok && a.Op == "append" && len(a.Args) == 2 && sameVal(a.Args[1], args[2]) && to != nil && flow.Strip(a.Args[0]).Key() == "load("+to.Key()+")" {
						n++
						kept = to.Key()
						continue
					}
					if a, ok := v.(*flow.App); ok && strings.HasPrefix(a.Op, "as:") && sameVal(a.Args[0], args[2]) {
						n++ // the one node
						kept = to.Key()
						continue
					}
					if to != nil && strings.HasPrefix(to.Key(), "&*") && (sameVal(ev.Args[0], args[2]) || flow.Mentions(v, "p2")) {
						bad("keep", "what was kept before is lost, or the node is not kept as it is")
					}
				}
				if n == 0 {
					bad("keep", "the node is accepted but not kept")
				} else if n > 1 {
					bad("keep", "the node is kept twice")
				}
			}
			if e.Over {
				c.Fail("undecided", core.Name(fn), fn.Pos(), "the function cannot be followed")
			}
			if kept != "" {
				fields = append(fields, kept)
			}
		}
		if len(fields) == 2 && fields[0] == fields[1] {
			c.Fail("keep", name, t.Obj().Pos(), "nodes and edges of the namespace are kept in the same list")
		}
		acc := ownMethod(c, t, "Accepts")
		if acc == nil {
			c.Fail("undecided", name+".Accepts", token.NoPos, "the namespace has no Accepts of its own")
			continue
		}
		if !known {
			continue
		}
		iface, ptr := wantedType(c, want)
		if want != "" && iface == nil {
			c.Fail("undecided", want, token.NoPos, "the type is not declared")
			continue
		}
		for _, nt := range nodes {
			pt := types.NewPointer(nt)
			should := want == "" || ptr && types.Identical(pt, iface) || !ptr && types.Implements(pt, iface.Underlying().(*types.Interface))
			e := kernelEngine(c, core.PkgOf(acc))
			st := globals(c, core.PkgOf(acc))
			args := opaque(acc, st)
			a := st.New(nt)
			args[1] = &flow.Iface{T: pt, V: a}
			c.Ok("accepts", name)
			var can, must bool = false, true
			for _, p := range e.Run(acc, args, st) {
				bad := reporterFor(c, told, acc, p)
				if p.How != "return" {
					bad("accepts", "a path ends with a %s", p.How)
					continue
				}
				r := flow.Strip(p.Ret[0])
				switch b := constBool(r, p); b {
				case 1:
					can = true
				case -1:
					must = false
				default:
					can, must = true, false
				}
				if e.Over {
					c.Fail("undecided", core.Name(acc), acc.Pos(), "the function cannot be followed")
				}
			}
			who := core.TypeName(nt)
			switch {
			case should && !can:
				c.Fail("accepts", core.Name(acc), acc.Pos(), "nodes of type %s belong in the namespace and are not accepted", who)
			case should && !must && want != "*plugins/goproc.Process":
				c.Fail("accepts", core.Name(acc), acc.Pos(), "nodes of type %s belong in the namespace and are not always accepted", who)
			case !should && can:
				c.Fail("accepts", core.Name(acc), acc.Pos(), "nodes of type %s do not belong in the namespace and are accepted", who)
			}
		}
	}
	c.Count("namespaces", found)
	c.Count("node types", len(nodes))
	if found < len(belongs) {
		c.Fail("undecided", "plugins", token.NoPos, "only %d of the %d kinds of namespace were found", found, len(belongs))
	}
}

func constBool(v flow.Val, p *flow.Path) int {
	if k, ok := v.(flow.Const); ok && k.V.Kind() == constant.Bool {
		if constant.BoolVal(k.V) {
			return 1
		}
		return -1
	}
	return p.St.Bool(v)
}

func wantedType(c *core.Ctx, want string) (t types.Type, ptr bool) {
	if want == "" {
		return nil, false
	}
	w, ptr := strings.CutPrefix(want, "*")
	i := strings.LastIndex(w, ".")
	n := c.NamedType(w[:i], w[i+1:])
	if n == nil {
		return nil, ptr
	}
	if ptr {
		return types.NewPointer(n), true
	}
	return n, false
}

// childrenOps decides the two halves of adding children to namespaces.
func childrenOps(c *core.Ctx, told map[string]bool) {
	key := "" // of the property that lists the children of a namespace
	add, inst := c.Func(nsutilPkg, "AddNodeTo"), c.Func(nsutilPkg, "InstantiateNamespace")
	if add == nil || inst == nil {
		c.Fail("undecided", nsutilPkg, token.NoPos, "AddNodeTo or InstantiateNamespace is not declared")
		return
	}
	if o := add.Origin(); o != nil {
		add = o
	}
	follow := func(fn *ssa.Function) ([]flow.Val, []*flow.Path) {
		e := kernelEngine(c, nsutilPkg)
		pureStrings(e)
		st := globals(c, nsutilPkg)
		args := opaque(fn, st)
		ps := e.Run(fn, args, st)
		if e.Over || len(ps) == 0 {
			c.Fail("undecided", core.Name(fn), fn.Pos(), "the function cannot be followed")
		}
		return args, ps
	}
	args, paths := follow(inst)
	for _, p := range paths {
		bad := reporterFor(c, told, inst, p)
		c.Ok("instantiate", core.Name(inst))
		if p.How != "return" {
			bad("instantiate", "a path ends with a %s", p.How)
			continue
		}
		var derive, deferred *flow.Event
		var name flow.Val
		for _, ev := range p.St.Trace {
			switch {
			case ev.Kind == "call" && ev.Method == "Name" && ev.Recv != nil && sameVal(ev.Recv, args[1]):
				name = flow.Strip(ev.Res)
			case onNS(ev, "DeriveNamespace"):
				derive = ev
			case onNS(ev, "Defer"):
				deferred = ev
			case onNS(ev, "Get"), onNS(ev, "Instantiate"):
				bad("instantiate", "children are obtained before the namespace's node exists")
			}
		}
		if derive == nil || !sameVal(derive.Recv, args[0]) || len(derive.Args) != 2 || !sameVal(derive.Args[1], args[1]) || !(name != nil && sameVal(derive.Args[0], name)) && !nameOf(derive.Args[0], args[1]) {
			bad("instantiate", "the namespace does not derive from its parent with its own node and name")
			continue
		}
		ns, err := outcome(derive)
		if err != nil && p.St.NilFact(err) == -1 {
			continue
		}
		if !sameVal(p.Ret[0], ns) {
			bad("instantiate", "the derived namespace is not returned")
		}
		if deferred == nil || !sameVal(deferred.Recv, ns) || len(deferred.Args) < 1 {
			bad("instantiate", "the children of the namespace are not instantiated")
			continue
		}
		b, ok := flow.Strip(deferred.Args[0]).(*flow.Func)
		if !ok {
			bad("instantiate", "what is deferred cannot be followed")
			continue
		}
		e := kernelEngine(c, nsutilPkg)
		n0 := 0
		most := 0
		for _, q := range e.RunFunc(b, nil, p.St.Fork()) {
			bad := reporterFor(c, told, inst, q)
			c.Ok("instantiate", "children")
			if q.How == "panic" {
				bad("instantiate", "instantiating the children panics")
				continue
			}
			var names flow.Val
			var nsName flow.Val
			got := map[string]bool{}
			failed := false
			for _, ev := range q.St.Trace[n0:] {
				switch {
				case onNS(ev, "Name") && sameVal(ev.Recv, ns):
					nsName = flow.Strip(ev.Res)
				case onNS(ev, "GetProperties") && len(ev.Args) == 3:
					if !(nsName != nil && sameVal(ev.Args[0], nsName) || sameVal(ev.Args[0], derive.Args[0])) || !sameVal(ev.Recv, ns) {
						bad("instantiate", "the children of another namespace are looked up")
					}
					key = flow.Strip(ev.Args[1]).Key()
					if len(ev.Outs) > 0 {
						names = flow.Strip(ev.Outs[0])
					}
					if r := results(ev.Res); len(r) == 1 && q.St.NilFact(r[0]) == -1 {
						failed = true
					}
				case onNS(ev, "Get") || onNS(ev, "Instantiate"):
					if !sameVal(ev.Recv, ns) {
						bad("instantiate", "children are obtained in another namespace")
					}
					got[flow.Strip(ev.Args[0]).Key()] = true
					if r := results(ev.Res); len(r) == 1 && q.St.NilFact(r[0]) == -1 {
						failed = true
					}
				}
			}
			if names == nil {
				bad("instantiate", "the children of the namespace are not looked up")
				continue
			}
			if failed {
				if q.How == "return" && q.St.NilFact(q.Ret[0]) != -1 {
					bad("instantiate", "a child that cannot be instantiated is passed over")
				}
				continue
			}
			n, exact := inBounds(q, names)
			if !exact && q.How == "return" {
				bad("instantiate", "some children are not instantiated")
			}
			for i := 0; i < n; i++ {
				if !got["load(&*"+names.Key()+"["+itoa(i)+"])"] {
					bad("instantiate", "some children are not instantiated")
				}
			}
			if n > most {
				most = n
			}
		}
		if most < 2 {
			bad("instantiate", "not every child is instantiated")
		}
	}
	args, paths = follow(add)
	for _, p := range paths {
		bad := reporterFor(c, told, add, p)
		c.Ok("add", core.Name(add))
		if p.How != "return" {
			bad("add", "a path ends with a %s", p.How)
			continue
		}
		var ptr, next, mod flow.Val
		var def *flow.Event
		var kids []flow.Val
		for _, ev := range p.St.Trace {
			if ev.Kind != "call" {
				continue
			}
			switch {
			case strings.HasSuffix(ev.Name, ".GetPointer") && len(ev.Args) == 2 && sameVal(ev.Args[1], args[2]):
				ptr = flow.Strip(results(ev.Res)[0])
			case ev.Method == "AddDstModifier" && len(ev.Args) >= 2 && ptr != nil && sameVal(ev.Recv, ptr):
				mod, next = flow.Strip(ev.Args[1]), flow.Strip(results(ev.Res)[0])
				if !falseField(ev.Args[2:], "IsInterfaceNode") {
					bad("add", "clients of the child reach into its namespace")
				}
			case ev.Method == "AddSrcModifier" || ev.Method == "AddAddrModifier":
				bad("add", "the client side of the child is changed")
			case ev.Invoke && ev.Method == "Define":
				def = ev
			case ev.Invoke && (ev.Method == "AddProperty" || ev.Method == "SetProperty") && len(ev.Args) == 3:
				if !sameVal(ev.Args[0], args[1]) || flow.Strip(ev.Args[1]).Key() != key || ev.Method != "AddProperty" {
					bad("add", "another property than the namespace's children is changed")
				} else {
					kids = append(kids, flow.Strip(ev.Args[2]))
				}
			}
		}
		if ptr == nil {
			bad("add", "whether the child is a pointer is not looked at")
			continue
		}
		if len(kids) != 1 {
			bad("add", "the namespace gets %d children instead of one", len(kids))
			continue
		}
		if p.St.NilFact(ptr) == 1 {
			if !sameVal(kids[0], args[2]) || def != nil {
				bad("add", "the namespace does not get the child itself")
			}
			continue
		}
		if next == nil || def == nil {
			bad("add", "the pointer does not enter the namespace")
			continue
		}
		if !sameVal(kids[0], next) {
			bad("add", "the namespace does not instantiate the pointer's server side")
		}
		if !sameVal(def.Args[0], mod) || !flow.Mentions(mod, "p1") || !flow.Mentions(mod, "p2") {
			bad("add", "the wrapper that enters the namespace has no definition under its own name")
		}
		a, ok := flow.Strip(def.Args[1]).(*flow.Addr)
		if tp, isTP := types.Type(nil), false; ok {
			tp, isTP = core.Deref(a.T), false
			_, isTP = tp.(*types.TypeParam)
			ok = isTP
		}
		if !ok {
			bad("add", "the wrapper is not built where the namespace is built")
		}
		if !trueField(def.Args[3:], "ProxyNode") {
			bad("add", "the wrapper is not declared to stand for another node")
		}
		b, ok := flow.Strip(def.Args[2]).(*flow.Func)
		if !ok {
			bad("add", "the build function cannot be followed")
			continue
		}
		e := kernelEngine(c, nsutilPkg)
		st := p.St.Fork()
		ns := &flow.Sym{ID: "ns", T: b.Fn.Params[0].Type()}
		st.Assume(ns, false)
		n0 := 0
		for _, q := range e.RunFunc(b, []flow.Val{ns}, st) {
			bad := reporterFor(c, told, add, q)
			c.Ok("add", "wrapper")
			if q.How != "return" {
				bad("add", "the build function ends with a %s", q.How)
				continue
			}
			if q.St.NilFact(q.Ret[1]) == -1 {
				continue
			}
			var node, inner, got flow.Val
			for _, ev := range q.St.Trace[n0:] {
				switch {
				case onNS(ev, "Get") || onNS(ev, "Instantiate"):
					n, err := outcome(ev)
					if err != nil && q.St.NilFact(err) == -1 {
						bad("add", "a failure is not returned")
					}
					switch {
					case sameVal(ev.Recv, ns) && sameVal(ev.Args[0], args[1]):
						node = n
					case inner != nil && sameVal(ev.Recv, inner) && sameVal(ev.Args[0], next):
						got = n
					default:
						bad("add", "something else than the namespace and the rest of the pointer is obtained, or in another namespace")
					}
				case onNS(ev, "GetNamespace"):
					if node == nil || !nameIs(q, n0, ev.Args[0], node) || !sameVal(ev.Recv, ns) {
						bad("add", "another namespace is entered")
					}
					inner = flow.Strip(results(ev.Res)[0])
				}
			}
			if got == nil || !sameVal(q.Ret[0], got) {
				bad("add", "the rest of the pointer is not built inside the namespace")
			}
		}
	}
	return
}

// nameIs: v is what node.Name() gave on this path.
func nameIs(p *flow.Path, n0 int, v, node flow.Val) bool {
	if nameOf(v, node) {
		return true
	}
	for _, ev := range p.St.Trace[n0:] {
		if ev.Kind == "call" && ev.Method == "Name" && ev.Recv != nil && sameVal(ev.Recv, node) && sameVal(ev.Res, v) {
			return true
		}
	}
	return false
}

// inBounds counts the elements of a list that the path knows to exist, and whether it knows that there
// are no more.
func inBounds(p *flow.Path, list flow.Val) (n int, exact bool) {
	want := "len(" + flow.Strip(list).Key() + ")"
	for _, cd := range p.St.Conds {
		a, ok := cd.V.(*flow.App)
		if !ok || a.Op != "<" || len(a.Args) != 2 || a.Args[1].Key() != want {
			continue
		}
		k, ok := a.Args[0].(flow.Const)
		if !ok {
			continue
		}
		i, _ := constant.Int64Val(k.V)
		if cd.B && int(i)+1 > n {
			n = int(i) + 1
		}
		if !cd.B {
			exact = true
		}
	}
	return
}

func structField(vs []flow.Val, name string) flow.Val {
	for _, v := range vs {
		if s, ok := flow.Strip(v).(*flow.Struct); ok {
			if f, ok := s.F[name]; ok {
				return flow.Strip(f)
			}
			return flow.Const{V: constant.MakeBool(false)}
		}
	}
	return nil
}

func falseField(vs []flow.Val, name string) bool {
	v, ok := structField(vs, name).(flow.Const)
	return ok && v.V.Kind() == constant.Bool && !constant.BoolVal(v.V)
}

func trueField(vs []flow.Val, name string) bool {
	v, ok := structField(vs, name).(flow.Const)
	return ok && v.V.Kind() == constant.Bool && constant.BoolVal(v.V)
}

// placing lists the wiring options that put things into namespaces: the parameter that names the children
// and the namespace they end up in (parameter number, or -1 for what the option returns).
var placing = []struct {
	fn        string
	child, ns int
}{
	{"plugins/goproc.AddToProcess", 2, 1},
	{"plugins/goproc.Deploy", 1, -1},
	{"plugins/goproc.CreateProcess", 2, -1},
	{"plugins/goproc.CreateClientProcess", 2, -1},
	{"plugins/linuxcontainer.AddToContainer", 2, 1},
	{"plugins/linuxcontainer.Deploy", 1, -1},
	{"plugins/linuxcontainer.CreateContainer", 2, -1},
	{"plugins/dockercompose.AddContainerToDeployment", 2, 1},
	{"plugins/dockercompose.NewDeployment", 2, -1},
	{"plugins/kubernetes/kubepod.AddContainerToPod", 2, 1},
	{"plugins/kubernetes/kubepod.NewKubePod", 3, -1},
	{"plugins/kubernetes.AddContainerToApplication", 3, 1},
	{"plugins/kubernetes.AddPodToApplication", 4, 1},
	{"plugins/kubernetes.NewApplication", 3, -1},
	{"plugins/gotests.Test", 1, -1},
	{"plugins/workload.Generator", 0, -1}, // the service it defines
}

// nsDef is a definition whose build function derives a namespace.
type nsDef struct {
	name     flow.Val
	node     types.Type
	children bool            // it instantiates the children that were added to it
	direct   map[string]bool // names it obtains inside the namespace
	spread   map[string]bool // lists all of whose names it obtains inside the namespace
}

func placeOptions(c *core.Ctx, told map[string]bool) {
	fns := map[string]*wiringFn{}
	defs := map[*flow.Path][]*nsDef{}
	byPkg := map[string][]*nsDef{}
	for _, w := range wiringFns(c) {
		fns[w.Name] = w
		for _, d := range w.Defs {
			declared(c, told, d)
			if nd := namespaceDef(c, told, w, d); nd != nil {
				defs[d.Outer] = append(defs[d.Outer], nd)
				byPkg[core.PkgOf(d.Builder.Fn)] = append(byPkg[core.PkgOf(d.Builder.Fn)], nd)
			}
		}
	}
	n := 0
	for _, s := range placing {
		w := fns[s.fn]
		if w == nil {
			c.Fail("undecided", s.fn, token.NoPos, "the wiring option is not declared")
			continue
		}
		if w.Over {
			c.Fail("undecided", s.fn, w.Fn.Pos(), "the function cannot be followed")
		}
		most := 0
		variadic := false
		for _, p := range w.Paths {
			bad := reporterFor(c, told, w.Fn, p)
			c.Ok("place", s.fn)
			n++
			if p.How == "panic" {
				bad("place", "the option panics")
				continue
			}
			type placement struct {
				child, ns flow.Val
				ev        *flow.Event
			}
			var pl []placement
			ds := defs[p]
			if p.How != "return" {
				for _, q := range w.Paths {
					if len(ds) == 0 {
						ds = defs[q]
					}
				}
			}
			for _, ev := range p.St.Trace {
				if ev.Kind != "call" {
					continue
				}
				if strings.Contains(ev.Name, "namespaceutil.AddNodeTo") && len(ev.Args) == 3 {
					pl = append(pl, placement{flow.Strip(ev.Args[2]), flow.Strip(ev.Args[1]), ev})
				}
				if ev.Invoke && ev.Method == "AddProperty" && len(ev.Args) == 3 {
					for _, d := range ds {
						if d.spread[flow.Strip(ev.Args[0]).Key()+"/"+flow.Strip(ev.Args[1]).Key()] {
							pl = append(pl, placement{flow.Strip(ev.Args[2]), d.name, nil})
						}
					}
				}
			}
			for _, d := range defs[p] {
				for k := range d.direct {
					pl = append(pl, placement{&flow.Sym{ID: k}, d.name, nil})
				}
			}
			// the types children are added for
			for _, x := range pl {
				if x.ev == nil || x.ev.Call == nil {
					continue
				}
				f := x.ev.Call.Common().StaticCallee()
				if f == nil || len(f.TypeArgs()) != 1 {
					bad("undecided", "the kind of namespace cannot be made out")
					continue
				}
				okT, known := false, false
				for _, d := range defs[p] {
					if sameVal(d.name, x.ns) {
						known = true
						okT = types.Identical(f.TypeArgs()[0], d.node) && d.children
					}
				}
				if !known {
					if s.ns < 0 || !sameVal(x.ns, &flow.Sym{ID: "p" + itoa(s.ns)}) {
						if p.How == "return" {
							bad("place", "a child is put into a namespace that is neither defined here nor the one that was named")
						}
						continue
					}
					for _, d := range byPkg[core.PkgOf(w.Fn)] {
						okT = okT || types.Identical(f.TypeArgs()[0], d.node) && d.children
					}
				}
				if !okT && (known || p.How == "return") {
					bad("node", "the child is added for another kind of namespace than the one it is put in")
				}
			}
			// where a name ends up
			var ends func(v flow.Val, depth int) bool
			ends = func(v flow.Val, depth int) bool {
				if s.ns >= 0 && sameVal(v, &flow.Sym{ID: "p" + itoa(s.ns)}) || s.ns < 0 && p.How == "return" && len(p.Ret) == 1 && sameVal(v, p.Ret[0]) {
					return true
				}
				for _, x := range pl {
					if depth < 4 && sameVal(x.child, v) && ends(x.ns, depth+1) {
						return true
					}
				}
				return false
			}
			placed := func(v flow.Val) (times int, right bool) {
				for _, x := range pl {
					if sameVal(x.child, v) {
						times++
						right = right || ends(x.ns, 0)
					}
				}
				return
			}
			if p.How == "return" {
				for _, d := range defs[p] {
					if !ends(d.name, 0) {
						bad("node", "a namespace is defined and belongs nowhere")
					}
				}
			}
			if s.child == 0 {
				ok := false
				for _, x := range pl {
					for _, ev := range p.St.Trace {
						i := -1
						if ev.Kind == "call" && ev.Method == "Define" {
							i = 0
						} else if ev.Kind == "call" && strings.HasSuffix(ev.Name, "pointer.CreatePointer") {
							i = 1
						}
						if i >= 0 && len(ev.Args) > i && sameVal(ev.Args[i], x.child) && ends(x.ns, 0) && x.ev != nil {
							ok = true
						}
					}
				}
				if !ok && p.How == "return" {
					bad("place", "the service that is defined is put nowhere")
				}
				most, variadic = 2, true
				continue
			}
			child := &flow.Sym{ID: "p" + itoa(s.child)}
			if !w.Fn.Signature.Variadic() || s.child != len(w.Fn.Params)-1 {
				if p.How != "return" {
					continue
				}
				if n, right := placed(child); n == 0 {
					bad("place", "the child is put nowhere")
				} else if !right {
					bad("place", "the child is put elsewhere")
				} else if n > 1 {
					bad("place", "the child is put there more than once")
				}
				continue
			}
			variadic = true
			k, exact := inBounds(p, child)
			spread := false
			for _, d := range defs[p] {
				spread = spread || d.spread[child.Key()]
			}
			if spread {
				k = 2
			}
			if !spread && !exact && p.How == "return" {
				bad("place", "some children are put nowhere")
			}
			for i := 0; i < k && !spread; i++ {
				if n, right := placed(&flow.Sym{ID: "load(&*" + child.Key() + "[" + itoa(i) + "])"}); n == 0 {
					bad("place", "some children are put nowhere")
				} else if !right && p.How == "return" {
					bad("place", "some children are put elsewhere")
				} else if n > 1 {
					bad("place", "some children are put there more than once")
				}
			}
			if k > most {
				most = k
			}
		}
		if variadic && most < 2 {
			c.Fail("place", s.fn, w.Fn.Pos(), "not all children are put into the namespace")
		}
	}
	c.Count("option paths", n)
}

// namespaceDef looks at a definition whose build function derives a namespace.
func namespaceDef(c *core.Ctx, told map[string]bool, w *wiringFn, d *wiringDef) *nsDef {
	fn := d.Builder.Fn
	pkg := core.PkgOf(fn)
	is := false
	for _, p := range d.Paths {
		for _, ev := range p.St.Trace {
			is = is || strings.HasSuffix(ev.Name, "namespaceutil.InstantiateNamespace") || onNS(ev, "DeriveNamespace")
		}
	}
	if !is {
		return nil
	}
	nd := &nsDef{name: flow.Strip(d.Def.Args[0]), direct: map[string]bool{}, spread: map[string]bool{}, children: true}
	if t := declaredType(d); t != nil {
		nd.node = core.Deref(t)
	}
	// with the constructors of nodes followed
	e := wiringEngine(c, pkg)
	inl := e.Inline
	e.Inline = func(f *ssa.Function) bool { return inl(f) || core.PkgOf(f) == pkg }
	e.NoHavoc = func(t types.Type) bool {
		return strings.HasPrefix(core.TypeName(t), "plugins/") && !types.IsInterface(t)
	}
	st := d.Outer.St.Fork()
	ns := &flow.Sym{ID: "ns", T: fn.Params[0].Type()}
	st.Assume(ns, false)
	n0 := 0
	firstPath := true
	for _, p := range e.RunFunc(d.Builder, []flow.Val{ns}, st) {
		bad := reporterFor(c, told, fn, p)
		c.Ok("node", core.Name(fn))
		if p.How == "panic" {
			bad("node", "the build function panics")
			continue
		}
		if p.How != "return" || p.St.NilFact(p.Ret[1]) == -1 {
			continue
		}
		var inner flow.Val
		lists := map[string]flow.Val{}
		got := map[string]bool{}
		for _, ev := range p.St.Trace[n0:] {
			inst := strings.HasSuffix(ev.Name, "namespaceutil.InstantiateNamespace")
			switch {
			case inst || onNS(ev, "DeriveNamespace"):
				if inner != nil {
					bad("node", "two namespaces are derived")
				}
				h := flow.Strip(ev.Args[1])
				parent := ev.Recv
				if inst {
					parent = ev.Args[0]
				} else {
					nd.children = false
					if !sameVal(ev.Args[0], nd.name) {
						bad("node", "the namespace has another name than its node")
					}
				}
				if !sameVal(parent, ns) {
					bad("node", "the namespace does not derive from where its node is built")
				}
				if !handles(p, h, p.Ret[0]) {
					bad("node", "the namespace collects the nodes of another node than the one returned")
				}
				inner = flow.Strip(results(ev.Res)[0])
			case onNS(ev, "GetProperties") && len(ev.Outs) > 0 || ev.Kind == "call" && ev.Invoke && ev.Method == "GetProperties" && len(ev.Outs) > 0:
				lists[flow.Strip(ev.Args[0]).Key()+"/"+flow.Strip(ev.Args[1]).Key()] = flow.Strip(ev.Outs[0])
			case (onNS(ev, "Get") || onNS(ev, "Instantiate")) && inner != nil && sameVal(ev.Recv, inner):
				got[flow.Strip(ev.Args[0]).Key()] = true
			}
		}
		if inner == nil {
			bad("node", "a node is built without its namespace")
			continue
		}
		if v := nodeName(c, e, p, p.Ret[0]); v == nil || !sameVal(v, nd.name) {
			bad("node", "the node is built under another name than it is defined with")
		}
		// captured lists of names
		for i := range w.Fn.Params {
			lists["p"+itoa(i)] = &flow.Sym{ID: "p" + itoa(i)}
		}
		for k, l := range lists {
			n, _ := inBounds(&flow.Path{St: p.St}, l)
			m := n
			if n0b, _ := inBounds(d.Outer, l); n0b > 0 && len(p.St.Conds) == len(d.Outer.St.Conds) {
				continue
			}
			all := m > 0
			for i := 0; i < m; i++ {
				all = all && got["load(&*"+l.Key()+"["+itoa(i)+"])"]
			}
			if all {
				nd.spread[k] = true
			} else if m > 0 {
				nd.spread["!"+k] = true
			}
		}
		if firstPath {
			for k := range got {
				nd.direct[k] = true
			}
		}
		for k := range nd.direct {
			if !got[k] {
				delete(nd.direct, k)
			}
		}
		firstPath = false
	}
	for k := range nd.spread {
		if nd.spread["!"+k] {
			delete(nd.spread, k)
		}
	}
	return nd
}

// handles: the handler is the node or has it embedded.
func handles(p *flow.Path, h, node flow.Val) bool {
	if sameVal(h, node) {
		return true
	}
	a, ok := h.(*flow.Addr)
	if !ok {
		return false
	}
	st, ok := core.Deref(a.T).Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if f.Embedded() && sameVal(p.St.Load(&flow.Addr{Base: a.Base + "." + f.Name(), T: f.Type(), Alloc: a.Alloc}), node) {
			return true
		}
	}
	return false
}

// nodeName runs the node's Name method.
func nodeName(c *core.Ctx, e *flow.Engine, p *flow.Path, node flow.Val) flow.Val {
	t := dynType(node)
	if t == nil {
		return nil
	}
	sel := types.NewMethodSet(t).Lookup(nil, "Name")
	if sel == nil {
		return nil
	}
	fn := c.P.SSA.MethodValue(sel)
	if fn == nil {
		return nil
	}
	ps := e.Run(fn, []flow.Val{flow.Strip(node)}, p.St.Fork())
	if len(ps) != 1 || ps[0].How != "return" || len(ps[0].Ret) != 1 {
		return nil
	}
	return flow.Strip(ps[0].Ret[0])
}

// dynType is the type of the value behind interfaces.
func dynType(v flow.Val) types.Type {
	if i, ok := v.(*flow.Iface); ok {
		if i.T != nil {
			return i.T
		}
		v = i.V
	}
	v = flow.Strip(v)
	if a, ok := v.(*flow.Addr); ok {
		return types.NewPointer(a.T)
	}
	return flow.TypeOf(v)
}

func declaredType(d *wiringDef) types.Type { return dynType(d.Def.Args[1]) }

// declared: the build function builds nodes of the declared type.
func declared(c *core.Ctx, told map[string]bool, d *wiringDef) {
	want := declaredType(d)
	if want == nil || types.IsInterface(want) {
		return
	}
	for _, p := range d.Paths {
		if p.How != "return" || len(p.Ret) != 2 || p.St.NilFact(p.Ret[1]) == -1 {
			continue
		}
		got := dynType(p.Ret[0])
		c.Ok("declared", d.W.Name)
		if got == nil || types.IsInterface(got) {
			continue
		}
		if different(c, got, want) {
			reporterFor(c, told, d.W.Fn, p)("declared", "a node declared as %s is built as %s", core.TypeName(core.Deref(want)), core.TypeName(core.Deref(got)))
		}
	}
}

// different: some kind of namespace holds nodes of the one type and not of the other.
func different(c *core.Ctx, a, b types.Type) bool {
	for _, w := range belongs {
		t, ptr := wantedType(c, w)
		if t == nil {
			continue
		}
		in := func(x types.Type) bool {
			if ptr {
				return types.Identical(x, t)
			}
			return types.Implements(x, t.Underlying().(*types.Interface))
		}
		if in(a) != in(b) {
			return true
		}
	}
	return false
}

// uniqueness decides the operation that makes nodes unique.
func uniqueness(c *core.Ctx, told map[string]bool) {
	fn := c.Func(ptrPkg, "RequireUniqueness")
	if fn == nil {
		c.Fail("undecided", ptrPkg+".RequireUniqueness", token.NoPos, "it is not declared")
		return
	}
	e := kernelEngine(c, ptrPkg)
	st := globals(c, ptrPkg)
	args := opaque(fn, st)
	done := 0
	for _, p := range e.Run(fn, args, st) {
		bad := reporterFor(c, told, fn, p)
		c.Ok("unique", core.Name(fn))
		if p.How != "return" {
			bad("unique", "a path ends with a %s", p.How)
			continue
		}
		reported := false
		var name flow.Val
		var defs []*flow.Event
		for _, ev := range p.St.Trace {
			if ev.Kind != "call" {
				continue
			}
			switch ev.Method {
			case "AddError":
				reported = true
			case "GetAlias":
				if len(ev.Args) == 1 && sameVal(ev.Args[0], args[1]) {
					name = flow.Strip(results(ev.Res)[0])
				}
			case "Define":
				defs = append(defs, ev)
			}
		}
		if reported {
			continue
		}
		_, to := aliases(p)
		check := to[args[1].Key()]
		if check == nil || name == nil {
			bad("unique", "the name still leads straight to the node")
			continue
		}
		var builder *flow.Func
		metas := map[string]*flow.Func{}
		scope := map[string]bool{}
		for _, ev := range defs {
			b, ok := flow.Strip(ev.Args[2]).(*flow.Func)
			if !ok {
				bad("unique", "a build function cannot be followed")
				continue
			}
			if sameVal(ev.Args[0], check) {
				builder = b
				if !strings.Contains(flow.Strip(ev.Args[1]).Key(), "NodeType") {
					bad("unique", "the check is built elsewhere than the node")
				}
			} else {
				metas[flow.Strip(ev.Args[0]).Key()] = b
				scope[flow.Strip(ev.Args[0]).Key()] = sameVal(ev.Args[1], args[2])
				if !flow.Mentions(flow.Strip(ev.Args[0]), name.Key()) {
					bad("unique", "what is remembered is not remembered for this node")
				}
			}
		}
		if builder == nil {
			bad("unique", "the name leads to nothing")
			continue
		}
		if sameVal(check, name) {
			bad("unique", "the check takes the place of the node")
		}
		be := kernelEngine(c, ptrPkg)
		ns := &flow.Sym{ID: "ns", T: builder.Fn.Params[0].Type()}
		s := p.St.Fork()
		s.Assume(ns, false)
		n0 := 0
		refused, granted := false, false
		for _, q := range be.RunFunc(builder, []flow.Val{ns}, s) {
			bad := reporterFor(c, told, fn, q)
			c.Ok("unique", "check")
			if q.How != "return" {
				bad("unique", "the check ends with a %s", q.How)
				continue
			}
			failed := q.St.NilFact(q.Ret[1]) == -1
			var md flow.Val
			var got *flow.Event
			getErr := false
			for _, ev := range q.St.Trace[n0:] {
				if !onNS(ev, "Get") && !onNS(ev, "Instantiate") {
					continue
				}
				if !sameVal(ev.Recv, ns) {
					bad("unique", "another namespace is asked")
				}
				k := flow.Strip(ev.Args[0])
				_, err := outcome(ev)
				if err == nil {
					err = flow.Strip(results(ev.Res)[0])
				}
				switch {
				case metas[k.Key()] != nil:
					if !scope[k.Key()] {
						bad("unique", "what is remembered is not remembered in the scope that was asked for")
					}
					if len(ev.Outs) > 0 {
						md = flow.Strip(ev.Outs[0])
					}
					getErr = getErr || q.St.NilFact(err) == -1
				case sameVal(k, name):
					got = ev
				default:
					bad("unique", "something else than the node is obtained")
				}
			}
			if md == nil && !getErr {
				bad("unique", "whether the node has been built is not looked at")
				continue
			}
			if getErr {
				if !failed {
					bad("unique", "a failure is not returned")
				}
				continue
			}
			// what is known about the node that was built before
			before := 0
			for k := range factsAbout(q, md) {
				if v := q.St.NilFact(&flow.Sym{ID: k}); v != 0 {
					before = v
				}
			}
			switch {
			case before == -1:
				refused = true
				if !failed || got != nil {
					bad("unique", "a node that has been built is built again")
				}
			case before == 1:
				if got == nil {
					if !failed {
						bad("unique", "the node is not built")
					}
					continue
				}
				if failed {
					continue
				}
				granted = true
				// remembered: some field of the record holds the node that was built
				kept := false
				if t, ok := core.Deref(flow.TypeOf(md)).Underlying().(*types.Struct); ok {
					for i := 0; i < t.NumFields(); i++ {
						f := t.Field(i)
						if sameVal(q.St.Load(&flow.Addr{Base: "*" + md.Key() + "." + f.Name(), T: f.Type()}), q.Ret[0]) && factsAbout(q, md)["load(&*"+md.Key()+"."+f.Name()+")"] {
							kept = true
						}
					}
				}
				if !kept {
					bad("unique", "that the node has been built is not remembered")
				}
				n, _ := outcome(got)
				if n == nil && len(got.Outs) > 0 {
					n = got.Outs[0]
				}
				if n != nil && !sameVal(n, q.Ret[0]) {
					bad("unique", "another node is returned")
				}
			default:
				bad("unique", "whether the node has been built is not looked at")
			}
		}
		if !refused || !granted {
			bad("unique", "the node is always or never refused")
		}
		for k, b := range metas {
			me := kernelEngine(c, ptrPkg)
			for _, q := range me.RunFunc(b, []flow.Val{ns}, p.St.Fork()) {
				if q.How != "return" || q.St.NilFact(q.Ret[1]) == -1 {
					bad("unique", "what is remembered cannot be built")
					continue
				}
				a, ok := flow.Strip(q.Ret[0]).(*flow.Addr)
				if !ok || !a.Alloc {
					bad("unique", "what is remembered is not new")
					continue
				}
				t, _ := core.Deref(a.T).Underlying().(*types.Struct)
				for i := 0; t != nil && i < t.NumFields(); i++ {
					f := t.Field(i)
					if core.TypeName(f.Type()) == "blueprint/pkg/ir.IRNode" && q.St.NilFact(q.St.Load(&flow.Addr{Base: a.Base + "." + f.Name(), T: f.Type(), Alloc: true})) != 1 {
						bad("unique", "a node counts as built before it is")
					}
				}
				_ = k
			}
		}
		done++
	}
	if done == 0 {
		c.Fail("unique", core.Name(fn), fn.Pos(), "uniqueness cannot be demanded of anything")
	}
}

// factsAbout are the fields of a record whose nil-ness the path has looked at.
func factsAbout(p *flow.Path, md flow.Val) map[string]bool {
	out := map[string]bool{}
	if md == nil {
		return out
	}
	t, ok := core.Deref(flow.TypeOf(md)).Underlying().(*types.Struct)
	if !ok {
		return out
	}
	var ks []string
	for i := 0; i < t.NumFields(); i++ {
		if core.TypeName(t.Field(i).Type()) == "blueprint/pkg/ir.IRNode" {
			ks = append(ks, "load(&*"+md.Key()+"."+t.Field(i).Name()+")")
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		if p.St.NilFact(&flow.Sym{ID: k}) != 0 {
			out[k] = true
		}
	}
	return out
}
