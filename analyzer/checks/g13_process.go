package checks

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"path"
	"sort"
	"strconv"
	"strings"

	"verif/analyzer/core"
	"verif/analyzer/emit"
	"verif/analyzer/peval"
)

func init() {
	register(&Check{
		ID: "G13",
		Rules: "The generators of processes and of test client libraries are evaluated for schematic processes: of nodes that record what is asked of them, for every subset of what a node can provide and every point of failure, and of one instance of every node type that is built from code of the runtime or the workflow (one for each function that makes it). " +
			"asked: every node is asked exactly once for everything it provides, with the builder of this process; fails: a node's failure is the failure of the process; defined: the emitted namespace defines every node once, under its name, although a node may be added twice; " +
			"args: its constructor is the one of the implementation that the node asked for, and is given the node's arguments, each in the place of the parameter it is for; required: the namespace requires every argument of the process (a client library: accepts them); built: a process builds every node it contains.",
		Run:       runG13,
		NotDecide: "Nodes that generate code of their own (G01, G02); values with quotes or backslashes.",
	})
}

// nsDecl is what an emitted namespace says about a node.
type nsDecl struct {
	n    int      // how often it is defined
	ctor string   // package path and name of the function that is called
	args []string // node names, or literals
	bad  string
}

type nsFile struct {
	defs               map[string]*nsDecl
	required, optional map[string]int
	built              map[string]int
	pkg                string
	funcs              []string
	err                string
}

// readNamespace reads an emitted namespace.
func readNamespace(src string) *nsFile {
	r := &nsFile{defs: map[string]*nsDecl{}, required: map[string]int{}, optional: map[string]int{}, built: map[string]int{}}
	f, err := parser.ParseFile(token.NewFileSet(), "namespace.go", src, 0)
	if err != nil {
		r.err = err.Error()
		return r
	}
	r.pkg = f.Name.Name
	imports := map[string]string{}
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		n := path.Base(p)
		if im.Name != nil {
			n = im.Name.Name
		}
		imports[n] = p
	}
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Name.IsExported() {
			r.funcs = append(r.funcs, fd.Name.Name)
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		c, ok := n.(*ast.CallExpr)
		if !ok || len(c.Args) == 0 {
			return true
		}
		se, ok := c.Fun.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		lit, ok := c.Args[0].(*ast.BasicLit)
		if !ok || lit.Kind != token.STRING {
			return true
		}
		name, _ := strconv.Unquote(lit.Value)
		switch se.Sel.Name {
		case "Required":
			r.required[name]++
		case "Optional":
			r.optional[name]++
		case "Instantiate":
			r.built[name]++
		case "Define":
			if len(c.Args) != 2 {
				return true
			}
			d := r.defs[name]
			if d == nil {
				d = &nsDecl{}
				r.defs[name] = d
			}
			d.n++
			if fl, ok := c.Args[1].(*ast.FuncLit); ok {
				readBuild(fl, imports, d)
			}
			return false
		}
		return true
	})
	return r
}

// readBuild reads the function that builds a node.
func readBuild(fl *ast.FuncLit, imports map[string]string, d *nsDecl) {
	from := map[string]string{}
	var order []string
	var call *ast.CallExpr
	ast.Inspect(fl.Body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.CallExpr:
			if se, ok := n.Fun.(*ast.SelectorExpr); ok && se.Sel.Name == "Get" && len(n.Args) == 2 {
				lit, _ := n.Args[0].(*ast.BasicLit)
				un, _ := n.Args[1].(*ast.UnaryExpr)
				if lit != nil && un != nil {
					if id, ok := un.X.(*ast.Ident); ok {
						v, _ := strconv.Unquote(lit.Value)
						if _, dup := from[id.Name]; dup {
							d.bad = "it gets two nodes for one argument"
						}
						from[id.Name] = v
						order = append(order, v)
					}
				}
			}
		case *ast.ReturnStmt:
			if len(n.Results) > 0 {
				if c, ok := n.Results[0].(*ast.CallExpr); ok {
					call = c
				}
			}
		}
		return true
	})
	if call == nil {
		d.args = order
		return
	}
	if se, ok := call.Fun.(*ast.SelectorExpr); ok {
		if x, ok := se.X.(*ast.Ident); ok {
			d.ctor = imports[x.Name] + "." + se.Sel.Name
		}
	}
	for i, a := range call.Args {
		switch a := a.(type) {
		case *ast.BasicLit:
			d.args = append(d.args, a.Value)
		case *ast.Ident:
			if i == 0 && len(call.Args) == 1 && isParam(fl, a.Name) {
				continue // the namespace
			}
			v, ok := from[a.Name]
			if !ok {
				d.bad = "argument " + a.Name + " is nothing that it gets"
			}
			d.args = append(d.args, v)
		case *ast.CallExpr:
			if i != 0 {
				d.bad = "unknown argument"
			}
		}
	}
}

func isParam(fl *ast.FuncLit, name string) bool {
	for _, f := range fl.Type.Params.List {
		for _, n := range f.Names {
			if n.Name == name {
				return true
			}
		}
	}
	return false
}

// aliases of parameter names, by what they are for
var sameParam = [][]string{
	{"addr", "address", "serveraddr", "serveraddress", "dialaddr", "serverdial", "url"},
	{"dbname", "name", "db", "database", "databasename"},
	{"username", "user"},
	{"password", "pass", "pwd"},
	{"queuename", "queue"},
}

func paramClass(n string) int {
	n = strings.ToLower(strings.ReplaceAll(n, "_", ""))
	for i, g := range sameParam {
		for _, x := range g {
			if x == n {
				return i
			}
		}
	}
	return -1
}

// expectArgs matches a node's parameters with those of the implementation's constructor; the second
// result is whether the names decide the order.
func expectArgs(md *emit.Made, svc *emit.Service) (args []string, ordered bool) {
	sig := svc.Ctor.Type().(*types.Signature)
	used := map[string]bool{}
	ordered = true
	for i := 1; i < sig.Params().Len(); i++ {
		want := sig.Params().At(i).Name()
		pick := ""
		for _, p := range md.Order {
			if used[p] {
				continue
			}
			if strings.EqualFold(strings.ReplaceAll(p, "_", ""), strings.ReplaceAll(want, "_", "")) || paramClass(p) >= 0 && paramClass(p) == paramClass(want) {
				pick = p
				break
			}
		}
		if pick == "" {
			var left []string
			for _, p := range md.Order {
				if !used[p] {
					left = append(left, p)
				}
			}
			if len(left) != 1 || sig.Params().Len()-1 != len(md.Order) {
				ordered = false
				continue
			}
			pick = left[0]
		}
		used[pick] = true
		args = append(args, md.Params[pick])
	}
	return
}

type processWorld struct {
	what string
	node func(b *emit.B, nodes, edges peval.Value) peval.Iface
	// where the namespace is, and whether it is a process
	file func(files map[string]string) string
	proc bool
}

func processWorlds() []*processWorld {
	find := func(files map[string]string) string {
		var ks []string
		for k := range files {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			if strings.HasSuffix(k, ".go") && strings.Contains(files[k], ".NewNamespaceBuilder(") {
				return k
			}
		}
		return ""
	}
	set := func(n peval.Iface, nodes, edges peval.Value) peval.Iface {
		emit.Put(n, "Nodes", nodes)
		emit.Put(n, "Edges", edges)
		return n
	}
	return []*processWorld{
		{"a process", func(b *emit.B, nodes, edges peval.Value) peval.Iface {
			return set(b.AsNode("plugins/goproc", "Process", b.Fn("plugins/goproc", "newGolangProcessNode", "front.proc")), nodes, edges)
		}, find, true},
		{"a client library", func(b *emit.B, nodes, edges peval.Value) peval.Iface {
			return set(b.AsNode("plugins/gotests", "testLibrary", b.Fn("plugins/gotests", "newTestLibrary", "front.tests")), nodes, edges)
		}, find, false},
	}
}

var asks = []string{"AddToWorkspace", "AddInterfaces", "GenerateFuncs", "AddInstantiation"}

func runG13(c *core.Ctx) {
	b := emit.New(c)
	for _, w := range processWorlds() {
		c13Asked(c, b, w)
		c13Defined(c, b, w)
		c13Rejects(c, b, w)
	}
	c.Floor("asked", 60)
	c.Floor("fails", 20)
	c.Floor("defined", 30)
	c.Floor("args", 30)
	c.Floor("required", 4)
	c.Floor("built", 15)
}

// declareStub declares a stub node the way a node would.
func declareStub(name string) func(m *peval.Machine, ns peval.Iface) peval.Value {
	return func(m *peval.Machine, ns peval.Iface) peval.Value {
		r, ok := m.Method(ns.T, ns.V, "Declare", name, "func(n *golang.Namespace) (any, error) { return nil, nil }")
		if !ok {
			panic(peval.Undecided{Msg: "a namespace has no Declare"})
		}
		return r
	}
}

func c13Edges(b *emit.B) peval.Value {
	return emit.Nodes(b.Dial("post.addr"), b.Bind("front.addr", 0), b.Config("rate.limit", false, ""))
}

// c13Asked follows a process whose nodes record what is asked of them.
func c13Asked(c *core.Ctx, b *emit.B, w *processWorld) {
	builder := map[string]string{"AddToWorkspace": "WorkspaceBuilder", "AddInterfaces": "ModuleBuilder", "GenerateFuncs": "ModuleBuilder", "AddInstantiation": "NamespaceBuilder"}
	run := func(sets [][]string, failNode int, fail string, rev bool) (*emit.Deployed, []*emit.Recorder, []string) {
		var recs []*emit.Recorder
		var log []string
		d := b.Evaluate(rev, func(m *peval.Machine) peval.Value {
			var ns []peval.Iface
			for i, s := range sets {
				f := ""
				if i == failNode {
					f = fail
				}
				name := fmt.Sprintf("node_%d", i)
				r := b.Record(name, s, f, &log, declareStub(name))
				recs = append(recs, r)
				ns = append(ns, r.Node)
			}
			return b.Artifacts(w.node(b, emit.Nodes(ns...), c13Edges(b)))(m)
		})
		return d, recs, log
	}
	// every subset of what a node can provide, next to one that provides everything
	for mask := 0; mask < 16; mask++ {
		var s []string
		for i, k := range asks {
			if mask>>i&1 == 1 {
				s = append(s, k)
			}
		}
		sets := [][]string{asks, s, asks}
		what := w.what + " with a node that has " + strings.Join(s, ", ")
		d, recs, _ := run(sets, -1, "", mask%2 == 1)
		if w.proc || d.Failed != "" {
			if d.Unk != "" {
				c.Fail("undecided", what, token.NoPos, "what is emitted could not be determined: %s", d.Unk)
				continue
			}
		}
		if d.Failed != "" {
			c.Fail("fails", what, token.NoPos, "it cannot be built: %s", d.Failed)
			continue
		}
		for i, r := range recs {
			for _, k := range sets[i] {
				n, right := 0, 0
				for _, x := range r.Calls {
					if strings.HasPrefix(x, k+" ") {
						n++
						if strings.Contains(x, builder[k]) {
							right++
						}
					}
				}
				if n != 1 || right != 1 {
					c.Fail("asked", fmt.Sprintf("%s node %d %s", what, i, k), token.NoPos, "it is called %d times, with %v", n, r.Calls)
				} else {
					c.Ok("asked", what+" "+k)
				}
			}
		}
		ns := readNamespace(d.Files[w.file(d.Files)])
		if ns.err != "" {
			c.Fail("defined", what, token.NoPos, "the namespace is not valid Go: %s", ns.err)
			continue
		}
		c13Edge(c, w, what, ns, []string{"post.addr.dial_addr", "front.addr.bind_addr", "rate.limit"})
		for i := range sets {
			name := fmt.Sprintf("node_%d", i)
			if has := contains(sets[i], "AddInstantiation"); has {
				c13Built(c, w, what, ns, name)
			}
		}
	}
	// every point of failure
	for i := 0; i < 3; i++ {
		for _, k := range asks {
			d, recs, log := run([][]string{asks, asks, asks}, i, k, false)
			what := fmt.Sprintf("%s whose node %d fails at %s", w.what, i, k)
			_ = recs
			switch {
			case d.Failed == "" || strings.HasPrefix(d.Failed, "panics"):
				c.Fail("fails", what, token.NoPos, "building it succeeds or panics: %s%s", d.Failed, d.Unk)
			case len(log) == 0 || !strings.HasSuffix(log[len(log)-1], " "+k):
				c.Fail("fails", what, token.NoPos, "it goes on after the failure: %v", log)
			default:
				c.Ok("fails", what)
			}
		}
	}
}

func contains(s []string, x string) bool {
	for _, y := range s {
		if x == y {
			return true
		}
	}
	return false
}

func c13Edge(c *core.Ctx, w *processWorld, what string, ns *nsFile, edges []string) {
	for _, e := range edges {
		ok := ns.required[e] == 1 && ns.optional[e] == 0
		if !w.proc {
			ok = ns.required[e] == 0 && ns.optional[e] == 1
		}
		if !ok {
			c.Fail("required", what+" "+e, token.NoPos, "the namespace requires it %d times and accepts it %d times", ns.required[e], ns.optional[e])
		} else {
			c.Ok("required", what)
		}
	}
}

func c13Built(c *core.Ctx, w *processWorld, what string, ns *nsFile, name string) {
	if w.proc && ns.built[name] != 1 {
		c.Fail("built", what+" "+name, token.NoPos, "the process builds it %d times", ns.built[name])
	} else if !w.proc && ns.built[name] != 0 {
		c.Fail("built", what+" "+name, token.NoPos, "a client library builds a client that nobody may ask for")
	} else {
		c.Ok("built", what)
	}
	if d := ns.defs[name]; d == nil || d.n != 1 {
		c.Fail("defined", what+" "+name, token.NoPos, "the namespace does not define it once")
	} else {
		c.Ok("defined", what)
	}
}

// c13Defined puts an instance of every node type into a process.
func c13Defined(c *core.Ctx, b *emit.B, w *processWorld) {
	inst := emit.Instantiables(c)
	if len(inst) < 12 {
		c.Fail("undecided", w.what, token.NoPos, "only %d node types are found", len(inst))
	}
	for _, twice := range []bool{false, true} {
		var all []*emit.Made
		flow := map[string][]string{} // workflow services by their arguments
		d := b.Evaluate(twice, func(m *peval.Machine) peval.Value {
			b.Services()
			var ns []peval.Iface
			for i, t := range inst {
				if strings.HasPrefix(core.TypeName(t), "plugins/workflow.") {
					continue
				}
				for _, md := range b.MakeAll(t, fmt.Sprintf("n%02d.%s", i, strings.ToLower(t.Obj().Name()))) {
					all = append(all, md)
					ns = append(ns, md.Node)
					if twice {
						ns = append(ns, md.Node)
					}
				}
			}
			ns = append(ns, workflowNodes(b, all, flow)...)
			if len(ns) == 0 {
				panic(peval.Undecided{Msg: "no nodes"})
			}
			return b.Artifacts(w.node(b, emit.Nodes(ns...), c13Edges(b)))(m)
		})
		what := w.what + " of real nodes"
		if twice {
			what += " added twice"
		}
		if d.Unk != "" && (w.proc || d.Failed != "") {
			c.Fail("undecided", what, token.NoPos, "what is emitted could not be determined: %s", d.Unk)
			continue
		}
		if d.Failed != "" {
			c.Fail("defined", what, token.NoPos, "it cannot be built: %s", d.Failed)
			continue
		}
		ns := readNamespace(d.Files[w.file(d.Files)])
		if ns.err != "" {
			c.Fail("defined", what, token.NoPos, "the namespace is not valid Go: %s", ns.err)
			continue
		}
		for _, md := range all {
			n := core.TypeName(md.Type)
			def := ns.defs[md.Inst]
			if def == nil || def.n != 1 {
				c.Fail("defined", what+" "+n, md.Type.Obj().Pos(), "the namespace does not define %s once", md.Inst)
				continue
			}
			c.Ok("defined", n)
			if ns.built[md.Inst] != 1 && w.proc {
				c.Fail("built", what+" "+n, md.Type.Obj().Pos(), "the process does not build %s once", md.Inst)
			} else {
				c.Ok("built", n)
			}
			if md.Impl == nil {
				c.Fail("args", n, md.Type.Obj().Pos(), "it asks for no implementation")
				continue
			}
			svc := emit.ServiceOf(md.Impl)
			ctor := svc.Ctor.Pkg().Path() + "." + svc.Ctor.Name()
			want, ordered := expectArgs(md, svc)
			got := def.args
			bad := def.bad
			if def.ctor != ctor {
				bad = "it is built with " + def.ctor + ", not with " + ctor
			}
			if !ordered {
				for _, p := range md.Order {
					want = append(want, md.Params[p])
				}
				want, got = dedupe(want), dedupe(got)
			}
			if name := svc.Ctor.Type().(*types.Signature).Params().Len() - 1; len(md.Order) < name {
				// the node gives its own name, too
				got = dropOne(got, `"`+md.Inst+`"`)
				want, got = dedupe(want), dedupe(got)
			}
			if bad == "" && strings.Join(want, ", ") != strings.Join(got, ", ") {
				bad = fmt.Sprintf("%s is given (%s), not (%s)", ctor, strings.Join(def.args, ", "), strings.Join(want, ", "))
			}
			if bad != "" {
				c.Fail("args", n+" "+md.Impl.Obj().Name(), md.Type.Obj().Pos(), "%s", bad)
			} else {
				c.Ok("args", n)
			}
		}
		for name, want := range flow {
			def := ns.defs[name]
			switch {
			case def == nil || def.n != 1:
				c.Fail("defined", what+" "+name, token.NoPos, "the namespace does not define it once")
			case def.bad != "" || strings.Join(def.args, ", ") != strings.Join(want, ", "):
				c.Fail("args", what+" "+name, token.NoPos, "it is given (%s), not (%s) %s", strings.Join(def.args, ", "), strings.Join(want, ", "), def.bad)
			default:
				c.Ok("args", name)
				c.Ok("defined", name)
			}
		}
		c13Edge(c, w, what, ns, []string{"post.addr.dial_addr", "front.addr.bind_addr", "rate.limit"})
	}
}

func dedupe(s []string) []string {
	m := map[string]bool{}
	var out []string
	for _, x := range s {
		if !m[x] {
			m[x] = true
			out = append(out, x)
		}
	}
	sort.Strings(out)
	return out
}

func dropOne(s []string, x string) []string {
	for i, y := range s {
		if y == x {
			return append(append([]string{}, s[:i]...), s[i+1:]...)
		}
	}
	return s
}

// workflowNodes makes workflow services whose arguments are other nodes and values.
func workflowNodes(b *emit.B, all []*emit.Made, flow map[string][]string) []peval.Iface {
	val := b.Node("blueprint/pkg/ir", "IRValue", map[string]peval.Value{"Value": "9 lives"})
	conf := b.Config("flow.limit", false, "")
	addr := b.Dial("flow.addr")
	handler := func(name string, args ...peval.Iface) peval.Iface {
		svc := b.Describe(b.Flow(len(args)))
		return b.Node("plugins/workflow", "workflowHandler", map[string]peval.Value{"InstanceName": name, "ServiceInfo": svc, "Args": emit.Nodes(args...)})
	}
	first, last := all[0], all[len(all)-1]
	h := handler("flow.handler", last.Node, val, conf, first.Node, addr)
	flow["flow.handler"] = []string{last.Inst, `"9 lives"`, "flow.limit", first.Inst, "flow.addr.dial_addr"}
	lone := handler("flow.lone")
	flow["flow.lone"] = nil
	cl := b.Node("plugins/workflow", "workflowClient", map[string]peval.Value{"InstanceName": "flow.client", "ServiceInfo": b.Describe(b.Flow(0)), "Wrapped": h})
	flow["flow.client"] = []string{"flow.handler"}
	return []peval.Iface{cl, h, lone}
}

// c13Rejects: a service given the wrong arguments is an error.
func c13Rejects(c *core.Ctx, b *emit.B, w *processWorld) {
	for _, x := range []struct {
		what string
		want int
		args func() []peval.Iface
	}{
		{"too few arguments", 2, func() []peval.Iface { return []peval.Iface{b.Dial("a.addr")} }},
		{"too many arguments", 1, func() []peval.Iface { return []peval.Iface{b.Dial("a.addr"), b.Dial("b.addr")} }},
		{"arguments it does not take", 0, func() []peval.Iface { return []peval.Iface{b.Dial("a.addr")} }},
		{"an argument that only describes something", 1, func() []peval.Iface { return []peval.Iface{b.Meta("a.meta")} }},
	} {
		d := b.Evaluate(false, func(m *peval.Machine) peval.Value {
			b.Services()
			n := b.Node("plugins/workflow", "workflowHandler", map[string]peval.Value{"InstanceName": "flow.bad", "ServiceInfo": b.Describe(b.Flow(x.want)), "Args": emit.Nodes(x.args()...)})
			return b.Artifacts(w.node(b, emit.Nodes(n), c13Edges(b)))(m)
		})
		what := w.what + " with a service given " + x.what
		if d.Failed == "" || strings.HasPrefix(d.Failed, "panics") {
			c.Fail("fails", what, token.NoPos, "it is accepted, or panics: %s%s", d.Failed, d.Unk)
		} else {
			c.Ok("fails", what)
		}
	}
	// two nodes that define one name differently
	var log []string
	d := b.Evaluate(false, func(m *peval.Machine) peval.Value {
		one := b.Record("node_0", asks, "", &log, declareStub("node_0"))
		two := b.Record("node_1", asks, "", &log, func(m *peval.Machine, ns peval.Iface) peval.Value {
			r, ok := m.Method(ns.T, ns.V, "Declare", "node_0", "func(n *golang.Namespace) (any, error) { return 1, nil }")
			if !ok {
				panic(peval.Undecided{Msg: "a namespace has no Declare"})
			}
			return r
		})
		return b.Artifacts(w.node(b, emit.Nodes(one.Node, two.Node), c13Edges(b)))(m)
	})
	what := w.what + " with two nodes that define one name"
	if d.Failed == "" || strings.HasPrefix(d.Failed, "panics") {
		c.Fail("fails", what, token.NoPos, "it is accepted, or panics: %s%s", d.Failed, d.Unk)
	} else {
		c.Ok("fails", what)
	}
}
