package checks

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/core"
	"verif/analyzer/flow"
)

// getters always give the same answer for the same receiver and arguments.
var getters = map[string]bool{
	"(blueprint/pkg/wiring.WiringSpec).GetDef": true, "(blueprint/pkg/wiring.WiringSpec).GetAlias": true,
	"(blueprint/pkg/wiring.NamespaceHandler).Accepts": true, "(blueprint/pkg/ir.IRNode).Name": true,
	"(blueprint/pkg/ir.IRMetadata).Name": true, "(blueprint/pkg/wiring.Namespace).Name": true, "reflect.TypeOf": true, "(reflect.Type).String": true,
	"(reflect.Type).Name": true, "(reflect.Type).Elem": true, "(blueprint/pkg/coreplugins/address.Node).Name": true,
}

func pureGetters(e *flow.Engine, st *flow.State, ev *flow.Event) ([]flow.Out, bool) {
	if !getters[ev.Name] || ev.Call == nil {
		return nil, false
	}
	r := ev.Call.Common().Signature().Results()
	if r.Len() == 0 {
		return nil, false
	}
	args := ev.Args
	if ev.Recv != nil {
		args = append([]flow.Val{ev.Recv}, args...)
	}
	var as []flow.Val
	for _, a := range args {
		as = append(as, flow.Strip(a))
	}
	if r.Len() == 1 {
		return []flow.Out{{Res: flow.MkApp(ev.Name, r.At(0).Type(), as...)}}, true
	}
	var t flow.Tuple
	for i := 0; i < r.Len(); i++ {
		t = append(t, flow.MkApp(ev.Name+"."+itoa(i), r.At(i).Type(), as...))
	}
	return []flow.Out{{Res: t}}, true
}

// logs reports a function that itself writes to the log; it is not followed.
func logs(f *ssa.Function) bool {
	for _, ci := range core.Calls(f) {
		n := core.CalleeName(ci)
		if strings.Contains(n, "slog.") || strings.HasPrefix(n, "log.") {
			return true
		}
	}
	for _, a := range f.AnonFuncs {
		if logs(a) {
			return true
		}
	}
	return false
}

// reflects reports a function that works on reflect values; it is not followed.
func reflects(f *ssa.Function) bool {
	for _, ci := range core.Calls(f) {
		if core.CalleeName(ci) == "reflect.ValueOf" {
			return true
		}
		if g := ci.Common().StaticCallee(); g != nil && core.PkgOf(g) == core.PkgOf(f) && g != f {
			for i := 0; i < g.Signature.Results().Len(); i++ {
				if core.TypeName(g.Signature.Results().At(i).Type()) == "reflect.Value" {
					return true
				}
			}
		}
	}
	return false
}

// kernelEngine follows functions of the compiler's own packages with opaque state.
func kernelEngine(c *core.Ctx, pkgs ...string) *flow.Engine {
	e := flow.New(c.P.SSA)
	e.NoRec = true
	e.NoHavoc = func(t types.Type) bool {
		return strings.HasPrefix(core.TypeName(t), "blueprint/pkg/") && !types.IsInterface(t)
	}
	e.Inline = func(f *ssa.Function) bool {
		return core.InPkg(f, pkgs...) && !logs(f) && !reflects(f)
	}
	e.Model = func(e *flow.Engine, st *flow.State, ev *flow.Event) ([]flow.Out, bool) {
		if ev.Call == nil {
			return nil, false
		}
		if f := ev.Call.Common().StaticCallee(); f != nil && logs(f) && core.InPkg(f, pkgs...) {
			r := f.Signature.Results()
			if r.Len() == 1 && core.IsError(r.At(0).Type()) {
				return []flow.Out{{Res: flow.MkApp("err:"+core.Name(f), r.At(0).Type(), ev.Args...)}}, true
			}
		}
		if ev.Invoke && ev.Name == "("+nsType+").Error" {
			return []flow.Out{{Res: flow.MkApp("err:"+ev.Name, core.ErrorType, ev.Args...)}}, true
		}
		return pureGetters(e, st, ev)
	}
	return e
}

// opaque gives fn's parameters names: p0, p1 and so on.
func opaque(fn *ssa.Function, st *flow.State) []flow.Val {
	var args []flow.Val
	for i, p := range fn.Params {
		s := &flow.Sym{ID: "p" + itoa(i), T: p.Type()}
		if i == 0 || types.IsInterface(p.Type()) && core.TypeName(p.Type()) != "any" {
			st.Assume(s, false)
		}
		if _, ok := p.Type().Underlying().(*types.Signature); ok {
			st.Assume(s, false)
		}
		args = append(args, s)
	}
	return args
}

// nsImpls are the types that implement the namespace interface themselves.
func nsImpls(c *core.Ctx) []*types.Named {
	return implsOf(c, "blueprint/pkg/wiring", "Namespace", "Get")
}

// implsOf are the types of the compiler and its plugins that implement an interface, with a method of their own.
func implsOf(c *core.Ctx, pkg, name, method string) []*types.Named {
	n := c.NamedType(pkg, name)
	if n == nil {
		return nil
	}
	iface := n.Underlying().(*types.Interface)
	var out []*types.Named
	for _, p := range c.P.Pkgs {
		if p.Types == nil || !strings.HasPrefix(core.Short(p.Types.Path()), "blueprint/") && !strings.HasPrefix(core.Short(p.Types.Path()), "plugins/") {
			continue
		}
		for _, name := range p.Types.Scope().Names() {
			tn, ok := p.Types.Scope().Lookup(name).(*types.TypeName)
			if !ok || tn.IsAlias() || types.IsInterface(tn.Type()) {
				continue
			}
			t, ok := tn.Type().(*types.Named)
			if !ok || t.TypeParams().Len() > 0 || !types.Implements(types.NewPointer(t), iface) {
				continue
			}
			if core.TypeName(t) != "" && ownMethod(c, t, method) != nil {
				out = append(out, t)
			}
		}
	}
	return out
}

// ownMethod is the method as declared on t, not promoted from an embedded field.
func ownMethod(c *core.Ctx, t *types.Named, name string) *ssa.Function {
	for i := 0; i < t.NumMethods(); i++ {
		if t.Method(i).Name() == name {
			return c.P.SSA.FuncValue(t.Method(i))
		}
	}
	return nil
}

// kpath is one path of a namespace operation, with the events that matter.
type kpath struct {
	*flow.Path
	name, dst flow.Val
	bad       func(rule, format string, args ...any)
}

func (k *kpath) known(v flow.Val) int { return k.St.Bool(v) }

// cond finds the decision of the path about a value for which is holds.
func (k *kpath) cond(is func(a *flow.App) bool) int {
	for _, c := range k.St.Conds {
		v, b := c.V, c.B
		for {
			a, ok := v.(*flow.App)
			if ok && a.Op == "not" {
				v, b = a.Args[0], !b
				continue
			}
			if ok && is(a) {
				if b {
					return 1
				}
				return -1
			}
			break
		}
	}
	return 0
}

func isMapOfNodes(v flow.Val) bool {
	t := flow.TypeOf(v)
	if t == nil {
		return false
	}
	m, ok := t.Underlying().(*types.Map)
	return ok && core.TypeName(m.Elem()) == "blueprint/pkg/ir.IRNode"
}

// seen: whether the cache of nodes is known to have, or not to have, the name.
func (k *kpath) seen(name flow.Val) int {
	return k.cond(func(a *flow.App) bool {
		return a.Op == "has" && isMapOfNodes(a.Args[0]) && flow.Strip(a.Args[1]).Key() == name.Key()
	})
}

// circular: whether the node is known to be one that is being built.
func (k *kpath) circular(name flow.Val) bool {
	return k.cond(func(a *flow.App) bool {
		if a.Op != "has" && a.Op != "lookup" || flow.Strip(a.Args[1]).Key() != name.Key() {
			return false
		}
		l, ok := flow.Strip(a.Args[0]).(*flow.App)
		if !ok || l.Op != "load" || isMapOfNodes(a.Args[0]) {
			return false
		}
		m, ok := l.T.Underlying().(*types.Map)
		if !ok {
			return false
		}
		e, ok := m.Elem().Underlying().(*types.Basic)
		return ok && e.Kind() == types.Bool
	}) == 1
}

// added: whether the handler is known to have been given a node of this name.
func (k *kpath) added(node flow.Val) int {
	return k.cond(func(a *flow.App) bool {
		return a.Op == "has" && !isMapOfNodes(a.Args[0]) && nameOf(a.Args[1], node)
	})
}

// nameOf reports that v is the result of node.Name().
func nameOf(v, node flow.Val) bool {
	a, ok := flow.Strip(v).(*flow.App)
	return ok && strings.HasSuffix(a.Op, ").Name") && len(a.Args) == 1 && flow.Strip(a.Args[0]).Key() == flow.Strip(node).Key()
}

func results(v flow.Val) []flow.Val {
	switch x := v.(type) {
	case flow.Tuple:
		return x
	case nil:
		return nil
	}
	return []flow.Val{v}
}

// outcome splits what a call gave into the node and the error.
func outcome(ev *flow.Event) (node, err flow.Val) {
	rs := append(append([]flow.Val{}, results(ev.Res)...), ev.Outs...)
	for _, r := range rs {
		t := flow.TypeOf(r)
		if i, ok := r.(*flow.Iface); ok && i.T == nil {
			t = flow.TypeOf(i.V)
		}
		switch {
		case t != nil && core.IsError(t):
			err = flow.Strip(r)
		case t != nil && types.IsInterface(t) && node == nil:
			node = flow.Strip(r)
		}
	}
	return
}

// onNS reports a call of the given method on a namespace.
func onNS(ev *flow.Event, method string) bool {
	return ev.Kind == "call" && ev.Invoke && ev.Method == method && strings.HasPrefix(ev.Name, "(blueprint/pkg/wiring.Namespace).")
}

func onHandler(ev *flow.Event, method string) bool {
	return ev.Kind == "call" && ev.Method == method && strings.HasPrefix(ev.Name, "(blueprint/pkg/wiring.NamespaceHandler).")
}

// checkGet decides one path of Get (edge) or Instantiate.
func (k *kpath) checkGet(edge bool, fn *ssa.Function) (class string) {
	st := k.St
	if k.How != "return" {
		k.bad("get", "a path ends with a %s", k.How)
		return "?"
	}
	ret := k.Ret[len(k.Ret)-1]
	failed := st.NilFact(ret) == -1
	seen := k.seen(k.name)
	var source *flow.Event
	var given flow.Val // the node that is handed to the caller
	var cached, addCached []*flow.Event
	var adds []*flow.Event
	var errs []flow.Val
	var final *flow.Event
	for _, ev := range st.Trace {
		switch {
		case ev.Kind == "call" && ev.Target != nil && ev.Call.Common().StaticCallee() == nil:
			a, ok := flow.Strip(ev.Target).(*flow.App)
			if !ok {
				continue
			}
			if !isDefField(a, ".Build") {
				k.bad("get", "it calls %s", ev.Target.Key())
				continue
			}
			if source != nil {
				k.bad("once", "the node is obtained twice on one path")
			}
			source, class = ev, "build"
			if len(ev.Args) != 1 || flow.Strip(ev.Args[0]).Key() != "p0" {
				k.bad("build", "the node is built in another namespace than the one asked")
			}
		case onNS(ev, "Get") || onNS(ev, "Instantiate"):
			if source != nil {
				k.bad("once", "the node is obtained twice on one path")
			}
			source, class = ev, "parent"
			if (ev.Method == "Get") != edge {
				k.bad("mode", "the parent namespace is asked with %s", ev.Method)
			}
			if len(ev.Args) < 1 || flow.Strip(ev.Args[0]).Key() != k.name.Key() {
				k.bad("parent", "the parent namespace is asked for another name")
			}
			if st.NilFact(ev.Recv) != -1 {
				k.bad("parent", "the parent namespace may be missing")
			}
		case ev.Kind == "call" && !ev.Invoke && ev.Call != nil && ev.Call.Common().StaticCallee() != nil && len(ev.Args) > 0 && recursion(ev, fn):
			if source != nil {
				k.bad("once", "the node is obtained twice on one path")
			}
			source, class = ev, "alias"
		case onHandler(ev, "AddNode"), onHandler(ev, "AddEdge"):
			adds = append(adds, ev)
			if source == nil {
				k.bad("record", "the handler is given a node before there is one")
			}
		case ev.Kind == "mapset":
			if isMapOfNodes(ev.Recv) {
				cached = append(cached, ev)
			} else {
				addCached = append(addCached, ev)
			}
		case ev.Kind == "call" && len(ev.Args) == 2 && flow.Strip(ev.Args[1]).Key() == k.dst.Key():
			final = ev
			given = flow.Strip(ev.Args[0])
			continue
		default:
			continue
		}
		if _, e := outcome(ev); e != nil {
			errs = append(errs, e)
		}
	}
	if final != nil {
		if r := results(final.Res); len(r) != 1 || flow.Strip(r[0]).Key() != flow.Strip(ret).Key() {
			if !failed && (len(r) != 1 || st.NilFact(flow.Strip(r[0])) != 1) {
				k.bad("result", "the outcome of handing the node to the caller is not returned")
			}
		}
	}
	var node, serr flow.Val
	if source != nil {
		node, serr = outcome(source)
		if seen != -1 {
			k.bad("cache", "a node is obtained (%s) although it may have been obtained before", class)
		}
	}
	// which kind of name it is
	own := k.cond(func(a *flow.App) bool {
		return a.Op == "==" && (isDefField(a.Args[0], ".Name") && flow.Strip(a.Args[1]).Key() == k.name.Key() || isDefField(a.Args[1], ".Name") && flow.Strip(a.Args[0]).Key() == k.name.Key())
	})
	accepts := k.cond(func(a *flow.App) bool {
		return strings.HasSuffix(a.Op, "NamespaceHandler).Accepts") && len(a.Args) == 2 && isDefField(a.Args[1], ".NodeType")
	})
	proxy := k.cond(func(a *flow.App) bool { return isDefField(a, ".ProxyNode") })
	switch class {
	case "build":
		if own != 1 {
			k.bad("alias", "a node is built without knowing that the name is its own and not an alias")
		}
		if accepts != 1 {
			k.bad("accept", "a node is built without the namespace having accepted its type")
		}
	case "parent":
		if own != 1 {
			k.bad("alias", "the parent namespace is asked without knowing that the name is not an alias")
		}
		if accepts != -1 {
			k.bad("accept", "the parent namespace is asked without the namespace having declined the type")
		}
	case "alias":
		if own != -1 {
			k.bad("alias", "a name is resolved further without knowing that it is an alias")
		}
		ok := false
		for _, a := range source.Args {
			if isDefField(a, ".Name") {
				ok = true
			}
			if c, isC := flow.Strip(a).(flow.Const); isC && c.V.String() == "true" != edge && (c.V.String() == "true" || c.V.String() == "false") {
				k.bad("mode", "the node behind an alias is obtained in another mode")
			}
		}
		if !ok {
			k.bad("alias", "what is obtained for an alias is not the node it stands for")
		}
		if !strings.HasSuffix(source.Name, ").Get") && !strings.HasSuffix(source.Name, ").Instantiate") {
			break
		}
		if strings.HasSuffix(source.Name, ").Get") != edge {
			k.bad("mode", "the node behind an alias is obtained in another mode")
		}
	}
	// errors
	anyErr := serr != nil && st.NilFact(serr) == -1
	for _, ev := range adds {
		if _, e := outcome(ev); e != nil && st.NilFact(e) == -1 {
			anyErr = true
		}
	}
	if anyErr && !failed {
		k.bad("error", "a failure is not returned")
	}
	defMissing := false
	if d := findDefIn(k.Path, k.name); d != nil && st.NilFact(d) == 1 {
		defMissing = true
	}
	noParent := class == "" && own == 1 && accepts == -1
	circle := source == nil && k.circular(k.name)
	if failed && !anyErr && final == nil && !defMissing && !noParent && !circle {
		k.bad("error", "an error is returned although nothing failed")
	}
	if len(cached) > 0 && failed && final == nil {
		k.bad("cache", "a failed attempt is remembered as if it had succeeded")
	}
	// success
	if !failed || final != nil {
		switch {
		case seen == 1:
			class = "seen"
			if a, ok := given.(*flow.App); given == nil || !ok || a.Op != "lookup" || !isMapOfNodes(a.Args[0]) || flow.Strip(a.Args[1]).Key() != k.name.Key() {
				k.bad("cache", "a name obtained before does not give the node obtained before")
			}
			if len(adds) > 0 || len(cached) > 0 {
				k.bad("cache", "a node obtained before is recorded again")
			}
			return
		case source == nil:
			k.bad("get", "success without a node")
			return
		case given == nil || node == nil || given.Key() != node.Key():
			k.bad("result", "the caller is not given the node that was obtained")
			return
		}
		ok := false
		for _, ev := range cached {
			if flow.Strip(ev.Args[0]).Key() == k.name.Key() && flow.Strip(ev.Args[1]).Key() == node.Key() {
				ok = true
			} else if !isDefField(ev.Args[0], ".Name") || flow.Strip(ev.Args[1]).Key() != node.Key() {
				k.bad("cache", "the node is remembered under another name")
			}
		}
		if !ok {
			k.bad("cache", "the node is not remembered, so the next request obtains it again")
		}
	}
	added := 0
	if node != nil {
		added = k.added(node)
	}
	meta := k.cond(func(a *flow.App) bool {
		return strings.HasPrefix(a.Op, "is:") && strings.HasSuffix(a.Op, "ir.IRMetadata") && node != nil && a.Args[0].Key() == node.Key()
	})
	want := map[string]string{"build": "AddNode", "parent": "AddEdge"}[class]
	for _, ev := range adds {
		switch {
		case ev.Method != want:
			k.bad("record", "a node obtained by %s is recorded with %s", class, ev.Method)
		case len(ev.Args) != 2 || flow.Strip(ev.Args[0]).Key() != k.name.Key() && !isDefField(ev.Args[0], ".Name") || node == nil || flow.Strip(ev.Args[1]).Key() != node.Key():
			k.bad("record", "%s is given another name or node", ev.Method)
		case added != -1:
			k.bad("record", "%s may be called twice for one node", ev.Method)
		case proxy != -1:
			k.bad("record", "a node that only stands for another may be recorded")
		case want == "AddEdge" && (!edge || meta != -1):
			k.bad("record", "an edge is recorded for metadata or for a request that asks for none")
		}
	}
	if len(adds) > 1 {
		k.bad("record", "a node is recorded twice")
	}
	if !failed || final != nil {
		excused := added == 1 || proxy == 1 || want == "" || want == "AddEdge" && (!edge || meta == 1)
		if len(adds) == 0 && !excused {
			k.bad("record", "a node obtained by %s is not recorded with %s", class, want)
		}
		if len(adds) == 1 {
			ok := false
			for _, ev := range addCached {
				if nameOf(ev.Args[0], node) {
					ok = true
				}
			}
			if !ok {
				k.bad("record", "that the node has been recorded is not remembered")
			}
		}
	}
	return
}

// recursion: a call back into the function that is being followed.
func recursion(ev *flow.Event, fn *ssa.Function) bool {
	f := ev.Call.Common().StaticCallee()
	if f == fn {
		return true
	}
	for _, a := range ev.Args {
		if isDefField(a, ".Name") && f.Signature.Recv() != nil && fn.Signature.Recv() != nil && types.Identical(f.Signature.Recv().Type(), fn.Signature.Recv().Type()) && !logs(f) {
			return true
		}
	}
	return false
}

// isDefField: v is a field of the definition that was looked up.
func isDefField(v flow.Val, field string) bool {
	if v == nil {
		return false
	}
	a, ok := flow.Strip(v).(*flow.App)
	if !ok || a.Op != "load" || len(a.Args) != 1 {
		return false
	}
	k := a.Args[0].Key()
	return strings.HasPrefix(k, "&*(blueprint/pkg/wiring.WiringSpec).GetDef(") && strings.HasSuffix(k, field)
}

// findDefIn gives the definition the path looked up under the name.
func findDefIn(p *flow.Path, name flow.Val) flow.Val {
	for _, ev := range p.St.Trace {
		if ev.Kind == "call" && ev.Method == "GetDef" && len(ev.Args) == 1 && flow.Strip(ev.Args[0]).Key() == name.Key() {
			return flow.Strip(ev.Res)
		}
	}
	return nil
}

// nsOps decides the operations of a namespace implementation.
func nsOps(c *core.Ctx, t *types.Named) {
	pkg := core.Short(t.Obj().Pkg().Path())
	run := func(method string, st *flow.State) (*ssa.Function, []*flow.Path, []flow.Val) {
		fn := ownMethod(c, t, method)
		if fn == nil {
			c.Fail("undecided", core.TypeName(t)+"."+method, t.Obj().Pos(), "the method is not declared on the type")
			return nil, nil, nil
		}
		e := kernelEngine(c, pkg)
		args := opaque(fn, st)
		ps := e.Run(fn, args, st)
		if e.Over || len(ps) == 0 {
			c.Fail("undecided", core.Name(fn), fn.Pos(), "the method cannot be followed")
		}
		return fn, ps, args
	}
	for _, m := range []string{"Get", "Instantiate"} {
		fn, ps, args := run(m, flow.NewState())
		if fn == nil {
			continue
		}
		classes := map[string]bool{}
		told := map[string]bool{}
		for _, p := range ps {
			k := &kpath{Path: p, name: args[1], dst: args[2]}
			k.bad = func(rule, format string, a ...any) {
				if !told[rule+format] {
					told[rule+format] = true
					c.Fail(rule, core.Name(fn), fn.Pos(), format, a...)
					dumpPath(p)
				}
			}
			cl := k.checkGet(m == "Get", fn)
			classes[cl] = true
			c.Ok("get", core.Name(fn)+" "+cl)
		}
		for _, cl := range []string{"seen", "alias", "parent", "build"} {
			if !classes[cl] {
				c.Fail("get", core.Name(fn), fn.Pos(), "no path of %s serves a name by %q", m, cl)
			}
		}
	}
}

// globals gives the state package pkg has after its variables have been initialised.
func globals(c *core.Ctx, pkg string) *flow.State {
	st := flow.NewState()
	fn := c.Func(pkg, "init")
	if fn == nil {
		return st
	}
	e := flow.New(c.P.SSA)
	e.Inline = func(f *ssa.Function) bool { return false }
	for _, p := range e.Run(fn, nil, flow.NewState()) {
		if p.How == "return" {
			for k, v := range p.St.Mem {
				if strings.HasPrefix(k, "g:") {
					st.Mem[k] = v
				}
			}
		}
	}
	return st
}

// sameVal compares what two values stand for.
func sameVal(a, b flow.Val) bool {
	return a != nil && b != nil && flow.Strip(a).Key() == flow.Strip(b).Key()
}

// nsRest decides Put, Defer and the operations on child namespaces.
func nsRest(c *core.Ctx, t *types.Named) {
	pkg := core.Short(t.Obj().Pkg().Path())
	site := ""
	told := map[string]bool{}
	var at *ssa.Function
	bad := func(p *flow.Path, rule, format string, a ...any) {
		if !told[site+rule+format] {
			told[site+rule+format] = true
			c.Fail(rule, site, at.Pos(), format, a...)
			dumpPath(p)
		}
	}
	each := func(method string, st *flow.State, set func(args []flow.Val), f func(p *flow.Path, args []flow.Val, fail bool)) {
		fn := ownMethod(c, t, method)
		if fn == nil {
			c.Fail("undecided", core.TypeName(t)+"."+method, t.Obj().Pos(), "the method is not declared on the type")
			return
		}
		site, at = core.Name(fn), fn
		e := kernelEngine(c, pkg)
		args := opaque(fn, st)
		if set != nil {
			set(args)
		}
		ps := e.Run(fn, args, st)
		if e.Over || len(ps) == 0 {
			c.Fail("undecided", site, fn.Pos(), "the method cannot be followed")
		}
		for _, p := range ps {
			if p.How != "return" {
				bad(p, "paths", "a path ends with a %s", p.How)
				continue
			}
			fail := false
			if n := len(p.Ret); n > 0 {
				fail = p.St.NilFact(p.Ret[n-1]) == -1
			}
			f(p, args, fail)
			c.Ok("operations", site)
		}
	}
	accepted := func(p *flow.Path, v flow.Val) int {
		k := &kpath{Path: p}
		return k.cond(func(a *flow.App) bool {
			return strings.HasSuffix(a.Op, "NamespaceHandler).Accepts") && len(a.Args) == 2 && sameVal(a.Args[1], v)
		})
	}
	each("Put", flow.NewState(), nil, func(p *flow.Path, args []flow.Val, fail bool) {
		name, node := args[1], args[2]
		var seq []string
		anyErr := false
		for _, ev := range p.St.Trace {
			switch {
			case ev.Kind == "mapset" && isMapOfNodes(ev.Recv):
				if !sameVal(ev.Args[0], name) || !sameVal(ev.Args[1], node) {
					bad(p, "put", "another name or node is remembered")
				}
				seq = append(seq, "seen")
				continue
			case onNS(ev, "Put"), onHandler(ev, "AddNode"), onHandler(ev, "AddEdge"):
				if len(ev.Args) != 2 || !sameVal(ev.Args[0], name) || !sameVal(ev.Args[1], node) {
					bad(p, "put", "%s is given another name or node", ev.Method)
				}
				if ev.Method == "Put" && p.St.NilFact(ev.Recv) != -1 {
					bad(p, "put", "the parent namespace may be missing")
				}
				seq = append(seq, ev.Method)
			default:
				continue
			}
			if _, e := outcome(ev); e != nil && p.St.NilFact(e) == -1 {
				anyErr = true
			}
		}
		sort.Strings(seq)
		got := strings.Join(seq, " ")
		acc := accepted(p, node)
		switch {
		case anyErr && !fail:
			bad(p, "put", "a failure is not returned")
		case acc == 0:
			bad(p, "put", "the namespace is not asked whether it accepts the node")
		case !fail && acc == 1 && got != "AddNode seen":
			bad(p, "put", "an accepted node is recorded by: %s", got)
		case !fail && acc == -1 && got != "AddEdge Put seen":
			bad(p, "put", "a declined node is recorded by: %s", got)
		case fail && !anyErr && acc == 1:
			bad(p, "put", "an error is returned although nothing failed")
		}
	})
	each("DeriveNamespace", flow.NewState(), nil, func(p *flow.Path, args []flow.Val, fail bool) {
		name, handler := args[1], args[2]
		k := &kpath{Path: p}
		exists := k.cond(func(a *flow.App) bool { return a.Op == "has" && sameVal(a.Args[1], name) })
		var sets []*flow.Event
		for _, ev := range p.St.Trace {
			if ev.Kind == "mapset" {
				sets = append(sets, ev)
			}
		}
		switch {
		case exists == 0:
			bad(p, "child", "whether a child of this name exists is not looked up")
			return
		case exists == 1 && (!fail || len(sets) > 0):
			bad(p, "child", "a second child namespace of one name replaces the first")
			return
		case exists == 1:
			return
		case fail || len(sets) != 1 || !sameVal(sets[0].Args[0], name) || !sameVal(sets[0].Args[1], p.Ret[0]):
			bad(p, "child", "the child namespace is not registered under its name")
			return
		}
		a, ok := flow.Strip(p.Ret[0]).(*flow.Addr)
		if !ok || a.T == nil {
			bad(p, "child", "the child namespace is not a new one")
			return
		}
		s, ok := a.T.Underlying().(*types.Struct)
		if !ok {
			bad(p, "child", "the child namespace is not a new one")
			return
		}
		has := map[string]bool{}
		fresh := map[string]bool{}
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			v := p.St.Load(&flow.Addr{Base: a.Base + "." + f.Name(), T: f.Type(), Alloc: a.Alloc})
			switch tn := core.TypeName(f.Type()); {
			case tn == nsType && sameVal(v, args[0]):
				has["parent"] = true
			case tn == specType:
				l, ok := flow.Strip(v).(*flow.App)
				has["spec"] = ok && l.Op == "load" && l.Args[0].Key() == "&*p0."+f.Name()
			case strings.HasSuffix(tn, "wiring.NamespaceHandler") && sameVal(v, handler):
				has["handler"] = true
			case sameVal(v, name):
				has["name"] = true
			}
			if _, isMap := f.Type().Underlying().(*types.Map); isMap {
				m, ok := flow.Strip(v).(*flow.App)
				if !ok || m.Op != "make" || fresh[m.Key()] {
					bad(p, "child", "the child namespace has no %s of its own", f.Name())
				} else {
					fresh[m.Key()] = true
				}
			}
		}
		for _, w := range []string{"parent", "spec", "handler", "name"} {
			if !has[w] {
				bad(p, "child", "the child namespace does not get its %s", w)
			}
		}
	})
	each("GetNamespace", flow.NewState(), nil, func(p *flow.Path, args []flow.Val, fail bool) {
		k := &kpath{Path: p}
		exists := k.cond(func(a *flow.App) bool { return a.Op == "has" && sameVal(a.Args[1], args[1]) })
		l, _ := flow.Strip(p.Ret[0]).(*flow.App)
		if exists == 0 || fail == (exists == 1) || !fail && (l == nil || l.Op != "lookup" || !sameVal(l.Args[1], args[1])) {
			bad(p, "child", "it does not return the child of the given name, or an error when there is none")
		}
	})
	for _, m := range []string{"GetProperty", "GetProperties"} {
		each(m, flow.NewState(), nil, func(p *flow.Path, args []flow.Val, fail bool) {
			d := findDefIn(p, args[1])
			if d == nil {
				bad(p, "property", "the definition of the given name is not looked up")
				return
			}
			if p.St.NilFact(d) == 1 && !fail {
				bad(p, "property", "a name without a definition is no error")
			}
		})
	}
	// Defer: the caller's position in the queue of the root namespace
	for _, mode := range []string{"none", "back", "front"} {
		st := globals(c, pkg)
		var queue string
		var queueT types.Type
		if s, ok := t.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if sl, ok := s.Field(i).Type().Underlying().(*types.Slice); ok {
					if _, ok := sl.Elem().Underlying().(*types.Signature); ok {
						queue, queueT = s.Field(i).Name(), s.Field(i).Type()
						old := st.NewSlice(sl.Elem(), 2)
						for j := int64(0); j < 2; j++ {
							st.Store(old.Elem(j), &flow.Sym{ID: "old" + itoa(int(j)), T: sl.Elem()})
						}
						st.Store(&flow.Addr{Base: "*p0." + queue, T: s.Field(i).Type()}, old)
					}
				}
			}
		}
		each("Defer", st, func(args []flow.Val) {
			st.Assume(args[1], false)
			if mode == "none" {
				args[2] = flow.NilV{}
				return
			}
			et := args[2].(*flow.Sym).T.Underlying().(*types.Slice).Elem()
			o := st.NewSlice(et, 1)
			a := o.Elem(0)
			if s, ok := et.Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					if s.Field(i).Name() == "Front" {
						st.Store(&flow.Addr{Base: a.Base + ".Front", T: s.Field(i).Type(), Alloc: true}, flow.Const{V: constant.MakeBool(mode == "front")})
					}
				}
			}
			args[2] = o
		}, func(p *flow.Path, args []flow.Val, fail bool) {
			var up []*flow.Event
			for _, ev := range p.St.Trace {
				if onNS(ev, "Defer") {
					up = append(up, ev)
				}
			}
			q := p.St.Load(&flow.Addr{Base: "*p0." + queue, T: queueT})
			var order []string
			if sv, ok := flow.Strip(q).(*flow.SliceV); ok {
				for i := int64(0); i < sv.Len; i++ {
					order = append(order, flow.Strip(p.St.Load(sv.Elem(i))).Key())
				}
			} else {
				order = []string{q.Key()}
			}
			got := strings.Join(order, " ")
			want := "old0 old1 p1"
			if mode == "front" {
				want = "p1 old0 old1"
			}
			if len(up) > 0 {
				want = "old0 old1"
				ok := len(up) == 1 && len(up[0].Args) >= 1 && sameVal(up[0].Args[0], args[1]) && p.St.NilFact(up[0].Recv) == -1
				if ok {
					// the options reach the parent; without any, the function goes to the back
					front := false
					if len(up[0].Args) > 1 {
						switch o := flow.Strip(up[0].Args[1]).(type) {
						case *flow.Struct:
							b, isC := flow.Strip(o.F["Front"]).(flow.Const)
							ok = isC && b.V.Kind() == constant.Bool
							front = ok && constant.BoolVal(b.V)
						case flow.NilV:
						default:
							ok = false
						}
					}
					ok = ok && front == (mode == "front")
				}
				if !ok {
					bad(p, "defer", "the function does not reach the parent namespace as it was given")
				}
			}
			if got != want {
				bad(p, "defer", "with option %s the queue becomes %s; expected is %s", mode, got, want)
			}
		})
	}
}

// buildIR decides the function that builds an application: everything asked for is instantiated and
// everything deferred is run, until nothing is left or something fails.
func buildIR(c *core.Ctx, t *types.Named) {
	pkg := core.Short(t.Obj().Pkg().Path())
	fn := c.MustFunc("blueprint/pkg/wiring", "BuildApplicationIR")
	site := core.Name(fn)
	for _, named := range []bool{true, false} {
		st := globals(c, pkg)
		args := opaque(fn, st)
		names := st.NewSlice(types.Typ[types.String], 2)
		for j := int64(0); j < 2; j++ {
			st.Store(names.Elem(j), &flow.Sym{ID: "name" + itoa(int(j)), T: types.Typ[types.String]})
		}
		last := len(args) - 1
		args[last] = names
		if !named {
			args[last] = flow.NilV{}
		}
		e := kernelEngine(c, pkg)
		base := e.Model
		e.Model = func(e *flow.Engine, st *flow.State, ev *flow.Event) ([]flow.Out, bool) {
			if ev.Kind == "call" && ev.Method == "Defs" && !named {
				return []flow.Out{{Res: names}}, true
			}
			if d, ok := ev.Target.(*flow.Sym); ok && strings.HasPrefix(d.ID, "deferred:") {
				return []flow.Out{{Res: flow.MkApp("err:"+d.ID, core.ErrorType)}, {Res: flow.NilV{}}}, true
			}
			f := ev.Call.Common().StaticCallee()
			if f == nil || f.Signature.Recv() == nil || f.Name() != "Get" && f.Name() != "Instantiate" || !types.Identical(core.Deref(f.Signature.Recv().Type()), t) {
				return base(e, st, ev)
			}
			ns, _ := flow.Strip(ev.Recv).(*flow.Addr)
			if ns == nil || len(ev.Args) == 0 {
				return nil, false
			}
			name := flow.Strip(ev.Args[0]).Key()
			return []flow.Out{{Res: flow.MkApp("err:get "+name, core.ErrorType)}, {Res: flow.NilV{}, Set: func(s *flow.State) {
				// building the node defers something
				str := t.Underlying().(*types.Struct)
				for i := 0; i < str.NumFields(); i++ {
					sl, ok := str.Field(i).Type().Underlying().(*types.Slice)
					if !ok {
						continue
					}
					if _, ok := sl.Elem().Underlying().(*types.Signature); !ok {
						continue
					}
					cell := &flow.Addr{Base: ns.Base + "." + str.Field(i).Name(), T: str.Field(i).Type(), Alloc: ns.Alloc}
					old, _ := flow.Strip(s.Load(cell)).(*flow.SliceV)
					n := int64(0)
					if old != nil {
						n = old.Len
					}
					q := s.NewSlice(sl.Elem(), n+1)
					for j := int64(0); j < n; j++ {
						s.Store(q.Elem(j), s.Load(old.Elem(j)))
					}
					d := &flow.Sym{ID: "deferred:" + name, T: sl.Elem()}
					s.Assume(d, false)
					s.Store(q.Elem(n), d)
					s.Store(cell, q)
				}
			}}}, true
		}
		ps := e.Run(fn, args, st)
		if e.Over || len(ps) == 0 {
			c.Fail("undecided", site, fn.Pos(), "the function cannot be followed")
		}
		done := false
		for _, p := range ps {
			if p.How != "return" {
				c.Fail("build", site, fn.Pos(), "a path ends with a %s", p.How)
				dumpPath(p)
				continue
			}
			var did []string
			failedAt := -1
			for _, ev := range p.St.Trace {
				if ev.Kind != "call" {
					continue
				}
				what := ""
				if d, ok := ev.Target.(*flow.Sym); ok && strings.HasPrefix(d.ID, "deferred:") {
					what = d.ID
				} else if (ev.Method == "Get" || ev.Method == "Instantiate") && len(ev.Args) > 0 && strings.HasPrefix(flow.Strip(ev.Args[0]).Key(), "name") {
					what = "get:" + flow.Strip(ev.Args[0]).Key()
				} else {
					continue
				}
				did = append(did, what)
				if p.St.NilFact(results(ev.Res)[0]) == -1 {
					failedAt = len(did)
				}
			}
			fail := p.St.NilFact(p.Ret[len(p.Ret)-1]) == -1
			c.Ok("operations", site)
			s := append([]string{}, did...)
			sort.Strings(s)
			all := strings.Join(s, " ")
			switch {
			case failedAt >= 0 && !fail:
				c.Fail("build", site, fn.Pos(), "an application is built although %s failed", did[failedAt-1])
			case failedAt >= 0 && failedAt != len(did):
				c.Fail("build", site, fn.Pos(), "building goes on after %s failed", did[failedAt-1])
			case failedAt < 0 && fail:
				c.Fail("build", site, fn.Pos(), "building fails although nothing failed")
			case failedAt < 0 && all != "deferred:name0 deferred:name1 get:name0 get:name1":
				c.Fail("build", site, fn.Pos(), "building two nodes that each defer a function ends after: %s", strings.Join(did, ", "))
			case failedAt < 0:
				done = true
			}
		}
		if !done {
			c.Fail("build", site, fn.Pos(), "no path builds the application")
		}
	}
}

func init() {
	register(&Check{
		ID:    "C01",
		Rules: "Every operation of a namespace implementation is followed on all its paths with opaque contents. Get and Instantiate: a name obtained before gives the node obtained before and records nothing; an alias is resolved in the same mode; a name of its own is built here exactly when the handler accepts its type and otherwise asked, in the same mode, of the parent; what is obtained is remembered only after success, is handed to the handler exactly once per node (AddNode for built, AddEdge for gotten, neither for proxies, metadata or instantiated nodes) and is given to the caller; every failure is returned; asking for what is being built (a circular dependency) may be an error. Put, Defer and the child operations keep the same discipline; building an application obtains every requested node, runs every deferred function, and stops at the first failure.",
		Run: func(c *core.Ctx) {
			for _, t := range nsImpls(c) {
				nsOps(c, t)
				nsRest(c, t)
				buildIR(c, t)
			}
			c.Floor("get", 20)
			c.Floor("operations", 20)
		},
	})
}

func dumpPath(p *flow.Path) {
	if os.Getenv("KDUMP") == "" {
		return
	}
	fmt.Println("== path", p.How, p.Ret.Key())
	for _, cd := range p.St.Conds {
		fmt.Println("    if", cd.V.Key(), cd.B)
	}
	for _, ev := range p.St.Trace {
		r, rc := "", ""
		if ev.Res != nil {
			r = ev.Res.Key()
		}
		if ev.Recv != nil {
			rc = ev.Recv.Key()
		}
		fmt.Println("    ", ev.Kind, ev.Name, ev.Method, "recv", rc, "args", keysOf(ev.Args), "->", r, "out", keysOf(ev.Outs))
	}
}

func keysOf(vs []flow.Val) (out []string) {
	for _, v := range vs {
		out = append(out, v.Key())
	}
	return
}
