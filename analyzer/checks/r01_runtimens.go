package checks

import (
	"go/constant"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/core"
	"verif/analyzer/flow"
)

const rtNS = "runtime/plugins/golang"
const copyResult = "runtime/core/backend.CopyResult"

func init() {
	register(&Check{
		ID: "R01",
		Rules: "Every path of histories of calls on a namespace (define, build, get, get again, get from a child, shut down), with opaque build functions and contexts: " +
			"once: a node is built when it is first asked for, by its build function, at most once successfully; fails: an error of the build function is what the caller gets, and nothing is remembered; " +
			"result: the caller is given the node that was built; atomic: looking, building and remembering happen in one hold of a lock that building other nodes does not need; " +
			"runs: a runnable node is run once with the namespace's context, counted as running in its namespace and all its ancestors before it starts and until it ends, and stops the namespace when it fails; " +
			"parent: what a namespace does not define comes from its parent, and only from there; builds: every node asked to be instantiated is, in order, and a failure stops what runs; " +
			"stops: shutting down ends the context that nodes run with, and waits for them when asked to.",
		Run:       runR01,
		NotDecide: "Interrupt signals; whether the nodes themselves end when their context does.",
	})
}

type rtnsCheck struct {
	*rt
	mk, define, set, instantiate, build, buildParent, get, shutdown, await, context *ssa.Function
}

func runtimeNS(c *core.Ctx) *rtnsCheck {
	k := &rtnsCheck{rt: newRT(c, rtNS)}
	k.mk = k.fn(rtNS, "NewNamespaceBuilder")
	k.define = k.fn(rtNS, "NamespaceBuilder.Define")
	k.set = k.fn(rtNS, "NamespaceBuilder.Set")
	k.instantiate = k.fn(rtNS, "NamespaceBuilder.Instantiate")
	k.build = k.fn(rtNS, "NamespaceBuilder.Build")
	k.buildParent = k.fn(rtNS, "NamespaceBuilder.BuildWithParent")
	k.get = k.fn(rtNS, "Namespace.Get")
	k.shutdown = k.fn(rtNS, "Namespace.Shutdown")
	k.await = k.fn(rtNS, "Namespace.Await")
	k.context = k.fn(rtNS, "Namespace.Context")
	k.share = func(b string) bool { return true }
	return k
}

func (k *rtnsCheck) ok() bool {
	return k.mk != nil && k.define != nil && k.set != nil && k.instantiate != nil && k.build != nil && k.buildParent != nil && k.get != nil && k.shutdown != nil && k.await != nil && k.context != nil
}

// builder makes a builder with definitions; build functions are opaque values called "build:<name>".
func (k *rtnsCheck) builder(st *flow.State, name string, defs, inst []string) (flow.Val, *flow.State) {
	ps := k.step(st, k.mk, kstr(name))
	if len(ps) != 1 || len(ps[0].Ret) != 1 {
		k.c.Fail("undecided", core.Name(k.mk), k.mk.Pos(), "the builder cannot be followed")
		return nil, nil
	}
	b, s := ps[0].Ret[0], ps[0].St
	for _, d := range defs {
		f := k.in(s, "build:"+d, paramType(k.define, 2))
		ps := k.step(s, k.define, b, kstr(d), f)
		if len(ps) != 1 {
			k.c.Fail("undecided", core.Name(k.define), k.define.Pos(), "the builder cannot be followed")
			return nil, nil
		}
		s = ps[0].St
	}
	for _, d := range inst {
		ps := k.step(s, k.instantiate, b, kstr(d))
		if len(ps) != 1 {
			k.c.Fail("undecided", core.Name(k.instantiate), k.instantiate.Pos(), "the builder cannot be followed")
			return nil, nil
		}
		s = ps[0].St
	}
	return b, s
}

// built is a call of a build function.
type built struct {
	Ev        *flow.Event
	Name      string
	Node, Err flow.Val
	At        int
}

func builds(p *flow.Path) (out []built) {
	for i, ev := range p.St.Trace {
		if ev.Kind != "call" || ev.Target == nil {
			continue
		}
		n, ok := strings.CutPrefix(flow.Strip(ev.Target).Key(), "build:")
		if !ok {
			continue
		}
		b := built{Ev: ev, Name: n, At: i}
		if t, ok := ev.Res.(flow.Tuple); ok && len(t) == 2 {
			b.Node, b.Err = t[0], t[1]
		}
		out = append(out, b)
	}
	return
}

func copies(p *flow.Path) (out []*flow.Event) {
	for _, ev := range p.St.Trace {
		if ev.Kind == "call" && ev.Name == copyResult && len(ev.Args) == 2 {
			out = append(out, ev)
		}
	}
	return
}

func runR01(c *core.Ctx) {
	k := runtimeNS(c)
	if !k.ok() {
		return
	}
	k.root()
	k.child()
	k.eager()
	c.Floor("once", 4)
	c.Floor("runs", 2)
	c.Floor("parent", 2)
	c.Floor("builds", 2)
}

// onlyNS builds a namespace that instantiates nothing.
func (k *rtnsCheck) makeRoot(defs ...string) (n flow.Val, st *flow.State) {
	s := flow.NewState()
	b, s := k.builder(s, "root", defs, nil)
	if b == nil {
		return nil, nil
	}
	ctx := k.in(s, "ctx", paramType(k.build, 1))
	for _, p := range k.step(s, k.build, b, ctx) {
		switch succeeded(p) {
		case 1:
			if n != nil {
				continue
			}
			n, st = p.Ret[0], p.St
			if len(builds(p)) > 0 {
				k.bad(k.build, p, "lazy", "it builds a node that nobody asked for")
			}
		default:
			k.bad(k.build, p, "builds", "building a namespace without arguments can fail")
		}
	}
	if n == nil {
		k.c.Fail("undecided", core.Name(k.build), k.build.Pos(), "the namespace cannot be built")
	}
	return
}

// expect decides a get of a node that has not been built. owner is the namespace that defines it, and
// chain the namespaces it counts as running in.
func (k *rtnsCheck) first(p *flow.Path, name, recv string, owner flow.Val) (ok bool) {
	bs := builds(p)
	cs := copies(p)
	k.c.Ok("once", "get of a node that is not built")
	if len(bs) != 1 || bs[0].Name != name {
		k.bad(k.get, p, "once", "a node that is not built yet is built %d times when it is asked for", len(bs))
		return false
	}
	b := bs[0]
	if len(b.Ev.Args) != 1 || !sameVal(b.Ev.Args[0], owner) {
		k.bad(k.get, p, "parent", "the build function does not get the namespace that defines the node")
	}
	if p.St.NilFact(b.Err) == 0 {
		k.bad(k.get, p, "fails", "it does not look at whether building the node failed")
		return false
	}
	if p.St.NilFact(b.Err) == -1 {
		if !sameVal(p.Ret[0], b.Err) && succeeded(p) != -1 {
			k.bad(k.get, p, "fails", "the node could not be built and the caller is not told")
		}
		if len(cs) > 0 {
			k.bad(k.get, p, "fails", "the node could not be built and the caller is given something")
		}
		for _, ev := range p.St.Trace {
			if ev.Kind == "go" {
				k.bad(k.get, p, "fails", "the node could not be built and something is started")
			}
		}
		return false
	}
	k.given(p, b.Node, recv)
	return true
}

// given: the caller got the node and the outcome of giving it.
func (k *rtnsCheck) given(p *flow.Path, node flow.Val, recv string) {
	cs := copies(p)
	k.c.Ok("result", "get")
	if len(cs) != 1 || !sameVal(cs[0].Args[0], node) || flow.Strip(cs[0].Args[1]).Key() != recv {
		k.bad(k.get, p, "result", "the caller is not given the node that was built")
		return
	}
	if !sameVal(p.Ret[0], cs[0].Res) && !(succeeded(p) != 0 && p.St.NilFact(cs[0].Res) == succeeded(p)) {
		k.bad(k.get, p, "result", "whether the node could be given to the caller is not what the caller is told")
	}
}

func (k *rtnsCheck) root() {
	n, st := k.makeRoot("x", "y")
	if n == nil {
		return
	}
	recv := func(i string) flow.Val { return k.in(st, "recv"+i, paramType(k.get, 2)) }
	// what is never defined
	for _, p := range k.step(st, k.get, n, kstr("z"), recv("1")) {
		k.c.Ok("parent", "unknown node")
		if succeeded(p) != -1 || len(builds(p)) > 0 || len(copies(p)) > 0 {
			k.bad(k.get, p, "parent", "asking for a node that nobody defines does not fail")
		}
	}
	for _, p := range k.step(st, k.get, n, kstr("x"), recv("1")) {
		ok := k.first(p, "x", "recv1", n)
		bs := builds(p)
		if len(bs) == 1 {
			// the locks that getting another node takes
			other := map[string]bool{}
			for _, q := range k.step(p.St, k.get, n, kstr("y"), recv("3")) {
				for _, ev := range q.St.Trace {
					if locks(ev) {
						other[ev.Recv.Key()] = true
					}
				}
			}
			k.atomic(p, bs[0], other)
		}
		if ok {
			k.runs(p, bs[0], n, n)
		}
		if l := heldAtEnd(p); len(l) > 0 {
			k.bad(k.get, p, "released", "it can return with a lock held")
		}
		for _, q := range k.step(p.St, k.get, n, kstr("x"), recv("2")) {
			if l := heldAtEnd(q); len(l) > 0 {
				k.bad(k.get, q, "released", "it can return with a lock held")
			}
			if !ok {
				// the build failed: it may be tried again, and must not look like a success
				if bs := builds(q); len(bs) == 0 {
					if succeeded(q) != -1 || len(copies(q)) > 0 {
						k.bad(k.get, q, "fails", "a node whose construction failed is given to the next caller")
					}
				} else {
					k.first(q, "x", "recv2", n)
				}
				continue
			}
			k.c.Ok("once", "second get")
			if len(builds(q)) > 0 {
				k.bad(k.get, q, "once", "a node that was built is built again")
				continue
			}
			for _, ev := range q.St.Trace {
				if ev.Kind == "go" {
					k.bad(k.get, q, "runs", "a node that was built is run again")
				}
			}
			k.given(q, bs[0].Node, "recv2")
		}
	}
}

// atomic: what decides to build, the building, and what remembers it are in one hold of a lock.
func (k *rtnsCheck) atomic(p *flow.Path, b built, other map[string]bool) {
	k.c.Ok("atomic", "get")
	held := map[string]bool{}
	for _, l := range b.Ev.Locks {
		if !strings.HasPrefix(l, "r:") {
			held[l] = true
		}
	}
	if len(held) == 0 {
		k.bad(k.get, p, "atomic", "a node is built without a lock: two callers can build it at the same time")
		return
	}
	for l := range held {
		if other[l] {
			k.bad(k.get, p, "deadlock", "while a node is built a lock is held that getting another node needs")
		}
	}
	// the cells written after the node was built
	written := map[string]bool{}
	for _, ev := range p.St.Trace[b.At:] {
		if ev.Gor != 0 {
			continue
		}
		switch ev.Kind {
		case "store":
			if !k.own(p, ev) {
				written[ev.Name] = true
			}
		case "mapset":
			written["m:"+ev.Recv.Key()] = true
		}
	}
	if p.St.NilFact(b.Err) != 1 {
		return
	}
	if len(written) == 0 {
		k.bad(k.get, p, "once", "that a node was built is not remembered")
		return
	}
	okLock := false
	for l := range held {
		good := true
		// from the lock's acquisition to its release
		from, to := -1, len(p.St.Trace)
		for i, ev := range p.St.Trace {
			if ev.Gor != 0 || ev.Recv == nil || ev.Recv.Key() != l {
				continue
			}
			if locks(ev) && i < b.At {
				from = i
			}
			if unlocks(ev) && i > b.At && to == len(p.St.Trace) {
				to = i
			}
		}
		seen := false
		for i, ev := range p.St.Trace {
			if ev.Gor != 0 {
				continue
			}
			cell := ev.Name
			if ev.Kind == "mapset" || ev.Kind == "mapget" {
				cell = "m:" + ev.Recv.Key()
			}
			switch ev.Kind {
			case "store", "mapset":
				if written[cell] && i > b.At && i > to {
					good = false
				}
			case "load", "mapget":
				if written[cell] && i > from && i < b.At {
					seen = true
				}
			}
		}
		if good && seen {
			okLock = true
		}
	}
	if !okLock {
		k.bad(k.get, p, "atomic", "whether a node was built is not looked at and remembered in the same hold of a lock as it is built")
	}
}

// own: a cell of a variable that the call itself made.
func (k *rtnsCheck) own(p *flow.Path, ev *flow.Event) bool {
	return false
}

// chain: the node runs in owner, which is in top.
func (k *rtnsCheck) runs(p *flow.Path, b built, chain ...flow.Val) {
	is, known := isA(p, b.Node, "Runnable")
	var gos []*flow.Event
	goAt := -1
	for i, ev := range p.St.Trace {
		if ev.Kind == "go" {
			gos = append(gos, ev)
			goAt = i
		}
	}
	var runs []*flow.Event
	runAt := -1
	for i, ev := range p.St.Trace {
		if ev.Kind == "call" && ev.Method == "Run" && ev.Invoke {
			runs = append(runs, ev)
			runAt = i
		}
	}
	if !known {
		k.bad(k.get, p, "runs", "whether the node is to be run is not looked at")
		return
	}
	if !is {
		k.c.Ok("runs", "a node that is not runnable")
		if len(runs) > 0 || len(gos) > 0 {
			k.bad(k.get, p, "runs", "something is run although the node is not runnable")
		}
		return
	}
	k.c.Ok("runs", "a runnable node")
	if len(runs) != 1 || !sameVal(runs[0].Recv, b.Node) {
		k.bad(k.get, p, "runs", "a runnable node is run %d times", len(runs))
		return
	}
	if len(gos) != 1 || runs[0].Gor == 0 {
		k.bad(k.get, p, "runs", "a runnable node is not run in a goroutine of its own: getting it does not return before it ends")
		return
	}
	owner := chain[0]
	ctx := k.ctxOf(p.St, owner)
	if len(runs[0].Args) != 1 || ctx == nil || !sameVal(runs[0].Args[0], ctx) {
		k.bad(k.get, p, "runs", "a runnable node is not run with the context of its namespace")
	}
	// counted: in the wait groups of the chain
	for _, ns := range chain {
		wgs := k.waits(p.St, ns)
		if len(wgs) == 0 {
			continue
		}
		count, early, done := 0, true, 0
		for i, ev := range p.St.Trace {
			if ev.Kind != "call" || ev.Recv == nil || !wgs[ev.Recv.Key()] {
				continue
			}
			switch ev.Method {
			case "Add":
				if len(ev.Args) == 1 && ev.Args[0].Key() == kint(1).Key() {
					count++
				}
				if i > goAt {
					early = false
				}
			case "Done":
				if i > runAt {
					done++
				}
			}
		}
		where := "its namespace"
		if !sameVal(ns, owner) {
			where = "the namespaces above its own"
		}
		if count != 1 || !early {
			k.bad(k.get, p, "counted", "a node that runs is not counted, before it starts, as running in %s", where)
		} else if done != 1 {
			k.bad(k.get, p, "counted", "a node that has ended is not taken off the nodes that run in %s", where)
		}
	}
	// failing
	var rerr flow.Val
	for _, v := range results(runs[0].Res) {
		rerr = v
	}
	cancelled := false
	for i, ev := range p.St.Trace {
		if i > runAt && ev.Kind == "call" && ev.Target != nil && k.cancels(flow.Strip(ev.Target), ctx) {
			cancelled = true
		}
	}
	switch p.St.NilFact(rerr) {
	case -1:
		if !cancelled {
			k.bad(k.get, p, "fails", "a node that fails while it runs does not stop its namespace")
		}
	case 0:
		k.bad(k.get, p, "fails", "whether a node fails while it runs is not looked at")
	case 1:
		if cancelled {
			k.bad(k.get, p, "fails", "a node that ends without an error stops its namespace")
		}
	}
}

func (k *rtnsCheck) cancels(target, ctx flow.Val) bool {
	a, ok := target.(*flow.App)
	return ok && ctx != nil && a.Op == "cancel" && len(a.Args) == 1 && sameVal(a.Args[0], ctx)
}

// isA: whether the path found v to have a type whose name ends with t.
func isA(p *flow.Path, v flow.Val, t string) (is, known bool) {
	for _, c := range p.St.Conds {
		if a, ok := c.V.(*flow.App); ok && strings.HasPrefix(a.Op, "is:") && strings.HasSuffix(a.Op, "."+t) && len(a.Args) == 1 && sameVal(a.Args[0], v) {
			return c.B, true
		}
	}
	return false, false
}

func (k *rtnsCheck) ctxOf(st *flow.State, ns flow.Val) flow.Val {
	for _, p := range k.step(st, k.context, ns) {
		if len(p.Ret) == 1 {
			return flow.Strip(p.Ret[0])
		}
	}
	return nil
}

// waits: the wait groups that awaiting the namespace waits for.
func (k *rtnsCheck) waits(st *flow.State, ns flow.Val) map[string]bool {
	out := map[string]bool{}
	for _, p := range k.step(st, k.await, ns) {
		for _, ev := range p.St.Trace {
			if ev.Kind == "call" && ev.Name == "(*sync.WaitGroup).Wait" {
				out[ev.Recv.Key()] = true
			}
		}
	}
	if len(out) == 0 {
		k.bad(k.await, nil, "stops", "awaiting a namespace does not wait for what runs in it")
	}
	return out
}

func (k *rtnsCheck) child() {
	n, st := k.makeRoot("x")
	if n == nil {
		return
	}
	b, st := k.builder(st, "child", []string{"w"}, nil)
	if b == nil {
		return
	}
	var m flow.Val
	for _, p := range k.step(st, k.buildParent, b, n) {
		if succeeded(p) == 1 {
			m, st = p.Ret[0], p.St
		} else {
			k.bad(k.buildParent, p, "builds", "building a namespace without arguments can fail")
		}
	}
	if m == nil {
		return
	}
	pc, mc := k.ctxOf(st, n), k.ctxOf(st, m)
	if a, ok := mc.(*flow.App); !ok || pc == nil || !strings.HasPrefix(a.Op, "context.With") || !sameVal(a.Args[0], pc) {
		k.bad(k.buildParent, nil, "stops", "the context of a child namespace does not end with its parent's")
	}
	if a, ok := pc.(*flow.App); !ok || !strings.HasPrefix(a.Op, "context.With") || flow.Strip(a.Args[0]).Key() != "ctx" {
		k.bad(k.build, nil, "stops", "the context of a namespace does not end with the one it was built with")
	}
	recv := func(i string) flow.Val { return k.in(st, "recv"+i, paramType(k.get, 2)) }
	// own nodes are built in the child and count as running in both
	for _, p := range k.step(st, k.get, m, kstr("w"), recv("1")) {
		k.c.Ok("parent", "own node")
		if k.first(p, "w", "recv1", m) {
			k.runs(p, builds(p)[0], m, n)
			// the parent does not have it
			for _, q := range k.step(p.St, k.get, n, kstr("w"), recv("2")) {
				if succeeded(q) != -1 || len(builds(q)) > 0 || len(copies(q)) > 0 {
					k.bad(k.get, q, "parent", "a node of a child namespace can be got from its parent")
				}
			}
		}
	}
	// the parent's nodes are built in the parent, once
	for _, p := range k.step(st, k.get, m, kstr("x"), recv("1")) {
		k.c.Ok("parent", "node of the parent")
		if !k.first(p, "x", "recv1", n) {
			continue
		}
		bs := builds(p)
		k.runs(p, bs[0], n)
		for _, from := range []flow.Val{n, m} {
			for _, q := range k.step(p.St, k.get, from, kstr("x"), recv("2")) {
				k.c.Ok("once", "second get of a node of the parent")
				if len(builds(q)) > 0 {
					k.bad(k.get, q, "once", "a node of the parent is built again for a child")
					continue
				}
				k.given(q, bs[0].Node, "recv2")
			}
		}
	}
	for _, p := range k.step(st, k.get, m, kstr("z"), recv("1")) {
		if succeeded(p) != -1 || len(builds(p)) > 0 {
			k.bad(k.get, p, "parent", "asking for a node that nobody defines does not fail")
		}
	}
	// shutting down
	for _, ns := range []flow.Val{n, m} {
		ctx := k.ctxOf(st, ns)
		wgs := k.waits(st, ns)
		for _, wait := range []string{"true", "false"} {
			w := flow.Const{V: constant.MakeBool(wait == "true")}
			for _, p := range k.step(st, k.shutdown, ns, w) {
				k.c.Ok("stops", "shutdown")
				c, wt, order := 0, 0, true
				for _, ev := range p.St.Trace {
					if ev.Kind == "call" && ev.Target != nil && k.cancels(flow.Strip(ev.Target), ctx) {
						c++
					}
					if ev.Kind == "call" && ev.Name == "(*sync.WaitGroup).Wait" && wgs[ev.Recv.Key()] {
						wt++
						order = c > 0
					}
				}
				if c == 0 {
					k.bad(k.shutdown, p, "stops", "shutting a namespace down does not end the context its nodes run with")
				}
				if wait == "true" && (wt == 0 || !order) {
					k.bad(k.shutdown, p, "stops", "shutting a namespace down does not wait, once its context has ended, for the nodes to end")
				}
				if wait == "false" && wt > 0 {
					k.bad(k.shutdown, p, "stops", "shutting a namespace down waits although it was not asked to")
				}
			}
		}
	}
}

// eager: the nodes to instantiate.
func (k *rtnsCheck) eager() {
	for _, parent := range []bool{false, true} {
		s := flow.NewState()
		var n flow.Val
		fn := k.build
		if parent {
			fn = k.buildParent
			n, s = k.makeRoot("x")
			if n == nil {
				return
			}
		}
		b, s := k.builder(s, "eager", []string{"p", "q", "r"}, []string{"q", "p"})
		if b == nil {
			return
		}
		arg := n
		if !parent {
			arg = k.in(s, "ctx", paramType(k.build, 1))
		}
		for _, p := range k.step(s, fn, b, arg) {
			k.c.Ok("builds", core.Name(fn))
			bs := builds(p)
			var names []string
			failed := false
			for _, x := range bs {
				names = append(names, x.Name)
				failed = failed || p.St.NilFact(x.Err) == -1
			}
			for _, e := range copies(p) {
				failed = failed || p.St.NilFact(e.Res) == -1
			}
			got := strings.Join(names, " ")
			switch succeeded(p) {
			case 1:
				if failed {
					k.bad(fn, p, "builds", "a node could not be built and the namespace is")
				}
				if got != "q p" {
					k.bad(fn, p, "builds", "it builds [%s] of the nodes to instantiate, q and p", got)
				}
			case -1:
				if !failed {
					k.bad(fn, p, "builds", "it fails although every node could be built")
					continue
				}
				var ctx flow.Val
				stopped := false
				for _, ev := range p.St.Trace {
					if ev.Kind != "call" || ev.Target == nil {
						continue
					}
					if a, ok := flow.Strip(ev.Target).(*flow.App); ok && a.Op == "cancel" && ev.Gor == 0 {
						ctx = a.Args[0]
						stopped = stopped || k.runsWith(p, ctx)
					}
				}
				if !stopped {
					k.bad(fn, p, "builds", "the namespace cannot be built and the nodes that run already are not stopped")
				}
			default:
				k.bad(fn, p, "builds", "whether a node to instantiate could be built is not looked at")
			}
		}
		// nothing is defined that is to be instantiated
		b2, s2 := k.builder(s, "eager2", []string{"p"}, []string{"z"})
		for _, p := range k.step(s2, fn, b2, arg) {
			if succeeded(p) != -1 {
				k.bad(fn, p, "builds", "a node to instantiate that nobody defines is no error")
			}
		}
	}
}

// runsWith: nodes built on the path run, if they do, with this context.
func (k *rtnsCheck) runsWith(p *flow.Path, ctx flow.Val) bool {
	for _, ev := range p.St.Trace {
		if ev.Kind == "call" && ev.Method == "Run" && ev.Invoke && len(ev.Args) == 1 && !sameVal(ev.Args[0], ctx) {
			return false
		}
	}
	return true
}
