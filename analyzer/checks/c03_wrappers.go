package checks

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/core"
	"verif/analyzer/flow"
)

func init() {
	register(&Check{
		ID: "C03",
		Rules: "chain: the operations of a pointer keep its client chain (head, wrappers in order, interface) and its server chain (last wrapper first) linked for any earlier history; " +
			"pointer: a new pointer starts as head -> destination, gives clients the head and sees to it that the server side is instantiated; server: the server side is instantiated through the outermost wrapper, and failure to do so is an error; " +
			"wrapper: every node a plugin adds to a pointer is defined and on every successful path of its build function contains the next node of the chain; side: a plugin wraps the side of the calls it is documented to act on; ignored: an option that is no pointer's business is reported.",
		Run:       runC03,
		NotDecide: "Plugins outside the repository; whether a wrapper calls what it wraps (G05 decides that for generated code).",
	})
}

const ptrPkg = "blueprint/pkg/coreplugins/pointer"

// aliases is the last alias the path makes of each name, in order of first mention.
func aliases(p *flow.Path) (names []flow.Val, to map[string]flow.Val) {
	to = map[string]flow.Val{}
	for _, ev := range p.St.Trace {
		if ev.Kind != "call" || !ev.Invoke || ev.Method != "Alias" || len(ev.Args) != 2 {
			continue
		}
		k := flow.Strip(ev.Args[0]).Key()
		if _, ok := to[k]; !ok {
			names = append(names, flow.Strip(ev.Args[0]))
		}
		to[k] = flow.Strip(ev.Args[1])
	}
	return
}

// ptrState gives access to the fields of a pointer definition before and after a path.
type ptrState struct {
	t    *types.Named
	base string
}

func (s ptrState) field(name string) *flow.Addr {
	st := s.t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return &flow.Addr{Base: s.base + "." + name, T: st.Field(i).Type()}
		}
	}
	return nil
}

func (s ptrState) before(name string) flow.Val {
	a := s.field(name)
	return flow.MkApp("load", a.T, a)
}

func (s ptrState) after(p *flow.Path, name string) flow.Val { return flow.Strip(p.St.Load(s.field(name))) }

// fieldOfPtr: v is the value a field of the pointer had before.
func (s ptrState) fieldOfPtr(v flow.Val) string {
	a, ok := flow.Strip(v).(*flow.App)
	if !ok || a.Op != "load" || len(a.Args) != 1 {
		return ""
	}
	if n, ok := strings.CutPrefix(a.Args[0].Key(), "&"+s.base+"."); ok && s.field(n) != nil {
		return n
	}
	return ""
}

// first is the first element of a list.
func first(p *flow.Path, v flow.Val) flow.Val {
	switch x := flow.Strip(v).(type) {
	case *flow.SliceV:
		if x.Len > 0 {
			return flow.Strip(p.St.Load(x.Elem(0)))
		}
	case *flow.App:
		if x.Op == "append" && len(x.Args) > 0 {
			if f := first(p, x.Args[0]); f != nil {
				return f
			}
			if len(x.Args) > 1 && p.St.NilFact(x.Args[0]) == 1 {
				return flow.Strip(x.Args[1])
			}
		}
	}
	return nil
}

func runC03(c *core.Ctx) {
	pointerOps(c)
	wrapperOptions(c)
}

func pointerOps(c *core.Ctx) {
	pt := c.NamedType(ptrPkg, "PointerDef")
	if pt == nil {
		c.Fail("undecided", ptrPkg, token.NoPos, "there is no pointer definition")
		return
	}
	told := map[string]bool{}
	type run struct {
		fn    *ssa.Function
		args  []flow.Val
		paths []*flow.Path
	}
	follow := func(name string) *run {
		fn := c.Func(ptrPkg, name)
		if fn == nil {
			c.Fail("undecided", ptrPkg+"."+name, token.NoPos, "%s is not declared", name)
			return nil
		}
		if o := fn.Origin(); o != nil {
			fn = o
		}
		e := kernelEngine(c, ptrPkg)
		inl := e.Inline
		e.Inline = func(f *ssa.Function) bool {
			return inl(f) && f.Name() != "RequireUniqueness" && f.Name() != "InstantiateDst"
		}
		st := globals(c, ptrPkg)
		args := opaque(fn, st)
		ps := e.Run(fn, args, st)
		if e.Over || len(ps) == 0 {
			c.Fail("undecided", core.Name(fn), fn.Pos(), "the function cannot be followed")
		}
		return &run{fn, args, ps}
	}
	bad := func(r *run, p *flow.Path) func(rule, format string, a ...any) {
		return func(rule, format string, a ...any) {
			if !told[core.Name(r.fn)+rule+format] {
				told[core.Name(r.fn)+rule+format] = true
				c.Fail(rule, core.Name(r.fn), r.fn.Pos(), format, a...)
				dumpPath(p)
			}
		}
	}
	ps := ptrState{pt, "*p0"}
	src, dst, addr := follow("PointerDef.AddSrcModifier"), follow("PointerDef.AddDstModifier"), follow("PointerDef.AddAddrModifier")
	inst, create, get := follow("PointerDef.InstantiateDst"), follow("CreatePointer"), follow("GetPointer")
	if src == nil || dst == nil || addr == nil || inst == nil || create == nil || get == nil {
		return
	}
	// the roles of the fields: which holds the open end of the client chain (tail), which holds what the
	// client chain ends in (iface), which holds the outermost wrapper of the server side (head)
	var tail, iface, head string
	for _, p := range src.paths {
		names, to := aliases(p)
		for _, n := range names {
			if f := ps.fieldOfPtr(n); f != "" {
				tail = f
			} else if f := ps.fieldOfPtr(to[n.Key()]); f != "" {
				iface = f
			}
		}
	}
	for _, p := range dst.paths {
		if p.How == "return" {
			if f := ps.fieldOfPtr(p.Ret[0]); f != "" {
				head = f
			}
		}
	}
	if tail == "" || iface == "" || head == "" {
		c.Fail("chain", core.Name(src.fn), src.fn.Pos(), "the chain of a pointer cannot be made out: open end %q, interface %q, server side %q", tail, iface, head)
		return
	}
	// AddSrcModifier: ... tail -> m, m's next -> interface
	for _, p := range src.paths {
		bad := bad(src, p)
		c.Ok("chain", "AddSrcModifier")
		if p.How != "return" {
			bad("chain", "a path ends with a %s", p.How)
			continue
		}
		m := src.args[2]
		names, to := aliases(p)
		t0, t1 := ps.before(tail), ps.after(p, tail)
		if to[t0.Key()] == nil || to[t0.Key()].Key() != m.Key() {
			bad("chain", "the end of the client chain does not lead to the new wrapper")
		}
		switch {
		case t1.Key() == t0.Key() || t1.Key() == m.Key() || !flow.Mentions(t1, m.Key()):
			bad("chain", "what follows the new wrapper has no name of its own")
		case to[t1.Key()] == nil || to[t1.Key()].Key() != ps.before(iface).Key():
			bad("chain", "what follows the new wrapper is not the server side")
		case !sameVal(p.Ret[0], t1):
			bad("chain", "the wrapper is not told what follows it")
		}
		if len(names) != 2 {
			bad("chain", "other names change their meaning")
		}
		if !sameVal(ps.after(p, iface), ps.before(iface)) || !sameVal(ps.after(p, head), ps.before(head)) {
			bad("chain", "a client wrapper changes the server side")
		}
	}
	// what InstantiateDst starts from
	list := ""
	for _, p := range inst.paths {
		for _, ev := range p.St.Trace {
			if onNS(ev, "Instantiate") && len(ev.Args) == 2 {
				if a, ok := flow.Strip(ev.Args[0]).(*flow.App); ok && a.Op == "load" {
					k := a.Args[0].Key() // &*load(&*p0.F)[0]
					if f, ok := strings.CutPrefix(k, "&*load(&*p0."); ok && strings.HasSuffix(f, ")[0]") {
						list = strings.TrimSuffix(f, ")[0]")
					}
				}
			}
		}
	}
	listOK := func(p *flow.Path, want flow.Val, s ptrState) bool {
		if list == "" {
			return true
		}
		f := first(p, s.after(p, list))
		return f != nil && sameVal(f, want)
	}
	// AddDstModifier: m -> old head; with an interface node, tail -> m
	given := map[bool]bool{}
	for _, p := range dst.paths {
		bad := bad(dst, p)
		c.Ok("chain", "AddDstModifier")
		if p.How != "return" {
			bad("chain", "a path ends with a %s", p.How)
			continue
		}
		m := dst.args[2]
		hasOpts := (&kpath{Path: p}).cond(func(a *flow.App) bool { return strings.Contains(a.Key(), "len(p3)") })
		isIface := (&kpath{Path: p}).cond(func(a *flow.App) bool {
			return a.Op == "load" && types.Identical(a.T, types.Typ[types.Bool]) && strings.Contains(a.Key(), "p3")
		})
		if isIface == 0 {
			if hasOpts == 0 {
				bad("chain", "the options are not looked at")
			}
			if !given[false] {
				given[false] = true
			}
			isIface = 1 // the default
		}
		_, to := aliases(p)
		if !sameVal(p.Ret[0], ps.before(head)) {
			bad("chain", "the wrapper is not told what it wraps")
		}
		if !sameVal(ps.after(p, head), m) {
			bad("chain", "the new wrapper does not become the outermost")
		}
		if !listOK(p, m, ps) {
			bad("chain", "the new wrapper is not where the server side is instantiated from")
		}
		if !sameVal(ps.after(p, tail), ps.before(tail)) {
			bad("chain", "a server wrapper changes the client chain")
		}
		if isIface == 1 {
			if !sameVal(ps.after(p, iface), m) || to[ps.before(tail).Key()] == nil || !sameVal(to[ps.before(tail).Key()], m) || len(to) != 1 {
				bad("chain", "clients do not reach the new wrapper")
			}
		} else if len(to) > 0 || !sameVal(ps.after(p, iface), ps.before(iface)) {
			bad("chain", "a wrapper that is no interface is given to clients")
		}
	}
	// AddAddrModifier: points to -> old head; tail -> addr
	for _, p := range addr.paths {
		bad := bad(addr, p)
		c.Ok("chain", "AddAddrModifier")
		if p.How != "return" {
			bad("chain", "a path ends with a %s", p.How)
			continue
		}
		a := addr.args[2]
		var def flow.Val
		for _, ev := range p.St.Trace {
			if ev.Kind == "call" && strings.HasSuffix(ev.Name, "address.GetAddress") && len(ev.Args) == 2 && sameVal(ev.Args[1], a) {
				def = flow.Strip(ev.Res)
			}
		}
		if def == nil {
			bad("chain", "the address is not looked up")
			continue
		}
		_, to := aliases(p)
		if p.St.NilFact(def) == 1 {
			continue // wrapper: callers define the address first
		}
		h := ps.after(p, head)
		if x, ok := h.(*flow.App); !ok || x.Op != "load" || x.Args[0].Key() != "&*"+def.Key()+".PointsTo" {
			bad("chain", "the server the address points to does not become the outermost server node")
		}
		if !listOK(p, h, ps) {
			bad("chain", "the server the address points to is not where the server side is instantiated from")
		}
		if !sameVal(p.Ret[0], ps.before(head)) {
			bad("chain", "the server is not told what it wraps")
		}
		if !sameVal(ps.after(p, iface), a) || to[ps.before(tail).Key()] == nil || !sameVal(to[ps.before(tail).Key()], a) || len(to) != 1 {
			bad("chain", "clients do not reach the address")
		}
		if !sameVal(ps.after(p, tail), ps.before(tail)) {
			bad("chain", "an address changes the client chain")
		}
	}
	// InstantiateDst
	for _, p := range inst.paths {
		bad := bad(inst, p)
		c.Ok("server", "InstantiateDst")
		if p.How != "return" {
			bad("server", "a path ends with a %s", p.How)
			continue
		}
		failed := p.St.NilFact(p.Ret[0]) == -1
		var node flow.Val
		var anyErr, started bool
		for _, ev := range p.St.Trace {
			if !onNS(ev, "Get") && !onNS(ev, "Instantiate") || len(ev.Args) != 2 {
				continue
			}
			n, err := outcome(ev)
			if err != nil && p.St.NilFact(err) == -1 {
				anyErr = true
			}
			switch f := ps.fieldOfPtr(ev.Args[0]); {
			case f == iface:
				node = n
			case f == head || list != "" && strings.Contains(ev.Args[0].Key(), "*p0."+list+")[0]"):
				started = true
				if ev.Method != "Instantiate" {
					bad("server", "the server side becomes a dependency of whoever sets it off")
				}
			default:
				bad("server", "something else than the interface and the outermost server node is obtained")
			}
		}
		if node == nil {
			if !anyErr {
				bad("server", "what clients reach is not obtained")
			}
			continue
		}
		isAddr := (&kpath{Path: p}).cond(func(a *flow.App) bool {
			return strings.HasPrefix(a.Op, "is:") && strings.HasSuffix(a.Op, "address.Node") && sameVal(a.Args[0], node)
		})
		var last flow.Val
		for _, ev := range p.St.Trace {
			if ev.Kind == "call" && ev.Method == "GetDestination" {
				last = flow.Strip(ev.Res)
			}
		}
		there := 0
		if last != nil {
			there = -p.St.NilFact(last)
		}
		switch {
		case anyErr && !failed:
			bad("server", "a failure is not returned")
		case anyErr:
		case isAddr == 0:
			bad("server", "whether clients reach an address is not looked at")
		case isAddr == -1 && failed:
			bad("server", "an error is returned although nothing failed")
		case isAddr == -1:
		case there != 1 && !failed:
			bad("server", "success although the address may lead nowhere")
		case there == 1 && failed:
			bad("server", "an error is returned although the address has a destination")
		case there == -1 && !started:
			bad("server", "the server side of an address is not instantiated")
		}
	}
	// CreatePointer and GetPointer
	key := ""
	for _, p := range get.paths {
		if p.How != "return" {
			continue
		}
		c.Ok("pointer", "GetPointer")
		for _, ev := range p.St.Trace {
			if ev.Kind == "call" && ev.Method == "GetProperty" && len(ev.Args) == 3 && sameVal(ev.Args[0], get.args[1]) {
				key = flow.Strip(ev.Args[1]).Key()
				got := false
				for _, o := range ev.Outs {
					if sameVal(o, p.Ret[0]) {
						got = true
					}
				}
				if !got {
					bad(get, p)("pointer", "the pointer that was found is not returned")
				}
			}
		}
		if key == "" {
			bad(get, p)("pointer", "the pointer of the name is not looked up")
		}
	}
	for _, p := range create.paths {
		bad := bad(create, p)
		c.Ok("pointer", "CreatePointer")
		if p.How != "return" {
			bad("pointer", "a path ends with a %s", p.How)
			continue
		}
		a, ok := flow.Strip(p.Ret[0]).(*flow.Addr)
		if !ok || !a.Alloc {
			bad("pointer", "the pointer is not a new one")
			continue
		}
		np := ptrState{pt, a.Base}
		load := func(f string) flow.Val {
			x := np.field(f)
			x.Alloc = true
			return flow.Strip(p.St.Load(x))
		}
		name, d := create.args[1], create.args[2]
		_, to := aliases(p)
		end := load(iface)
		unique := 0
		for _, ev := range p.St.Trace {
			if ev.Kind != "call" {
				continue
			}
			if strings.HasSuffix(ev.Name, ".RequireUniqueness") && len(ev.Args) == 3 {
				unique = 1
				if !sameVal(ev.Args[1], end) || to[end.Key()] == nil || !sameVal(to[end.Key()], d) {
					bad("unique", "uniqueness is demanded of another name than the pointer's destination")
				}
				if p.St.NilFact(ev.Args[2]) == 1 {
					bad("unique", "uniqueness is demanded of nothing")
				}
				scope := flow.Strip(ev.Args[2])
				app := flow.TypeOf(scope) != nil && strings.HasSuffix(core.TypeName(core.Deref(flow.TypeOf(scope))), "ir.ApplicationNode")
				if x, ok := scope.(*flow.Addr); ok {
					app = strings.HasSuffix(core.TypeName(x.T), "ir.ApplicationNode")
				}
				asked := strings.Contains(scope.Key(), "p3[0].RequireUniqueness")
				opts := (&kpath{Path: p}).cond(func(a *flow.App) bool { return strings.Contains(a.Key(), "len(p3)") })
				if opts == 1 && !asked || opts != 1 && !app {
					bad("unique", "uniqueness is demanded for another scope than asked")
				}
			}
		}
		if unique == 0 {
			if !sameVal(end, d) {
				bad("pointer", "a new pointer does not lead to its destination")
			}
			off := false
			for _, k := range []string{"load(&*p3[0].RequireUniqueness)", "load(&g:" + ptrPkg + ".defaultPointerOpts.RequireUniqueness)"} {
				off = off || p.St.NilFact(&flow.Sym{ID: k}) == 1
			}
			if !off {
				bad("unique", "uniqueness is not demanded although it is not switched off")
			}
		}
		start := load(tail)
		if to[start.Key()] == nil || !sameVal(to[start.Key()], end) {
			bad("pointer", "the client chain of a new pointer does not lead to its destination")
		}
		if !sameVal(load(head), end) {
			bad("pointer", "the server chain of a new pointer does not start at its destination")
		}
		if list != "" {
			x := np.field(list)
			x.Alloc = true
			if f := first(p, p.St.Load(x)); f == nil || !sameVal(f, end) {
				bad("pointer", "the server side of a new pointer is not instantiated from its destination")
			}
		}
		var def *flow.Event
		set := false
		for _, ev := range p.St.Trace {
			if ev.Kind == "call" && ev.Invoke && ev.Method == "Define" && len(ev.Args) >= 3 && sameVal(ev.Args[0], name) {
				def = ev
				set = false // a definition may lose what was set before
			}
			if ev.Kind == "call" && ev.Invoke && ev.Method == "SetProperty" && len(ev.Args) == 3 && sameVal(ev.Args[0], name) && flow.Strip(ev.Args[1]).Key() == key && sameVal(ev.Args[2], a) {
				set = true
			}
		}
		if !set {
			bad("pointer", "the pointer is not found under its name")
		}
		b, ok := (*flow.Func)(nil), false
		if def != nil {
			b, ok = flow.Strip(def.Args[2]).(*flow.Func)
		}
		if !ok {
			bad("pointer", "the pointer's name gets no build function")
			continue
		}
		// its build function runs after wrappers have been added: the fields have changed by then
		st := p.St.Fork()
		for _, f := range []string{tail, iface, head, list} {
			if x := np.field(f); f != "" && x != nil {
				x.Alloc = true
				st.Store(x, &flow.Sym{ID: "later:" + f, T: x.T})
			}
		}
		e := kernelEngine(c, ptrPkg)
		inl := e.Inline
		e.Inline = func(f *ssa.Function) bool { return inl(f) && f.Name() != "InstantiateDst" }
		ns := &flow.Sym{ID: "ns", T: b.Fn.Params[0].Type()}
		st.Assume(ns, false)
		n0 := len(st.Trace)
		for _, q := range e.RunFunc(b, []flow.Val{ns}, st) {
			c.Ok("pointer", "build function")
			if q.How != "return" {
				bad("pointer", "the build function ends with a %s", q.How)
				continue
			}
			if q.St.NilFact(q.Ret[1]) == -1 {
				continue
			}
			var got, deferred *flow.Event
			for _, ev := range q.St.Trace[n0:] {
				if onNS(ev, "Get") && sameVal(ev.Recv, ns) {
					got = ev
				}
				if onNS(ev, "Defer") && sameVal(ev.Recv, ns) {
					deferred = ev
				}
			}
			if got == nil || !sameVal(got.Args[0], start) {
				bad("pointer", "clients are not given the head of the client chain")
				continue
			}
			if n, _ := outcome(got); n == nil || !sameVal(n, q.Ret[0]) {
				bad("pointer", "clients are not given what the client chain starts with")
			}
			if _, err := outcome(got); err != nil && !sameVal(err, q.Ret[1]) && q.St.NilFact(err) != 1 {
				bad("pointer", "a failure to obtain the client chain is not returned")
			}
			if deferred == nil {
				bad("server", "the server side is not instantiated after the client side")
				continue
			}
			df, ok := flow.Strip(deferred.Args[0]).(*flow.Func)
			if !ok {
				bad("server", "what is deferred cannot be followed")
				continue
			}
			st := q.St.Fork()
			n1 := len(st.Trace)
			for _, r := range e.RunFunc(df, nil, st) {
				c.Ok("server", "deferred function")
				var in *flow.Event
				for _, ev := range r.St.Trace[n1:] {
					if ev.Kind == "call" && ev.Method == "InstantiateDst" {
						in = ev
					}
				}
				if in == nil || in.Recv != nil && !sameVal(in.Recv, a) || len(in.Args) == 0 || !sameVal(in.Args[len(in.Args)-1], ns) {
					bad("server", "the deferred function does not instantiate the server side")
					continue
				}
				if r.How != "return" || !sameVal(results(in.Res)[0], r.Ret[0]) && r.St.NilFact(results(in.Res)[0]) != 1 {
					bad("server", "a failure to instantiate the server side is not returned")
				}
			}
		}
	}
}

// reaches: the value is part of the node, directly or through what it was made of.
func reaches(p *flow.Path, node flow.Val, v string, seen map[string]bool) bool {
	node = flow.Strip(node)
	if node == nil || seen[node.Key()] {
		return false
	}
	seen[node.Key()] = true
	if flow.Mentions(node, v) || p.St.Derives(node, v) {
		return true
	}
	if a, ok := node.(*flow.Addr); ok {
		for _, k := range p.St.Cells(a.Base) {
			if m := p.St.Mem[k]; m != nil && reaches(p, m, v, seen) {
				return true
			}
		}
	}
	if s, ok := node.(*flow.SliceV); ok {
		for i := int64(0); i < s.Len; i++ {
			if reaches(p, p.St.Load(s.Elem(i)), v, seen) {
				return true
			}
		}
	}
	for _, ev := range p.St.Trace {
		if ev.Kind != "call" || ev.Invoke {
			continue
		}
		mine := false
		for _, r := range append(results(ev.Res), ev.Outs...) {
			if r != nil && flow.Strip(r).Key() == node.Key() {
				mine = true
			}
		}
		if !mine {
			continue
		}
		for _, a := range ev.Args {
			if reaches(p, a, v, seen) {
				return true
			}
		}
	}
	return false
}

// sides says on which side of a call a plugin acts according to its documentation; a plugin that is
// not listed may act on either.
var sides = map[string]string{
	"plugins/clientpool": "client", "plugins/timeouts": "client", "plugins/retries": "client", "plugins/circuitbreaker": "client",
	"plugins/healthchecker": "server", "plugins/latency": "server", "plugins/faultinjector": "server",
	"plugins/opentelemetry": "client server", "plugins/govector": "client server",
	"plugins/grpc": "client server", "plugins/thrift": "client server", "plugins/http": "client server",
	"plugins/mysql": "client server", "plugins/mongodb": "client server", "plugins/redis": "client server",
	"plugins/memcached": "client server", "plugins/rabbitmq": "client server", "plugins/jaeger": "client server", "plugins/zipkin": "client server",
}

// wrapperOptions decides the plugins' use of pointers.
func wrapperOptions(c *core.Ctx) {
	told := map[string]bool{}
	for _, w := range wiringFns(c) {
		if w.Over {
			c.Fail("undecided", w.Name, w.Fn.Pos(), "the wiring option cannot be followed")
		}
		for _, p := range w.Paths {
			if p.How != "return" {
				continue
			}
			bad := func(rule, format string, a ...any) {
				if !told[w.Name+rule+format] {
					told[w.Name+rule+format] = true
					c.Fail(rule, w.Name, w.Fn.Pos(), format, a...)
					dumpPath(p)
				}
			}
			wrapperPath(c, w, p, bad)
		}
	}
}

func wrapperPath(c *core.Ctx, w *wiringFn, p *flow.Path, bad func(rule, format string, a ...any)) {
	defs := map[string]*wiringDef{}
	for _, d := range w.Defs {
		if d.Outer == p {
			defs[flow.Strip(d.Def.Args[0]).Key()] = d
		}
	}
	points := map[string]flow.Val{} // address -> what it points to
	dsts := map[string]bool{}       // what new pointers point to
	aliased := map[string]bool{}
	reported := false
	for _, ev := range p.St.Trace {
		if ev.Kind != "call" {
			continue
		}
		switch {
		case strings.HasPrefix(ev.Name, "blueprint/pkg/coreplugins/address.Define") && len(ev.Args) >= 3:
			points[flow.Strip(ev.Args[1]).Key()] = flow.Strip(ev.Args[2])
		case strings.HasPrefix(ev.Name, ptrPkg+".CreatePointer") && len(ev.Args) >= 3:
			dsts[flow.Strip(ev.Args[2]).Key()] = true
			if defs[flow.Strip(ev.Args[2]).Key()] == nil && points[flow.Strip(ev.Args[2]).Key()] == nil && !aliased[flow.Strip(ev.Args[2]).Key()] {
				bad("pointer", "a pointer is made to a name that is not defined")
			}
		case ev.Invoke && ev.Method == "Alias" && len(ev.Args) == 2:
			aliased[flow.Strip(ev.Args[0]).Key()] = true
		case ev.Invoke && ev.Method == "AddError":
			reported = true
		}
	}
	side := map[string]bool{}
	for _, ev := range p.St.Trace {
		if ev.Kind != "call" || ev.Invoke {
			continue
		}
		switch ev.Name {
		case "(*" + ptrPkg + ".PointerDef).AddSrcModifier":
			side["client"] = true
		case "(*" + ptrPkg + ".PointerDef).AddDstModifier", "(*" + ptrPkg + ".PointerDef).AddAddrModifier":
			side["server"] = true
		}
	}
	if want := sides[core.PkgOf(w.Fn)]; want != "" && len(side) > 0 {
		c.Ok("side", w.Name)
		for _, s := range []string{"client", "server"} {
			if strings.Contains(want, s) && !side[s] {
				bad("side", "nothing is added on the %s side of the calls", s)
			}
			if !strings.Contains(want, s) && side[s] {
				bad("side", "the wrapper is added on the %s side of the calls", s)
			}
		}
	}
	for _, ev := range p.St.Trace {
		if ev.Kind != "call" || ev.Invoke {
			continue
		}
		if strings.HasPrefix(ev.Name, ptrPkg+".GetPointer") && p.St.NilFact(ev.Res) == 1 {
			c.Ok("ignored", w.Name)
			if !reported {
				bad("ignored", "the option does nothing and reports nothing if the name is not one of a service")
			}
		}
		if !strings.HasPrefix(ev.Name, "(*"+ptrPkg+".PointerDef).Add") || len(ev.Args) < 2 {
			continue
		}
		name := flow.Strip(ev.Args[1])
		site := w.Name + " " + ev.Method + " " + name.Key()
		next := flow.Strip(ev.Res)
		addr := strings.HasSuffix(ev.Name, ".AddAddrModifier")
		if addr {
			a := name
			if name = points[a.Key()]; name == nil {
				bad("wrapper", "an address is added that is not defined")
				continue
			}
		}
		if p.St.NilFact(ev.Recv) == 1 {
			bad("ignored", "a wrapper is added to a pointer that is not there")
		}
		d := defs[name.Key()]
		if d == nil {
			bad("wrapper", "a wrapper is added that is not defined")
			continue
		}
		c.Ok("wrapper", site)
		if addr && dsts[name.Key()] {
			continue // the destination of a new pointer wraps nothing
		}
		if d.Over || len(d.Paths) == 0 {
			c.Fail("undecided", site, w.Fn.Pos(), "the build function of the wrapper cannot be followed")
			continue
		}
		for _, q := range d.Paths {
			if q.How != "return" {
				bad("wrapper", "the build function of a wrapper ends with a %s", q.How)
				continue
			}
			if len(q.Ret) != 2 || q.St.NilFact(q.Ret[1]) == -1 {
				continue
			}
			used := false
			for _, e := range q.St.Trace {
				if e.Kind != "call" || len(e.Args) < 1 {
					continue
				}
				at := -1
				for i, x := range e.Args {
					if sameVal(x, next) {
						at = i
					}
				}
				if at < 0 {
					continue
				}
				switch {
				case e.Invoke && (e.Method == "Get" || e.Method == "Instantiate") && at == 0:
					used = used || reaches(q, q.Ret[0], "got:"+next.Key(), map[string]bool{})
				case strings.HasPrefix(e.Name, "blueprint/pkg/coreplugins/address.Dial") && at == 1:
					if n, _ := results(e.Res)[0], 0; n != nil {
						used = used || reaches(q, q.Ret[0], flow.Strip(n).Key(), map[string]bool{})
					}
				}
			}
			c.Ok("wrapped", site)
			if !used {
				bad("wrapper", "the node of %s does not contain the next node of the chain", name.Key())
				dumpPath(q)
			}
		}
	}
}
