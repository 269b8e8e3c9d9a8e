package checks

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/core"
	"verif/analyzer/flow"
)

const poolPkg = "runtime/plugins/clientpool"

func runtimePool(c *core.Ctx) {
	var mk, pop, push *ssa.Function
	for _, f := range c.Under(poolPkg) {
		switch {
		case f.Parent() != nil || f.Origin() != nil && f.Origin() != f:
		case f.Name() == "NewClientPool":
			mk = f
		case f.Name() == "Pop" && f.Signature.Recv() != nil:
			pop = f
		case f.Name() == "Push" && f.Signature.Recv() != nil:
			push = f
		}
	}
	if mk == nil || pop == nil || push == nil {
		c.Fail("undecided", poolPkg, token.NoPos, "the runtime pool's functions are not there")
		return
	}
	eng := func() *flow.Engine {
		e := flow.New(c.P.SSA)
		e.MaxFork = 6
		e.Inline = func(f *ssa.Function) bool { return core.InPkg(f, poolPkg) }
		return e
	}
	const n = 3
	build := &flow.Sym{ID: "build", T: mk.Params[1].Type()}
	st := flow.NewState()
	st.Assume(build, false)
	var pool flow.Val
	var ps *flow.State
	for _, p := range eng().Run(mk, []flow.Val{flow.Const{V: constant.MakeInt64(n)}, build}, st) {
		if p.How == "return" && len(p.Ret) == 1 {
			pool, ps = flow.Strip(p.Ret[0]), p.St
		}
	}
	pa, ok := pool.(*flow.Addr)
	if !ok {
		c.Fail("undecided", core.Name(mk), mk.Pos(), "what the constructor of the pool returns is not known")
		return
	}
	// the channels of the pool
	nt, _ := core.Deref(mk.Signature.Results().At(0).Type()).(*types.Named)
	var clients string
	permits := map[string]bool{}
	su, _ := nt.Underlying().(*types.Struct)
	if su == nil {
		return
	}
	for i := 0; i < su.NumFields(); i++ {
		ct, ok := su.Field(i).Type().Underlying().(*types.Chan)
		if !ok {
			continue
		}
		ch := flow.Strip(ps.Load(&flow.Addr{Base: pa.Base + "." + su.Field(i).Name(), T: su.Field(i).Type(), Alloc: true}))
		held, size, ok := ps.ChanState(ch.Key())
		if _, isT := ct.Elem().(*types.TypeParam); isT {
			clients = ch.Key()
			if !ok || size < n {
				c.Fail("capacity", core.Name(mk), mk.Pos(), "the channel of clients does not hold as many as the pool: putting one back can block")
			}
			if len(held) != 0 {
				c.Fail("capacity", core.Name(mk), mk.Pos(), "the pool does not start empty")
			}
		} else {
			permits[ch.Key()] = true
			if len(held) != n || size < n {
				c.Fail("capacity", core.Name(mk), mk.Pos(), "a pool of %d clients starts with %d permits to make one", n, len(held))
			}
		}
	}
	if clients == "" {
		c.Fail("undecided", core.Name(mk), mk.Pos(), "the pool has no channel of clients")
		return
	}
	// Pop, whatever the channels hold and other callers do
	start := ps.Fork()
	start.OpenChans()
	for i := 0; i < su.NumFields(); i++ {
		f := su.Field(i)
		if b, ok := f.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && changes(c, nt, f.Name()) {
			start.Store(&flow.Addr{Base: pa.Base + "." + f.Name(), T: f.Type()}, &flow.Sym{ID: "count:" + f.Name(), T: f.Type()})
		}
	}
	ctx := &flow.Sym{ID: "ctx", T: pop.Params[1].Type()}
	start.Assume(ctx, false)
	seen := map[string]bool{}
	bad := func(fn *ssa.Function, rule, f string, a ...any) {
		if !seen[rule+core.Name(fn)] {
			seen[rule+core.Name(fn)] = true
			c.Fail(rule, core.Name(fn), fn.Pos(), f, a...)
		}
	}
	e := eng()
	paths := e.Run(pop, []flow.Val{pa, ctx}, start)
	if e.Over {
		c.Fail("undecided", core.Name(pop), pop.Pos(), "the function cannot be followed")
	}
	got := map[string]bool{}
	for _, p := range paths {
		c.Ok("pool-paths", core.Name(pop))
		if p.How == "cut" {
			continue
		}
		if p.How != "return" || len(p.Ret) != 2 {
			bad(pop, "pool-ends", "it ends with a %s", p.How)
			continue
		}
		var from flow.Val // the client the path holds
		permit := 0
		built, buildFailed := false, false
		var buildErr flow.Val
		for _, ev := range during(p) {
			switch {
			case ev.Kind == "recv" && ev.Recv.Key() == clients:
				if from != nil {
					bad(pop, "pool-takes", "it takes two clients")
				}
				from = ev.Res
			case ev.Kind == "recv" && permits[ev.Recv.Key()]:
				permit++
			case ev.Kind == "send" && permits[ev.Recv.Key()]:
				permit--
			case ev.Kind == "send" && ev.Recv.Key() == clients:
				if from == nil || ev.Args[0].Key() != from.Key() {
					bad(pop, "pool-takes", "it puts something into the pool")
				}
				from = nil
			case ev.Kind == "call" && strings.HasPrefix(ev.Name, "sync/atomic.CompareAndSwap"):
				if p.St.Bool(ev.Res) == 1 && len(ev.Args) == 3 {
					d, isK := lin(ev.Args[2]).plus(lin(ev.Args[1]), -1).konst()
					if isK && numEq(d, num(1)) {
						if hi, ok := bound(ev.Args[1], p.St.Conds, true); ok && constant.Compare(hi, token.LEQ, num(n)) && lessThan(p.St.Conds, ev.Args[1], num(n)) {
							permit++
						} else {
							bad(pop, "pool-capacity", "it makes a client without making sure that the pool has room")
						}
					}
				}
			case ev.Kind == "call" && (strings.HasPrefix(ev.Name, "sync/atomic.AddInt") || strings.HasPrefix(ev.Name, "(*sync/atomic.Int") && ev.Method == "Add"):
				if a, ok := flow.Strip(ev.Args[0]).(*flow.Addr); ok && built && buildFailed && !strings.HasSuffix(a.Base, ".waiting") && !strings.HasSuffix(a.Base, ".available") {
					if k, isK := lin(ev.Args[len(ev.Args)-1]).konst(); isK && numEq(k, num(-1)) {
						permit--
					}
				}
			case ev.Kind == "call" && ev.Target != nil && flow.Strip(ev.Target).Key() == "build":
				if permit != 1 {
					bad(pop, "pool-capacity", "it makes a client without a permit: the pool can exceed its capacity")
				}
				if from != nil {
					bad(pop, "pool-takes", "it makes a client although it has one")
				}
				if t, ok := ev.Res.(flow.Tuple); ok && len(t) == 2 {
					from, buildErr = t[0], t[1]
					built = true
					buildFailed = p.St.NilFact(buildErr) == -1
				}
			}
			if ev.Kind == "recv" && !ev.Poll {
				alt := false
				for _, a := range append(ev.Alts, ev.Recv.Key()) {
					if strings.HasPrefix(a, "ctx.Done(ctx") {
						alt = true
					}
				}
				if !alt {
					bad(pop, "pool-waits", "it waits for a client without waiting for the end of the context")
				}
				if len(ev.Alts) > 0 && !permits[ev.Recv.Key()] {
					has := 0
					for _, a := range ev.Alts {
						if permits[a] || a == clients {
							has++
						}
					}
					if has < 2 {
						bad(pop, "pool-waits", "while it waits for a client to come back it does not notice that one can be made again")
					}
				}
			}
		}
		err := p.St.NilFact(p.Ret[1])
		if buildErr != nil && p.Ret[1].Key() == buildErr.Key() && p.St.NilFact(buildErr) == 0 {
			bad(pop, "pool-takes", "it does not look at whether making a client failed")
		}
		switch {
		case built && buildFailed:
			got["failed"] = true
			if permit != 0 {
				bad(pop, "pool-permit", "it does not give the permit of a client that could not be made back: the pool shrinks")
			}
			if err != -1 {
				bad(pop, "pool-takes", "it may return without an error although no client could be made")
			}
		case built:
			got["built"] = true
			if permit != 1 {
				bad(pop, "pool-permit", "it gives back the permit of a client that exists: the pool can exceed its capacity")
			}
		case from != nil:
			got["reused"] = true
			if permit != 0 {
				bad(pop, "pool-permit", "it keeps a permit although it made no client")
			}
		default:
			got["none"] = true
			if permit != 0 {
				bad(pop, "pool-permit", "it keeps a permit although it made no client")
			}
			if err != -1 {
				bad(pop, "pool-takes", "it may return without an error although it has no client")
			}
			if !cancelled(p) {
				bad(pop, "pool-waits", "it gives up although the context has not ended")
			}
			continue
		}
		if built && buildFailed {
			continue
		}
		if err == -1 {
			bad(pop, "pool-takes", "it returns an error although it holds a client: the pool loses it")
		} else if from == nil || flow.Strip(p.Ret[0]).Key() != flow.Strip(from).Key() {
			bad(pop, "pool-takes", "what it returns is not the client it took")
		}
	}
	for _, k := range []string{"built", "reused", "failed", "none"} {
		if !got[k] {
			bad(pop, "pool-paths-"+k, "no path on which a client is %s", map[string]string{"built": "made", "reused": "reused", "failed": "asked for but cannot be made", "none": "not got in time"}[k])
		}
	}
	// Push
	start = ps.Fork()
	start.OpenChans()
	cl := &flow.Sym{ID: "client", T: push.Params[1].Type()}
	for _, p := range eng().Run(push, []flow.Val{pa, cl}, start) {
		c.Ok("pool-paths", core.Name(push))
		sent := 0
		for _, ev := range during(p) {
			if ev.Kind == "send" && ev.Recv.Key() == clients {
				sent++
				if flow.Strip(ev.Args[0]).Key() != "client" {
					bad(push, "pool-returns", "what it puts back is not the client it was given")
				}
			}
			if ev.Kind == "send" && permits[ev.Recv.Key()] {
				bad(push, "pool-permit", "it gives back the permit of a client that exists")
			}
		}
		if p.How != "return" || sent != 1 {
			bad(push, "pool-returns", "it puts the client back %d times", sent)
		}
	}
	// fields that are accessed atomically anywhere are accessed atomically everywhere
	atomicFields(c, poolPkg)
}

func lessThan(conds []flow.Cond, v flow.Val, k constant.Value) bool {
	for _, c := range conds {
		a, ok := c.V.(*flow.App)
		if !ok || a.Op != "<" || len(a.Args) != 2 {
			continue
		}
		d := lin(a.Args[0]).plus(lin(a.Args[1]), -1)
		if x, ok := d.plus(lin(v), -1).konst(); ok && c.B && numEq(x, constant.BinaryOp(num(0), token.SUB, k)) {
			return true
		}
		if x, ok := d.plus(lin(v), 1).konst(); ok && !c.B && numEq(x, constant.BinaryOp(k, token.SUB, num(1))) {
			return true
		}
	}
	return false
}

// changes: some method of the type writes the field or takes its address.
func changes(c *core.Ctx, nt *types.Named, field string) bool {
	for _, f := range c.Under(core.Short(nt.Obj().Pkg().Path())) {
		if f.Signature.Recv() == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || core.FieldName(fa.X, fa.Field) != field {
					continue
				}
				for _, r := range *fa.Referrers() {
					if u, isLoad := r.(*ssa.UnOp); !isLoad || u.Op != token.MUL {
						return true
					}
				}
			}
		}
	}
	return false
}

// atomicFields reports fields that some code accesses through sync/atomic and other code plainly.
func atomicFields(c *core.Ctx, pkg string) {
	type use struct {
		fn  *ssa.Function
		pos token.Pos
	}
	atomics, plain := map[string]int{}, map[string][]use{}
	for _, f := range c.Under(pkg) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				if a, ok := fa.X.(*ssa.Alloc); ok && a.Comment == "complit" {
					continue // construction
				}
				key := core.TypeName(core.Deref(fa.X.Type())) + "." + core.FieldName(fa.X, fa.Field)
				if i := strings.IndexByte(key, '['); i >= 0 {
					if j := strings.LastIndexByte(key, ']'); j > i {
						key = key[:i] + key[j+1:]
					}
				}
				for _, r := range *fa.Referrers() {
					switch y := r.(type) {
					case ssa.CallInstruction:
						if strings.HasPrefix(core.CalleeName(y), "sync/atomic.") {
							atomics[key]++
						}
					case *ssa.UnOp:
						plain[key] = append(plain[key], use{f, y.Pos()})
					case *ssa.Store:
						plain[key] = append(plain[key], use{f, y.Pos()})
					}
				}
			}
		}
	}
	for k, n := range atomics {
		if us := plain[k]; len(us) > 0 {
			c.Fail("atomic", core.Name(us[0].fn)+" "+k, us[0].pos, "it accesses %s without sync/atomic although it is accessed atomically in %d other places", k, n)
		} else {
			c.Ok("atomic", k)
		}
	}
}
