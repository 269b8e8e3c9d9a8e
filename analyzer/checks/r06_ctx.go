package checks

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/core"
)

func init() {
	register(&Check{
		ID: "R06",
		Rules: "Dataflow of contexts in the runtime library: every context that a method which is given one hands to another call is the one it was given or derived from it; " +
			"a method that is given a context does not call the variant of a library operation that ignores contexts where one that takes a context exists; " +
			"a method that is given a context and waits, in a select, for a channel also waits for the end of the context, and does not wait for a channel outside a select.",
		Run:       runR06,
		NotDecide: "Whether a library honours the context it is given.",
	})
}

func runR06(c *core.Ctx) {
	for _, f := range c.Under("runtime") {
		top := core.Top(f)
		if top.Synthetic != "" || f.Synthetic != "" || f.Origin() != nil && f.Origin() != f {
			continue
		}
		ctx := ctxParam(top)
		if ctx == nil {
			continue
		}
		method := top.Signature.Recv() != nil
		async := f != top && startedByGo(f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case ssa.CallInstruction:
					ctxCall(c, f, top, x, method)
				case *ssa.Select:
					if !method || async || !x.Blocking {
						continue
					}
					c.Ok("waits", core.Name(f))
					ok := false
					for _, s := range x.States {
						ok = ok || isDone(s.Chan, map[ssa.Value]bool{})
					}
					if !ok {
						c.Fail("waits", core.Name(f), x.Pos(), "it waits for a channel without waiting for the end of the caller's context")
					}
				case *ssa.Send:
					if method && !async && !localChan(x.Chan, 0) && !putsBack(f, x.Chan) {
						c.Fail("waits", core.Name(f), x.Pos(), "it waits for room in a channel without waiting for the end of the caller's context")
					}
				case *ssa.UnOp:
					if method && !async && x.Op.String() == "<-" && !isDone(x.X, map[ssa.Value]bool{}) && !localChan(x.X, 0) {
						c.Fail("waits", core.Name(f), x.Pos(), "it waits for a channel without waiting for the end of the caller's context")
					}
				}
			}
		}
	}
	c.Floor("context", 40)
	c.Floor("variant", 60)
	c.Floor("waits", 4)
}

func ctxParam(f *ssa.Function) *ssa.Parameter {
	for _, p := range f.Params {
		if core.IsContext(p.Type()) {
			return p
		}
	}
	return nil
}

func startedByGo(f *ssa.Function) bool {
	if f.Parent() == nil {
		return false
	}
	for _, b := range f.Parent().Blocks {
		for _, in := range b.Instrs {
			if g, ok := in.(*ssa.Go); ok {
				v := g.Call.Value
				if m, ok := v.(*ssa.MakeClosure); ok {
					v = m.Fn
				}
				if v == f {
					return true
				}
			}
		}
	}
	return startedByGo(f.Parent())
}

// putsBack: the function takes from the same field what it sends.
func putsBack(f *ssa.Function, ch ssa.Value) bool {
	field := func(v ssa.Value) string {
		if u, ok := v.(*ssa.UnOp); ok {
			if a, ok := u.X.(*ssa.FieldAddr); ok {
				return core.TypeName(core.Deref(a.X.Type())) + "." + strconv.Itoa(a.Field)
			}
		}
		return ""
	}
	want := field(ch)
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Select:
				for _, s := range x.States {
					if want != "" && s.Dir == types.RecvOnly && field(s.Chan) == want {
						return true
					}
				}
			case *ssa.UnOp:
				if want != "" && x.Op.String() == "<-" && field(x.X) == want {
					return true
				}
			}
		}
	}
	return false
}

func isDone(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Call:
		if rs := returnsOf(x); len(rs) > 0 && len(seen) < 40 {
			for _, r := range rs {
				if !isDone(r, seen) {
					return false
				}
			}
			return true
		}
		return core.CalleeName(x) == "(context.Context).Done"
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !isDone(e, seen) {
				return false
			}
		}
		return true
	case *ssa.ChangeType:
		return isDone(x.X, seen)
	}
	return false
}

// returnsOf: what the function that is called can return, when it is one of the module's own.
func returnsOf(x *ssa.Call) (out []ssa.Value) {
	g := x.Call.StaticCallee()
	if g == nil || g.Blocks == nil || !strings.HasPrefix(core.PkgOf(g), strings.SplitN(core.PkgOf(x.Parent()), "/", 2)[0]) {
		return nil
	}
	for _, b := range g.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			for _, v := range r.Results {
				if _, bad := v.(*ssa.Parameter); bad {
					continue
				}
				out = append(out, v)
			}
		}
	}
	return out
}

// localChan: a channel that the function made itself.
func localChan(v ssa.Value, d int) bool {
	if d > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.MakeChan:
		return true
	case *ssa.Call:
		rs := returnsOf(x)
		for _, r := range rs {
			if !localChan(r, d+1) {
				return false
			}
		}
		return len(rs) > 0
	case *ssa.ChangeType:
		return localChan(x.X, d+1)
	case *ssa.FreeVar:
		return true
	case *ssa.UnOp:
		if a, ok := x.X.(*ssa.Alloc); ok {
			for _, r := range *a.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == a && !localChan(s.Val, d+1) {
					return false
				}
			}
			return true
		}
	}
	return false
}

// ctxOrigin: the context is the caller's, or made from it; otherwise what it is instead.
func ctxOrigin(v ssa.Value, seen map[ssa.Value]bool) string {
	if seen[v] {
		return ""
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Parameter, *ssa.FreeVar:
		return ""
	case *ssa.Const:
		return "no context"
	case *ssa.Phi:
		for _, e := range x.Edges {
			if w := ctxOrigin(e, seen); w != "" {
				return w
			}
		}
		return ""
	case *ssa.Extract:
		return ctxOrigin(x.Tuple, seen)
	case *ssa.ChangeInterface:
		return ctxOrigin(x.X, seen)
	case *ssa.MakeInterface:
		return ctxOrigin(x.X, seen)
	case *ssa.UnOp: // a variable
		if a, ok := x.X.(*ssa.Alloc); ok {
			for _, r := range *a.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == a {
					if w := ctxOrigin(s.Val, seen); w != "" {
						return w
					}
				}
			}
		}
		if _, ok := x.X.(*ssa.Global); ok {
			return "a context shared by all callers"
		}
		return ""
	case *ssa.Call:
		n := core.CalleeName(x)
		switch n {
		case "context.Background", "context.TODO":
			return n
		case "context.WithoutCancel":
			return "one that does not end with the caller's"
		}
		for _, r := range returnsOf(x) {
			if core.IsContext(r.Type()) {
				if w := ctxOrigin(r, seen); w != "" {
					return w
				}
			}
		}
		for _, a := range x.Call.Args {
			if core.IsContext(a.Type()) {
				if w := ctxOrigin(a, seen); w != "" {
					return w
				}
			}
		}
		return ""
	}
	return ""
}

func ctxCall(c *core.Ctx, f, top *ssa.Function, ci ssa.CallInstruction, method bool) {
	n := core.CalleeName(ci)
	cc := ci.Common()
	if strings.HasPrefix(n, "context.") {
		return
	}
	has := false
	for _, a := range cc.Args {
		if !core.IsContext(a.Type()) {
			continue
		}
		has = true
		c.Ok("context", core.Name(f)+" -> "+n)
		if w := ctxOrigin(a, map[ssa.Value]bool{}); w != "" {
			c.Fail("context", core.Name(f)+" -> "+n, ci.Pos(), "the call is not given the caller's context but %s: it does not end when the caller gives up", w)
		}
	}
	if has || prints(n) {
		return
	}
	if rs := cc.Signature().Results(); !method && rs.Len() > 0 {
		if _, ok := rs.At(0).Type().Underlying().(*types.Chan); ok {
			return // a constructor sets up what outlives the call
		}
	}
	// a variant that takes a context
	var recv types.Type
	if cc.IsInvoke() {
		recv = cc.Value.Type()
	} else if s := cc.StaticCallee(); s != nil && s.Signature.Recv() != nil && len(cc.Args) > 0 {
		recv = cc.Args[0].Type()
	}
	if recv == nil || core.Short(core.TypeName(core.Deref(recv))) == "" {
		return
	}
	name := core.MethodName(ci)
	c.Ok("variant", core.Name(f)+" -> "+n)
	ms := types.NewMethodSet(recv)
	for _, suffix := range []string{"Context", "WithContext", "Ctx"} {
		for i := 0; i < ms.Len(); i++ {
			m := ms.At(i).Obj()
			if m.Name() != name+suffix || !m.Exported() {
				continue
			}
			sig := m.Type().(*types.Signature)
			if sig.Params().Len() > 0 && core.IsContext(sig.Params().At(0).Type()) {
				c.Fail("variant", core.Name(f)+" -> "+n, ci.Pos(), "the call ignores the caller's context although %s exists", m.Name())
			}
		}
	}
}
