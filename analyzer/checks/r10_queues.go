package checks

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/core"
	"verif/analyzer/flow"
)

func init() {
	register(&Check{
		ID: "R10",
		Rules: "Every path of histories of pushes and pops with opaque items: " +
			"push: an item is in the queue exactly once when the caller is told so, and not when the caller's context ended first or there was an error; " +
			"pop: the oldest item is taken, once, and given to the caller, exactly when the caller is told so; none is taken when the caller's context ended first. " +
			"Clients of external queues, with opaque answers of the library: one message for the declared queue whose body is the encoding of the item; one delivery is decoded into the caller's variable; " +
			"a failure or a closed connection is the caller's error; what is delivered is acknowledged.",
		Run:       runR10,
		NotDecide: "Delivery by the external queue; whether JSON preserves every value.",
	})
}

type queueOps struct {
	*rt
	t             *types.Named
	mk, push, pop *ssa.Function
}

func runR10(c *core.Ctx) {
	iface := c.NamedType("runtime/core/backend", "Queue")
	if iface == nil {
		c.Fail("undecided", "runtime/core/backend.Queue", 0, "the interface is not there")
		return
	}
	n := 0
	ts, _ := runtimeTypes(c)
	for _, t := range ts {
		if t.TypeParams().Len() > 0 || !types.Implements(types.NewPointer(t), iface.Underlying().(*types.Interface)) || ownMethod(c, t, "Pop") == nil {
			continue
		}
		n++
		q := &queueOps{rt: newRT(c, core.Short(t.Obj().Pkg().Path())), t: t, push: ownMethod(c, t, "Push"), pop: ownMethod(c, t, "Pop")}
		q.mk = constructor(c, t)
		if q.mk == nil || q.push == nil {
			c.Fail("undecided", core.TypeName(t), t.Obj().Pos(), "the type has no constructor or no Push")
			continue
		}
		if external(t) {
			q.external()
		} else {
			q.local()
		}
	}
	if n < 2 {
		c.Fail("floor", "queues", 0, "%d implementations of queues were found, 2 were confirmed by reading", n)
	}
	c.Floor("push", 6)
	c.Floor("pop", 6)
}

// constructor: the exported function that makes a t, or the one it is made with.
func constructor(c *core.Ctx, t *types.Named) (mk *ssa.Function) {
	for _, f := range c.Under(core.Short(t.Obj().Pkg().Path())) {
		if f.Signature.Recv() == nil && f.Parent() == nil && strings.HasPrefix(f.Name(), "New") && f.Signature.Results().Len() > 0 && types.Identical(core.Deref(f.Signature.Results().At(0).Type()), t) {
			mk = f
		}
	}
	return
}

// done: the caller's context was seen to have ended.
func sawDone(p *flow.Path) bool { return cancelled(p) }

func (q *queueOps) local() {
	c := q.c
	st := flow.NewState()
	ctx := q.in(st, "ctx", paramType(q.mk, 0))
	var obj flow.Val
	for _, p := range q.step(st, q.mk, ctx) {
		if succeeded(p) == 1 {
			obj, st = p.Ret[0], p.St
		}
	}
	if obj == nil {
		c.Fail("undecided", core.Name(q.mk), q.mk.Pos(), "what the constructor returns is not known")
		return
	}
	type hist struct {
		st   *flow.State
		want []flow.Val
		told string
	}
	// take pops one item and follows what remains
	var drain func(h hist)
	take := func(h hist) (out []hist) {
		dst := q.in(h.st, "dst", paramType(q.pop, 2))
		took := false
		for _, p := range q.step(h.st, q.pop, obj, ctx, dst) {
			c.Ok("pop", h.told)
			cs := copies(p)
			switch got := p.St.Bool(p.Ret[0]); {
			case got == 0:
				q.bad(q.pop, p, "pop", "whether there was an item is not known")
			case got == -1:
				if !sawDone(p) && succeeded(p) != -1 && !strings.Contains(h.told, "gave up") {
					q.bad(q.pop, p, "pop", "the caller is told that there is no item although its context has not ended")
				}
				if len(cs) > 0 {
					q.bad(q.pop, p, "pop", "an item is given to the caller who is told that there is none")
				}
				out = append(out, hist{p.St, h.want, h.told + ", pop that gave up"})
			case len(h.want) == 0:
				q.bad(q.pop, p, "pop", "an item is taken from an empty queue")
			case len(cs) != 1 || !sameDyn(cs[0].Args[0], h.want[0]) || flow.Strip(cs[0].Args[1]).Key() != "dst":
				q.bad(q.pop, p, "pop", "the caller is not given the oldest item")
			case !sameVal(p.Ret[1], cs[0].Res) && !(succeeded(p) != 0 && succeeded(p) == p.St.NilFact(cs[0].Res)):
				q.bad(q.pop, p, "pop", "whether the item could be given to the caller is not what the caller is told")
			default:
				took = true
				out = append(out, hist{p.St, h.want[1:], h.told + ", pop"})
			}
		}
		if len(h.want) > 0 && !took && !strings.Contains(h.told, "gave up") {
			q.bad(q.pop, nil, "pop", "an item that is in the queue cannot be taken")
		}
		return
	}
	// drain looks at everything that the queue holds
	drain = func(h hist) {
		for _, n := range take(h) {
			if len(h.want) > 0 && len(n.want) < len(h.want) {
				drain(n)
			}
		}
	}
	put := func(h hist, id string) (out []hist) {
		v := q.in(h.st, id, paramType(q.push, 2))
		took := false
		for _, p := range q.step(h.st, q.push, obj, ctx, v) {
			c.Ok("push", h.told)
			switch got := p.St.Bool(p.Ret[0]); {
			case got == 0:
				q.bad(q.push, p, "push", "whether the item was added is not known")
			case got == -1:
				if !sawDone(p) && succeeded(p) != -1 && !strings.Contains(h.told, "gave up") {
					q.bad(q.push, p, "push", "the caller is told that the item was not added although its context has not ended")
				}
				out = append(out, hist{p.St, h.want, h.told + ", push that gave up"})
			case succeeded(p) != 1:
				q.bad(q.push, p, "push", "the item was added and there is an error")
			default:
				took = true
				out = append(out, hist{p.St, append(h.want[:len(h.want):len(h.want)], v), h.told + ", push"})
			}
		}
		if !took && !strings.Contains(h.told, "gave up") {
			q.bad(q.push, nil, "push", "no item can be added")
		}
		return
	}
	hs := []hist{{st, nil, "new"}}
	take(hs[0])
	for _, id := range []string{"v1", "v2", "v3"} {
		var next []hist
		for _, h := range hs {
			next = append(next, put(h, id)...)
		}
		seen := map[string]bool{}
		hs = nil
		for _, h := range next {
			if k := h.told; !seen[k] { // paths that only differ in which wait saw the room
				seen[k] = true
				hs = append(hs, h)
			}
		}
		for _, h := range hs {
			drain(h)
		}
	}
	// a pop between two pushes
	for _, h := range put(hist{st, nil, "new"}, "v1") {
		for _, h := range take(h) {
			for _, h := range put(h, "v2") {
				drain(h)
			}
		}
	}
}

func (q *queueOps) external() {
	c := q.c
	jsonModel := func(e *flow.Engine, st *flow.State, ev *flow.Event) ([]flow.Out, bool) {
		res := func(i int) types.Type { return ev.Call.Common().Signature().Results().At(i).Type() }
		lib := "github.com/rabbitmq/amqp091-go"
		switch {
		case ev.Name == "encoding/json.Marshal":
			return []flow.Out{
				{Res: flow.Tuple{flow.MkApp("json", res(0), ev.Args[0]), flow.NilV{}}},
				{Res: flow.Tuple{flow.NilV{}, &flow.Iface{V: kstr("error:encode"), T: types.Typ[types.String]}}},
			}, true
		case ev.Name == "encoding/json.Unmarshal" && len(ev.Args) == 2:
			ev.Name = copyResult
			return []flow.Out{{Res: st.Fresh("decode", res(0))}}, true
		case ev.Name == "(*"+lib+".Channel).PublishWithContext" || ev.Name == "(*"+lib+".Channel).Publish":
			a := ev.Args
			if len(a) == 6 {
				a = a[1:]
			}
			body := flow.Val(flow.NilV{})
			if s, ok := a[4].(*flow.Struct); ok {
				body = s.F["Body"]
			}
			ev.Name, ev.Args = "request:publish", []flow.Val{a[0], a[1], body}
			return []flow.Out{{Res: flow.NilV{}}, {Res: &flow.Iface{V: kstr("error:publish"), T: types.Typ[types.String]}}}, true
		case ev.Name == "(*"+lib+".Channel).QueueDeclare":
			// the broker names the queue as it was asked to
			return []flow.Out{
				{Res: flow.Tuple{&flow.Struct{Base: flow.Zero{T: res(0)}, F: map[string]flow.Val{"Name": ev.Args[0]}}, flow.NilV{}}},
				{Res: flow.Tuple{flow.Zero{T: res(0)}, &flow.Iface{V: kstr("error:declare"), T: types.Typ[types.String]}}},
			}, true
		}
		return nil, false
	}
	q.model = jsonModel
	st := flow.NewState()
	ctx := q.in(st, "ctx", paramType(q.mk, 0))
	var obj flow.Val
	autoAck := false
	args := []flow.Val{ctx}
	for i := 1; i < len(q.mk.Params); i++ {
		args = append(args, q.in(st, q.mk.Params[i].Name(), q.mk.Params[i].Type()))
	}
	name := args[len(args)-1]
	for _, p := range q.step(st, q.mk, args...) {
		if succeeded(p) != 1 {
			continue
		}
		obj = p.Ret[0]
		declared, consumed, dialled := false, false, false
		for _, ev := range during(p) {
			if ev.Kind != "call" {
				continue
			}
			switch ev.Method {
			case "QueueDeclare":
				declared = sameVal(ev.Args[0], name)
				if isTrue(ev.Args[3]) {
					q.bad(q.mk, p, "push", "the queue is declared for this process alone")
				}
			case "Consume", "ConsumeWithContext":
				a := ev.Args
				if core.IsContext(flow.TypeOf(a[0])) {
					a = a[1:]
				}
				consumed = sameVal(a[0], name)
				autoAck = isTrue(a[2])
				if isTrue(a[3]) {
					q.bad(q.mk, p, "pop", "other processes cannot consume from the queue")
				}
			}
			if strings.HasSuffix(ev.Name, ".Dial") || strings.HasSuffix(ev.Name, ".DialConfig") {
				dialled = flow.Mentions(ev.Args[0], args[1].Key())
			}
		}
		if !declared {
			q.bad(q.mk, p, "push", "the queue of the given name is not declared")
		}
		if !consumed {
			q.bad(q.mk, p, "pop", "what is consumed is not the declared queue")
		}
		if !dialled {
			q.bad(q.mk, p, "push", "the connection is not to the given address")
		}
		st = p.St
	}
	if obj == nil {
		c.Fail("undecided", core.Name(q.mk), q.mk.Pos(), "what the constructor returns is not known")
		return
	}
	// push
	item := q.in(st, "item", paramType(q.push, 2))
	sent := false
	for _, p := range q.step(st, q.push, obj, ctx, item) {
		c.Ok("push", core.Name(q.push))
		n, failed, encoded := 0, false, true
		for _, ev := range during(p) {
			if ev.Name == "request:publish" {
				n++
				failed = failed || p.St.NilFact(ev.Res) == -1
				body := unconv(ev.Args[2])
				a, ok := body.(*flow.App)
				if !ok || a.Op != "json" || !sameVal(a.Args[0], item) {
					q.bad(q.push, p, "push", "what is sent is not the encoding of the item")
				}
				if !sameVal(ev.Args[0], kstr("")) || !sameVal(ev.Args[1], name) {
					q.bad(q.push, p, "push", "what is sent does not go to the declared queue")
				}
			}
			if t, ok := ev.Res.(flow.Tuple); ok && ev.Name == "encoding/json.Marshal" && p.St.NilFact(t[1]) == -1 {
				encoded = false
			}
		}
		told := p.St.Bool(p.Ret[0])
		switch {
		case n > 1:
			q.bad(q.push, p, "push", "an item is sent more than once")
		case n == 1 && !failed && encoded:
			sent = true
			if told != 1 || succeeded(p) != 1 {
				q.bad(q.push, p, "push", "the item was sent and the caller is not told so")
			}
		default:
			if told != -1 || succeeded(p) != -1 {
				q.bad(q.push, p, "push", "the item was not sent and the caller is not told so")
			}
		}
	}
	if !sent {
		q.bad(q.push, nil, "push", "no item is sent")
	}
	// pop
	dst := q.in(st, "dst", paramType(q.pop, 2))
	got := false
	for _, p := range q.step(st, q.pop, obj, ctx, dst) {
		c.Ok("pop", core.Name(q.pop))
		var msgs []flow.Val
		acked, closed := autoAck, false
		for _, ev := range during(p) {
			if ev.Kind == "recv" && !strings.HasPrefix(ev.Recv.Key(), "ctx.Done") {
				v := ev.Res
				if t, ok := v.(flow.Tuple); ok {
					closed = closed || p.St.Bool(t[1]) == -1
					v = t[0]
				}
				closed = closed || ev.Closed || len(ev.Outs) == 1 && p.St.Bool(ev.Outs[0]) == -1
				msgs = append(msgs, v)
			}
			if ev.Kind == "call" && (ev.Method == "Ack" || ev.Method == "Reject" || ev.Method == "Nack") {
				acked = ev.Method == "Ack"
			}
		}
		cs := copies(p)
		told := p.St.Bool(p.Ret[0])
		switch {
		case len(msgs) > 1:
			q.bad(q.pop, p, "pop", "several messages are taken for one pop")
		case len(msgs) == 0:
			if told != -1 || len(cs) > 0 || !sawDone(p) && succeeded(p) != -1 {
				q.bad(q.pop, p, "pop", "there was no message and the caller is not told so")
			}
		case closed || told == -1:
			if told != -1 || succeeded(p) != -1 || len(cs) > 0 {
				q.bad(q.pop, p, "pop", "a closed connection is not the caller's error")
			}
			if !closed {
				q.bad(q.pop, p, "pop", "a message is taken and dropped")
			}
		default:
			if len(cs) != 1 || flow.Strip(cs[0].Args[1]).Key() != "dst" || !flow.Mentions(unconv(cs[0].Args[0]), msgs[0].Key()) || !strings.Contains(cs[0].Args[0].Key(), "Body") {
				q.bad(q.pop, p, "pop", "the caller is not given the body of the message")
				break
			}
			if told != 1 || !sameVal(p.Ret[1], cs[0].Res) && !(succeeded(p) != 0 && succeeded(p) == p.St.NilFact(cs[0].Res)) {
				q.bad(q.pop, p, "pop", "whether the item could be given to the caller is not what the caller is told")
			}
			if !acked {
				q.bad(q.pop, p, "pop", "a message that was taken is not acknowledged: it is delivered again")
			}
			if !looked(p, msgs[0]) {
				q.bad(q.pop, p, "pop", "whether the connection was closed is not looked at")
			}
			got = true
		}
	}
	if !got {
		q.bad(q.pop, nil, "pop", "no message is given to the caller")
	}
}

// looked: the path knows that the channel a message came from was open.
func looked(p *flow.Path, msg flow.Val) bool {
	for _, ev := range during(p) {
		if ev.Kind != "recv" {
			continue
		}
		if len(ev.Outs) == 1 && sameVal(ev.Res, msg) && p.St.Bool(ev.Outs[0]) == 1 {
			return true
		}
		if t, ok := ev.Res.(flow.Tuple); ok && sameVal(t[0], msg) && p.St.Bool(t[1]) == 1 {
			return true
		}
	}
	return false
}

func isTrue(v flow.Val) bool {
	c, ok := flow.Strip(v).(flow.Const)
	return ok && c.V.Kind() == constant.Bool && constant.BoolVal(c.V)
}
