package checks

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/core"
	"verif/analyzer/flow"
)

const cacheIface = "runtime/core/backend"

func init() {
	register(&Check{
		ID: "R05",
		Rules: "In-process cache: every path of histories of operations on constant keys with opaque values: " +
			"get: gives the value last put under the key, or a miss when there is none or it was deleted; mset, mget: pair the i-th key with the i-th value, and fail without doing anything when there is not one for each; " +
			"incr: adds one to an integer of any type, starting from nothing, in one hold of the lock, and leaves other values alone. " +
			"Clients of external caches: every path of every operation with opaque keys, values and answers: " +
			"request: one request, for the caller's key and the encoding of the caller's value, that never expires; answer: a value that was found is decoded into the caller's variable, one that was not is a miss and no error, a failure is the caller's error; pairs: what is decoded into the i-th variable is the answer for the i-th key.",
		Run:       runR05,
		NotDecide: "What the external caches do with the requests; whether JSON preserves every value.",
	})
}

type cacheOps struct {
	*rt
	t                                         *types.Named
	mk, put, get, incr, del, mget, mset *ssa.Function
}

func runR05(c *core.Ctx) {
	iface := c.NamedType(cacheIface, "Cache")
	if iface == nil {
		c.Fail("undecided", cacheIface+".Cache", 0, "the interface is not there")
		return
	}
	n := 0
	types_, _ := runtimeTypes(c)
	for _, t := range types_ {
		if !types.Implements(types.NewPointer(t), iface.Underlying().(*types.Interface)) || t.TypeParams().Len() > 0 {
			continue
		}
		if ownMethod(c, t, "Get") == nil {
			continue
		}
		n++
		k := &cacheOps{rt: newRT(c, core.Short(t.Obj().Pkg().Path())), t: t}
		for name, f := range map[string]**ssa.Function{"Put": &k.put, "Get": &k.get, "Incr": &k.incr, "Delete": &k.del, "Mget": &k.mget, "Mset": &k.mset} {
			*f = ownMethod(c, t, name)
			if *f == nil {
				c.Fail("undecided", core.TypeName(t)+"."+name, t.Obj().Pos(), "the operation is not declared on the type")
				return
			}
		}
		for _, f := range c.Under(core.Short(t.Obj().Pkg().Path())) {
			if f.Signature.Recv() == nil && f.Parent() == nil && strings.HasPrefix(f.Name(), "New") && f.Signature.Results().Len() > 0 && types.Identical(core.Deref(f.Signature.Results().At(0).Type()), t) {
				k.mk = f
			}
		}
		if k.mk == nil {
			c.Fail("undecided", core.TypeName(t), t.Obj().Pos(), "the type has no constructor")
			return
		}
		k.model = reflectModel
		if external(t) {
			k.remote()
		} else {
			k.inMemory(nil)
		}
	}
	if n < 3 {
		c.Fail("floor", "caches", 0, "%d implementations of caches were found, 3 were confirmed by reading", n)
	}
	c.Floor("histories", 120)
	c.Floor("requests", 20)
}

// external: the object holds a client of a library.
func external(t *types.Named) bool {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Embedded() {
			continue
		}
		if n, ok := core.Deref(s.Field(i).Type()).(*types.Named); ok && n.Obj().Pkg() != nil && !strings.HasPrefix(n.Obj().Pkg().Path(), core.Mod) && strings.Contains(n.Obj().Pkg().Path(), ".") {
			return true
		}
	}
	return false
}

// reflectModel: the part of reflect that operates on integers of any type.
func reflectModel(e *flow.Engine, st *flow.State, ev *flow.Event) ([]flow.Out, bool) {
	one := func(v flow.Val) ([]flow.Out, bool) { return []flow.Out{{Res: v}}, true }
	var rv *flow.App
	if a, ok := ev.Recv.(*flow.App); ok && a.Op == "reflect.Value" {
		rv = a
	}
	res := func() types.Type { return ev.Call.Common().Signature().Results().At(0).Type() }
	intType := func(v flow.Val) int {
		t := flow.TypeOf(v)
		if i, ok := v.(*flow.Iface); ok && i.T != nil {
			t = i.T
		}
		if t == nil || types.IsInterface(t) {
			return 0
		}
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0 {
			return 1
		}
		return -1
	}
	switch {
	case ev.Name == "reflect.ValueOf" && len(ev.Args) == 1:
		return one(flow.MkApp("reflect.Value", res(), ev.Args[0]))
	case rv == nil:
	case ev.Method == "CanInt":
		if k := intType(rv.Args[0]); k != 0 {
			return one(flow.Const{V: constant.MakeBool(k == 1)})
		}
		return one(flow.MkApp("CanInt", types.Typ[types.Bool], rv.Args[0]))
	case ev.Method == "Int":
		return one(flow.Strip(rv.Args[0]))
	case ev.Method == "Type":
		return one(flow.MkApp("reflect.Type", res(), rv.Args[0]))
	case ev.Method == "Convert":
		if t, ok := ev.Args[0].(*flow.App); ok && t.Op == "reflect.Type" {
			if i, ok := t.Args[0].(*flow.Iface); ok && i.T != nil {
				return one(flow.MkApp("reflect.Value", res(), &flow.Iface{V: flow.Strip(rv.Args[0]), T: i.T}))
			}
		}
	case ev.Method == "Interface":
		return one(rv.Args[0])
	}
	return nil, false
}

// hist is a state of the cache and the keys it is expected to hold.
type cacheHist struct {
	st   *flow.State
	want map[string]flow.Val
}

func (k *cacheOps) inMemory(r *remoteCache) {
	c := k.c
	st := flow.NewState()
	ctx := k.in(st, "ctx", paramType(k.put, 1))
	var obj flow.Val
	args := []flow.Val{ctx}
	if r != nil {
		r.start(st)
		addr := k.in(st, "addr", types.Typ[types.String])
		args = append(args, addr)
	}
	for _, p := range k.step(st, k.mk, args...) {
		if r != nil {
			k.connects(p)
		}
		if succeeded(p) == 1 {
			obj, st = p.Ret[0], p.St
		}
	}
	if obj == nil {
		c.Fail("undecided", core.Name(k.mk), k.mk.Pos(), "what the constructor returns is not known")
		return
	}
	anyT := paramType(k.put, 3)
	v := func(id string) flow.Val { return k.in(st, id, anyT) }
	strT := paramType(k.put, 2)
	_ = strT
	// slices of keys and values
	list := func(s *flow.State, et types.Type, vs ...flow.Val) flow.Val {
		l := s.NewSlice(et, int64(len(vs)))
		for i, x := range vs {
			s.Store(l.Elem(int64(i)), x)
		}
		return l
	}
	check := func(h *flow.State, want map[string]flow.Val, after string) {
		for _, key := range []string{"a", "b", "c"} {
			dst := k.in(h, "dst", anyT)
			for _, p := range k.step(h, k.get, obj, ctx, kstr(key), dst) {
				c.Ok("histories", after+", get")
				cs := copies(p)
				w, has := want[key]
				switch {
				case !has && (len(cs) > 0 || p.St.Bool(p.Ret[0]) != -1 || succeeded(p) != 1):
					k.bad(k.get, p, "get", "%s, getting a key that holds nothing is no miss", after)
				case has && (len(cs) != 1 || !sameDyn(cs[0].Args[0], w) || flow.Strip(cs[0].Args[1]).Key() != "dst"):
					k.bad(k.get, p, "get", "%s, getting a key does not give the value it holds", after)
				case has && p.St.Bool(p.Ret[0]) != 1:
					k.bad(k.get, p, "get", "%s, getting a key that holds a value is a miss", after)
				case has && !sameVal(p.Ret[1], cs[0].Res) && !(succeeded(p) != 0 && succeeded(p) == p.St.NilFact(cs[0].Res)):
					k.bad(k.get, p, "get", "whether the value could be given to the caller is not what the caller is told")
				}
			}
		}
	}
	must := func(h *flow.State, fn *ssa.Function, after string, args ...flow.Val) *flow.State {
		var out *flow.State
		for _, p := range k.step(h, fn, append([]flow.Val{obj, ctx}, args...)...) {
			if s := succeeded(p); s != 1 {
				k.bad(fn, p, "get", "%s, the operation fails", after)
				continue
			}
			out = p.St
		}
		if out == nil {
			out = h
		}
		return out
	}
	m := func(kv ...any) map[string]flow.Val {
		out := map[string]flow.Val{}
		for i := 0; i < len(kv); i += 2 {
			out[kv[i].(string)] = kv[i+1].(flow.Val)
		}
		return out
	}
	v1, v2 := v("v1"), v("v2")
	check(st, m(), "after nothing")
	s1 := must(st, k.put, "after nothing", kstr("a"), v1)
	check(s1, m("a", v1), "after a put")
	s2 := must(s1, k.put, "after a put", kstr("b"), v2)
	check(s2, m("a", v1, "b", v2), "after puts of two keys")
	s3 := must(s2, k.put, "after puts of two keys", kstr("a"), v2)
	check(s3, m("a", v2, "b", v2), "after a second put of a key")
	s4 := must(s2, k.del, "after puts", kstr("a"))
	check(s4, m("b", v2), "after a delete")
	s5 := must(s2, k.del, "after puts", kstr("c"))
	check(s5, m("a", v1, "b", v2), "after a delete of a key that holds nothing")
	// mset
	keysT, valsT := sliceElem(paramType(k.mset, 2)), sliceElem(paramType(k.mset, 3))
	keys := func(s *flow.State, ks ...string) flow.Val {
		var vs []flow.Val
		for _, x := range ks {
			vs = append(vs, kstr(x))
		}
		return list(s, keysT, vs...)
	}
	s6 := st.Fork()
	s6 = must(s6, k.mset, "after nothing", keys(s6, "a", "c"), list(s6, valsT, v1, v2))
	check(s6, m("a", v1, "c", v2), "after an mset")
	s7 := s2.Fork()
	s7 = must(s7, k.mset, "after puts", keys(s7), list(s7, valsT))
	check(s7, m("a", v1, "b", v2), "after an mset of nothing")
	for _, n := range [][2]int{{2, 1}, {1, 2}, {1, 0}, {0, 1}} {
		s := st.Fork()
		names, vals := []string{"a", "b"}, []flow.Val{v1, v2}
		for _, p := range k.step(s, k.mset, obj, ctx, keys(s, names[:n[0]]...), list(s, valsT, vals[:n[1]]...)) {
			c.Ok("histories", "mset of different lengths")
			if succeeded(p) != -1 {
				k.bad(k.mset, p, "mset", "storing %d keys with %d values does not fail", n[0], n[1])
			}
			check(p.St, m(), "after an mset that failed")
		}
		for _, p := range k.step(s2, k.mget, obj, ctx, keys(s2, names[:n[0]]...), list(s2, valsT, vals[:n[1]]...)) {
			c.Ok("histories", "mget of different lengths")
			if succeeded(p) != -1 || len(copies(p)) > 0 {
				k.bad(k.mget, p, "mget", "getting %d keys into %d variables does not fail", n[0], n[1])
			}
		}
	}
	// mget
	full := false
	d1, d2, d3 := v("d1"), v("d2"), v("d3")
	for _, p := range k.step(s2, k.mget, obj, ctx, keys(s2, "b", "c", "a"), list(s2, valsT, d1, d2, d3)) {
		c.Ok("histories", "mget")
		failed := false
		var got []string
		for _, e := range copies(p) {
			got = append(got, flow.Strip(e.Args[0]).Key()+">"+flow.Strip(e.Args[1]).Key())
			failed = failed || p.St.NilFact(e.Res) == -1
		}
		g := strings.Join(got, " ")
		switch {
		case failed:
			if succeeded(p) != -1 {
				k.bad(k.mget, p, "mget", "a value cannot be given to the caller and the caller is not told")
			}
		case succeeded(p) == 0:
			k.bad(k.mget, p, "mget", "whether a value could be given to the caller is not looked at")
		case succeeded(p) == -1:
			k.bad(k.mget, p, "mget", "getting a key that holds nothing fails")
		case g != "v2>d1 v1>d3" && g != "v1>d3 v2>d1":
			k.bad(k.mget, p, "mget", "getting several keys does not give each variable the value of its own key")
		default:
			full = true
		}
	}
	if !full {
		k.bad(k.mget, nil, "mget", "several keys cannot be got")
	}
	k.incrs(st, obj, ctx, check, must)
	if r != nil {
		r.failures(st, obj, ctx, keys, func(s *flow.State, vs ...flow.Val) flow.Val { return list(s, valsT, vs...) }, v1, v2)
	}
}

// connects: the client is made for the address the caller gave.
func (k *cacheOps) connects(p *flow.Path) {
	n := 0
	for _, ev := range during(p) {
		if ev.Kind != "call" || !strings.HasSuffix(ev.Name, "memcache.New") && !strings.HasSuffix(ev.Name, "redis/v8.NewClient") {
			continue
		}
		n++
		ok := false
		for _, a := range ev.Args {
			ok = ok || a.Key() == "addr"
		}
		if !ok {
			k.bad(k.mk, p, "requests", "the client is not made for the address it is given")
		}
	}
	if n != 1 {
		k.bad(k.mk, p, "undecided", "the client is not made once")
	}
}

func sliceElem(t types.Type) types.Type {
	if s, ok := t.Underlying().(*types.Slice); ok {
		return s.Elem()
	}
	return t
}

// sameDyn: the same value with the same dynamic type.
func sameDyn(a, b flow.Val) bool {
	if !sameVal(a, b) {
		return false
	}
	x, ok := a.(*flow.Iface)
	y, ok2 := b.(*flow.Iface)
	return !ok || !ok2 || x.T == nil || y.T == nil || types.Identical(x.T, y.T)
}

func (k *cacheOps) incrs(st *flow.State, obj, ctx flow.Val, check func(*flow.State, map[string]flow.Val, string), must func(*flow.State, *ssa.Function, string, ...flow.Val) *flow.State) {
	c := k.c
	as := func(n int64, t types.Type) flow.Val { return &flow.Iface{V: kint(n), T: t} }
	run := func(s *flow.State, want int64, after string) *flow.State {
		var out *flow.State
		for _, p := range k.step(s, k.incr, obj, ctx, kstr("a")) {
			c.Ok("histories", "incr "+after)
			if succeeded(p) != 1 {
				k.bad(k.incr, p, "incr", "%s, incrementing fails", after)
				continue
			}
			if !sameVal(p.Ret[0], kint(want)) {
				k.bad(k.incr, p, "incr", "%s, incrementing does not give one more", after)
			}
			k.oneHold(p)
			out = p.St
		}
		return out
	}
	if s := run(st, 1, "after nothing"); s != nil {
		check(s, map[string]flow.Val{"a": as(1, types.Typ[types.Int64])}, "after an incr")
		if s := run(s, 2, "after an incr"); s != nil {
			check(s, map[string]flow.Val{"a": as(2, types.Typ[types.Int64])}, "after two incrs")
		}
	}
	for _, t := range []types.Type{types.Typ[types.Int64], types.Typ[types.Int], types.Typ[types.Int32]} {
		s := must(st, k.put, "after nothing", kstr("a"), as(41, t))
		if s := run(s, 42, "after a put of an "+t.String()); s != nil {
			check(s, map[string]flow.Val{"a": as(42, t)}, "after an incr of an "+t.String())
		}
	}
	str := &flow.Iface{V: kstr("text"), T: types.Typ[types.String]}
	s := must(st, k.put, "after nothing", kstr("a"), str)
	for _, p := range k.step(s, k.incr, obj, ctx, kstr("a")) {
		if succeeded(p) != -1 {
			k.bad(k.incr, p, "incr", "incrementing what is no number does not fail")
		}
		check(p.St, map[string]flow.Val{"a": str}, "after an incr that failed")
	}
}

// oneHold: what is read and what is written in its place are in one hold of a lock.
func (k *cacheOps) oneHold(p *flow.Path) {
	set := false
	for _, ev := range during(p) {
		if ev.Kind == "call" && ev.Name == "request:set" {
			k.bad(k.incr, p, "incr", "the counter is written by a request of its own: increments get lost")
		}
		if ev.Kind == "mapset" {
			set = true
			if len(ev.Locks) == 0 {
				k.bad(k.incr, p, "incr", "the counter is written without a lock")
			}
		}
		if unlocks(ev) && !set && !external(k.t) {
			k.bad(k.incr, p, "incr", "the lock is given up between reading the counter and writing it: increments get lost")
		}
	}
}
