package checks

import (
	"fmt"
	"os"
	"go/constant"
	"go/types"
	"strconv"
	"strings"

	"verif/analyzer/core"
	"verif/analyzer/flow"
)

// A client of an external cache is followed against a model of what the service does with the
// requests: the same histories must then give the same results as for the in-process cache.

const remoteMiss, remoteExists, remoteRefused = "error:miss", "error:exists", "error:refused"

type remoteCache struct {
	k    *cacheOps
	fail string // the key whose requests fail
	seen map[string]bool
	cmds map[string]*flow.App
}

// unconv removes conversions between strings and bytes.
func unconv(v flow.Val) flow.Val {
	for {
		v = flow.Strip(v)
		a, ok := v.(*flow.App)
		if !ok || !strings.HasPrefix(a.Op, "conv:") || len(a.Args) != 1 {
			return v
		}
		v = a.Args[0]
	}
}

func (k *cacheOps) remote() {
	r := &remoteCache{k: k, seen: map[string]bool{}, cmds: map[string]*flow.App{}}
	base := k.model
	k.model = func(e *flow.Engine, st *flow.State, ev *flow.Event) ([]flow.Out, bool) {
		if o, ok := r.serve(st, ev); ok {
			return o, true
		}
		return base(e, st, ev)
	}
	k.inMemory(r)
	for _, req := range []string{"get", "set", "incr", "del"} {
		k.c.Ok("requests", core.TypeName(k.t)+" "+req)
		if !r.seen[req] {
			k.c.Fail("undecided", core.TypeName(k.t), k.t.Obj().Pos(), "no request of the kind %q was recognised", req)
		}
	}
}

// data is the content of the service.
func (r *remoteCache) data(st *flow.State) flow.Val { return flow.MkApp("make", nil, &flow.Sym{ID: "remote"}) }

func (r *remoteCache) errv(s string) flow.Val {
	if s == "" {
		return flow.NilV{}
	}
	return &flow.Iface{V: kstr(s), T: types.Typ[types.String]}
}

func (r *remoteCache) lookup(st *flow.State, key flow.Val) (flow.Val, bool) {
	ks, vs, _ := st.MapEntries(r.data(st))
	for i, k := range ks {
		if sameVal(k, key) {
			return vs[i], true
		}
	}
	return nil, false
}

func (r *remoteCache) key(v flow.Val) string {
	if c, ok := unconv(v).(flow.Const); ok && c.V.Kind() == constant.String {
		return constant.StringVal(c.V)
	}
	return "?"
}

// plus: what the service makes of a number it holds.
func plus(v flow.Val, n int64) (flow.Val, int64, bool) {
	x := unconv(v)
	if a, ok := x.(*flow.App); ok && a.Op == "json" {
		x = flow.Strip(a.Args[0])
	}
	c, ok := x.(flow.Const)
	if !ok {
		return nil, 0, false
	}
	var i int64
	switch c.V.Kind() {
	case constant.Int:
		i, _ = constant.Int64Val(c.V)
	case constant.String:
		if _, isJSON := unconv(v).(*flow.App); isJSON {
			return nil, 0, false
		}
		var err error
		if i, err = strconv.ParseInt(constant.StringVal(c.V), 10, 64); err != nil {
			return nil, 0, false
		}
	default:
		return nil, 0, false
	}
	return flow.MkApp("json", nil, kint(i+n)), i + n, true
}

// decoded: the value that bytes were made from.
func decoded(v flow.Val) (flow.Val, bool) {
	switch x := unconv(v).(type) {
	case *flow.App:
		if x.Op == "json" {
			return x.Args[0], true
		}
	case flow.Const:
		if x.V.Kind() == constant.String {
			if i, err := strconv.ParseInt(constant.StringVal(x.V), 10, 64); err == nil {
				return kint(i), true
			}
		}
	}
	return nil, false
}

// command: the result of a request, or the part of it that a promoted method is called on.
func (r *remoteCache) command(v flow.Val) *flow.App {
	switch x := flow.Strip(v).(type) {
	case *flow.App:
		if x.Op == "cmd" {
			return x
		}
	case *flow.Addr:
		for k, a := range r.cmds {
			if x.Base == "*"+k || strings.HasPrefix(x.Base, "*"+k+".") {
				return a
			}
		}
	}
	return nil
}

func (r *remoteCache) serve(st *flow.State, ev *flow.Event) ([]flow.Out, bool) {
	one := func(v flow.Val) ([]flow.Out, bool) { return []flow.Out{{Res: v}}, true }
	res := func(i int) types.Type {
		rs := ev.Call.Common().Signature().Results()
		if i < rs.Len() {
			return rs.At(i).Type()
		}
		return nil
	}
	if ev.Call == nil {
		return nil, false
	}
	switch {
	case ev.Name == "encoding/json.Marshal":
		return one(flow.Tuple{flow.MkApp("json", res(0), ev.Args[0]), flow.NilV{}})
	case ev.Name == "encoding/json.Unmarshal" && len(ev.Args) == 2:
		if v, ok := decoded(ev.Args[0]); ok {
			ev.Name, ev.Args = copyResult, []flow.Val{v, ev.Args[1]}
			return one(st.Fresh("decode", res(0)))
		}
	case ev.Name == "errors.Is" && len(ev.Args) == 2:
		return one(flow.Const{V: constant.MakeBool(sameVal(ev.Args[0], ev.Args[1]))})
	}
	if a := r.command(ev.Recv); a != nil {
		switch ev.Method {
		case "Result", "Bytes":
			return one(flow.Tuple{a.Args[0], a.Args[1]})
		case "Err":
			return one(a.Args[1])
		case "Val":
			return one(a.Args[0])
		}
		return nil, false
	}
	op := ""
	switch {
	case strings.HasSuffix(ev.Name, "redis/v8.NewClient") && len(ev.Args) == 1:
		if x, ok := flow.Strip(ev.Args[0]).(*flow.Addr); ok {
			ev.Args = []flow.Val{st.Load(&flow.Addr{Base: x.Base + ".Addr", T: types.Typ[types.String], Alloc: x.Alloc})}
			return one(st.Fresh("client", res(0)))
		}
		return nil, false
	case strings.HasPrefix(ev.Name, "(github.com/go-redis/redis/v8.cmdable)."), strings.HasPrefix(ev.Name, "(*github.com/go-redis/redis/v8.Client)."):
		op = "redis." + ev.Method
	case strings.HasPrefix(ev.Name, "(*github.com/bradfitz/gomemcache/memcache.Client)."):
		op = "memcache." + ev.Method
	default:
		return nil, false
	}
	args := st.Flat(ev.Args)
	if len(args) > 0 && strings.HasPrefix(op, "redis.") {
		args = args[1:] // the context
	}
	refused := func(keys ...flow.Val) bool {
		for _, k := range keys {
			if n := r.key(k); n != "a" && n != "b" && n != "c" {
				r.k.bad(ev.Fn, nil, "requests", "a request is for a key that is not the caller's")
			}
			if r.fail != "" && (r.fail == "*" || r.key(k) == r.fail) {
				return true
			}
		}
		return false
	}
	// answer of the library: a command with a result and an error, or the two themselves
	answer := func(v flow.Val, err string) ([]flow.Out, bool) {
		if strings.HasPrefix(op, "redis.") {
			if err == remoteMiss {
				err = "redis: nil"
			}
			a := flow.MkApp("cmd", res(0), v, r.errv(err), st.Fresh("request", res(0)))
			r.cmds[a.Key()] = a
			return one(a)
		}
		if res(1) == nil {
			return one(r.errv(err))
		}
		return one(flow.Tuple{v, r.errv(err)})
	}
	set := func(key, v, ttl flow.Val) {
		r.seen["set"] = true
		if c, ok := unconv(ttl).(flow.Const); !ok || constant.Sign(c.V) != 0 {
			r.k.bad(ev.Fn, nil, "requests", "what is stored expires")
		}
		st.MapSet(r.data(st), key, unconv(v))
	}
	get := func(key flow.Val) (flow.Val, string) {
		r.seen["get"] = true
		if v, ok := r.lookup(st, key); ok {
			return v, ""
		}
		return flow.Const{V: constant.MakeString("")}, remoteMiss
	}
	del := func(key flow.Val) {
		r.seen["del"] = true
		ks, vs, _ := st.MapEntries(r.data(st))
		m := r.data(st)
		st.ResetMap(m)
		for i, k := range ks {
			if !sameVal(k, key) {
				st.MapSet(m, k, vs[i])
			}
		}
	}
	// the fields of an item
	item := func(v flow.Val) (key, val, ttl flow.Val) {
		a, ok := flow.Strip(v).(*flow.Addr)
		if !ok {
			return nil, nil, nil
		}
		f := func(n string) flow.Val { return st.Load(&flow.Addr{Base: a.Base + "." + n, T: fieldType(a.T, n), Alloc: a.Alloc}) }
		return f("Key"), f("Value"), f("Expiration")
	}
	switch op {
	case "redis.Set":
		if refused(args[0]) {
			return answer(kstr(""), remoteRefused)
		}
		ev.Name = "request:set"
		set(args[0], args[1], args[2])
		return answer(kstr("OK"), "")
	case "redis.Get":
		if refused(args[0]) {
			return answer(kstr(""), remoteRefused)
		}
		ev.Name = "request:get"
		return answer(get(args[0]))
	case "redis.Del":
		if refused(args...) {
			return answer(kint(0), remoteRefused)
		}
		for _, a := range args {
			del(a)
		}
		return answer(kint(1), "")
	case "redis.Incr", "redis.IncrBy", "memcache.Increment":
		n := int64(1)
		if len(args) > 1 {
			c, ok := unconv(args[1]).(flow.Const)
			if !ok {
				break
			}
			n, _ = constant.Int64Val(c.V)
		}
		r.seen["incr"] = true
		if refused(args[0]) {
			return answer(kint(0), remoteRefused)
		}
		v, ok := r.lookup(st, args[0])
		if !ok && op == "memcache.Increment" {
			return answer(kint(0), remoteMiss)
		}
		if !ok {
			v = kstr("0")
		}
		nv, i, isNum := plus(v, n)
		if !isNum {
			return answer(kint(0), remoteRefused)
		}
		st.MapSet(r.data(st), args[0], nv)
		return answer(kint(i), "")
	case "redis.MGet":
		if len(args) == 0 || refused(args...) {
			return answer(flow.NilV{}, remoteRefused)
		}
		s := st.NewSlice(types.NewInterfaceType(nil, nil), int64(len(args)))
		for i, a := range args {
			var v flow.Val = flow.NilV{}
			if x, miss := get(a); miss == "" {
				v = &flow.Iface{V: x, T: types.Typ[types.String]}
			}
			st.Store(s.Elem(int64(i)), v)
		}
		return answer(s, "")
	case "redis.MSet":
		var keys, vals []flow.Val
		if len(args) == 1 {
			ks, vs, known := st.MapEntries(args[0])
			if !known {
				break
			}
			keys, vals = ks, vs
		} else {
			for i := 0; i+1 < len(args); i += 2 {
				keys, vals = append(keys, args[i]), append(vals, args[i+1])
			}
		}
		if len(keys) == 0 || refused(keys...) {
			return answer(kstr(""), remoteRefused)
		}
		for i := range keys {
			set(keys[i], vals[i], kint(0))
		}
		return answer(kstr("OK"), "")
	case "memcache.Set", "memcache.Add":
		key, v, ttl := item(args[0])
		if key == nil {
			break
		}
		if refused(key) {
			return answer(nil, remoteRefused)
		}
		if op == "memcache.Add" {
			if _, ok := r.lookup(st, key); ok {
				return answer(nil, remoteExists)
			}
		} else {
			ev.Name = "request:set"
		}
		set(key, v, ttl)
		return answer(nil, "")
	case "memcache.Get":
		if refused(args[0]) {
			return answer(flow.NilV{}, remoteRefused)
		}
		ev.Name = "request:get"
		v, miss := get(args[0])
		if miss != "" {
			return answer(flow.NilV{}, miss)
		}
		return answer(r.item(st, res(0), args[0], v), "")
	case "memcache.GetMulti":
		m := st.NewMap(res(0))
		for _, key := range args { // the elements of a list are flattened
			if refused(key) {
				return answer(flow.NilV{}, remoteRefused)
			}
			if v, miss := get(key); miss == "" {
				st.MapSet(m, key, r.item(st, res(0).Underlying().(*types.Map).Elem(), key, v))
			}
		}
		return answer(m, "")
	case "memcache.Delete":
		if refused(args[0]) {
			return answer(nil, remoteRefused)
		}
		if _, ok := r.lookup(st, args[0]); !ok {
			return answer(nil, remoteMiss)
		}
		del(args[0])
		return answer(nil, "")
	}
	r.k.bad(ev.Fn, nil, "undecided", "the request %s is not understood", op)
	if os.Getenv("KDUMP") != "" {
		fmt.Printf("%s %#v\n", op, args)
	}
	return nil, false
}

func (r *remoteCache) item(st *flow.State, t types.Type, key, v flow.Val) flow.Val {
	a := st.New(core.Deref(t))
	f := func(n string) *flow.Addr { return &flow.Addr{Base: a.Base + "." + n, T: fieldType(a.T, n), Alloc: true} }
	st.Store(f("Key"), key)
	st.Store(f("Value"), v)
	return a
}

// start is the state in which nothing was stored.
func (r *remoteCache) start(st *flow.State) {
	st.ResetMap(r.data(st))
	for g, v := range map[string]string{"ErrCacheMiss": remoteMiss, "ErrNotStored": remoteExists, "ErrCASConflict": "error:cas", "ErrServerError": remoteRefused, "ErrNoServers": "error:none", "ErrMalformedKey": "error:key", "ErrNoStats": "error:stats"} {
		st.Store(&flow.Addr{Base: "g:github.com/bradfitz/gomemcache/memcache." + g}, r.errv(v))
	}
}

// failures: a request that fails is the caller's error.
func (r *remoteCache) failures(st *flow.State, obj, ctx flow.Val, keys func(*flow.State, ...string) flow.Val, vals func(*flow.State, ...flow.Val) flow.Val, v1, v2 flow.Val) {
	k := r.k
	r.fail = "b"
	defer func() { r.fail = "" }()
	run := func(fn string, key bool, args ...flow.Val) {
		f := ownMethod(k.c, k.t, fn)
		for _, p := range k.step(st, f, append([]flow.Val{obj, ctx}, args...)...) {
			k.c.Ok("requests", core.Name(f)+" refused")
			if succeeded(p) != -1 {
				k.bad(f, p, "requests", "a request fails and the caller is not told")
			}
			if len(p.Ret) == 2 && p.St.Bool(p.Ret[0]) == 1 && fn == "Get" {
				k.bad(f, p, "requests", "a request fails and the caller is told there is a value")
			}
		}
	}
	run("Put", true, kstr("b"), v1)
	run("Get", true, kstr("b"), v1)
	run("Incr", true, kstr("b"))
	run("Delete", true, kstr("b"))
	for _, ks := range [][]string{{"a", "b"}, {"b", "a"}} {
		st = st.Fork()
		run("Mset", false, keys(st, ks...), vals(st, v1, v2))
		run("Mget", false, keys(st, ks...), vals(st, v1, v2))
	}
}
