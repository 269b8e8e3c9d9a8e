package checks

import (
	"go/constant"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/core"
	"verif/analyzer/flow"
)

func init() {
	register(&Check{
		ID: "R02",
		Rules: "For every combination of a definition, a command line flag and an environment variable for a required and for an optional argument, every path of building a namespace and getting the argument: " +
			"source: the value is the definition's, else the flag's, else the environment variable's of the argument's name, read after the flags are parsed; " +
			"required: the namespace is built exactly when every required argument has a value; optional: without a value, only getting the argument fails; " +
			"parent: a child namespace takes required arguments from its own definitions or those of its ancestors and fails without them.",
		Run:       runR02,
		NotDecide: "How the flag package parses a command line.",
	})
}

// argWorld is what the environment of a process holds.
type argWorld struct {
	flags, envs map[string]string
	cells       map[string]*flow.Addr
}

func (w *argWorld) model(e *flow.Engine, st *flow.State, ev *flow.Event) ([]flow.Out, bool) {
	str := func(v flow.Val) string {
		if k, ok := flow.Strip(v).(flow.Const); ok && k.V.Kind() == constant.String {
			return constant.StringVal(k.V)
		}
		return ""
	}
	switch {
	case ev.Name == "flag.String" && len(ev.Args) == 3:
		cell := st.New(core.Deref(ev.Call.Common().Signature().Results().At(0).Type()))
		return []flow.Out{{Res: cell, Set: func(s *flow.State) { s.Store(cell, ev.Args[1]); w.cells[str(ev.Args[0])] = cell }}}, true
	case ev.Name == "flag.StringVar" && len(ev.Args) == 4:
		if cell, ok := flow.Strip(ev.Args[0]).(*flow.Addr); ok {
			return []flow.Out{{Res: flow.Tuple{}, Set: func(s *flow.State) { s.Store(cell, ev.Args[2]); w.cells[str(ev.Args[1])] = cell }}}, true
		}
	case ev.Name == "flag.Parse":
		return []flow.Out{{Res: flow.Tuple{}, Set: func(s *flow.State) {
			for n, cell := range w.cells {
				if v := w.flags[n]; v != "" {
					s.Store(cell, kstr(v))
				}
			}
		}}}, true
	case ev.Name == "flag.Parsed":
		return nil, false
	case ev.Name == "os.Getenv" || ev.Name == "os.LookupEnv":
		v := ""
		if a, ok := flow.Strip(ev.Args[0]).(*flow.App); ok && a.Op == "EnvVar" {
			v = w.envs[str(a.Args[0])]
		}
		if ev.Name == "os.LookupEnv" {
			return []flow.Out{{Res: flow.Tuple{kstr(v), flow.Const{V: constant.MakeBool(v != "")}}}}, true
		}
		return []flow.Out{{Res: kstr(v)}}, true
	case ev.Name == rtNS+".EnvVar":
		return []flow.Out{{Res: flow.MkApp("EnvVar", ev.Call.Common().Signature().Results().At(0).Type(), flow.Strip(ev.Args[0]))}}, true
	}
	return nil, false
}

type argSpec struct {
	name string
	kind string // required, optional
	def  string // "", set, define
	flag string
	env  string
}

func (a argSpec) want() string {
	switch {
	case a.def == "set":
		return "defined"
	case a.def == "define":
		return "built"
	case a.flag != "":
		return a.flag
	}
	return a.env
}

func runR02(c *core.Ctx) {
	var all []argSpec
	for _, kind := range []string{"required", "optional"} {
		for _, def := range []string{"", "set", "define"} {
			for _, fl := range []string{"", "from-flag"} {
				for _, env := range []string{"", "from-env"} {
					all = append(all, argSpec{"a", kind, def, fl, env})
				}
			}
		}
	}
	for _, a := range all {
		argScenario(c, []argSpec{a})
		for _, b := range []argSpec{{"b", "required", "", "", ""}, {"b", "required", "", "flag-of-b", ""}, {"b", "optional", "", "", "env-of-b"}, {"b", "optional", "", "", ""}} {
			argScenario(c, []argSpec{a, b})
			argScenario(c, []argSpec{b, a})
		}
	}
	argParents(c)
	c.Floor("source", 100)
	c.Floor("required", 20)
	c.Floor("parent", 6)
}

func (k *rtnsCheck) args(st *flow.State, name string, specs []argSpec) (flow.Val, *flow.State) {
	req, opt := k.fn(rtNS, "NamespaceBuilder.Required"), k.fn(rtNS, "NamespaceBuilder.Optional")
	b, st := k.builder(st, name, nil, nil)
	if b == nil || req == nil || opt == nil {
		return nil, nil
	}
	do := func(fn *ssa.Function, args ...flow.Val) bool {
		ps := k.step(st, fn, args...)
		if len(ps) != 1 {
			k.c.Fail("undecided", core.Name(fn), fn.Pos(), "the builder cannot be followed")
			return false
		}
		st = ps[0].St
		return true
	}
	for _, a := range specs {
		fn := req
		if a.kind == "optional" {
			fn = opt
		}
		ok := a.kind == "" || do(fn, b, kstr(a.name), kstr("what it is"))
		switch a.def {
		case "set":
			ok = ok && do(k.set, b, kstr(a.name), kstr("defined"))
		case "define":
			ok = ok && do(k.define, b, kstr(a.name), k.in(st, "build:"+a.name, paramType(k.define, 2)))
		}
		if !ok {
			return nil, nil
		}
	}
	return b, st
}

func argScenario(c *core.Ctx, specs []argSpec) {
	k := runtimeNS(c)
	if !k.ok() {
		return
	}
	k.share = nil
	w := &argWorld{flags: map[string]string{}, envs: map[string]string{}, cells: map[string]*flow.Addr{}}
	k.model = w.model
	complete := true
	for _, a := range specs {
		w.flags[a.name], w.envs[a.name] = a.flag, a.env
		if a.kind == "required" && a.want() == "" {
			complete = false
		}
	}
	b, st := k.args(flow.NewState(), "root", specs)
	if b == nil {
		return
	}
	ctx := k.in(st, "ctx", paramType(k.build, 1))
	for _, p := range k.step(st, k.build, b, ctx) {
		c.Ok("required", core.Name(k.build))
		switch {
		case succeeded(p) == 0:
			k.bad(k.build, p, "required", "whether required arguments are missing is not looked at")
			continue
		case succeeded(p) == 1 && !complete:
			k.bad(k.build, p, "required", "the namespace is built although a required argument has no value")
			continue
		case succeeded(p) == -1 && complete:
			k.bad(k.build, p, "required", "the namespace is not built although every required argument has a value")
			continue
		case succeeded(p) == -1:
			continue
		}
		for _, a := range specs {
			k.argValue(p.St, p.Ret[0], a)
		}
	}
}

// argValue decides what getting an argument gives.
func (k *rtnsCheck) argValue(st *flow.State, n flow.Val, a argSpec) {
	recv := k.in(st, "recv", paramType(k.get, 2))
	got := false
	for _, p := range k.step(st, k.get, n, kstr(a.name), recv) {
		k.c.Ok("source", a.kind)
		cs := copies(p)
		if a.want() == "" {
			if succeeded(p) != -1 || len(cs) > 0 {
				k.bad(k.get, p, "optional", "getting an argument that has no value does not fail")
			}
			got = true
			continue
		}
		if a.def == "define" {
			bs := builds(p)
			if len(bs) != 1 || bs[0].Name != a.name {
				k.bad(k.get, p, "source", "an argument that is defined does not get its definition")
			}
			got = true
			continue
		}
		if len(cs) == 0 {
			continue
		}
		got = true
		if !sameVal(cs[0].Args[0], kstr(a.want())) {
			from := "its definition"
			switch a.want() {
			case "from-flag", "flag-of-b":
				from = "the command line"
			case "from-env", "env-of-b":
				from = "the environment"
			}
			k.bad(k.get, p, "source", "the value of an argument is not the one from %s", from)
		}
	}
	if !got {
		k.bad(k.get, nil, "source", "an argument that has a value cannot be got")
	}
}

func argParents(c *core.Ctx) {
	for _, where := range []string{"own", "parent", "grandparent", "nowhere"} {
		for _, kind := range []string{"required", "optional"} {
			k := runtimeNS(c)
			if !k.ok() {
				return
			}
			k.share = nil
			w := &argWorld{flags: map[string]string{}, envs: map[string]string{}, cells: map[string]*flow.Addr{}}
			k.model = w.model
			st := flow.NewState()
			var n flow.Val
			for i, level := range []string{"grandparent", "parent", "own"} {
				spec := argSpec{name: "a"}
				if level == where {
					spec.def = "set"
				}
				if level == "own" {
					spec.kind = kind
				}
				b, s := k.args(st, level, []argSpec{spec})
				if b == nil {
					return
				}
				fn, arg := k.buildParent, n
				if i == 0 {
					fn, arg = k.build, k.in(s, "ctx", paramType(k.build, 1))
				}
				n = nil
				for _, p := range k.step(s, fn, b, arg) {
					if succeeded(p) == 1 {
						n, st = p.Ret[0], p.St
					}
					if level != "own" {
						continue
					}
					c.Ok("parent", kind+" argument defined in "+where)
					missing := where == "nowhere" && kind == "required"
					switch {
					case succeeded(p) == 1 && missing:
						k.bad(fn, p, "parent", "a child namespace is built although a required argument is defined neither in it nor above it")
					case succeeded(p) != 1 && !missing:
						k.bad(fn, p, "parent", "a child namespace is not built although the argument is %s", strings.TrimPrefix(strings.Replace("defined in "+where, "defined in nowhere", "optional", 1), "x"))
					}
				}
				if n == nil {
					break
				}
			}
			if n == nil {
				continue
			}
			want := argSpec{name: "a", kind: kind, def: "set"}
			if where == "nowhere" {
				want.def = ""
			}
			k.argValue(st, n, want)
		}
	}
}
