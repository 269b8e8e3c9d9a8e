package checks

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/core"
	"verif/analyzer/flow"
)

func init() {
	register(&Check{
		ID: "C08",
		Rules: "Every path of the programs that a list of wiring specs makes (with and without analysis passes), for two specs, two passes, every way to give or leave out a flag, and every failing step: " +
			"refuses: without an output directory, without a spec, with a spec that does not exist or a port that is none, the program says so by its exit code and does nothing else; " +
			"builds: the selected spec and no other is built, once, with a wiring spec of the application's name; all that it asked for is made into the application; the passes see that application, each once and in order, before it is generated, once, into the directory that was given; " +
			"builders: by then the builders of processes, containers and deployments are registered, and the ports are assigned from the given one if the flag says so and not otherwise; " +
			"fails: when a step fails nothing comes after it and the exit code says so; a program that says it succeeded did everything.",
		Run:       runC08,
		NotDecide: "What a pass does to the application; the text of the help.",
	})
}

type cmdFlags struct {
	o, w       string
	env, quiet bool
	port       uint64
}

func (f cmdFlags) String() string {
	return fmt.Sprintf("-o %q -w %q -env=%t -quiet=%t -port %d", f.o, f.w, f.env, f.quiet, f.port)
}

type cmdEnd struct {
	trace []*flow.Event
	code  int64 // 0: returns
	known bool
	p     *flow.Path
}

func runC08(c *core.Ctx) {
	pkg := "plugins/cmdbuilder"
	r := newRT(c, pkg)
	r.fork = 3
	r.inl = func(f *ssa.Function) bool { return f.Name() != "List" }
	var flags []cmdFlags
	for _, w := range []string{"alpha", "beta", "gamma", ""} {
		for _, o := range []string{"/out", ""} {
			for _, env := range []bool{true, false} {
				flags = append(flags, cmdFlags{o, w, env, false, 12345})
			}
		}
	}
	for _, p := range []uint64{0, 1, 8080, 65535, 65536, 65536 + 8080, 1 << 32} {
		flags = append(flags, cmdFlags{"/out", "alpha", true, true, p})
	}
	n := 0
	for _, fn := range c.Under(pkg) {
		if fn.Signature.Recv() != nil || fn.Parent() != nil || fn.Object() == nil || !fn.Object().Exported() {
			continue
		}
		sig := fn.Signature
		if !sig.Variadic() || sig.Results().Len() != 0 || core.TypeName(elemOf(paramType(fn, len(fn.Params)-1))) != pkg+".SpecOption" {
			continue
		}
		n++
		for _, f := range flags {
			c08Run(c, r, fn, f)
		}
	}
	c.Floor("refuses", 10)
	c.Floor("builds", 40)
	c.Floor("builders", 20)
	c.Floor("fails", 40)
	if n < 2 {
		c.Fail("undecided", pkg, 0, "there are %d functions that make a program of a list of specs, not 2", n)
	}
}

func elemOf(t types.Type) types.Type {
	if s, ok := t.Underlying().(*types.Slice); ok {
		return s.Elem()
	}
	return t
}

func c08Run(c *core.Ctx, r *rt, fn *ssa.Function, f cmdFlags) {
	site := core.Name(fn)
	st := flow.NewState()
	var args []flow.Val
	var passes []flow.Val
	for _, p := range fn.Params {
		t := p.Type()
		el := elemOf(t)
		switch {
		case types.Identical(t.Underlying(), types.Typ[types.String]):
			args = append(args, kstr("app"))
		case core.TypeName(el) == "plugins/cmdbuilder.SpecOption":
			s := st.NewSlice(el, 2)
			for i, name := range []string{"alpha", "beta"} {
				v := st.Schematic(el, "spec:"+name, true).(*flow.Struct)
				v.F["Name"] = kstr(name)
				b := &flow.Sym{ID: "build:" + name, T: v.F["Build"].(*flow.Sym).T}
				st.Assume(b, false)
				v.F["Build"] = b
				st.Store(s.Elem(int64(i)), v)
			}
			args = append(args, s)
		case types.IsInterface(el):
			s := st.NewSlice(el, 2)
			for i := 0; i < 2; i++ {
				v := r.in(st, fmt.Sprintf("pass:%d", i), el)
				passes = append(passes, v)
				st.Store(s.Elem(int64(i)), v)
			}
			args = append(args, s)
		default:
			c.Fail("undecided", site, fn.Pos(), "what the parameter %s is for is not known", p.Name())
			return
		}
	}
	var ends []*cmdEnd
	val := func(name string) flow.Val {
		switch name {
		case "o":
			return kstr(f.o)
		case "w":
			return kstr(f.w)
		case "env":
			return flow.Const{V: constant.MakeBool(f.env)}
		case "quiet":
			return flow.Const{V: constant.MakeBool(f.quiet)}
		case "port":
			return flow.Const{V: constant.MakeUint64(f.port)}
		}
		return nil
	}
	r.model = func(e *flow.Engine, st *flow.State, ev *flow.Event) ([]flow.Out, bool) {
		name := ev.Name
		if s, ok := flow.Strip(ev.Target).(*flow.Sym); ok && strings.HasPrefix(s.ID, "build:") {
			rs := resultTypes(ev)
			nodes := r.in(st, "nodes:"+s.ID[6:], rs[0])
			return []flow.Out{{Res: flow.Tuple{nodes, flow.NilV{}}}, {Res: flow.Tuple{flow.NilV{}, errVal("error:build")}}}, true
		}
		switch {
		case name == "os.Exit":
			end := &cmdEnd{trace: append([]*flow.Event(nil), st.Trace...)}
			if k, ok := flow.Strip(ev.Args[0]).(flow.Const); ok && k.V != nil {
				end.code, end.known = constant.Int64Val(k.V)
			}
			ends = append(ends, end)
			return nil, true
		case strings.HasPrefix(name, "flag.") || strings.HasPrefix(name, "(*flag.FlagSet)."):
			m := name[strings.LastIndex(name, ".")+1:]
			a := ev.Args
			var cell *flow.Addr
			if strings.HasSuffix(m, "Var") && len(a) > 1 {
				cell, _ = flow.Strip(a[0]).(*flow.Addr)
				a = a[1:]
			}
			switch strings.TrimSuffix(m, "Var") {
			case "String", "Bool", "Uint", "Int", "Uint64", "Int64":
				k, ok := flow.Strip(a[0]).(flow.Const)
				if !ok {
					return nil, false
				}
				v := val(constant.StringVal(k.V))
				if v == nil {
					v = a[1]
				}
				if cell != nil {
					st.Store(cell, v)
					return []flow.Out{{Res: flow.Tuple{}}}, true
				}
				cell = st.New(core.Deref(resultTypes(ev)[0]))
				st.Store(cell, v)
				return []flow.Out{{Res: cell}}, true
			case "Parse":
				return []flow.Out{{Res: flow.Tuple{}}}, true
			}
		case strings.Contains(name, "pkg/blueprint/logging."):
			return []flow.Out{{Res: flow.Tuple{}}}, true
		case strings.HasSuffix(name, "wiring.NewWiringSpec"):
			return []flow.Out{{Res: r.in(st, "wiring", resultTypes(ev)[0])}}, true
		case strings.HasSuffix(name, "BuildIR"):
			app := r.in(st, "app", resultTypes(ev)[0])
			return []flow.Out{{Res: flow.Tuple{app, flow.NilV{}}}, {Res: flow.Tuple{flow.NilV{}, errVal("error:ir")}}, {Res: flow.Tuple{app, errVal("error:ir")}}}, true
		case strings.HasSuffix(name, ".Analyze"):
			t, ff := flow.Const{V: constant.MakeBool(true)}, flow.Const{V: constant.MakeBool(false)}
			return []flow.Out{{Res: flow.Tuple{t, flow.NilV{}}}, {Res: flow.Tuple{ff, flow.NilV{}}}, {Res: flow.Tuple{ff, errVal("error:pass")}}, {Res: flow.Tuple{t, errVal("error:pass")}}}, true
		case strings.HasSuffix(name, ".GenerateArtifacts"):
			return []flow.Out{{Res: flow.NilV{}}, {Res: errVal("error:generate")}}, true
		}
		return nil, false
	}
	e := r.engine()
	ps := e.Run(fn, args, st)
	if e.Over {
		r.bad(fn, nil, "undecided", "the function cannot be followed")
	}
	for _, p := range ps {
		if p.How != "return" {
			r.bad(fn, p, "fails", "it ends with a %s", p.How)
			continue
		}
		ends = append(ends, &cmdEnd{trace: p.St.Trace, code: 0, known: true, p: p})
	}
	what := site + " " + f.String()
	told := map[string]bool{}
	bad := func(rule, format string, a ...any) {
		if s := rule + fmt.Sprintf(format, a...); !told[s] {
			told[s] = true
			c.Fail(rule, what, fn.Pos(), format, a...)
		}
	}
	succ := 0
	for _, end := range ends {
		if c08End(f, end, passes, bad) {
			succ++
		}
		for _, rule := range []string{"builds", "builders", "fails"} {
			c.Ok(rule, what)
		}
	}
	valid := f.o != "" && (f.w == "alpha" || f.w == "beta") && f.port < 65536
	if !valid {
		c.Ok("refuses", what)
		if succ > 0 {
			bad("refuses", "the program goes on")
		}
	} else if succ == 0 {
		bad("builds", "the program never succeeds")
	}
}

// c08End judges one end of the program; it says whether that is a success.
func c08End(f cmdFlags, end *cmdEnd, passes []flow.Val, bad func(rule, format string, a ...any)) bool {
	str := func(v flow.Val) string {
		if k, ok := unconv(v).(flow.Const); ok && k.V != nil && k.V.Kind() == constant.String {
			return constant.StringVal(k.V)
		}
		return "?" + flow.Strip(v).Key()
	}
	failed := ""
	fails := func(ev *flow.Event) bool {
		v := ev.Res
		if t, ok := v.(flow.Tuple); ok {
			v = t[len(t)-1]
		}
		_, isNil := flow.Strip(v).(flow.NilV)
		return !isNil
	}
	var wiring, app, nodes flow.Val
	npass, gen := 0, 0
	reg := map[string]int{}
	ports := 0
	for _, ev := range end.trace {
		if ev.Kind != "call" || ev.Call == nil {
			continue
		}
		step := ""
		name := ev.Name
		switch {
		case strings.HasSuffix(name, "wiring.NewWiringSpec"):
			step = "the wiring spec"
			if wiring != nil {
				bad("builds", "two wiring specs are made")
			}
			if str(ev.Args[0]) != "app" {
				bad("builds", "the wiring spec is called %s", str(ev.Args[0]))
			}
			wiring = ev.Res
		case ev.Target != nil && strings.HasPrefix(flow.Strip(ev.Target).Key(), "build:"):
			step = "the spec"
			if got := flow.Strip(ev.Target).Key()[6:]; got != f.w {
				bad("builds", "the spec %s is built", got)
			}
			if nodes != nil {
				bad("builds", "a spec is built twice")
			}
			if len(ev.Args) != 1 || wiring == nil || !sameVal(ev.Args[0], wiring) {
				bad("builds", "the spec is not built with the wiring spec")
			}
			nodes = ev.Res.(flow.Tuple)[0]
		case strings.HasSuffix(name, "BuildIR"):
			step = "the application"
			if app != nil {
				bad("builds", "two applications are made")
			}
			if wiring == nil || !sameVal(ev.Recv, wiring) || nodes == nil || len(ev.Args) != 1 || !sameVal(ev.Args[0], nodes) {
				bad("builds", "the application is not made of what the spec asked for")
			}
			app = ev.Res.(flow.Tuple)[0]
		case strings.HasSuffix(name, ".Analyze"):
			step = "a pass"
			if npass >= len(passes) || !sameVal(ev.Recv, passes[npass]) {
				bad("builds", "the passes are not run in order, each once")
			}
			npass++
			if len(ev.Args) != 2 || wiring == nil || app == nil || !sameVal(ev.Args[0], wiring) || !sameVal(ev.Args[1], app) {
				bad("builds", "a pass is not given the wiring spec and the application")
			}
			if gen > 0 {
				bad("builds", "a pass runs after the application has been generated")
			}
		case strings.HasSuffix(name, ".GenerateArtifacts"):
			step = "the generation"
			gen++
			if app == nil || !sameVal(ev.Recv, app) && !(len(ev.Args) > 1 && sameVal(ev.Args[0], app)) {
				bad("builds", "something else than the application is generated")
			}
			if str(ev.Args[len(ev.Args)-1]) != f.o {
				bad("builds", "it is generated into %s", str(ev.Args[len(ev.Args)-1]))
			}
			if npass != len(passes) {
				bad("builds", "the application is generated before the passes have run")
			}
			for _, p := range []string{"goproc", "linuxcontainer", "dockercompose"} {
				if reg[p] != 1 {
					bad("builders", "the application is generated with the default builder of %s registered %d times", p, reg[p])
				}
			}
			if f.env && ports != 1 || !f.env && ports != 0 {
				bad("builders", "the application is generated with ports assigned %d times", ports)
			}
		case strings.HasSuffix(name, ".RegisterAsDefaultBuilder"):
			step = "a builder"
			s := strings.Split(strings.TrimSuffix(name, ".RegisterAsDefaultBuilder"), "/")
			reg[s[len(s)-1]]++
		case strings.HasSuffix(name, "environment.AssignPorts"):
			step = "the ports"
			ports++
			if k, ok := unconv(ev.Args[0]).(flow.Const); !ok || k.V == nil || k.V.ExactString() != fmt.Sprint(f.port) {
				bad("builders", "ports are assigned from %s", flow.Strip(ev.Args[0]).Key())
			}
		default:
			continue
		}
		if failed != "" {
			bad("fails", "%s comes after %s failed", step, failed)
		}
		if step == "the spec" || step == "the application" || step == "a pass" || step == "the generation" {
			if fails(ev) {
				failed = step
			}
		}
	}
	valid := f.o != "" && (f.w == "alpha" || f.w == "beta") && f.port < 65536
	if !end.known {
		bad("undecided", "the exit code is not known")
		return false
	}
	success := end.code == 0
	switch {
	case !valid && (wiring != nil || app != nil || gen > 0):
		bad("refuses", "the program builds something")
	case !valid && success:
		bad("refuses", "the program says it succeeded")
	case valid && failed != "" && success:
		bad("fails", "%s failed and the program says it succeeded", failed)
	case valid && failed == "" && !success:
		bad("fails", "nothing failed and the program says it did")
	case success && gen != 1:
		bad("fails", "the application is generated %d times and the program says it succeeded", gen)
	}
	return success
}
