package checks

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/core"
	"verif/analyzer/flow"
)

// specMaps tells the maps of a wiring spec apart by what they hold.
func specMaps(v flow.Val) string {
	t := flow.TypeOf(flow.Strip(v))
	if t == nil {
		return ""
	}
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return ""
	}
	switch {
	case core.TypeName(core.Deref(m.Elem())) == defType:
		return "defs"
	case types.Identical(m.Elem(), types.Typ[types.String]):
		return "aliases"
	}
	if s, ok := m.Elem().Underlying().(*types.Slice); ok && types.IsInterface(s.Elem()) {
		return "props"
	}
	return ""
}

const defType = "blueprint/pkg/wiring.WiringDef"

// specPath is one path of a method of a wiring spec.
type specPath struct {
	*flow.Path
	conds  map[string]int      // kind of map + key: has
	fields []*types.Var        // maps of definitions
	found  map[string]flow.Val // the entry that is there if so
}

func newSpecPath(p *flow.Path, t *types.Named) *specPath {
	s := &specPath{Path: p, conds: map[string]int{}, found: map[string]flow.Val{}}
	if st, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if specMaps(&flow.Sym{T: st.Field(i).Type()}) == "defs" {
				s.fields = append(s.fields, st.Field(i))
			}
		}
	}
	for _, c := range p.St.Conds {
		v, b := c.V, c.B
		for {
			a, ok := v.(*flow.App)
			if ok && a.Op == "not" {
				v, b = a.Args[0], !b
				continue
			}
			if ok && a.Op == "has" {
				k := specMaps(a.Args[0]) + " " + flow.Strip(a.Args[1]).Key()
				s.found[k] = flow.MkApp("lookup", flow.TypeOf(a.Args[0]).Underlying().(*types.Map).Elem(), a.Args...)
				if b {
					s.conds[k] = 1
				} else {
					s.conds[k] = -1
				}
			}
			break
		}
	}
	return s
}

func (s *specPath) has(kind string, name flow.Val) int {
	k := kind + " " + flow.Strip(name).Key()
	if h := s.conds[k]; h != 0 || kind != "defs" {
		return h
	}
	// no definition is nil: comparing the entry with nil tells the same
	for _, f := range s.fields {
		l := flow.MkApp("lookup", f.Type().Underlying().(*types.Map).Elem(), flow.MkApp("load", f.Type(), &flow.Addr{Base: "*p0." + f.Name(), T: f.Type()}), flow.Strip(name))
		if n := s.St.NilFact(l); n != 0 {
			s.found[k] = l
			s.conds[k] = -n
			return -n
		}
	}
	return 0
}

// effects are the writes of the path to maps of the given kind.
func (s *specPath) effects(kind string) (sets, dels []*flow.Event) {
	for _, ev := range s.St.Trace {
		if (ev.Kind == "mapset" || ev.Kind == "mapdel") && specMaps(ev.Recv) == kind {
			if ev.Kind == "mapset" {
				sets = append(sets, ev)
			} else {
				dels = append(dels, ev)
			}
		}
	}
	return
}

// isEntry: v is what the map of the given kind holds for name.
func isEntry(v flow.Val, kind string, name flow.Val) bool {
	a, ok := flow.Strip(v).(*flow.App)
	return ok && a.Op == "lookup" && specMaps(a.Args[0]) == kind && sameVal(a.Args[1], name)
}

// defOf gives the definition of name as it is at the end of the path: the one that was there, or a new one.
func (s *specPath) defOf(name flow.Val) (def flow.Val, problem string) {
	sets, _ := s.effects("defs")
	for _, ev := range sets {
		if !sameVal(ev.Args[0], name) {
			return nil, "another name is defined"
		}
		def = flow.Strip(ev.Args[1])
	}
	switch h := s.has("defs", name); {
	case def != nil && h == 1:
		return nil, "the definition is replaced and loses its properties"
	case def != nil:
		// a new definition: it has the name and the name is no alias any more
		a, ok := def.(*flow.Addr)
		if !ok {
			return nil, "the new definition is not a new one"
		}
		if n := s.St.Load(&flow.Addr{Base: a.Base + ".Name", T: types.Typ[types.String], Alloc: a.Alloc}); !sameVal(n, name) {
			return nil, "the new definition has another name"
		}
		_, dels := s.effects("aliases")
		gone := s.has("aliases", name) == -1
		for _, ev := range dels {
			if sameVal(ev.Args[0], name) {
				gone = true
			}
		}
		if !gone {
			return nil, "the name stays an alias"
		}
		return def, ""
	case h == 1:
		return nil, ""
	}
	return nil, "the name is not defined"
}

func specOps(c *core.Ctx, t *types.Named) {
	pkg := core.Short(t.Obj().Pkg().Path())
	told := map[string]bool{}
	dt := c.NamedType("blueprint/pkg/wiring", "WiringDef")
	if dt == nil {
		return
	}
	each := func(t *types.Named, method string, set func(st *flow.State, args []flow.Val), f func(p *specPath, args []flow.Val, fail bool, bad func(rule, format string, a ...any))) {
		fn := ownMethod(c, t, method)
		if fn == nil {
			c.Fail("undecided", core.TypeName(t)+"."+method, t.Obj().Pos(), "the method is not declared on the type")
			return
		}
		site := core.Name(fn)
		e := kernelEngine(c, pkg)
		if inl := e.Inline; true {
			e.Inline = func(g *ssa.Function) bool { return inl(g) && g.Name() != "BuildApplicationIR" }
		}
		st := globals(c, pkg)
		args := opaque(fn, st)
		if set != nil {
			set(st, args)
		}
		ps := e.Run(fn, args, st)
		if e.Over || len(ps) == 0 {
			c.Fail("ends", site, fn.Pos(), "%s may run forever: the analysis follows it past every bound", method)
		}
		for _, p := range ps {
			bad := func(rule, format string, a ...any) {
				if !told[site+rule+format] {
					told[site+rule+format] = true
					c.Fail(rule, site, fn.Pos(), format, a...)
					dumpPath(p)
				}
			}
			c.Ok("operations", site)
			if p.How == "cut" {
				continue
			}
			if p.How != "return" {
				bad("paths", "a path ends with a %s", p.How)
				continue
			}
			fail := false
			if n := len(p.Ret); n > 0 {
				if core.IsError(fn.Signature.Results().At(n - 1).Type()) {
					fail = p.St.NilFact(p.Ret[n-1]) == -1
				}
			}
			f(newSpecPath(p, t), args, fail, bad)
		}
	}
	field := func(p *specPath, def flow.Val, name string, ft types.Type) flow.Val {
		base := "*" + def.Key()
		alloc := false
		if a, ok := def.(*flow.Addr); ok {
			base, alloc = a.Base, a.Alloc
		}
		return p.St.Load(&flow.Addr{Base: base + "." + name, T: ft, Alloc: alloc})
	}
	entry := func(p *specPath, name flow.Val) flow.Val {
		d, problem := p.defOf(name)
		if problem != "" {
			return nil
		}
		if d != nil {
			return d
		}
		p.has("defs", name)
		return p.found["defs "+flow.Strip(name).Key()] // the existing one
	}
	fieldT := func(name string) types.Type {
		s := dt.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				return s.Field(i).Type()
			}
		}
		return nil
	}

	each(t, "Define", func(st *flow.State, args []flow.Val) {
		args[4] = flow.NilV{}
	}, func(p *specPath, args []flow.Val, fail bool, bad func(string, string, ...any)) {
		if _, problem := p.defOf(args[1]); problem != "" {
			bad("define", "%s", problem)
			return
		}
		d := entry(p, args[1])
		if d == nil {
			bad("define", "the definition gets no content")
			return
		}
		if !sameVal(field(p, d, "NodeType", fieldT("NodeType")), args[2]) || !sameVal(field(p, d, "Build", fieldT("Build")), args[3]) {
			bad("define", "the definition does not get the given type and build function")
		}
	})
	each(t, "Define", func(st *flow.State, args []flow.Val) {
		et := args[4].(*flow.Sym).T.Underlying().(*types.Slice).Elem()
		o := st.NewSlice(et, 1)
		st.Store(o.Elem(0), &flow.Sym{ID: "options", T: et})
		args[4] = o
	}, func(p *specPath, args []flow.Val, fail bool, bad func(string, string, ...any)) {
		d := entry(p, args[1])
		if d == nil {
			bad("define", "the definition gets no content")
			return
		}
		base := "*" + d.Key()
		alloc := false
		if a, ok := d.(*flow.Addr); ok {
			base, alloc = a.Base, a.Alloc
		}
		v := flow.Strip(p.St.Load(&flow.Addr{Base: base + ".Options.ProxyNode", T: types.Typ[types.Bool], Alloc: alloc}))
		if a, ok := v.(*flow.App); !ok || !strings.Contains(a.Key(), "options") {
			bad("define", "the definition does not get the given options")
		}
	})
	each(t, "Alias", nil, func(p *specPath, args []flow.Val, fail bool, bad func(string, string, ...any)) {
		sets, _ := p.effects("aliases")
		if len(sets) != 1 || !sameVal(sets[0].Args[0], args[1]) || !sameVal(sets[0].Args[1], args[2]) {
			bad("alias", "the name does not become an alias of the given one")
		}
		ds, dels := p.effects("defs")
		gone := p.has("defs", args[1]) == -1
		for _, ev := range dels {
			if sameVal(ev.Args[0], args[1]) {
				gone = true
			} else {
				bad("alias", "another definition is deleted")
			}
		}
		if !gone {
			bad("alias", "the definition of the name stays")
		}
		if len(ds) > 0 {
			bad("alias", "a definition is changed")
		}
	})
	// a lookup follows aliases to the end
	each(t, "GetDef", nil, func(p *specPath, args []flow.Val, fail bool, bad func(string, string, ...any)) {
		name := args[1]
		for {
			h := p.has("aliases", name)
			if h == 0 {
				// without any alias there is nothing to follow
				k := &kpath{Path: p.Path}
				none := k.cond(func(a *flow.App) bool {
					return strings.Contains(a.Key(), "len(") && strings.Contains(a.Key(), "aliases")
				}) != 0
				if !none && sameVal(name, args[1]) {
					bad("alias", "a lookup does not find out whether the name is an alias")
				}
			}
			if h != 1 {
				break
			}
			name = p.found["aliases "+flow.Strip(name).Key()]
		}
		got := flow.Strip(p.Ret[0])
		switch h := p.has("defs", name); {
		case h == 0:
			bad("lookup", "the definition of the name is not looked up")
		case h == 1 && !isEntry(got, "defs", name):
			bad("lookup", "a defined name is not found")
		case h == -1 && p.St.NilFact(got) != 1:
			bad("lookup", "an undefined name is found")
		}
		for _, kind := range []string{"defs", "aliases"} {
			if s, d := p.effects(kind); len(s)+len(d) > 0 {
				bad("lookup", "a lookup changes the spec")
			}
		}
	})
	// with one alias, a chain of two, and aliases that point at each other
	for _, chain := range [][]string{{"p1", "other"}, {"p1", "other", "third"}, {"p1", "other", "p1"}} {
		each(t, "GetDef", func(st *flow.State, args []flow.Val) {
			args[1] = flow.Const{V: constant.MakeString(chain[0])}
			s, _ := t.Underlying().(*types.Struct)
			for i := 0; s != nil && i < s.NumFields(); i++ {
				f := s.Field(i)
				m, ok := f.Type().Underlying().(*types.Map)
				if !ok || !types.Identical(m.Elem(), types.Typ[types.String]) {
					continue
				}
				v := st.NewMap(f.Type())
				for j := 0; j+1 < len(chain); j++ {
					st.MapSet(v, flow.Const{V: constant.MakeString(chain[j])}, flow.Const{V: constant.MakeString(chain[j+1])})
				}
				st.Store(&flow.Addr{Base: "*p0." + f.Name(), T: f.Type()}, v)
			}
		}, func(p *specPath, args []flow.Val, fail bool, bad func(string, string, ...any)) {
			end := chain[len(chain)-1]
			switch asked := p.has("defs", flow.Const{V: constant.MakeString(end)}) != 0; {
			case asked:
			case end != "p1":
				bad("alias", "a lookup does not follow the chain of aliases %s", strings.Join(chain, " -> "))
			case p.has("defs", flow.Const{V: constant.MakeString("other")}) == 0:
				bad("ends", "the lookup of aliases that point at each other does not end in a definition that is looked up")
			}
		})
	}
	each(t, "GetAlias", nil, func(p *specPath, args []flow.Val, fail bool, bad func(string, string, ...any)) {
		has, ok := flow.Strip(p.Ret[1]).(*flow.App)
		known := p.St.Bool(p.Ret[1])
		if known != -1 && !isEntry(p.Ret[0], "aliases", args[1]) || known == 0 && (!ok || has.Op != "has" || specMaps(has.Args[0]) != "aliases" || !sameVal(has.Args[1], args[1])) {
			bad("alias", "it does not tell what the name stands for")
		}
	})
	for _, m := range []string{"SetProperty", "AddProperty"} {
		m := m
		each(t, m, nil, func(p *specPath, args []flow.Val, fail bool, bad func(string, string, ...any)) {
			if _, problem := p.defOf(args[1]); problem != "" {
				bad("property", "%s", problem)
			}
			propSet(p, m, args[2], args[3], bad)
			d := entry(p, args[1])
			if sets, _ := p.effects("props"); d == nil || len(sets) != 1 || !isPropsOf(p, sets[0].Recv, d) {
				bad("property", "the property is not one of the given name")
			}
		})
	}
	each(dt, "AddProperty", nil, func(p *specPath, args []flow.Val, fail bool, bad func(string, string, ...any)) {
		propSet(p, "AddProperty", args[1], args[2], bad)
	})
	for _, own := range []bool{true, false} {
		of, key := t, 2
		if own {
			of, key = dt, 1
		}
		for _, m := range []string{"GetProperty", "GetProperties"} {
			m := m
			each(of, m, nil, func(p *specPath, args []flow.Val, fail bool, bad func(string, string, ...any)) {
				def := args[0]
				if !own {
					if p.has("defs", args[1]) == -1 {
						return
					}
					if def = entry(p, args[1]); def == nil {
						bad("property", "the definition of the name is not looked up")
						return
					}
					if p.St.NilFact(def) == 1 {
						return // there are no missing definitions under a name
					}
				}
				var given *flow.Event
				for _, ev := range p.St.Trace {
					if ev.Kind == "call" && len(ev.Args) > 0 && sameVal(ev.Args[len(ev.Args)-1], args[key+1]) {
						given = ev
					}
				}
				if given == nil {
					bad("property", "nothing is handed to the caller")
					return
				}
				vals := flow.MkApp("lookup", nil, flow.MkApp("load", nil, &flow.Addr{Base: "*" + flow.Strip(def).Key() + ".Properties"}), args[key])
				one := (&kpath{Path: p.Path}).cond(func(a *flow.App) bool {
					return a.Key() == "==(c:1,len("+vals.Key()+"))" || a.Key() == "==(len("+vals.Key()+"),c:1)"
				})
				switch {
				case m == "GetProperties" && !sameVal(given.Args[0], vals):
					bad("property", "the caller is not given the values of the property")
				case m == "GetProperty" && one == 1 && (len(given.Args) != 2 || given.Args[0].Key() == vals.Key() || !strings.Contains(given.Args[0].Key(), vals.Key())):
					bad("property", "the caller is not given the value of the property")
				case m == "GetProperty" && one == 0:
					bad("property", "how many values the property has is not looked at")
				}
				if r := results(given.Res); !fail && (len(r) != 1 || !sameVal(r[0], p.Ret[0]) && p.St.NilFact(r[0]) != 1) {
					bad("property", "the outcome of handing the value to the caller is not returned")
				}
			})
		}
	}
	errs := func(p *specPath) flow.Val {
		s, _ := t.Underlying().(*types.Struct)
		for i := 0; s != nil && i < s.NumFields(); i++ {
			f := s.Field(i)
			if sl, ok := f.Type().Underlying().(*types.Slice); ok && core.IsError(sl.Elem()) {
				return p.St.Load(&flow.Addr{Base: "*p0." + f.Name(), T: f.Type()})
			}
		}
		return nil
	}
	old := func(p *specPath) *flow.App {
		s, _ := t.Underlying().(*types.Struct)
		for i := 0; s != nil && i < s.NumFields(); i++ {
			if sl, ok := s.Field(i).Type().Underlying().(*types.Slice); ok && core.IsError(sl.Elem()) {
				return flow.MkApp("load", s.Field(i).Type(), &flow.Addr{Base: "*p0." + s.Field(i).Name(), T: s.Field(i).Type()})
			}
		}
		return nil
	}
	each(t, "AddError", nil, func(p *specPath, args []flow.Val, fail bool, bad func(string, string, ...any)) {
		v, o := errs(p), old(p)
		a, ok := v.(*flow.App)
		if o == nil || !ok || a.Op != "append" || len(a.Args) != 2 || !sameVal(a.Args[0], o) || !sameVal(a.Args[1], args[1]) {
			bad("errors", "the error is not added to those recorded")
		}
	})
	// recorded: whether the path knows of recorded errors
	recorded := func(p *specPath) int {
		o := old(p)
		if o == nil {
			return 0
		}
		n := p.St.NilFact(o)
		for _, cd := range p.St.Conds {
			v, b := cd.V, cd.B
			a, ok := v.(*flow.App)
			for ok && a.Op == "not" {
				b = !b
				a, ok = a.Args[0].(*flow.App)
			}
			if !ok || !strings.Contains(a.Key(), "len("+o.Key()) {
				continue
			}
			switch a.Op {
			case "==":
				if b {
					return 1
				}
				return -1
			case "<", ">": // 0 < len, len > 0
				if b {
					return -1
				}
				return 1
			}
		}
		return n
	}
	each(t, "Err", nil, func(p *specPath, args []flow.Val, fail bool, bad func(string, string, ...any)) {
		switch r := recorded(p); {
		case r == 0:
			bad("errors", "whether errors were recorded is not looked at")
		case r == 1 && fail:
			bad("errors", "an error is reported although none was recorded")
		case r == -1 && !fail:
			bad("errors", "recorded errors are not reported")
		}
	})
	each(t, "BuildIR", nil, func(p *specPath, args []flow.Val, fail bool, bad func(string, string, ...any)) {
		var build *flow.Event
		for _, ev := range p.St.Trace {
			if ev.Kind == "call" && strings.HasSuffix(ev.Name, "wiring.BuildApplicationIR") {
				build = ev
			}
		}
		switch r := recorded(p); {
		case build == nil && r == 1:
			bad("errors", "nothing is built although no error was recorded")
		case build == nil && !fail:
			bad("errors", "nothing is built and no error is returned")
		case build != nil && r != 1:
			bad("errors", "an application is built although its wiring recorded errors")
		case build != nil:
			if !sameVal(build.Args[0], args[0]) || len(build.Args) != 3 || !sameVal(build.Args[2], args[1]) {
				bad("errors", "another application than the specified one is built")
			}
			if r := results(build.Res); len(r) != 2 || !sameVal(r[1], p.Ret[1]) && p.St.NilFact(r[1]) != 1 && !fail || !fail && !sameVal(r[0], p.Ret[0]) {
				bad("errors", "the outcome of the build is not returned")
			}
		}
	})
}

// isPropsOf: v is the map of properties of the definition.
func isPropsOf(p *specPath, v, def flow.Val) bool {
	if a, ok := def.(*flow.Addr); ok {
		return sameVal(v, p.St.Load(&flow.Addr{Base: a.Base + ".Properties", T: flow.TypeOf(v), Alloc: a.Alloc}))
	}
	l, ok := flow.Strip(v).(*flow.App)
	return ok && l.Op == "load" && l.Args[0].Key() == "&*"+def.Key()+".Properties"
}

// propSet decides what a path does to a property.
func propSet(p *specPath, m string, key, value flow.Val, bad func(string, string, ...any)) {
	sets, dels := p.effects("props")
	if len(sets) != 1 || len(dels) > 0 || !sameVal(sets[0].Args[0], key) {
		bad("property", "the values of the given property are not set")
		return
	}
	v := flow.Strip(sets[0].Args[1])
	switch m {
	case "AddProperty":
		a, ok := v.(*flow.App)
		if s, isS := v.(*flow.SliceV); isS && s.Len == 1 && sameVal(p.St.Load(s.Elem(0)), value) {
			// the first value of a new definition
			d, _ := p.effects("defs")
			if len(d) > 0 {
				return
			}
		}
		if !ok || a.Op != "append" || len(a.Args) != 2 || !isEntry(a.Args[0], "props", key) || !sameVal(a.Args[1], value) {
			bad("property", "the value is not added behind the values of the property")
		}
	default:
		s, ok := v.(*flow.SliceV)
		if !ok || s.Len != 1 || !sameVal(p.St.Load(s.Elem(0)), value) {
			bad("property", "the value does not replace the values of the property")
		}
	}
}

// within finds a part of a value.
func within(v flow.Val, is func(a *flow.App) bool) flow.Val {
	switch x := v.(type) {
	case *flow.App:
		if is(x) {
			return x
		}
		for _, a := range x.Args {
			if f := within(a, is); f != nil {
				return f
			}
		}
	case flow.Tuple:
		for _, a := range x {
			if f := within(a, is); f != nil {
				return f
			}
		}
	case *flow.Iface:
		return within(x.V, is)
	}
	return nil
}

// allVals are the values a path has looked at, touched or returned.
func allVals(p *flow.Path) (out []flow.Val) {
	for _, cd := range p.St.Conds {
		out = append(out, cd.V)
	}
	for _, ev := range p.St.Trace {
		if ev.Recv != nil {
			out = append(out, ev.Recv)
		}
		out = append(out, ev.Args...)
	}
	return append(out, p.Ret...)
}

func init() {
	register(&Check{
		ID:    "C12",
		Rules: "Every operation of a wiring spec implementation is followed on all its paths with opaque contents. Define leaves the name with a definition (the existing one, or a new one that takes the name over from an alias) that has the given type, build function and options; Alias leaves the name an alias and without definition; a lookup follows each alias it finds and gives the definition of the name where they end, or nothing, and ends also for aliases that point at each other; setting a property leaves one value, adding appends to those there were; the getters hand over what the property holds and return the outcome; every recorded error is kept, reported, and stops the build.",
		Run: func(c *core.Ctx) {
			for _, t := range implsOf(c, "blueprint/pkg/wiring", "WiringSpec", "Define") {
				specOps(c, t)
			}
			c.Floor("operations", 25)
		},
	})
}
