package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"verif/analyzer/core"
	"verif/analyzer/emit"
	"verif/analyzer/peval"
)

// c09Types compares every type of a list with every other.
func c09Types(c *core.Ctx, b *emit.B) {
	exprs := strings.Split("bool byte rune string int int8 int16 int32 int64 uint uint8 uint16 uint32 uint64 uintptr float32 float64 complex64 complex128 error any|interface{}|"+
		"Local|Other|kinds.Kind|other.Kind|kinds.Level|other.Level|*Local|*Other|*kinds.Kind|*other.Kind|**Local|*int|*string|*[]int|[]*int|[]int|[]string|[]Local|[]Other|[]*Local|[][]int|[]kinds.Kind|[]other.Kind|"+
		"map[string]int|map[int]string|map[string]string|map[int]int|map[string]Local|map[string]*Local|map[int][]Local|map[Local]int|map[kinds.Level]int|map[other.Level]int|"+
		"chan int|chan string|chan<- int|chan<- string|<-chan int|<-chan string|chan Local|G[int]|G[string]|G[Local]|G[*Local]|[]G[int]|H[int]|P[int,string]|P[string,int]|map[string]G[int]|*G[int]|error|[]byte|[]rune|*bool", "|")
	var list []string
	for _, e := range exprs {
		if strings.HasPrefix(e, "bool ") {
			list = append(list, strings.Fields(e)...)
			continue
		}
		list = append(list, e)
	}
	src := func(kinds, other string) string {
		s := "package svc\n\nimport (\n\t" + kinds + " \"m.org/lib/kinds\"\n\t" + other + " \"m.org/lib/other\"\n)\n\n"
		s += "type T" + kinds + " struct {\n"
		for i, e := range list {
			e = strings.ReplaceAll(e, "kinds.", "@.")
			e = strings.ReplaceAll(e, "other.", other+".")
			s += fmt.Sprintf("\tF%d %s\n", i, strings.ReplaceAll(e, "@.", kinds+"."))
		}
		return s + "}\n"
	}
	fc := one("types", false, "", src("kinds", "other"), src("other", "kinds"), "package svc\n\ntype Local struct{ A string }\ntype Other struct{ A string }\ntype G[T any] struct { X T }\ntype H[T any] struct { X T }\ntype P[K comparable, V any] struct { X map[K]V }\n")
	g, err := goSideOf(b, fc)
	if err != nil {
		c.Fail("undecided", "types", token.NoPos, "the schematic source is not Go: %v", err)
		return
	}
	var goTypes []types.Type
	for _, n := range []string{"Tkinds", "Tother"} {
		st := g.pkgs["m.org/shop/svc"].Scope().Lookup(n).Type().Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			goTypes = append(goTypes, st.Field(i).Type())
		}
	}
	bads := map[string]bool{}
	bad := func(f string, a ...any) { bads[fmt.Sprintf(f, a...)] = true }
	n := 0
	d := b.Evaluate(false, func(m *peval.Machine) peval.Value {
		b.Workflow(fc.files, fc.mods)
		sv := b.AsNode(c09parser, "ParsedModuleSet", b.Fn(c09parser, "New", nil))
		r, _ := m.Method(sv.T, sv.V, "GetPackage", "m.org/shop/svc")
		t := r.(peval.Tuple)
		if t[1] != nil {
			return t[1]
		}
		structs := mapOf(peval.Obj(t[0]).Field("Structs"))
		var read []peval.Iface
		for _, n := range []string{"Tkinds", "Tother"} {
			fs, _ := peval.Obj(structs[n]).Field("FieldsList").(peval.Slice)
			for i, f := range fs {
				in := peval.Obj(f)
				if v, ok := in.Field("Variable").(*peval.Struct); ok {
					in = v
				}
				ty, ok := in.Field("Type").(peval.Iface)
				if !ok {
					bad("the type %s is not read", list[i])
					return nil
				}
				read = append(read, ty)
			}
		}
		if len(read) != len(goTypes) {
			bad("%d fields and not %d are read", len(read), len(goTypes))
			return nil
		}
		eq := func(x, y peval.Value) bool {
			xi := x.(peval.Iface)
			r, found := m.Method(xi.T, xi.V, "Equals", y)
			if !found {
				panic(peval.Undecided{Msg: "a type has no Equals"})
			}
			return r == true
		}
		name := func(i int) string { return types.TypeString(goTypes[i], nil) }
		for i := range read {
			if eq(read[i], nil) {
				bad("%s equals no type", name(i))
			}
			for j := range read {
				n++
				got := eq(read[i], read[j])
				same := types.Identical(goTypes[i], goTypes[j])
				if got && !same {
					bad("%s and %s are taken for the same type", name(i), name(j))
				}
				if !got && same && i%len(list) == j%len(list) && !strings.Contains(name(i), "P[") {
					bad("%s of one file is not that of another", name(i))
				}
			}
		}
		return nil
	})
	switch {
	case d.Unk != "":
		c.Fail("undecided", "types", token.NoPos, "equality could not be determined: %s", d.Unk)
	case d.Failed != "":
		c.Fail("types", "all", token.NoPos, "comparing types ends with: %s", d.Failed)
	}
	for i := 0; i < n; i++ {
		c.Ok("types", "pairs of types")
	}
	var bs []string
	for x := range bads {
		bs = append(bs, x)
	}
	sort.Strings(bs)
	for _, x := range bs {
		c.Fail("types", x, token.NoPos, "%s", x)
	}
}

// c09Modules looks at sets of modules and at what is done with the modules of a service.
func c09Modules(c *core.Ctx, b *emit.B) {
	local := &emit.Mod{Path: "m.org/shop", Dir: "/src/shop", Local: true, How: "main"}
	twin := &emit.Mod{Path: "m.org/shop", Dir: "/src/twin", Local: true}
	impl := &emit.Mod{Path: "m.org/impl", Version: "v0.3.0", Dir: "/cache/m.org/impl@v0.3.0"}
	next := &emit.Mod{Path: "m.org/next", Version: "", Dir: "/src/next", Local: true}
	rt := &emit.Mod{Path: strings.TrimSuffix(core.Mod, "/") + "/runtime", Version: "v0.1.2", Dir: "/cache/runtime@v0.1.2"}
	svc := "package svc\n\nimport \"context\"\n\ntype S interface { Do(ctx context.Context) error }\ntype E struct { A int }\n"
	files := map[string]string{
		"/src/shop/svc/svc.go":                        svc,
		"/src/shop/more/more.go":                      "package more\n\ntype More struct{}\n",
		"/src/twin/svc/svc.go":                        svc,
		"/src/next/next.go":                           "package next\n\nimport (\n\t\"context\"\n\t\"m.org/shop/svc\"\n)\n\ntype n struct{}\n\nfunc (n) Do(ctx context.Context) error { return nil }\n\nfunc New(ctx context.Context) (svc.S, error) { return n{}, nil }\n",
		"/cache/m.org/impl@v0.3.0/impl.go":            "package impl\n\nimport (\n\t\"context\"\n\t\"m.org/shop/svc\"\n)\n\ntype Impl struct{}\n\nfunc (*Impl) Do(ctx context.Context) error { return nil }\n\nfunc New(ctx context.Context) (svc.S, error) { return &Impl{}, nil }\n",
		"/src/README.md":                              "# sources\n",
		"/cache/runtime@v0.1.2/core/backend/cache.go": "package backend\n\nimport \"context\"\n\ntype Cache interface { Get(ctx context.Context, key string) error }\ntype NoSQLDatabase interface { Get(ctx context.Context, key int) error }\ntype RelationalDB interface { Get(ctx context.Context, key bool) error }\ntype Queue interface { Get(ctx context.Context, key float32) error }\ntype Tracer interface { Get(ctx context.Context, key float64) error }\n",
	}
	rt1 := func(dir, typ, param string) {
		files["/cache/runtime@v0.1.2/plugins/"+dir+"/x.go"] = "package " + dir + "\n\nimport \"context\"\n\ntype " + typ + " struct{}\n\nfunc (*" + typ + ") Get(ctx context.Context, key " + param + ") error { return nil }\n\nfunc New" + typ + "(ctx context.Context) (*" + typ + ", error) { return nil, nil }\n"
	}
	rt1("redis", "RedisCache", "string")
	rt1("memcached", "Memcached", "string")
	rt1("mysql", "MySqlDB", "bool")
	rt1("rabbitmq", "RabbitMQ", "float32")
	type step struct {
		what string
		mods []*emit.Mod
		do   func(m *peval.Machine, bad func(f string, a ...any)) peval.Value
	}
	set := func(parent peval.Value) peval.Iface {
		return b.AsNode(c09parser, "ParsedModuleSet", b.Fn(c09parser, "New", parent))
	}
	call := func(m *peval.Machine, s peval.Iface, name string, args ...peval.Value) peval.Tuple {
		r, found := m.Method(s.T, s.V, name, args...)
		if !found {
			panic(peval.Undecided{Msg: "there is no " + name})
		}
		if t, ok := r.(peval.Tuple); ok {
			return t
		}
		return peval.Tuple{r}
	}
	nameOf := func(v peval.Value) string {
		if o := peval.Obj(v); o != nil {
			return peval.Str(o.Field("Name"))
		}
		return "nothing"
	}
	all := []*emit.Mod{local, impl, next, rt}
	steps := []step{
		{"a derived set", all, func(m *peval.Machine, bad func(string, ...any)) peval.Value {
			p := set(nil)
			a := call(m, p, "AddModule", "/src/shop/")
			if a[1] != nil {
				return a[1]
			}
			if nameOf(a[0]) != "m.org/shop" {
				bad("adding a module gives %s", nameOf(a[0]))
			}
			if md := peval.Obj(a[0]); md != nil && md.Field("IsLocal") != true {
				bad("a module that is added by its directory is not local")
			}
			s := set(set(p.V).V)
			for _, x := range []peval.Iface{p, s} {
				k := call(m, x, "GetPackage", "m.org/shop/svc")
				if k[1] != nil {
					return k[1]
				}
				if nameOf(k[0]) != "m.org/shop/svc" {
					bad("asking for a package gives %s", nameOf(k[0]))
				}
			}
			if len(mapOf(peval.Obj(s.V).Field("Modules"))) != 0 {
				bad("a derived set takes what its parent has")
			}
			if e := call(m, s, "AddModules", peval.Slice{"/src/shop"}); e[0] != nil {
				return e[0]
			}
			if !sameStruct(peval.Obj(mapOf(peval.Obj(s.V).Field("Modules"))["m.org/shop"]), peval.Obj(a[0])) {
				bad("a derived set reads a module again")
			}
			k := call(m, s, "GetPackage", "m.org/impl")
			if k[1] != nil {
				return k[1]
			}
			if nameOf(k[0]) != "m.org/impl" {
				bad("asking for a package of a new module gives %s", nameOf(k[0]))
			}
			return nil
		}},
		{"structs and interfaces", all, func(m *peval.Machine, bad func(string, ...any)) peval.Value {
			s := set(nil)
			for i := 0; i < 2; i++ {
				for _, x := range [][4]string{{"FindStruct", "m.org/shop/svc", "E", "E"}, {"FindStruct", "m.org/shop/svc", "S", "nothing"}, {"FindInterface", "m.org/shop/svc", "S", "S"}, {"FindInterface", "m.org/shop/svc", "E", "nothing"},
					{"FindStruct", "m.org/shop/none", "E", "!"}, {"FindInterface", "m.org/shop/none", "S", "!"}, {"FindInterface", "m.org/none", "S", "!"}, {"FindStruct", "m.org/shop", "E", "!"}, {"FindStruct", "context", "E", "!"}} {
					r := call(m, s, x[0], x[1], x[2])
					got := nameOf(r[0])
					if r[1] != nil {
						got = "!"
					}
					if got != x[3] {
						bad("%s %s.%s gives %s and not %s", x[0], x[1], x[2], got, x[3])
					}
				}
			}
			return nil
		}},
		{"a workspace", all, func(m *peval.Machine, bad func(string, ...any)) peval.Value {
			delete(m.Files, "/src/twin/go.mod")
			s := set(nil)
			if e := call(m, s, "AddModules", peval.Slice{"/src/next", "/src/shop", "/src/next/"}); e[0] != nil {
				return e[0]
			}
			if ms := mapOf(peval.Obj(s.V).Field("Modules")); len(ms) != 2 || nameOf(ms["m.org/next"]) != "m.org/next" || nameOf(ms["m.org/shop"]) != "m.org/shop" {
				bad("two modules are added and %d known", len(ms))
			}
			if e := call(m, set(nil), "AddModules", peval.Slice{"/src/next", "/src/none"}); e[0] == nil {
				bad("adding a directory without a module succeeds")
			}
			if e := call(m, set(nil), "AddWorkspace", "/none"); e[0] == nil {
				bad("adding a workspace that does not exist succeeds")
			}
			return nil
		}},
		{"a whole workspace", []*emit.Mod{local, next, {Path: "m.org/twin", Dir: "/src/twin", Local: true}}, func(m *peval.Machine, bad func(string, ...any)) peval.Value {
			s := set(nil)
			if e := call(m, s, "AddWorkspace", "/src"); e[0] != nil {
				return e[0]
			}
			ms := mapOf(peval.Obj(s.V).Field("Modules"))
			for _, n := range []string{"m.org/shop", "m.org/next", "m.org/twin"} {
				if nameOf(ms[n]) != n {
					bad("module %s of the workspace is not known", n)
				}
			}
			return nil
		}},
		{"modules of one name", []*emit.Mod{local, twin}, func(m *peval.Machine, bad func(string, ...any)) peval.Value {
			s := set(nil)
			if e := call(m, s, "AddModules", peval.Slice{"/src/shop"}); e[0] != nil {
				return e[0]
			}
			if e := call(m, s, "AddModules", peval.Slice{"/src/twin"}); e[0] == nil {
				bad("a module in two places is accepted")
			}
			if md := peval.Obj(mapOf(peval.Obj(s.V).Field("Modules"))["m.org/shop"]); md == nil || md.Field("SrcDir") != "/src/shop" {
				bad("a module that is refused is there afterwards")
			}
			return nil
		}},
		{"the name of a module", all, func(m *peval.Machine, bad func(string, ...any)) peval.Value {
			for i := 0; i < 2; i++ {
				for _, x := range []struct {
					fn, ask string
					want    *emit.Mod
				}{{"FindPackageModule", "m.org/shop/svc", local}, {"FindPackageModule", "m.org/impl", impl}, {"FindPackageModule", "m.org/none", nil}, {"FindPackageModule", "m.org/shop/none", nil},
					{"GetModuleInfo", "m.org/shop", local}, {"GetModuleInfo", rt.Path, rt}, {"GetModuleInfo", "m.org/none", nil}, {"FindPackageModule", "context", nil}} {
					r := b.Fn(c09parser, x.fn, x.ask).(peval.Tuple)
					o := peval.Obj(r[0])
					switch {
					case x.want == nil && r[1] == nil:
						bad("%s %s finds something", x.fn, x.ask)
					case x.want == nil:
					case r[1] != nil || o == nil:
						bad("%s does not find %s", x.fn, x.ask)
					case o.Field("Path") != x.want.Path || o.Field("Version") != x.want.Version || o.Field("Dir") != x.want.Dir || o.Field("IsLocal") != x.want.Local || o.Field("ShortName") != x.want.Path[strings.LastIndex(x.want.Path, "/")+1:]:
						bad("%s %s finds %v %v in %v, local %v, as %v", x.fn, x.ask, o.Field("Path"), o.Field("Version"), o.Field("Dir"), o.Field("IsLocal"), o.Field("ShortName"))
					}
				}
			}
			return nil
		}},
	}
	// an interface and its implementation from two modules
	for _, x := range []*emit.Mod{impl, next} {
		x := x
		for _, fails := range []bool{false, true} {
			fails := fails
			steps = append(steps, step{fmt.Sprintf("the modules of a service made by %s, adding fails: %v", x.Path, fails), []*emit.Mod{local, x}, func(m *peval.Machine, bad func(string, ...any)) peval.Value {
				for _, by := range []string{"Add", "ParseModule"} {
					if e := b.Fn("plugins/workflow/workflowspec", "AddModule", x.Path); e != nil {
						return e
					}
					_ = by
				}
				t := b.Fn("plugins/workflow/workflowspec", "GetServiceByName", "m.org/shop/svc", "S").(peval.Tuple)
				if t[1] != nil {
					return t[1]
				}
				if peval.Obj(t[0]) == nil {
					bad("there is no service")
					return nil
				}
				want := map[bool][]string{true: {"copies /src/shop to shop"}}
				if x.Local {
					want[true] = append(want[true], "copies "+x.Dir+" to next")
				} else {
					want[false] = []string{"requires " + x.Path + " " + x.Version}
				}
				sv := b.AsNode("plugins/workflow/workflowspec", "Service", t[0])
				mods := peval.Slice{}
				for _, md := range call(m, sv, "Modules")[0].(peval.Slice) {
					mods = append(mods, md)
				}
				for _, ws := range []bool{true, false} {
					for _, how := range []string{"service", "golang"} {
						var got []string
						kind, fn := "ModuleBuilder", "AddToModule"
						if ws {
							kind, fn = "WorkspaceBuilder", "AddToWorkspace"
						}
						bd := b.Generated(kind, fails, func(s string) { got = append(got, s) }, nil)
						for i := 0; i < 2; i++ {
							var e peval.Value
							if how == "service" {
								e = call(m, sv, fn, bd)[0]
							} else {
								e = b.Fn("plugins/golang", fn, bd, mods)
							}
							if i == 0 && (e != nil) != (fails && len(want[ws]) > 0) {
								bad("%s (%s): whether it fails is %v", fn, how, e != nil)
							}
							if e != nil {
								break
							}
						}
						w := append([]string(nil), want[ws]...)
						if fails && len(w) > 1 {
							w = w[:1]
						}
						sort.Strings(got)
						sort.Strings(w)
						if fails && len(got) == 1 && len(w) == 1 && contains(want[ws], got[0]) {
							continue
						}
						if strings.Join(got, "; ") != strings.Join(w, "; ") {
							bad("%s (%s) %s and not %s", fn, how, strings.Join(got, "; "), strings.Join(w, "; "))
						}
					}
				}
				return nil
			}})
		}
	}
	for _, fails := range []bool{false, true} {
		fails := fails
		steps = append(steps, step{fmt.Sprintf("a module by its name, adding fails: %v", fails), all, func(m *peval.Machine, bad func(string, ...any)) peval.Value {
			for _, kind := range []string{"ModuleBuilder", "WorkspaceBuilder"} {
				for _, x := range []*emit.Mod{local, impl} {
					var got []string
					note := func(s string) { got = append(got, s) }
					bd := b.Generated(kind, fails, note, b.Generated("WorkspaceBuilder", fails, note, nil))
					want := "requires m.org/impl v0.3.0"
					ask := x.Path
					if x.Local {
						want, ask = "copies /src/shop to shop", x.Path+"/svc"
					} else if kind == "WorkspaceBuilder" {
						want = ""
					}
					e := b.Fn("plugins/golang", "AddModule", bd, ask)
					if (e != nil) != (fails && want != "") {
						bad("adding %s to a %s: whether it fails is %v", ask, kind, e != nil)
					}
					if strings.Join(got, "; ") != want {
						bad("adding %s to a %s %s and not %s", ask, kind, strings.Join(got, "; "), want)
					}
				}
				if e := b.Fn("plugins/golang", "AddModule", b.Generated(kind, false, func(string) {}, nil), "m.org/none"); e == nil {
					bad("adding a module that does not exist to a %s succeeds", kind)
				}
			}
			return nil
		}})
	}
	// services that are asked for by their type
	for _, fn := range instancesOf(b, "plugins/workflow/workflowspec", "GetService") {
		fn := fn
		ta := fn.TypeArgs()[0]
		n, _ := ta.(*types.Named)
		if n == nil || files["/cache/runtime@v0.1.2/"+strings.TrimPrefix(n.Obj().Pkg().Path(), rt.Path+"/")+"/x.go"] == "" {
			continue
		}
		steps = append(steps, step{"the service of type " + types.TypeString(ta, nil), all, func(m *peval.Machine, bad func(string, ...any)) peval.Value {
			t := m.Call(fn, nil).(peval.Tuple)
			if t[1] != nil {
				return t[1]
			}
			o := peval.Obj(t[0])
			if o == nil || nameOf(o.Field("Struct")) != n.Obj().Name() || peval.Obj(peval.Obj(peval.Obj(o.Field("Struct")).Field("File")).Field("Package")).Field("Name") != n.Obj().Pkg().Path() {
				bad("another struct is found")
			}
			return nil
		}})
	}
	for _, st := range steps {
		for _, rev := range []bool{false, true} {
			var bads []string
			fs := map[string]string{}
			for f, s := range files {
				for _, md := range st.mods {
					if strings.HasPrefix(f, md.Dir+"/") {
						fs[f] = s
					}
				}
			}
			d := b.Evaluate(rev, func(m *peval.Machine) peval.Value {
				b.Workflow(fs, st.mods)
				return st.do(m, func(f string, a ...any) { bads = append(bads, fmt.Sprintf(f, a...)) })
			})
			switch {
			case d.Unk != "":
				c.Fail("undecided", st.what, token.NoPos, "it could not be determined: %s", d.Unk)
			case d.Failed != "":
				c.Fail("modules", st.what, token.NoPos, "it ends with: %s", d.Failed)
			}
			c.Ok("modules", st.what)
			for _, x := range bads {
				c.Fail("modules", st.what, token.NoPos, "%s", x)
			}
		}
	}
}

func sameStruct(a, b *peval.Struct) bool { return a != nil && a == b }

// instancesOf are the instances of a generic function that the program has.
func instancesOf(b *emit.B, pkg, name string) []*ssa.Function {
	sp := b.C.P.SSAPk[core.Mod+pkg]
	if sp == nil || sp.Func(name) == nil {
		return nil
	}
	origin := sp.Func(name)
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	for _, k := range b.C.P.SSAPk {
		for _, mem := range k.Members {
			f, ok := mem.(*ssa.Function)
			if !ok {
				continue
			}
			for _, bl := range f.Blocks {
				for _, in := range bl.Instrs {
					if call, ok := in.(ssa.CallInstruction); ok {
						if cf := call.Common().StaticCallee(); cf != nil && cf.Origin() == origin && !seen[cf] {
							seen[cf] = true
							out = append(out, cf)
						}
					}
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}
