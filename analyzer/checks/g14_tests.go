package checks

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"path"
	"sort"
	"strings"

	"golang.org/x/mod/modfile"

	"verif/analyzer/core"
	"verif/analyzer/emit"
	"verif/analyzer/peval"
)

func init() {
	register(&Check{
		ID: "G14",
		Rules: "The generator of workflow tests is evaluated over schematic workflows with test packages, in both orders of map iteration, and what it writes is type-checked together with the tests: " +
			"clients: every service registry variable of a tested service, or of an interface that the service contains, gets one client for each such service, in its own package, which is a copy of the one in the workflow; no other gets any; " +
			"asks: a client is got by the name of the service's node from the library of clients that was generated, with errors passed on; " +
			"compiles: the tests and what is added to them are Go; " +
			"fails: a step that fails ends the generation.",
		Run:       runG14,
		NotDecide: "The content of tests; registries that are not declared as the documentation says; whether the system is up when the tests run.",
	})
}

const registryPkg = core.Mod + "runtime/core/registry"

type testCase struct {
	what     string
	files    map[string]string
	mods     []*emit.Mod
	services []string // node name = package.Interface that is tested
	fail     string   // what fails
}

func testCases() []*testCase {
	flow := &emit.Mod{Path: "m.org/shop/workflow", Dir: "/src/workflow", Local: true}
	odd := &emit.Mod{Path: "m.org/shop/workflow", Dir: "/src/elsewhere", Local: true}
	tests := &emit.Mod{Path: "m.org/shop/tests", Dir: "/src/tests", Local: true}
	base := map[string]string{
		"user/user.go": `package user

import "context"

type User struct{ Name string }

type UserService interface {
	Get(ctx context.Context, id int64) (User, error)
	Put(ctx context.Context, u User) error
}

// Reader is a part of UserService.
type Reader interface {
	Get(ctx context.Context, id int64) (User, error)
}

// Similar is not.
type Similar interface {
	Get(ctx context.Context, id int32) (User, error)
}

type impl struct{}

func (impl) Get(ctx context.Context, id int64) (User, error) { return User{}, nil }
func (impl) Put(ctx context.Context, u User) error           { return nil }

func NewUserService(ctx context.Context) (UserService, error) { return impl{}, nil }
func NewReader(ctx context.Context) (Reader, error) { return impl{}, nil }

type sim struct{}

func (sim) Get(ctx context.Context, id int32) (User, error) { return User{}, nil }

func NewSimilar(ctx context.Context) (Similar, error) { return sim{}, nil }
`,
		"order/order.go": `package order

import (
	"context"
	"m.org/shop/workflow/user"
)

type OrderService interface {
	Order(ctx context.Context, by user.User, items []string) (string, error)
}

type impl struct{ users user.UserService }

func (*impl) Order(ctx context.Context, by user.User, items []string) (string, error) { return "", nil }

func NewOrderService(ctx context.Context, users user.UserService) (OrderService, error) { return &impl{users}, nil }
`,
	}
	reg := "\"" + registryPkg + "\""
	all := map[string]string{
		"/src/tests/user_test.go":      "package tests\n\nimport (\n\t\"context\"\n\t\"testing\"\n\t" + reg + "\n\t\"m.org/shop/workflow/user\"\n)\n\nvar userRegistry = registry.NewServiceRegistry[user.UserService](\"user_service\")\n\nfunc init() {\n\tuserRegistry.Register(\"local\", func(ctx context.Context) (user.UserService, error) { return user.NewUserService(ctx) })\n}\n\nfunc TestUser(t *testing.T) {}\n",
		"/src/tests/order_test.go":     "package tests\n\nimport (\n\t" + reg + "\n\t\"m.org/shop/workflow/order\"\n\tu \"m.org/shop/workflow/user\"\n)\n\nvar (\n\torderRegistry = registry.NewServiceRegistry[order.OrderService](\"order_service\")\n\tusersAgain    = registry.NewServiceRegistry[u.UserService](\"again\")\n\tpart          = registry.NewServiceRegistry[u.Reader](\"part\")\n\txpart = registry.NewServiceRegistry[u.Reader](\"xpart\")\n\tsimilar       = registry.NewServiceRegistry[u.Similar](\"similar\")\n\tnumbers       = registry.NewServiceRegistry[int](\"numbers\")\n)\n\nvar list = []int{1}\nvar name string\nvar size = len(list)\n",
		"/src/tests/deep/more/more.go": "package more\n\nimport (\n\t\"m.org/shop/workflow/order\"\n\t" + reg + "\n)\n\nvar Orders = registry.NewServiceRegistry[order.OrderService](\"orders\")\n",
		"/src/tests/quiet/quiet.go":    "package quiet\n\nvar Level = 3\n",
	}
	make := func(dir string, more ...map[string]string) map[string]string {
		out := map[string]string{}
		for k, v := range base {
			out[dir+"/"+k] = v
		}
		for _, m := range more {
			for k, v := range m {
				out[k] = v
			}
		}
		return out
	}
	U, O, S := "user_service=m.org/shop/workflow/user.UserService", "order_service=m.org/shop/workflow/order.OrderService", "similar_one=m.org/shop/workflow/user.Similar"
	both := []*emit.Mod{flow, tests}
	inside := map[string]string{
		"/src/elsewhere/user/user_test.go": "package user\n\nimport (\n\t\"context\"\n\t" + reg + "\n)\n\nvar users = registry.NewServiceRegistry[UserService](\"users\")\n\nfunc init() {\n\tusers.Register(\"local\", func(ctx context.Context) (UserService, error) { return nil, nil })\n}\n",
	}
	moved := make("/src/workflow")
	for f, s := range all {
		moved[strings.Replace(f, "/src/tests/", "/src/other/workflow/", 1)] = s
	}
	return []*testCase{
		{"one service", make("/src/workflow", all), both, []string{U}, ""},
		{"all services", make("/src/workflow", all), both, []string{U, O, S}, ""},
		{"two services of one interface", make("/src/workflow", all), both, []string{O, "second_user=m.org/shop/workflow/user.UserService", U}, ""},
		{"no service", make("/src/workflow", all), both, nil, ""},
		{"no tests", make("/src/workflow"), []*emit.Mod{flow}, []string{U, O}, ""},
		{"tests in the workflow's own packages", make("/src/elsewhere", inside), []*emit.Mod{odd}, []string{U}, ""},
		{"tests in a directory named as the workflow", moved, []*emit.Mod{flow, {Path: "m.org/shop/checks", Dir: "/src/other/workflow", Local: true}}, []string{U, O}, ""},
		{"a service without an interface", make("/src/workflow", all), both, []string{U, "order_service="}, "the interface"},
		{"a module that cannot be copied", make("/src/workflow", all), both, []string{U}, "copying"},
	}
}

func runG14(c *core.Ctx) {
	b := emit.New(c)
	for _, tc := range testCases() {
		for _, rev := range []bool{false, true} {
			g14Case(c, b, tc, rev)
		}
	}
	c.Floor("clients", 20)
	c.Floor("asks", 16)
	c.Floor("compiles", 8)
	c.Floor("fails", 4)
}

func g14Case(c *core.Ctx, b *emit.B, tc *testCase, rev bool) {
	fc := &flowCase{what: tc.what, files: map[string]string{}, mods: tc.mods}
	for f, s := range tc.files {
		fc.files[strings.Replace(f, "_test.go", "_t.go", 1)] = s
	}
	g, err := goSideOf(b, fc)
	if err != nil {
		c.Fail("undecided", tc.what, token.NoPos, "the schematic source is not Go: %v", err)
		return
	}
	d := b.Evaluate(rev, func(m *peval.Machine) peval.Value {
		files := map[string]string{"/cache/runtime/doc.go": "package runtime\n", "/cache/runtime/core/registry/registry.go": "package registry\n"}
		for f, s := range tc.files {
			files[f] = s
		}
		b.Workflow(files, append([]*emit.Mod{{Path: core.Mod + "runtime", Dir: "/cache/runtime", Version: "v1.2.3"}}, tc.mods...))
		for _, md := range tc.mods {
			if e := b.Fn("plugins/workflow/workflowspec", "AddModule", anyPkg(g, md)); e != nil {
				return e
			}
		}
		lib := b.AsNode("plugins/gotests", "testLibrary", b.Fn("plugins/gotests", "newTestLibrary", "shop.tests"))
		services := peval.NewMap()
		nodes := peval.Slice{}
		for _, s := range tc.services {
			name, typ, _ := strings.Cut(s, "=")
			ms := map[string]func(*peval.Machine, []peval.Value) peval.Value{
				"Name":   func(*peval.Machine, []peval.Value) peval.Value { return name + ".client" },
				"String": func(*peval.Machine, []peval.Value) peval.Value { return name },
				"GetInterface": func(m *peval.Machine, a []peval.Value) peval.Value {
					if typ == "" {
						return peval.Tuple{nil, peval.MkErr("it has no interface")}
					}
					i := strings.LastIndex(typ, ".")
					t := b.Fn("plugins/workflow/workflowspec", "GetServiceByName", typ[:i], typ[i+1:]).(peval.Tuple)
					if t[1] != nil {
						return peval.Tuple{nil, t[1]}
					}
					ii := b.AsNode(c09parser, "ParsedInterface", peval.Obj(t[0]).Field("Iface"))
					r, _ := m.Method(ii.T, ii.V, "ServiceInterface", nil)
					return peval.Tuple{b.AsNode("plugins/golang/gocode", "ServiceInterface", r), nil}
				},
				"AddToWorkspace": func(m *peval.Machine, a []peval.Value) peval.Value {
					i := strings.LastIndex(typ, ".")
					if i < 0 {
						return nil
					}
					t := b.Fn("plugins/workflow/workflowspec", "GetServiceByName", typ[:i], typ[i+1:]).(peval.Tuple)
					if t[1] != nil {
						return t[1]
					}
					sv := b.AsNode("plugins/workflow/workflowspec", "Service", t[0])
					r, _ := m.Method(sv.T, sv.V, "AddToWorkspace", a[len(a)-1])
					return r
				},
			}
			st := &peval.Stub{Name: name, Methods: ms}
			st.Is = func(t types.Type) bool {
				it, ok := t.Underlying().(*types.Interface)
				if !ok {
					return false
				}
				for i := 0; i < it.NumMethods(); i++ {
					if ms[it.Method(i).Name()] == nil {
						return false
					}
				}
				return true
			}
			services.Set(name, peval.Iface{V: st})
			nodes = append(nodes, peval.Iface{V: st})
		}
		emit.Put(lib, "ServicesToTest", services)
		emit.Put(lib, "Nodes", nodes)
		if tc.fail == "copying" {
			delete(m.Files, "/src/tests/go.mod")
		}
		return b.Artifacts(lib)(m)
	})
	if d.Unk != "" {
		c.Fail("undecided", tc.what, token.NoPos, "what is generated could not be determined: %s", d.Unk)
		return
	}
	if tc.fail != "" {
		if d.Failed == "" || strings.HasPrefix(d.Failed, "panics") {
			c.Fail("fails", tc.what, token.NoPos, "%s fails and the generation does not: %s", tc.fail, d.Failed)
		}
		c.Ok("fails", tc.what)
		return
	}
	if d.Failed != "" {
		c.Fail("clients", tc.what, token.NoPos, "the tests cannot be generated: %s", d.Failed)
		return
	}
	// what there should be: package.variable -> names
	want := map[string][]string{}
	for p, fs := range g.src {
		for _, af := range fs {
			for _, dl := range af.Decls {
				gd, _ := dl.(*ast.GenDecl)
				if gd == nil || gd.Tok != token.VAR {
					continue
				}
				for _, sp := range gd.Specs {
					for _, id := range sp.(*ast.ValueSpec).Names {
						v, _ := g.pkgs[p].Scope().Lookup(id.Name).(*types.Var)
						if v == nil {
							continue
						}
						n, _ := core.Deref(v.Type()).(*types.Named)
						if n == nil || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != registryPkg || n.TypeArgs().Len() != 1 {
							continue
						}
						arg := n.TypeArgs().At(0)
						for _, s := range tc.services {
							name, typ, _ := strings.Cut(s, "=")
							i := strings.LastIndex(typ, ".")
							st := g.pkgs[typ[:i]].Scope().Lookup(typ[i+1:]).Type()
							it, _ := arg.Underlying().(*types.Interface)
							if types.Identical(arg, st) || it != nil && types.Implements(st, it) {
								want[p+"."+id.Name] = append(want[p+"."+id.Name], name)
							}
						}
					}
				}
			}
		}
	}
	out := outOf(b, d.Files)
	var missing []string
	for p := range g.src {
		need := false
		for k := range want {
			need = need || strings.HasPrefix(k, p+".")
		}
		if need && out.src[p] == nil {
			missing = append(missing, p)
		}
	}
	sort.Strings(missing)
	for _, p := range missing {
		c.Fail("clients", tc.what+" "+p, token.NoPos, "the test package is not among what is generated")
	}
	for p, n := range out.dup {
		c.Fail("clients", tc.what+" "+p, token.NoPos, "the package is generated %d times", n)
	}
	out.checkAll()
	for _, e := range out.errs {
		c.Fail("compiles", tc.what, token.NoPos, "what is generated is not Go: %s", e)
	}
	c.Ok("compiles", tc.what)
	// the sources of a test package are there as they were
	for f, s := range tc.files {
		p := fc.pkgOf(f)
		if out.src[p] != nil && out.text[p+"/"+path.Base(f)] != s {
			c.Fail("clients", tc.what+" "+f, token.NoPos, "the copy of it differs")
		}
	}
	got := map[string][]string{}
	for p, fs := range out.src {
		for _, af := range fs {
			if out.text[p+"/"+path.Base(out.fset.Position(af.Pos()).Filename)] != "" && tc.files[srcOf(tc, fc, p, path.Base(out.fset.Position(af.Pos()).Filename))] != "" {
				continue // written by hand
			}
			for _, r := range out.registrations(c, tc.what, p, af) {
				got[r[0]] = append(got[r[0]], r[1])
			}
		}
	}
	keys := map[string]bool{}
	for k := range want {
		keys[k] = true
	}
	for k := range got {
		keys[k] = true
	}
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		sort.Strings(want[k])
		sort.Strings(got[k])
		if strings.Join(want[k], " ") != strings.Join(got[k], " ") {
			c.Fail("clients", tc.what+" "+k, token.NoPos, "it gets clients for [%s] and not for [%s]", strings.Join(got[k], " "), strings.Join(want[k], " "))
			continue
		}
		c.Ok("clients", tc.what+" "+k)
	}
	if len(ks) == 0 {
		c.Ok("clients", tc.what)
	}
}

func srcOf(tc *testCase, fc *flowCase, p, base string) string {
	for f := range tc.files {
		if fc.pkgOf(f) == p && path.Base(f) == base {
			return f
		}
	}
	return ""
}

func anyPkg(g *goSide, md *emit.Mod) string {
	var ps []string
	for p := range g.src {
		if strings.HasPrefix(p, md.Path) {
			ps = append(ps, p)
		}
	}
	sort.Strings(ps)
	return ps[0]
}

// written is a generated workspace.
type written struct {
	b    *emit.B
	fset *token.FileSet
	src  map[string][]*ast.File
	text map[string]string
	pkgs map[string]*types.Package
	info map[string]*types.Info
	busy map[string]bool
	dup  map[string]int
	errs []string
	dirs map[string]string
}

func outOf(b *emit.B, files map[string]string) *written {
	w := &written{b: b, fset: token.NewFileSet(), src: map[string][]*ast.File{}, text: map[string]string{}, pkgs: map[string]*types.Package{}, info: map[string]*types.Info{}, busy: map[string]bool{}, dup: map[string]int{}, dirs: map[string]string{}}
	var fs []string
	mods := map[string]string{}
	for f, s := range files {
		if strings.HasPrefix(f, "/") {
			continue // not generated
		}
		fs = append(fs, f)
		if path.Base(f) == "go.mod" {
			if m, err := modfile.ParseLax(f, []byte(s), nil); err == nil && m.Module != nil {
				mods[path.Dir(f)] = m.Module.Mod.Path
			}
		}
	}
	sort.Strings(fs)
	for _, f := range fs {
		if !strings.HasSuffix(f, ".go") {
			continue
		}
		dir, mod := "", ""
		for d, p := range mods {
			if strings.HasPrefix(f, d+"/") && len(d) > len(dir) {
				dir, mod = d, p
			}
		}
		p := mod + strings.TrimPrefix(path.Dir(f), dir)
		if old, ok := w.dirs[p]; ok && old != path.Dir(f) {
			w.dup[p]++
		}
		w.dirs[p] = path.Dir(f)
		af, err := parser.ParseFile(w.fset, f, files[f], parser.SkipObjectResolution)
		if err != nil {
			w.errs = append(w.errs, err.Error())
			continue
		}
		w.src[p] = append(w.src[p], af)
		w.text[p+"/"+path.Base(f)] = files[f]
	}
	return w
}

func (w *written) Import(p string) (*types.Package, error) {
	if w.src[p] != nil {
		return w.check(p)
	}
	return w.b.Import(p)
}

func (w *written) check(p string) (*types.Package, error) {
	if pk := w.pkgs[p]; pk != nil {
		return pk, nil
	}
	if w.busy[p] {
		return nil, fmt.Errorf("import cycle through %s", p)
	}
	w.busy[p] = true
	info := &types.Info{Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Types: map[ast.Expr]types.TypeAndValue{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
	conf := types.Config{Importer: w, Error: func(err error) { w.errs = append(w.errs, err.Error()) }}
	pk, _ := conf.Check(p, w.fset, w.src[p], info)
	w.pkgs[p], w.info[p] = pk, info
	return pk, nil
}

func (w *written) checkAll() {
	var ps []string
	for p := range w.src {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for _, p := range ps {
		w.check(p)
	}
}

// registrations are the clients that a file registers: variable and name.
func (w *written) registrations(c *core.Ctx, what, p string, af *ast.File) [][2]string {
	info := w.info[p]
	var out [][2]string
	if info == nil {
		return nil
	}
	str := func(e ast.Expr) (string, bool) {
		tv := info.Types[e]
		if tv.Value == nil || tv.Value.Kind() != constant.String {
			return "", false
		}
		return constant.StringVal(tv.Value), true
	}
	method := func(e ast.Expr, name string) (*ast.CallExpr, *ast.SelectorExpr) {
		call, _ := e.(*ast.CallExpr)
		if call == nil {
			return nil, nil
		}
		sel, _ := call.Fun.(*ast.SelectorExpr)
		if sel == nil || sel.Sel.Name != name {
			return nil, nil
		}
		return call, sel
	}
	obj := func(e ast.Expr) types.Object {
		id, _ := e.(*ast.Ident)
		if id == nil {
			return nil
		}
		if o := info.Uses[id]; o != nil {
			return o
		}
		return info.Defs[id]
	}
	for _, dl := range af.Decls {
		fd, _ := dl.(*ast.FuncDecl)
		if fd == nil || fd.Name.Name != "init" || fd.Recv != nil || fd.Body == nil {
			continue
		}
		libs := map[types.Object]bool{}
		for _, st := range fd.Body.List {
			if as, ok := st.(*ast.AssignStmt); ok && len(as.Lhs) == 1 && len(as.Rhs) == 1 {
				if call, ok := as.Rhs[0].(*ast.CallExpr); ok {
					var fn types.Object
					switch f := call.Fun.(type) {
					case *ast.SelectorExpr:
						fn = info.Uses[f.Sel]
					case *ast.Ident:
						fn = info.Uses[f]
					}
					if fn != nil && fn.Pkg() != nil && w.src[fn.Pkg().Path()] != nil && fn.Pkg().Path() != p {
						libs[obj(as.Lhs[0])] = true
					}
				}
				continue
			}
			es, _ := st.(*ast.ExprStmt)
			if es == nil {
				continue
			}
			call, sel := method(es.X, "Register")
			if call == nil || len(call.Args) != 2 {
				continue
			}
			v, _ := obj(sel.X).(*types.Var)
			name, ok := str(call.Args[0])
			if v == nil || !ok || v.Parent() != w.pkgs[p].Scope() {
				continue
			}
			at := what + " " + p + "." + v.Name() + " " + name
			out = append(out, [2]string{p + "." + v.Name(), name})
			lit, _ := call.Args[1].(*ast.FuncLit)
			if lit == nil {
				c.Fail("asks", at, token.NoPos, "how the client is made is not written down")
				continue
			}
			asked, passed := "", false
			built := false
			var client types.Object
			ast.Inspect(lit.Body, func(n ast.Node) bool {
				if e, ok := n.(ast.Expr); ok {
					if cl, s := method(e, "Build"); cl != nil && libs[obj(s.X)] {
						built = true
					}
					if cl, s := method(e, "Get"); cl != nil && len(cl.Args) == 2 && obj(s.X) != nil {
						asked, _ = str(cl.Args[0])
						if u, ok := cl.Args[1].(*ast.UnaryExpr); ok && u.Op == token.AND {
							client = obj(u.X)
						}
					}
				}
				if r, ok := n.(*ast.ReturnStmt); ok && len(r.Results) == 2 && client != nil && obj(r.Results[0]) == client && core.IsError(info.Types[r.Results[1]].Type) {
					passed = true
				}
				return true
			})
			switch {
			case !built:
				c.Fail("asks", at, token.NoPos, "the client does not come from a library that was generated")
			case asked != name+".client":
				c.Fail("asks", at, token.NoPos, "the client is that of %q and not of %q", asked, name+".client")
			case !passed:
				c.Fail("asks", at, token.NoPos, "the client or the error is not returned")
			}
			c.Ok("asks", at)
		}
	}
	return out
}
