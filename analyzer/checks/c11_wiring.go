package checks

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"io/fs"
	"os"
	"path"
	"regexp"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"gopkg.in/yaml.v3"

	"verif/analyzer/core"
	"verif/analyzer/emit"
	"verif/analyzer/peval"
)

func init() {
	register(&Check{
		ID: "C11",
		Rules: "Whole applications are described by calls of the plugins' wiring functions, made and generated by evaluating the compiler on them (all inputs of the evaluation are in the table of cases), and the generated files are read back. " +
			"objects: every process builds exactly the objects that the spec asks for, each with the constructor of its implementation and the arguments given in the spec, in order, through exactly the modifiers that the spec adds, innermost first; the names of processes and containers are those of the spec; " +
			"places: the containers of a deployment and the pods of an application are those of the spec; connects: every address that a process takes is given to it by the files of its deployment, and an address that it dials is that of a container which listens there; " +
			"twice: a second evaluation in which maps are walked backwards gives the same; refuses: a spec that asks for something impossible ends in an error.",
		Run:       runC11,
		NotDecide: "What the modifiers do at run time (G04–G10), how addresses are assigned (C04), what a container's files say (D01, D02).",
	})
}

// app is an application that is described by calls of wiring functions.
type app struct {
	b    *emit.B
	g    *goSide
	spec peval.Value
	used map[string]bool
}

// do calls a function of a plugin with the spec first.
func (a *app) do(fn string, args ...any) peval.Value {
	i := strings.LastIndex(fn, ".")
	a.used[fn] = true
	return a.b.Fn("plugins/"+fn[:i], fn[i+1:], append([]peval.Value{a.spec}, a.values(args)...)...)
}

// of calls a generic function of a plugin for a type of the workflow.
func (a *app) of(fn, typ string, args ...any) peval.Value {
	i := strings.LastIndex(fn, ".")
	a.used[fn] = true
	sp := a.b.C.P.SSAPk[core.Mod+"plugins/"+fn[:i]]
	j := strings.LastIndex(typ, ".")
	o := a.g.pkgs["m.org/shop/workflow/"+typ[:j]].Scope().Lookup(typ[j+1:])
	if sp == nil || sp.Func(fn[i+1:]) == nil || o == nil {
		panic(peval.Undecided{Msg: "function plugins/" + fn + " for " + typ})
	}
	return a.b.M.Generic(sp.Func(fn[i+1:]), []types.Type{o.Type()}, append([]peval.Value{a.spec}, a.values(args)...))
}

func (a *app) values(args []any) []peval.Value {
	var out []peval.Value
	for _, x := range args {
		switch x := x.(type) {
		case int:
			out = append(out, int64(x))
		case []string:
			out = append(out, names(x...))
		default:
			out = append(out, x)
		}
	}
	return out
}

func names(s ...string) peval.Slice {
	out := peval.Slice{}
	for _, x := range s {
		out = append(out, x)
	}
	return out
}

// wireCase is an application and what should become of it.
type wireCase struct {
	what  string
	do    func(a *app)
	build []string
	// the trees that each process builds, by its directory
	want map[string][]string
	// why it should be refused
	refuse string
}

const schemaMod = "m.org/shop/workflow"

func runC11(c *core.Ctx) {
	b := emit.New(c)
	fc := &flowCase{what: "the applications", files: wiredSource(), mods: []*emit.Mod{{Path: schemaMod, Dir: "/src/workflow", Local: true, How: "main"}}}
	g, err := goSideOf(b, fc)
	if err != nil {
		c.Fail("objects", "schematic workflow", token.NoPos, "%v", err)
		return
	}
	rt := runtimeSource(b)
	used := map[string]bool{}
	for _, w := range wireCases() {
		var first string
		for i, rev := range []bool{false, true} {
			d := evaluateApp(b, g, fc, rt, w, rev, used)
			if w.refuse != "" {
				switch {
				case d.Unk != "":
					c.Fail("refuses", w.what, token.NoPos, "cannot be evaluated: %s", d.Unk)
				case strings.HasPrefix(d.Failed, "panics: "):
					c.Fail("refuses", w.what, token.NoPos, "a wiring spec with %s makes the compiler %s", w.refuse, d.Failed)
				case d.Failed == "":
					c.Fail("refuses", w.what, token.NoPos, "the compiler accepts a wiring spec with %s", w.refuse)
				default:
					c.Ok("refuses", w.what)
				}
				break
			}
			if d.Unk != "" || d.Failed != "" {
				c.Fail("objects", w.what, token.NoPos, "the application cannot be generated: %s%s", d.Unk, d.Failed)
				break
			}
			if os.Getenv("C11") == "2" && i == 0 {
				for f, t := range d.Files {
					if strings.Contains(f, "env") || strings.HasSuffix(f, ".yml") || strings.HasSuffix(f, "Dockerfile") || strings.HasSuffix(f, "run.sh") || strings.HasSuffix(f, ".yaml") {
						fmt.Println("-----", f)
						fmt.Println(t)
					}
				}
			}
			got := readApp(d.Files)
			for k, v := range readPlaces(d.Files) {
				got[k] = v
			}
			var all []string
			var ks []string
			for k := range got {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				for _, t := range got[k] {
					all = append(all, k+": "+t)
				}
			}
			text := strings.Join(all, "\n")
			if i == 1 {
				if text != first {
					c.Fail("twice", w.what, token.NoPos, "generating the application again gives something else:\n%s\nnot\n%s", text, first)
				} else {
					c.Ok("twice", w.what)
				}
				break
			}
			first = text
			c11Connects(c, b, w.what, d.Files, got)
			if os.Getenv("C11") != "" {
				fmt.Println("#", w.what)
				for _, k := range ks {
					fmt.Printf("\t\t\t\t%q: {\n", k)
					for _, t := range got[k] {
						if strings.Contains(t, "`") {
							fmt.Printf("\t\t\t\t\t%q,\n", t)
						} else {
							fmt.Printf("\t\t\t\t\t`%s`,\n", t)
						}
					}
					fmt.Println("\t\t\t\t},")
				}
			}
			for k, want := range w.want {
				if got[k] == nil {
					c.Fail("objects", w.what+": "+k, token.NoPos, "no process is generated at %s", k)
					continue
				}
				for _, t := range diff(want, got[k]) {
					c.Fail("objects", w.what+": "+k, token.NoPos, "the process does not build %s; it builds %s", t, strings.Join(diff(got[k], want), " and "))
				}
				for _, t := range diff(got[k], want) {
					c.Fail("objects", w.what+": "+k, token.NoPos, "the process builds %s, which the wiring spec does not ask for", t)
				}
				for _, t := range want {
					if contains(got[k], t) {
						c.Ok("objects", w.what+": "+k+": "+t)
					}
				}
			}
			for k := range got {
				if _, ok := w.want[k]; !ok {
					c.Fail("objects", w.what+": "+k, token.NoPos, "a process is generated at %s, which the wiring spec does not ask for", k)
				}
			}
		}
	}
	if os.Getenv("C11") != "" {
		for _, f := range wiringNames(c) {
			if !used[f] {
				fmt.Println("unused", f)
			}
		}
	}
	c.Floor("objects", 60)
	c.Floor("connects", 40)
	c.Floor("twice", 14)
	c.Floor("refuses", 11)
}

// wiringNames are the wiring functions that the plugins export.
func wiringNames(c *core.Ctx) []string {
	var out []string
	for p, sp := range c.P.SSAPk {
		rel, ok := strings.CutPrefix(p, core.Mod+"plugins/")
		if !ok || sp == nil {
			continue
		}
		for n, m := range sp.Members {
			o, ok := m.Object().(*types.Func)
			if !ok || !o.Exported() {
				continue
			}
			ps := o.Type().(*types.Signature).Params()
			if ps.Len() > 0 && core.TypeName(ps.At(0).Type()) == "blueprint/pkg/wiring.WiringSpec" {
				out = append(out, rel+"."+n)
			}
		}
	}
	sort.Strings(out)
	return out
}

// diff is what is in a more often than in b.
func diff(a, b []string) []string {
	n := map[string]int{}
	for _, x := range b {
		n[x]++
	}
	var out []string
	for _, x := range a {
		if n[x]--; n[x] < 0 {
			out = append(out, x)
		}
	}
	return out
}

func evaluateApp(b *emit.B, g *goSide, fc *flowCase, rt map[string]string, w *wireCase, rev bool, used map[string]bool) *emit.Deployed {
	return b.Evaluate(rev, func(m *peval.Machine) peval.Value {
		files := map[string]string{}
		for f, s := range rt {
			files[f] = s
		}
		for f, s := range fc.files {
			files[f] = s
		}
		b.Workflow(files, append([]*emit.Mod{{Path: core.Mod + "runtime", Dir: "/cache/runtime", Version: "v1.2.3"}}, fc.mods...))
		a := &app{b: b, g: g, used: used}
		n := b.AsNode("plugins/cmdbuilder", "CmdBuilder", b.Fn("plugins/cmdbuilder", "NewCmdBuilder", "app"))
		emit.Put(n, "OutputDir", emit.DeployDir)
		emit.Put(n, "SpecName", "spec")
		emit.Put(n, "Env", true)
		emit.Put(n, "Port", int64(12345))
		spec := peval.Obj(n.V).Field("Spec").(*peval.Struct)
		spec.Set("Build", &peval.Native{F: func(m *peval.Machine, x []peval.Value) peval.Value {
			a.spec = x[0]
			w.do(a)
			return peval.Tuple{names(w.build...), nil}
		}})
		r, _ := m.Method(n.T, n.V, "Build")
		return r
	})
}

// runtimeSource is the source of the runtime module.
func runtimeSource(b *emit.B) map[string]string {
	out := map[string]string{}
	root := filepath.Join(b.C.P.Root, "runtime")
	filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if err != nil || d.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		x, err := os.ReadFile(p)
		rel, _ := filepath.Rel(root, p)
		if err == nil {
			out["/cache/runtime/"+filepath.ToSlash(rel)] = string(x)
		}
		return nil
	})
	return out
}

// readApp reads what every generated process builds: the trees of constructors that nothing else of
// the process uses, by the directory of the process.
func readApp(files map[string]string) map[string][]string {
	out := map[string][]string{}
	for f, src := range files {
		if strings.HasPrefix(f, "/") || !strings.HasSuffix(f, ".go") || !strings.Contains(src, ".NewNamespaceBuilder(") {
			continue
		}
		ns := readNamespace(src)
		if ns.err != "" || ns.pkg != "main" && !strings.Contains(path.Dir(f), "gotests") {
			continue
		}
		r := &appReader{files: files, dir: path.Dir(f), uses: map[string]int{}}
		for _, d := range ns.defs {
			if d.ctor != "" {
				for _, a := range d.args {
					r.uses[ns.object(a)]++
				}
			}
		}
		used := map[string]bool{}
		trees := map[string]string{}
		for n := range ns.defs {
			trees[n] = r.tree(ns, nil, n, used, map[string]bool{}, true)
		}
		key := path.Dir(f)
		if path.Base(key) == path.Base(path.Dir(key)) {
			key = path.Dir(key)
		}
		var l []string
		for n := range ns.defs {
			if !used[n] {
				l = append(l, trees[n])
			}
		}
		for n := range ns.built {
			if ns.defs[n] == nil {
				l = append(l, "nothing for "+n)
			}
		}
		sort.Strings(l)
		out[key] = l
	}
	return out
}

type appReader struct {
	files map[string]string
	dir   string
	uses  map[string]int // how many uses there are of an object, if they are direct
}

// object is the node that a name means after all.
func (ns *nsFile) object(name string) string {
	for i := 0; i < 50; i++ {
		d := ns.defs[name]
		if d == nil || d.ctor != "" || len(d.args) != 1 {
			break
		}
		name = d.args[0]
	}
	return name
}

// tree spells how a node is built.
func (r *appReader) tree(ns, parent *nsFile, name string, used, busy map[string]bool, top bool) string {
	if !top {
		used[name] = true
	}
	d := ns.defs[name]
	if d == nil && parent != nil {
		return "^" + r.tree(parent, nil, name, used, busy, top)
	}
	switch {
	case d == nil && ns.required[name]+ns.optional[name] > 0:
		return "@" + name
	case d == nil:
		return "undefined " + name
	case d.n != 1:
		return fmt.Sprintf("%s, which is defined %d times", name, d.n)
	case d.bad != "":
		return name + ", of which " + d.bad
	case busy[name]:
		return "a circle of " + name
	}
	busy[name] = true
	defer delete(busy, name)
	if d.ctor == "" {
		if len(d.args) == 1 {
			return r.tree(ns, parent, d.args[0], used, busy, false)
		}
		return name + " of unknown make"
	}
	fn := strings.TrimPrefix(strings.TrimPrefix(d.ctor, core.Mod+"runtime/"), schemaMod+"/")
	if i := strings.LastIndex(d.ctor, "."); fn == d.ctor {
		fn = path.Base(d.ctor[:i])
		if in := r.inner(d.ctor[:i], d.ctor[i+1:]); in != nil {
			return fn + "{" + r.tree(in.ns, ns, in.get, used, busy, false) + "}"
		}
	}
	var as []string
	for _, a := range d.args {
		if strings.HasPrefix(a, `"`) || strings.HasPrefix(a, "`") {
			if v, err := strconv.Unquote(a); err == nil {
				a = strconv.Quote(v)
			}
			as = append(as, a)
			continue
		}
		as = append(as, r.tree(ns, parent, a, used, busy, false))
	}
	if parent == nil && r.uses[name] > 1 {
		fn = "shared " + fn
	}
	return fn + "(" + strings.Join(as, ", ") + ")"
}

type innerNS struct {
	ns  *nsFile
	get string
}

// inner is the namespace that a generated function builds for itself, and the node that it takes from it.
func (r *appReader) inner(pkg, fn string) *innerNS {
	dir := path.Join(r.dir, path.Base(pkg))
	var body *ast.FuncDecl
	nss := map[string]*nsFile{}
	for f, src := range r.files {
		if path.Dir(f) != dir || !strings.HasSuffix(f, ".go") {
			continue
		}
		af, err := parser.ParseFile(token.NewFileSet(), f, src, parser.SkipObjectResolution)
		if err != nil {
			continue
		}
		for _, d := range af.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == fn {
				body = fd
			}
		}
		if strings.Contains(src, ".NewNamespaceBuilder(") {
			ns := readNamespace(src)
			for _, x := range ns.funcs {
				nss[x] = ns
			}
		}
	}
	if body == nil {
		return nil
	}
	in := &innerNS{}
	ast.Inspect(body, func(n ast.Node) bool {
		c, ok := n.(*ast.CallExpr)
		if !ok {
			return true
		}
		switch f := c.Fun.(type) {
		case *ast.Ident:
			if nss[f.Name] != nil {
				in.ns = nss[f.Name]
			}
		case *ast.SelectorExpr:
			if lit, ok := firstLit(c); ok && f.Sel.Name == "Get" {
				in.get = lit
			}
		}
		return true
	})
	if in.ns == nil || in.get == "" {
		return nil
	}
	return in
}

func firstLit(c *ast.CallExpr) (string, bool) {
	if len(c.Args) == 0 {
		return "", false
	}
	lit, ok := c.Args[0].(*ast.BasicLit)
	if !ok || lit.Kind != token.STRING {
		return "", false
	}
	v, err := strconv.Unquote(lit.Value)
	return v, err == nil
}

// documents are the YAML files of deployments.
func documents(files map[string]string, ends ...string) map[string]yamap {
	out := map[string]yamap{}
	for f, src := range files {
		if strings.HasPrefix(f, "/") {
			continue
		}
		for _, e := range ends {
			if strings.HasSuffix(f, e) {
				var top yamap
				if yaml.Unmarshal([]byte(src), &top) == nil {
					out[f] = top
				}
			}
		}
	}
	return out
}

func at(v any, keys ...string) any {
	for _, k := range keys {
		v = asMap(v)[k]
	}
	return v
}

func items(v any) []any {
	l, _ := v.([]any)
	return l
}

// readPlaces reads which containers are deployed where.
func readPlaces(files map[string]string) map[string][]string {
	out := map[string][]string{}
	for f, top := range documents(files, "docker-compose.yml") {
		for n, v := range asMap(top["services"]) {
			if ctx := str(at(v, "build", "context")); ctx != "" {
				n += " from " + path.Clean(ctx)
			} else {
				n += " of an image"
			}
			k := path.Dir(f) + " (containers)"
			out[k] = append(out[k], n)
			sort.Strings(out[k])
		}
	}
	for f, top := range documents(files, ".yaml") {
		if str(top["kind"]) != "Deployment" {
			continue
		}
		var cs []string
		for _, x := range items(at(top, "spec", "template", "spec", "containers")) {
			n := str(at(x, "name"))
			if im := str(at(x, "image")); strings.Contains(im, "/") {
				n += " from " + im
			}
			cs = append(cs, n)
		}
		sort.Strings(cs)
		k := path.Dir(f) + " (pods)"
		out[k] = append(out[k], str(at(top, "metadata", "name"))+": "+strings.Join(cs, ", "))
		sort.Strings(out[k])
	}
	return out
}

var clientOf = regexp.MustCompile(`plugins/(\w+)\.New\w+\(@([^,) ]*)((?:, "[^"]*")*)\)`)

// fits compares the off-the-shelf container that an address leads to with the clients that are given the address.
func fits(trees, addr, image string, env map[string]string) string {
	if image == "" {
		return ""
	}
	for _, m := range clientOf.FindAllStringSubmatch(trees, -1) {
		if m[2] != addr {
			continue
		}
		if !strings.Contains(image, strings.TrimSuffix(m[1], "db")) && !strings.Contains(image, m[1]) {
			return "a client of plugins/" + m[1] + " is led to an instance of " + image
		}
		if args := strings.Split(m[3], ", "); m[1] == "mysql" {
			if want := env["MYSQL_ROOT_PASSWORD"]; len(args) != 4 || args[2] != `"root"` || args[3] != `"`+want+`"` {
				return "the client does not have the credentials of the instance"
			}
		}
	}
	return ""
}

// c11Connects follows the addresses of every process.
func c11Connects(c *core.Ctx, b *emit.B, what string, files map[string]string, got map[string][]string) {
	bad := func(proc, f string, a ...any) {
		c.Fail("connects", what+": "+proc, token.NoPos, f, a...)
	}
	env := map[string]string{}
	for _, l := range strings.Split(files[".local.env"], "\n") {
		if k, v, ok := strings.Cut(l, "="); ok {
			env[k] = v
		}
	}
	composes, kubes := documents(files, "docker-compose.yml"), documents(files, ".yaml")
	for proc, trees := range got {
		if strings.HasSuffix(proc, ")") {
			continue
		}
		for _, name := range argsOf(trees) {
			v := envVar(b, name)
			addr, dials := strings.CutSuffix(name, ".dial_addr")
			site := proc + ": " + name
			// of a docker-compose deployment
			var host string
			var services yamap
			for f, top := range composes {
				for n, x := range asMap(top["services"]) {
					if ctx := str(at(x, "build", "context")); ctx != "" && strings.HasPrefix(proc, path.Join(path.Dir(f), ctx)+"/") {
						host, services = n, asMap(top["services"])
					}
				}
			}
			if host != "" {
				e, _ := environment(at(services[host], "environment"))
				val, ok := e[v]
				if !ok {
					bad(proc, "%s is not in the environment of %s", v, host)
					continue
				}
				if dials {
					h, port, _ := strings.Cut(val, ":")
					if services[h] == nil {
						bad(proc, "%s is %s, but there is no such container", v, val)
						continue
					}
					if !contains(list(at(services[h], "expose")), port) {
						bad(proc, "%s is %s, but %s does not listen there", v, val, h)
						continue
					}
					te, _ := environment(at(services[h], "environment"))
					if bv, ok := te[envVar(b, addr+".bind_addr")]; ok && !strings.HasSuffix(bv, ":"+port) {
						bad(proc, "%s is %s, but the server listens at %s", v, val, bv)
						continue
					}
					if msg := fits(strings.Join(trees, " "), name, str(at(services[h], "image")), te); msg != "" {
						bad(proc, "%s is %s, but %s", v, val, msg)
						continue
					}
					if str(at(services[h], "image")) != "" {
						c.Ok("images", what+": "+site)
					}
				}
				c.Ok("connects", what+": "+site)
				continue
			}
			// of a pod
			var pod any
			for f, top := range kubes {
				for _, x := range items(at(top, "spec", "template", "spec", "containers")) {
					im := path.Base(str(at(x, "image")))
					if strings.HasPrefix(proc, path.Join(path.Dir(f), im)+"/") {
						pod = x
					}
				}
			}
			if pod != nil {
				val, from := "", ""
				for _, e := range items(at(pod, "env")) {
					if str(at(e, "name")) == v {
						val, from = str(at(e, "value")), str(at(e, "valueFrom", "configMapKeyRef", "key"))
					}
				}
				for _, top := range kubes {
					if x, ok := at(top, "data").(yamap); ok && from != "" {
						val = str(x[from])
					}
				}
				if val == "" {
					bad(proc, "%s is not in the environment of its container", v)
					continue
				}
				if dials {
					h, port, _ := strings.Cut(val, ":")
					listens := false
					for _, top := range kubes {
						if str(top["kind"]) == "Service" && str(at(top, "metadata", "name")) == h {
							for _, p := range items(at(top, "spec", "ports")) {
								listens = listens || str(at(p, "port")) == port
							}
						}
					}
					if !listens {
						bad(proc, "%s is %s, but there is no service there", v, val)
						continue
					}
				}
				c.Ok("connects", what+": "+site)
				continue
			}
			// of the machine itself
			val := env[v]
			if val == "" {
				bad(proc, "%s is not in the environment", v)
				continue
			}
			bv := env[envVar(b, addr+".bind_addr")]
			if i := strings.LastIndex(val, ":"); dials && (i < 0 || !strings.HasSuffix(bv, val[i:])) {
				bad(proc, "%s is %s, but the server listens at %s", v, val, bv)
				continue
			}
			c.Ok("connects", what+": "+site)
		}
	}
}

// argsOf are the arguments that the trees of a process take.
func argsOf(trees []string) []string {
	var out []string
	for _, t := range trees {
		for _, p := range strings.Split(t, "@")[1:] {
			if i := strings.IndexAny(p, ",)} "); i >= 0 {
				p = p[:i]
			}
			if strings.HasSuffix(p, "_addr") && !contains(out, p) {
				out = append(out, p)
			}
		}
	}
	return out
}
