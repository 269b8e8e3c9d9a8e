package checks

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"path"
	"sort"
	"strings"

	"golang.org/x/mod/modfile"
	"golang.org/x/tools/go/ssa"

	"verif/analyzer/core"
	"verif/analyzer/emit"
	"verif/analyzer/peval"
)

func init() {
	register(&Check{
		ID: "C07",
		Rules: "open: every place in the compiler and its plugins that opens a file for writing empties or newly creates it. " +
			"The builders of workspaces and modules are evaluated for every history of up to three requests, and for many modules of one name (modules generated, local modules copied, under names that clash and names that do not), in both orders of map iteration, and the files they leave are read with the parser of go.mod files: " +
			"place: a module has a directory of its own, or the request is an error; work: the workspace lists every module once; replace: every module is pointed at every other one in the workspace, and its own name and its source stay as they were; tidy: the dependencies of every generated module are resolved; " +
			"package: packages are made where their import path says; require: requirements have a version, and stay; modules: a service brings the modules of its interface and of its implementation, local ones as copies and others as requirements; " +
			"build: an application is built into a directory that was not there, every node of it exactly once, by the builder registered for its type, by itself if there is none, and if that is not possible the build is an error.",
		Run:       runC07,
		NotDecide: "Faults of the file system; what the Go toolchain makes of the modules.",
	})
}

func runC07(c *core.Ctx) {
	c07Open(c)
	b := emit.New(c)
	c07Workspace(c, b)
	c07Module(c, b)
	c07Modules(c, b)
	c07Build(c, b)
	c07Dirs(c, b)
	c.Floor("open", 5)
	c.Floor("place", 300)
	c.Floor("work", 100)
	c.Floor("replace", 200)
	c.Floor("tidy", 100)
	c.Floor("package", 6)
	c.Floor("require", 6)
	c.Floor("modules", 16)
	c.Floor("build", 20)
}

// c07Open looks at every place that opens a file for writing.
func c07Open(c *core.Ctx) {
	const (
		oWronly, oRdwr, oAppend, oCreat, oExcl, oTrunc = 0x1, 0x2, 0x400, 0x40, 0x80, 0x200
	)
	for _, f := range c.Under("blueprint/", "plugins/") {
		for _, bl := range f.Blocks {
			for _, in := range bl.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := ci.Common().StaticCallee()
				if g == nil {
					continue
				}
				switch g.RelString(nil) {
				case "os.OpenFile":
					where := fnShort(f)
					for _, fl := range flagValues(ci.Common().Args[1], 0) {
						switch {
						case fl < 0:
							c.Fail("open", where, ci.Pos(), "a file is opened with flags that cannot be determined")
						case fl&(oWronly|oRdwr) == 0:
							c.Ok("open", where)
						case fl&oAppend != 0:
							c.Fail("open", where, ci.Pos(), "a generated file is opened for appending: what an earlier build or an earlier node wrote stays in front of it")
						case fl&(oTrunc|oExcl) == 0:
							c.Fail("open", where, ci.Pos(), "a generated file is opened without emptying it: what a longer one left stays behind it")
						default:
							c.Ok("open", where)
						}
					}
				case "os.Create", "os.WriteFile":
					c.Ok("open", fnShort(f))
				}
			}
		}
	}
}

func fnShort(f *ssa.Function) string { return strings.ReplaceAll(f.RelString(nil), core.Mod, "") }

// flagValues lists the values of a flag argument; -1 is an unknown one.
func flagValues(v ssa.Value, depth int) []int64 {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value != nil && v.Value.Kind() == constant.Int {
			return []int64{v.Int64()}
		}
	case *ssa.Phi:
		if depth < 4 {
			var out []int64
			for _, e := range v.Edges {
				out = append(out, flagValues(e, depth+1)...)
			}
			return out
		}
	case *ssa.BinOp:
		if v.Op == token.OR && depth < 6 {
			var out []int64
			for _, x := range flagValues(v.X, depth+1) {
				for _, y := range flagValues(v.Y, depth+1) {
					if x < 0 || y < 0 {
						out = append(out, -1)
					} else {
						out = append(out, x|y)
					}
				}
			}
			return out
		}
	}
	return []int64{-1}
}

const gogenPkg = "plugins/golang/gogen"

// wsOp is a request made of a workspace.
type wsOp struct {
	create string // the module to generate
	short  string // or the name for the local module in dir
	dir    string
}

func (o wsOp) String() string {
	if o.create != "" {
		return "generate " + o.create
	}
	return "copy " + o.dir + " to " + o.short
}

var wsSources = []*emit.Mod{
	{Path: "m.org/x", Dir: "/src/p1", Local: true},
	{Path: "other.org/x", Dir: "/src/p2", Local: true},
	{Path: "m.org/x0", Dir: "/src/p3", Local: true},
}

var wsOps = []wsOp{
	{create: "gen/x"}, {create: "other/x"}, {create: "gen/x0"}, {create: "m.org/x"},
	{short: "x", dir: "/src/p1"}, {short: "x", dir: "/src/p2"}, {short: "y", dir: "/src/p1"}, {short: "x0", dir: "/src/p3"}, {short: "z", dir: "/src/none"},
}

func c07Workspace(c *core.Ctx, b *emit.B) {
	var hist [][]wsOp
	for _, o := range wsOps {
		hist = append(hist, []wsOp{o})
		for _, p := range wsOps {
			hist = append(hist, []wsOp{o, p})
			for _, q := range wsOps {
				hist = append(hist, []wsOp{o, p, q})
			}
		}
	}
	// many modules that would like to have the same directory
	var many []wsOp
	for i := 0; i < 12; i++ {
		many = append(many, wsOp{create: fmt.Sprintf("gen%d/x", i)})
	}
	hist = append(hist, many, append([]wsOp{{short: "x0", dir: "/src/p3"}, {short: "x", dir: "/src/p1"}}, many...))
	for i, h := range hist {
		c07History(c, b, h, i%2 == 1)
	}
}

func sourcePath(dir string) string {
	for _, s := range wsSources {
		if s.Dir == dir {
			return s.Path
		}
	}
	return ""
}

// c07History follows one history of requests, and what is in the workspace after it.
func c07History(c *core.Ctx, b *emit.B, h []wsOp, rev bool) {
	var words []string
	for _, o := range h {
		words = append(words, o.String())
	}
	what := strings.Join(words, ", then ")
	dirOf := map[string]string{} // module path to directory
	pathOf := map[string]string{}
	generated := map[string]bool{}
	var bads []string
	bad := func(rule, f string, a ...any) { bads = append(bads, rule+"\x00"+fmt.Sprintf(f, a...)) }
	refused := false
	d := b.Evaluate(rev, func(m *peval.Machine) peval.Value {
		b.Modules(wsSources)
		ws := b.Fn(gogenPkg, "NewWorkspaceBuilder", emit.DeployDir).(peval.Tuple)
		if ws[1] != nil {
			return ws[1]
		}
		w := b.AsNode(gogenPkg, "WorkspaceBuilderImpl", ws[0])
		call := func(name string, args ...peval.Value) peval.Value {
			r, ok := m.Method(w.T, w.V, name, args...)
			if !ok {
				panic(peval.Undecided{Msg: "a workspace has no " + name})
			}
			return r
		}
		for _, o := range h {
			var r peval.Tuple
			mod := o.create
			must := "" // it must fail
			dir := ""
			if o.create != "" {
				r = call("CreateModule", o.create, "v0.0.0").(peval.Tuple)
				if _, dup := dirOf[o.create]; dup {
					must = "a module that is already there is generated again"
				}
			} else {
				r = call("AddLocalModule", o.short, o.dir).(peval.Tuple)
				mod = sourcePath(o.dir)
				dir = o.short
				switch {
				case mod == "":
					must = "a module that does not exist is copied"
				case dirOf[mod] != "" && dirOf[mod] != dir:
					must = "a module is copied to a second place"
				case pathOf[dir] != "" && pathOf[dir] != mod:
					must = "a module is copied on top of another one"
				}
			}
			if must != "" {
				if r[1] == nil {
					bad("place", "%s without an error", must)
				}
				refused = true
				return nil
			}
			if r[1] != nil {
				bad("place", "%s is refused: %s", o, m.Sprint(r[1]))
				refused = true
				return nil
			}
			p := peval.Str(r[0])
			if !strings.HasPrefix(p, emit.DeployDir+"/") || strings.Contains(strings.TrimPrefix(p, emit.DeployDir+"/"), "/") {
				bad("place", "%s gives the directory %q", o, p)
				refused = true
				return nil
			}
			got := strings.TrimPrefix(p, emit.DeployDir+"/")
			if dir != "" && got != dir {
				bad("place", "%s gives the directory %q", o, got)
			}
			if at := pathOf[got]; at != "" && at != mod {
				bad("place", "%s gives the directory of %s", o, at)
			}
			dirOf[mod], pathOf[got] = got, mod
			if o.create != "" {
				generated[mod] = true
			}
		}
		for mod, dir := range dirOf {
			r := call("GetLocalModule", mod).(peval.Tuple)
			if r[1] != true || r[0] != dir {
				bad("place", "asked for %s, the workspace says %s, %s and not %s", mod, m.Sprint(r[0]), m.Sprint(r[1]), dir)
			}
		}
		if r := call("GetLocalModule", "nothing.org/x").(peval.Tuple); r[1] != false {
			bad("place", "the workspace claims to have a module it does not have")
		}
		return call("Finish")
	})
	if d.Unk != "" {
		c.Fail("undecided", what, token.NoPos, "what is emitted could not be determined: %s", d.Unk)
		return
	}
	if d.Failed != "" {
		bad("work", "the workspace cannot be finished: %s", d.Failed)
	}
	if !refused && d.Failed == "" {
		c07Files(d, b, dirOf, pathOf, generated, bad)
		for _, r := range []string{"work", "replace", "tidy"} {
			c.Ok(r, what)
		}
	}
	c.Ok("place", what)
	for _, x := range bads {
		p := strings.SplitN(x, "\x00", 2)
		c.Fail(p[0], what, token.NoPos, "%s", p[1])
	}
}

// c07Files reads what is in a finished workspace.
func c07Files(d *emit.Deployed, b *emit.B, dirOf, pathOf map[string]string, generated map[string]bool, bad func(rule, f string, a ...any)) {
	w, err := modfile.ParseWork("go.work", []byte(d.Files["go.work"]), nil)
	if err != nil {
		bad("work", "go.work: %v", err)
		return
	}
	used := map[string]int{}
	for _, u := range w.Use {
		used[path.Clean(u.Path)]++
	}
	for dir := range pathOf {
		if used[dir] != 1 {
			bad("work", "go.work lists the module in %s %d times", dir, used[dir])
		}
	}
	for dir := range used {
		if pathOf[dir] == "" {
			bad("work", "go.work lists %s, where there is no module", dir)
		}
	}
	for mod, dir := range dirOf {
		f, err := modfile.Parse("go.mod", []byte(d.Files[dir+"/go.mod"]), nil)
		if err != nil || f.Module == nil {
			bad("replace", "go.mod of %s: %v", mod, err)
			continue
		}
		if f.Module.Mod.Path != mod {
			bad("replace", "the module in %s is called %s, not %s", dir, f.Module.Mod.Path, mod)
		}
		to := map[string][]string{}
		for _, r := range f.Replace {
			to[r.Old.Path] = append(to[r.Old.Path], path.Join(dir, r.New.Path))
		}
		for other, odir := range dirOf {
			switch {
			case other == mod:
				if len(to[other]) > 0 {
					bad("replace", "%s is replaced in its own go.mod", mod)
				}
			case len(to[other]) != 1 || to[other][0] != odir:
				bad("replace", "%s finds %s in %v, not in %s", mod, other, to[other], odir)
			}
		}
		for _, s := range wsSources {
			if s.Path == mod && !generated[mod] && d.Files[dir+"/"+path.Base(mod)+".go"] != "package "+path.Base(mod)+"\n" {
				bad("replace", "the source of %s is not in %s", mod, dir)
			}
		}
	}
	for mod := range generated {
		n := 0
		for _, r := range b.Ran {
			if path.Clean(r.Dir) == path.Join(emit.DeployDir, dirOf[mod]) && strings.Join(r.Args, " ") == "go mod tidy" {
				n++
			}
		}
		if n == 0 {
			bad("tidy", "the dependencies of %s are not resolved", mod)
		}
	}
}

// c07Module follows a module that is generated.
func c07Module(c *core.Ctx, b *emit.B) {
	type pk struct{ name, imp, short, full, dir string }
	for _, p := range []pk{
		{"", "gen/mod", "main", "main", "mod"}, {"main", "gen/mod", "main", "main", "mod"},
		{"a", "gen/mod/a", "a", "a", "mod/a"}, {"a/b", "gen/mod/a/b", "b", "a/b", "mod/a/b"}, {"deep/er/pkg", "gen/mod/deep/er/pkg", "pkg", "deep/er/pkg", "mod/deep/er/pkg"},
	} {
		what := fmt.Sprintf("package %q of a generated module", p.name)
		var first, second peval.Value
		d := b.Evaluate(false, func(m *peval.Machine) peval.Value {
			mod := c07NewModule(b)
			for i := 0; i < 2; i++ {
				r, _ := m.Method(mod.T, mod.V, "CreatePackage", p.name)
				t := r.(peval.Tuple)
				if t[1] != nil {
					return t[1]
				}
				if i == 0 {
					first = t[0]
				} else {
					second = t[0]
				}
			}
			return nil
		})
		switch {
		case d.Unk != "" || d.Failed != "":
			c.Fail("package", what, token.NoPos, "it cannot be made: %s%s", d.Unk, d.Failed)
			continue
		case !d.Dirs[p.dir]:
			c.Fail("package", what, token.NoPos, "its directory %s is not made (%v)", p.dir, keys(d.Dirs))
			continue
		}
		ok := true
		for _, v := range []peval.Value{first, second} {
			s := v.(*peval.Struct)
			for _, kv := range [][2]string{{"PackageName", p.imp}, {"ShortName", p.short}, {"Name", p.full}, {"Path", path.Join(emit.DeployDir, p.dir)}} {
				if got := peval.Str(s.Field(kv[0])); got != kv[1] {
					c.Fail("package", what+" "+kv[0], token.NoPos, "it is %q, not %q", got, kv[1])
					ok = false
				}
			}
		}
		if ok {
			c.Ok("package", what)
			c.Ok("package", what+" again")
		}
	}
	// requirements
	for _, reqs := range [][][2]string{{{"a.org/m", "v1.2.3"}}, {{"a.org/m", "v1.2.3"}, {"b.org/n/v2", "v2.0.1"}}, {{"a.org/m", ""}}, {{"a.org/m", "v1.0.0"}, {"b.org/n", ""}}} {
		what := fmt.Sprintf("a module that requires %v", reqs)
		refused := false
		d := b.Evaluate(false, func(m *peval.Machine) peval.Value {
			mod := c07NewModule(b)
			for _, r := range reqs {
				v, _ := m.Method(mod.T, mod.V, "Require", r[0], r[1])
				if (v != nil) != (r[1] == "") {
					panic(peval.Panicked{Msg: fmt.Sprintf("a requirement of %s %q gives %s", r[0], r[1], m.Sprint(v))})
				}
				refused = refused || v != nil
			}
			w, _ := m.Method(mod.T, mod.V, "Workspace")
			wi := w.(peval.Iface)
			if r, _ := m.Method(wi.T, wi.V, "CreateModule", "gen/second", "v0.0.0"); r.(peval.Tuple)[1] != nil {
				return r
			}
			r, _ := m.Method(wi.T, wi.V, "Finish")
			return r
		})
		if d.Unk != "" || d.Failed != "" {
			c.Fail("require", what, token.NoPos, "%s%s", d.Unk, d.Failed)
			continue
		}
		f, err := modfile.Parse("go.mod", []byte(d.Files["mod/go.mod"]), nil)
		if err != nil {
			c.Fail("require", what, token.NoPos, "its go.mod is not valid: %v", err)
			continue
		}
		got := map[string]string{}
		for _, r := range f.Require {
			got[r.Mod.Path] = r.Mod.Version
		}
		for _, r := range reqs {
			if got[r[0]] != r[1] {
				c.Fail("require", what+" "+r[0], token.NoPos, "its go.mod requires version %q of %s, not %q", got[r[0]], r[0], r[1])
			} else {
				c.Ok("require", what)
			}
		}
		if len(f.Replace) != 1 {
			c.Fail("require", what, token.NoPos, "its go.mod has %d replacements for the one other module", len(f.Replace))
		}
	}
}

func keys(m map[string]bool) (r []string) {
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return
}

func c07NewModule(b *emit.B) peval.Iface {
	ws := b.Fn(gogenPkg, "NewWorkspaceBuilder", emit.DeployDir).(peval.Tuple)
	t := b.Fn(gogenPkg, "NewModuleBuilder", ws[0], "gen/mod").(peval.Tuple)
	if t[1] != nil {
		panic(peval.Panicked{Msg: "a module cannot be made: " + b.M.Sprint(t[1])})
	}
	return b.AsNode(gogenPkg, "ModuleBuilderImpl", t[0])
}

// c07Modules follows the modules of services into the process that holds them.
func c07Modules(c *core.Ctx, b *emit.B) {
	runtime := &emit.Mod{Path: strings.TrimSuffix(core.Mod, "/") + "/runtime", Dir: "/src/runtime", Local: true}
	mk := func(name string, local bool) *emit.Mod {
		m := &emit.Mod{Path: "m.org/" + name, Local: local, Version: "v1.0." + fmt.Sprint(len(name))}
		if local {
			m.Dir, m.Version = "/src/"+name, ""
		}
		return m
	}
	for mask := 0; mask < 16; mask++ {
		rt := *runtime
		if mask&4 != 0 {
			rt.Local, rt.Dir, rt.Version = false, "", "v0.9.0"
		}
		im, cm := mk("iface", mask&1 == 0), mk("impls", mask&2 == 0)
		same := mask&8 != 0
		if same {
			cm = im
		}
		for k := 0; k < 4; k++ {
			client, twice := k&1 == 1, k&2 != 0
			need := []*emit.Mod{&rt, im}
			if !client {
				need = append(need, cm)
			}
			what := fmt.Sprintf("a process with a service whose interface is in a local module: %v, implementation: %v, the same: %v, the runtime: %v; only a client: %v; twice: %v", im.Local, cm.Local, same, rt.Local, client, twice)
			d := b.Evaluate(mask%3 == 0, func(m *peval.Machine) peval.Value {
				b.Services()
				b.Modules([]*emit.Mod{&rt, im, cm})
				svc := b.Describe(b.Flow(0))
				ifile, cfile := b.ParsedIn(im), b.ParsedIn(cm)
				peval.Obj(peval.Obj(svc).Field("Iface")).Set("File", ifile)
				peval.Obj(peval.Obj(svc).Field("Constructor")).Set("File", cfile)
				typ := "workflowHandler"
				f := map[string]peval.Value{"InstanceName": "one", "ServiceInfo": svc}
				if client {
					typ = "workflowClient"
					f["Wrapped"] = b.Other("other")
				}
				n := b.Node("plugins/workflow", typ, f)
				f["InstanceName"] = "two"
				n2 := b.Node("plugins/workflow", typ, f)
				p := b.AsNode("plugins/goproc", "Process", b.Fn("plugins/goproc", "newGolangProcessNode", "front.proc"))
				if twice {
					emit.Put(p, "Nodes", emit.Nodes(n, n2))
				} else {
					emit.Put(p, "Nodes", emit.Nodes(n))
				}
				return b.Artifacts(p)(m)
			})
			if d.Unk != "" || d.Failed != "" {
				c.Fail("modules", what, token.NoPos, "it cannot be built: %s%s", d.Unk, d.Failed)
				continue
			}
			dirs := map[string]string{} // module path by directory
			var main *modfile.File
			for p, data := range d.Files {
				if strings.HasPrefix(p, "/") || path.Base(p) != "go.mod" {
					continue
				}
				if f, err := modfile.Parse("go.mod", []byte(data), nil); err == nil && f.Module != nil {
					dirs[f.Module.Mod.Path] = path.Dir(p)
					if strings.HasPrefix(f.Module.Mod.Path, "blueprint/goproc") {
						main = f
					}
				}
			}
			if main == nil {
				c.Fail("modules", what, token.NoPos, "the process has no module")
				continue
			}
			for _, md := range need {
				req := ""
				for _, r := range main.Require {
					if r.Mod.Path == md.Path {
						req = r.Mod.Version
					}
				}
				if md.Local && dirs[md.Path] == "" {
					c.Fail("modules", what+" "+md.Path, token.NoPos, "the local module %s is not in the workspace", md.Path)
				} else if !md.Local && req != md.Version {
					c.Fail("modules", what+" "+md.Path, token.NoPos, "the process requires version %q of %s, not %q", req, md.Path, md.Version)
				} else {
					c.Ok("modules", what)
				}
			}
		}
	}
}

// c07Build follows an application being built.
func c07Build(c *core.Ctx, b *emit.B) {
	typ := func(k string) *peval.Stub {
		return &peval.Stub{Name: "type " + k, Methods: map[string]func(*peval.Machine, []peval.Value) peval.Value{
			"String": func(*peval.Machine, []peval.Value) peval.Value { return k },
			"Name":   func(*peval.Machine, []peval.Value) peval.Value { return k },
		}, Is: func(t types.Type) bool { return core.TypeName(t) == "reflect.Type" }}
	}
	type nd struct {
		name string
		typ  string
		own  bool // it generates artifacts itself
	}
	type scen struct {
		what   string
		kinds  []string // kinds of nodes with a registered builder
		nodes  []nd
		exists bool
		fails  string // the builder or node that fails
		left   bool   // a node cannot be built
	}
	a1, a2, b1, g1, g2, z := nd{"a1", "A", false}, nd{"a2", "A", false}, nd{"b1", "B", false}, nd{"g.1", "G", true}, nd{"g-2", "G", true}, nd{"z", "Z", false}
	ag := nd{"ag", "A", true}
	scens := []scen{
		{"one builder", []string{"A"}, []nd{a1, a2}, false, "", false},
		{"two builders", []string{"A", "B"}, []nd{a1, b1, a2}, false, "", false},
		{"two builders the other way round", []string{"B", "A"}, []nd{a1, b1, a2}, false, "", false},
		{"nodes that build themselves", []string{"A"}, []nd{g1, a1, g2}, false, "", false},
		{"a node that builds itself and has a builder", []string{"A"}, []nd{ag, g1}, false, "", false},
		{"no nodes", []string{"A"}, nil, false, "", false},
		{"no builders", nil, []nd{g1, g2}, false, "", false},
		{"a node that nothing builds", []string{"A"}, []nd{a1, z, g1}, false, "", true},
		{"only a node that nothing builds", nil, []nd{z}, false, "", true},
		{"a directory that is already there", []string{"A"}, []nd{a1, g1}, true, "", false},
		{"a builder that fails", []string{"A", "B"}, []nd{a1, b1, g1}, false, "A", false},
		{"a second builder that fails", []string{"A", "B"}, []nd{a1, b1, g1}, false, "B", false},
		{"a node that fails", []string{"A"}, []nd{a1, g1, g2}, false, "g.1", false},
		{"a second node that fails", []string{"A"}, []nd{a1, g1, g2}, false, "g-2", false},
	}
	for _, s := range scens {
		built := map[string]int{}
		by := map[string]string{}
		var log []string
		dir := map[string]string{}
		what := "an application with " + s.what
		d := b.Evaluate(false, func(m *peval.Machine) peval.Value {
			ts := map[string]*peval.Stub{}
			of := func(k string) *peval.Stub {
				if ts[k] == nil {
					ts[k] = typ(k)
					ts[k].Methods["AssignableTo"] = func(m *peval.Machine, a []peval.Value) peval.Value {
						i, _ := a[len(a)-1].(peval.Iface)
						return i.V == peval.Value(ts[k])
					}
				}
				return ts[k]
			}
			kind := map[*peval.Stub]string{}
			m.Hooks["reflect.TypeOf"] = func(m *peval.Machine, fn *ssa.Function, a []peval.Value) (peval.Value, bool) {
				i, ok := a[0].(peval.Iface)
				if !ok {
					panic(peval.Undecided{Msg: "type of an unknown value"})
				}
				st, ok := i.V.(*peval.Stub)
				if !ok || kind[st] == "" {
					panic(peval.Undecided{Msg: "type of an unknown node"})
				}
				return peval.Iface{V: of(kind[st])}, true
			}
			var nodes []peval.Iface
			for _, n := range s.nodes {
				n := n
				var nv peval.Iface
				if n.own {
					nv = b.Generates(n.name, func(p string) peval.Value {
						built[n.name]++
						by[n.name] = n.name
						dir[n.name] = p
						log = append(log, n.name)
						if s.fails == n.name {
							return peval.MkErr("it fails")
						}
						return nil
					})
				} else {
					nv = b.Other(n.name)
				}
				kind[nv.V.(*peval.Stub)] = n.typ
				nodes = append(nodes, nv)
			}
			nsm := peval.NewMap()
			var order peval.Slice
			for _, k := range s.kinds {
				k := k
				f := &peval.Native{F: func(m *peval.Machine, a []peval.Value) peval.Value {
					if peval.Str(a[0]) != emit.DeployDir {
						dir[k] = peval.Str(a[0])
					}
					for _, x := range a[1].(peval.Slice) {
						n := x.(peval.Iface).V.(*peval.Stub).Name
						built[n]++
						by[n] = k
					}
					log = append(log, k)
					if s.fails == k {
						return peval.MkErr("it fails")
					}
					return nil
				}}
				nb := b.Node("blueprint/pkg/ir", "namespaceBuilder", map[string]peval.Value{"name": k, "nodeType": peval.Iface{V: of(k)}, "build": f})
				nsm.Set(peval.Iface{V: of(k)}, nb.V)
				order = append(order, peval.Iface{V: of(k)})
			}
			reg := b.Node("blueprint/pkg/ir", "registry", map[string]peval.Value{"namespace": nsm, "order": order})
			if s.exists {
				m.Files[emit.DeployDir+"/"] = &peval.File{}
			}
			r, ok := m.Method(reg.T, reg.V, "buildAll", emit.DeployDir, emit.Nodes(nodes...))
			if !ok {
				panic(peval.Undecided{Msg: "the registry has no buildAll"})
			}
			return r
		})
		if d.Unk != "" {
			c.Fail("undecided", what, token.NoPos, "%s", d.Unk)
			continue
		}
		if strings.HasPrefix(d.Failed, "panics") {
			c.Fail("build", what, token.NoPos, "the build %s", d.Failed)
			continue
		}
		if s.exists {
			if d.Failed == "" || len(log) > 0 {
				c.Fail("build", what, token.NoPos, "it is built into it: %v", log)
			} else {
				c.Ok("build", what)
			}
			continue
		}
		if (d.Failed != "") != (s.fails != "" || s.left) {
			c.Fail("build", what, token.NoPos, "the build gives %q", d.Failed)
			continue
		}
		if s.fails != "" {
			if len(log) == 0 || log[len(log)-1] != s.fails {
				c.Fail("build", what, token.NoPos, "the build goes on after the failure of %s: %v", s.fails, log)
			} else {
				c.Ok("build", what)
			}
			continue
		}
		for _, n := range s.nodes {
			want, times := "", 0
			if n.own {
				want, times = n.name, 1
			}
			for _, k := range s.kinds {
				if k == n.typ {
					want, times = k, 1
				}
			}
			if built[n.name] != times || by[n.name] != want {
				c.Fail("build", what+" "+n.name, token.NoPos, "the node is built %d times, by %q and not by %q", built[n.name], by[n.name], want)
			} else {
				c.Ok("build", what)
			}
		}
		seen := map[string]string{}
		for n, p := range dir {
			if !strings.HasPrefix(p, emit.DeployDir+"/") || seen[p] != "" || !d.Dirs[strings.TrimPrefix(p, emit.DeployDir+"/")] {
				c.Fail("build", what+" "+n, token.NoPos, "it is built to %s", p)
			}
			seen[p] = n
		}
		if !d.Dirs[""] && len(s.nodes) > 0 {
			c.Fail("build", what, token.NoPos, "the output directory is not made")
		}
	}
}

// c07Dirs looks at the helper that makes directories.
func c07Dirs(c *core.Ctx, b *emit.B) {
	const iou = "blueprint/pkg/blueprint/ioutil"
	for _, x := range []struct {
		what         string
		file, dir    bool
		create, fail bool
	}{
		{"a directory that is there", false, true, false, false}, {"a directory that is there, made if needed", false, true, true, false},
		{"a file", true, false, false, true}, {"a file, made a directory if needed", true, false, true, true},
		{"nothing", false, false, false, true}, {"nothing, made a directory if needed", false, false, true, false},
	} {
		d := b.Evaluate(false, func(m *peval.Machine) peval.Value {
			if x.file {
				m.Files[emit.DeployDir+"/p"] = &peval.File{Data: "x"}
			}
			if x.dir {
				m.Files[emit.DeployDir+"/p/"] = &peval.File{}
			}
			return b.Fn(iou, "CheckDir", emit.DeployDir+"/p", x.create)
		})
		if d.Unk != "" {
			c.Fail("undecided", x.what, token.NoPos, "%s", d.Unk)
		} else if (d.Failed != "") != x.fail || !x.fail && !d.Dirs["p"] {
			c.Fail("build", "CheckDir of "+x.what, token.NoPos, "it gives %q; the directory is there afterwards: %v", d.Failed, d.Dirs["p"])
		} else {
			c.Ok("build", "CheckDir of "+x.what)
		}
	}
}
