package checks

import (
	"encoding/json"
	"go/constant"
	"go/token"
	"path"
	"sort"
	"strings"

	"golang.org/x/mod/modfile"
	"gopkg.in/yaml.v3"

	"verif/analyzer/core"
	"verif/analyzer/emit"
	"verif/analyzer/flow"
	"verif/analyzer/peval"
)

func init() {
	register(&Check{
		ID: "D01",
		Rules: "The generators of processes, linux containers and docker images are evaluated for schematic containers of up to three processes with every kind of argument, in both orders of map iteration. What they emit is read together: image: the image is built from what is there and holds every process and the run script; " +
			"start: the run script, interpreted abstractly, starts every process exactly once and in its own directory; args: with every argument its namespace requires, each from the environment variable that the deployment sets for it; " +
			"missing: with a variable missing, nothing is started and the script fails; scripts: a workspace runs every build script that a process provides once, in its own directory, and its image holds processes with and without Dockerfile commands; main: the process builds the namespace that was generated for it, requires exactly its arguments, and fails if that fails; " +
			"names: scripts, manifests and processes derive the same variable from a name.",
		Run:       runD01,
		NotDecide: "Whether the Go toolchain and base images of the Dockerfile exist and accept the sources; values with blanks.",
	})
}

type procSpec struct {
	name         string
	binds, dials []string
	confs        []string
}

func (p procSpec) edges() (r []string) {
	for _, x := range p.binds {
		r = append(r, x+".bind_addr")
	}
	for _, x := range p.dials {
		r = append(r, x+".dial_addr")
	}
	return append(r, p.confs...)
}

type linuxSpec struct {
	name  string
	procs []procSpec
}

type linuxScen struct {
	name string
	top  string // what is deployed: "" for docker-compose, "ctr" for the first container, "proc" for its first process
	ctrs []linuxSpec
}

func linuxScens() (r []linuxScen) {
	user := procSpec{"user.proc", []string{"user.grpc.addr"}, []string{"post.http.addr", "cart.grpc.addr"}, []string{"rate.limit"}}
	post := procSpec{"post_proc", []string{"post.http.addr"}, []string{"redis.addr"}, nil}
	cart := procSpec{"cart.proc", []string{"cart.grpc.addr"}, nil, nil}
	bare := procSpec{"bare.proc", nil, nil, nil}
	big := procSpec{"1big-proc", []string{"b0.addr", "b1.addr", "b2.addr", "b3.addr"}, []string{"post.http.addr", "user.grpc.addr", "x1.addr", "x2.addr"}, []string{"rate.limit", "log_level", "retry.max.2"}}
	add := func(name string, ctrs ...linuxSpec) {
		r = append(r, linuxScen{name, "", ctrs}, linuxScen{name, "ctr", ctrs[:1]}, linuxScen{name, "proc", ctrs[:1]})
	}
	add("two containers", linuxSpec{"both.ctr", []procSpec{user, post}}, linuxSpec{"cart_ctr", []procSpec{cart}})
	add("three processes", linuxSpec{"all.ctr", []procSpec{cart, big, user}}, linuxSpec{"post_ctr", []procSpec{post}})
	add("no arguments", linuxSpec{"bare_ctr", []procSpec{bare}})
	add("one process and one without arguments", linuxSpec{"mixed.ctr", []procSpec{bare, cart}})
	return
}

func deployLinux(b *emit.B, s linuxScen, rev bool) *emit.Deployed {
	return b.Evaluate(rev, func(m *peval.Machine) peval.Value {
		leaves := map[string]peval.Iface{}
		leaf := func(key string) peval.Iface {
			if n, ok := leaves[key]; ok {
				return n
			}
			var n peval.Iface
			switch {
			case strings.HasSuffix(key, ".bind_addr"):
				n = b.Bind(strings.TrimSuffix(key, ".bind_addr"), 0)
			case strings.HasSuffix(key, ".dial_addr"):
				n = b.Dial(strings.TrimSuffix(key, ".dial_addr"))
			default:
				n = b.Config(key, false, "")
			}
			leaves[key] = n
			return n
		}
		var ctrs []peval.Iface
		var first peval.Iface
		for _, cs := range s.ctrs {
			var nodes, edges []peval.Iface
			seen := map[string]bool{}
			for _, ps := range cs.procs {
				var es []peval.Iface
				for _, e := range ps.edges() {
					es = append(es, leaf(e))
					if !seen[e] {
						seen[e] = true
						edges = append(edges, leaf(e))
					}
				}
				p := b.AsNode("plugins/goproc", "Process", b.Fn("plugins/goproc", "newGolangProcessNode", ps.name))
				emit.Put(p, "Edges", emit.Nodes(es...))
				nodes = append(nodes, p)
				if first.V == nil {
					first = p
				}
			}
			n := b.AsNode("plugins/linuxcontainer", "Container", b.Fn("plugins/linuxcontainer", "newLinuxContainerNode", cs.name))
			emit.Put(n, "Nodes", emit.Nodes(nodes...))
			emit.Put(n, "Edges", emit.Nodes(edges...))
			ctrs = append(ctrs, n)
		}
		switch s.top {
		case "ctr":
			return b.Artifacts(ctrs[0])(m)
		case "proc":
			return b.Artifacts(first)(m)
		}
		return b.Artifacts(b.Node("plugins/dockercompose", "Deployment", map[string]peval.Value{"DeploymentName": "my_app", "Nodes": emit.Nodes(ctrs...)}))(m)
	})
}

// conjuncts splits a command line at its && and ; words.
func conjuncts(a []string) (out [][]string) {
	out = [][]string{nil}
	for _, w := range a {
		last := len(out) - 1
		switch bare := strings.TrimSuffix(w, ";"); {
		case w == "&&":
			out = append(out, nil)
		case bare != w && len(out[last]) > 0:
			out[last] = append(out[last], bare)
			out = append(out, nil)
		default:
			out[last] = append(out[last], w)
		}
	}
	for i := len(out) - 1; i >= 0; i-- {
		if len(out[i]) == 0 {
			out = append(out[:i], out[i+1:]...)
		}
	}
	return
}

type report func(rule, f string, a ...any)

// goProcess reads the sources of a process.
type goProcess struct {
	dir      string
	required []string
	main     bool
}

// readProcess follows the main function of the package in a directory.
func readProcess(b *emit.B, files map[string]string, dir string, bad report) *goProcess {
	p := &goProcess{dir: dir}
	e := &emit.Emission{Node: dir, Files: map[string]string{}}
	for _, f := range sortedKeys(files) {
		if path.Dir(f) == path.Clean(dir) && path.Ext(f) == ".go" {
			name := "p/" + path.Base(f)
			e.Files[name] = files[f]
			e.Order = append(e.Order, name)
		}
	}
	m := b.Compile(e)
	if len(m.Errs) > 0 {
		bad("main", "the sources in %s do not compile: %s", dir, trunc(strings.Join(m.Errs, "; ")))
		return p
	}
	sp := m.SSA[emit.ModName+"/p"]
	if sp == nil || sp.Func("main") == nil || sp.Pkg.Name() != "main" {
		bad("main", "there is no main function in %s", dir)
		return p
	}
	p.main = true
	const ns = "runtime/plugins/golang.Namespace"
	required := map[string]bool{}
	type exit struct {
		built, nonzero bool
	}
	var exits []exit
	eng := flow.New(m.Prog)
	eng.Inline = inModule
	eng.Model = func(e *flow.Engine, st *flow.State, ev *flow.Event) ([]flow.Out, bool) {
		switch {
		case ev.Name == "(*"+ns+"Builder).Required" && len(ev.Args) > 0:
			if k, ok := ev.Args[0].(flow.Const); ok && k.V != nil && k.V.Kind() == constant.String {
				required[constant.StringVal(k.V)] = true
			} else {
				bad("main", "%s requires an argument whose name is not known", dir)
			}
		case ev.Name == "(*"+ns+"Builder).Build":
			n := &flow.Sym{ID: "namespace", T: resultTypes(ev)[0]}
			st.Assume(n, false)
			return []flow.Out{{Res: flow.Tuple{n, flow.NilV{}}}, {Res: flow.Tuple{flow.NilV{}, errVal("error:build")}}}, true
		case ev.Name == "os.Exit" || strings.HasPrefix(ev.Name, "log.Fatal"):
			x := exit{nonzero: ev.Name != "os.Exit"}
			if !x.nonzero {
				k, ok := flow.Strip(ev.Args[0]).(flow.Const)
				x.nonzero = ok && k.V != nil && constant.Sign(k.V) != 0
			}
			for _, o := range st.Trace {
				if o.Kind == "call" && o.Name == "(*"+ns+"Builder).Build" {
					t, ok := o.Res.(flow.Tuple)
					x.built = ok && st.NilFact(t[1]) == 1
				}
			}
			exits = append(exits, x)
			return nil, true
		}
		return nil, false
	}
	paths := eng.Run(sp.Func("main"), nil, flow.NewState())
	if eng.Over {
		bad("undecided", "the main function in %s could not be followed", dir)
	}
	failed, ran := false, false
	for _, x := range exits {
		switch {
		case x.built:
			bad("main", "the main function in %s exits although its namespace has been built", dir)
		case !x.nonzero:
			bad("main", "the main function in %s does not fail when its namespace cannot be built", dir)
		default:
			failed = true
		}
	}
	for _, o := range paths {
		var builds, awaits []*flow.Event
		for _, ev := range during(o) {
			switch {
			case ev.Kind != "call":
			case ev.Name == "(*"+ns+"Builder).Build":
				builds = append(builds, ev)
			case ev.Name == "(*"+ns+").Await":
				awaits = append(awaits, ev)
			}
		}
		if len(builds) != 1 {
			bad("main", "the main function in %s does not build the namespace that was generated for it", dir)
			continue
		}
		t := builds[0].Res.(flow.Tuple)
		if o.St.NilFact(t[1]) == -1 {
			if o.How == "panic" {
				failed = true
			} else {
				bad("main", "the main function in %s does not fail when its namespace cannot be built", dir)
			}
			continue
		}
		if o.How != "return" {
			bad("main", "the main function in %s does not come to an end", dir)
			continue
		}
		ran = true
		if len(awaits) == 0 || !sameVal(awaits[0].Recv, t[0]) {
			bad("main", "the main function in %s does not wait for its nodes", dir)
		}
	}
	if !failed {
		bad("main", "the main function in %s does not fail when its namespace cannot be built", dir)
	}
	if !ran {
		bad("main", "the main function in %s does not run the namespace that was generated for it", dir)
	}
	for r := range required {
		p.required = append(p.required, r)
	}
	sort.Strings(p.required)
	return p
}

// workspaceOf checks the go.work file above a module.
func workspaceOf(files map[string]string, mod string, bad report) {
	if _, ok := files[path.Join(mod, "go.mod")]; !ok {
		bad("image", "there is no go.mod file in %s", mod)
	}
	ws := path.Join(path.Dir(mod), "go.work")
	data, ok := files[ws]
	if !ok {
		bad("image", "there is no file %s", ws)
		return
	}
	w, err := modfile.ParseWork(ws, []byte(data), nil)
	if err != nil {
		bad("image", "%s cannot be parsed: %v", ws, err)
		return
	}
	found := false
	for _, u := range w.Use {
		d := path.Join(path.Dir(ws), u.Path)
		if _, ok := files[path.Join(d, "go.mod")]; !ok {
			bad("image", "%s uses %s, which is no module", ws, u.Path)
		}
		found = found || d == path.Clean(mod)
	}
	if !found {
		bad("image", "%s does not use the module %s", ws, path.Base(mod))
	}
}

// image is what building a Dockerfile gives: files of the build context and binaries of packages.
type image struct {
	files  map[string]string // path in the image -> file of the context
	bins   map[string]string // path in the image -> package directory of the context
	dirs   map[string]bool
	work   string
	entry  []string
	ran    map[string]bool // scripts of the context that run when it is built
}

func newImage() *image {
	return &image{files: map[string]string{}, bins: map[string]string{}, dirs: map[string]bool{"/": true}, ran: map[string]bool{}, work: "/"}
}

func (im *image) abs(p string) string {
	if path.IsAbs(p) {
		return path.Clean(p)
	}
	return path.Join(im.work, p)
}

// buildImage interprets a Dockerfile with the files of its context.
func buildImage(text string, ctx map[string]string, bad report) *image {
	stages := map[string]*image{}
	var im *image
	text = strings.ReplaceAll(text, "\\\n", " ")
	for _, l := range strings.Split(text, "\n") {
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, "#") {
			continue
		}
		w := strings.Fields(l)
		op := strings.ToUpper(w[0])
		rest := strings.TrimSpace(l[len(w[0]):])
		if op == "FROM" {
			im = newImage()
			if len(w) >= 4 && strings.ToUpper(w[2]) == "AS" {
				if stages[strings.ToLower(w[3])] != nil {
					bad("image", "two build stages are called %s", w[3])
				}
				stages[strings.ToLower(w[3])] = im
			}
			continue
		}
		if im == nil {
			if op != "ARG" {
				bad("image", "the Dockerfile has %s outside of any stage", op)
			}
			continue
		}
		switch op {
		case "WORKDIR":
			im.work = im.abs(w[1])
			im.dirs[im.work] = true
		case "COPY", "ADD":
			from := ""
			args := w[1:]
			for len(args) > 0 && strings.HasPrefix(args[0], "--") {
				if f, ok := strings.CutPrefix(args[0], "--from="); ok {
					from = f
				}
				args = args[1:]
			}
			if len(args) != 2 {
				bad("undecided", "the Dockerfile has %q", l)
				continue
			}
			if from != "" && stages[strings.ToLower(from)] == nil {
				if strings.ContainsAny(from, ":/.") { // another image
					continue
				}
				bad("image", "the Dockerfile copies from %s, which is no stage", from)
				continue
			}
			dst := im.abs(args[1])
			n := 0
			place := func(src, p string) (string, bool) {
				if p == src {
					if strings.HasSuffix(args[1], "/") || im.dirs[dst] {
						return path.Join(dst, path.Base(p)), true
					}
					return dst, true
				}
				pre := strings.TrimSuffix(src, "/") + "/"
				if src == "." || src == "/" {
					pre = strings.TrimPrefix(src, ".")
				}
				if strings.HasPrefix(p, pre) {
					return path.Join(dst, strings.TrimPrefix(p, pre)), true
				}
				return "", false
			}
			if from == "" {
				src := path.Clean(strings.TrimPrefix(args[0], "/"))
				for _, f := range sortedKeys(ctx) {
					if to, ok := place(src, f); ok {
						im.files[to] = f
						n++
					}
				}
			} else {
				st := stages[strings.ToLower(from)]
				src := path.Clean(args[0])
				for _, f := range sortedKeys(st.files) {
					if to, ok := place(src, f); ok {
						im.files[to] = st.files[f]
						n++
					}
				}
				for _, f := range sortedKeys(st.bins) {
					if to, ok := place(src, f); ok {
						im.bins[to] = st.bins[f]
						n++
					}
				}
			}
			if n == 0 {
				bad("image", "the Dockerfile copies %s, which is not there", args[0])
			}
			for p := range im.files {
				for d := path.Dir(p); d != "/"; d = path.Dir(d) {
					im.dirs[d] = true
				}
			}
			for p := range im.bins {
				for d := path.Dir(p); d != "/"; d = path.Dir(d) {
					im.dirs[d] = true
				}
			}
		case "RUN":
			var a []string
			if strings.HasPrefix(rest, "[") {
				if json.Unmarshal([]byte(rest), &a) != nil {
					bad("image", "the Dockerfile has %q", l)
					continue
				}
			} else {
				a = strings.Fields(rest)
			}
			home := im.work
			for _, a := range conjuncts(a) {
				switch {
				case a[0] == "cd" && len(a) == 2:
					im.work = im.abs(a[1])
				case a[0] == "mkdir":
					for _, d := range a[1:] {
						if !strings.HasPrefix(d, "-") {
							im.dirs[im.abs(d)] = true
						}
					}
				case len(a) > 2 && a[0] == "go" && a[1] == "build":
					out, pkg := "", "."
					for i := 2; i < len(a); i++ {
						if a[i] == "-o" && i+1 < len(a) {
							i++
							out = a[i]
						} else if !strings.HasPrefix(a[i], "-") {
							pkg = a[i]
						}
					}
					dir := im.abs(pkg)
					src := ""
					for p, f := range im.files {
						if path.Dir(p) == dir && path.Ext(p) == ".go" {
							src = path.Dir(f)
						}
					}
					if src == "" {
						bad("image", "the Dockerfile builds %s, where there is no source", pkg)
						continue
					}
					to := im.abs(out)
					if out == "" {
						to = path.Join(im.work, path.Base(dir))
					} else if im.dirs[to] {
						to = path.Join(to, path.Base(dir))
					}
					im.bins[to] = src
				case a[0] == "go" || a[0] == "apt-get" || a[0] == "apk" || a[0] == "chmod":
				case strings.HasSuffix(a[0], "/sh") || a[0] == "sh" || strings.HasSuffix(a[0], "bash"):
					if len(a) == 2 {
						f, ok := im.files[im.abs(a[1])]
						if !ok {
							bad("image", "the Dockerfile runs %s, which is not there", a[1])
						} else if s := runScript(ctx[f], im.work, nil); s.Bad != "" {
							bad("undecided", "what %s does could not be determined: %s", f, s.Bad)
						} else {
							im.ran[f] = true
						}
					} else {
						bad("undecided", "the Dockerfile has %q", l)
					}
				default:
					bad("undecided", "the Dockerfile has %q", l)
				}
			}
			im.work = home
		case "ENTRYPOINT", "CMD":
			var a []string
			if strings.HasPrefix(rest, "[") {
				if json.Unmarshal([]byte(rest), &a) != nil {
					bad("image", "the Dockerfile has %q", l)
				}
			} else {
				a = strings.Fields(rest)
			}
			if op == "CMD" && im.entry != nil {
				a = append(im.entry, a...)
			}
			im.entry = a
		case "ENV", "ARG", "EXPOSE", "LABEL", "SHELL":
		default:
			bad("undecided", "the Dockerfile has %q", l)
		}
	}
	return im
}

func under(files map[string]string, dir string) map[string]string {
	r := map[string]string{}
	for f, d := range files {
		if dir == "" || dir == "." {
			r[f] = d
		} else if strings.HasPrefix(f, path.Clean(dir)+"/") {
			r[strings.TrimPrefix(f, path.Clean(dir)+"/")] = d
		}
	}
	return r
}

func runD01(c *core.Ctx) {
	for _, p := range []string{"plugins/goproc", "plugins/linuxcontainer", "plugins/dockercompose"} {
		if c.P.SSAPk[core.Mod+p] == nil {
			c.Fail("undecided", p, token.NoPos, "the package was not found")
			return
		}
	}
	b := emit.New(c)
	for _, s := range linuxScens() {
		var texts []map[string]string
		for _, rev := range []bool{false, true} {
			c.Count("deployments", 1)
			nm := map[string]string{"": "docker-compose", "ctr": "a container on its own", "proc": "a process on its own"}[s.top] + ": " + s.name
			if rev {
				nm += ", maps the other way round"
			}
			bad := func(rule, f string, a ...any) { c.Fail(rule, nm, token.NoPos, f, a...) }
			d := deployLinux(b, s, rev)
			if d.Unk != "" {
				bad("undecided", "what is emitted could not be determined: %s", d.Unk)
				continue
			}
			if d.Failed != "" {
				bad("image", "the generators fail: %s", d.Failed)
				continue
			}
			texts = append(texts, d.Files)
			c.Count("files", len(d.Files))
			switch s.top {
			case "":
				composed(c, b, s, d, bad)
			case "ctr":
				env := map[string]string{}
				for _, p := range s.ctrs[0].procs {
					for _, e := range p.edges() {
						env[envVar(b, e)] = "@" + e
					}
				}
				loc := locator{dirOf: func(cmd shCmd) (string, []string) {
					if len(cmd.Argv) > 2 && cmd.Argv[0] == "go" && cmd.Argv[1] == "run" {
						return strings.TrimPrefix(path.Join(cmd.Dir, cmd.Argv[2]), "/"), cmd.Argv[3:]
					}
					return "", nil
				}}
				if _, ok := d.Files["run.sh"]; !ok {
					bad("image", "there is no run script")
					continue
				}
				started(c, b, s.ctrs[0], d.Files["run.sh"], "/", env, d.Files, loc, bad)
			case "proc":
				p := s.ctrs[0].procs[0]
				found := ""
				for _, f := range sortedKeys(d.Files) {
					if path.Base(f) == "main.go" {
						found = path.Dir(f)
					}
				}
				if found == "" {
					bad("main", "there is no main function")
					continue
				}
				checkProcess(c, b, p, d.Files, found, bad)
			}
		}
		if len(texts) == 2 {
			for _, f := range sortedKeys(texts[0]) {
				if texts[0][f] != texts[1][f] {
					c.Fail("order", s.top+" "+s.name, token.NoPos, "%s depends on the order of map iteration", f)
				}
			}
		}
	}
	d01Names(c, b)
	d01Scripts(c, b)
	d01Nodes(c, b)
	d01Outside(c, b)
}

// locator finds the package that a command starts, and its arguments.
type locator struct {
	dirOf func(shCmd) (string, []string)
}

func composed(c *core.Ctx, b *emit.B, s linuxScen, d *emit.Deployed, bad report) {
	var doc struct {
		Services map[string]struct {
			Build struct {
				Context    string
				Dockerfile string
			}
			Environment []string
		}
	}
	if err := yaml.Unmarshal([]byte(d.Files["docker-compose.yml"]), &doc); err != nil {
		bad("image", "docker-compose.yml cannot be parsed: %v", err)
		return
	}
	for _, cs := range s.ctrs {
		inst := cleanName(b, cs.name)
		svc, ok := doc.Services[inst]
		if !ok {
			bad("image", "the container %s is not in docker-compose.yml", cs.name)
			continue
		}
		ctx := under(d.Files, svc.Build.Context)
		df := svc.Build.Dockerfile
		if df == "" {
			df = "Dockerfile"
		}
		text, ok := ctx[path.Clean(df)]
		if !ok {
			bad("image", "the container %s is built from %s in %s, which is not there", cs.name, df, svc.Build.Context)
			continue
		}
		im := buildImage(text, ctx, bad)
		if im == nil {
			bad("image", "the Dockerfile of %s has no stage", cs.name)
			continue
		}
		env := map[string]string{}
		for _, e := range svc.Environment {
			k, v, _ := strings.Cut(e, "=")
			env[k] = strings.ReplaceAll(v, " ", "_")
		}
		for _, ps := range cs.procs {
			for _, e := range ps.edges() {
				if env[envVar(b, e)] == "" {
					bad("args", "the deployment does not set %s for %s, which %s in it needs", envVar(b, e), cs.name, ps.name)
				}
			}
		}
		script := ""
		if k := len(im.entry); k > 0 {
			if f, ok := im.files[im.abs(im.entry[k-1])]; ok {
				script = ctx[f]
			}
		}
		if script == "" {
			bad("image", "the image of %s does not run a script that is in it", cs.name)
			continue
		}
		loc := locator{dirOf: func(cmd shCmd) (string, []string) {
			p := cmd.Argv[0]
			if !path.IsAbs(p) {
				p = path.Join(cmd.Dir, p)
			}
			return im.bins[p], cmd.Argv[1:]
		}}
		started(c, b, cs, script, im.work, env, ctx, loc, bad)
	}
}

// started interprets the run script of a container.
func started(c *core.Ctx, b *emit.B, cs linuxSpec, script, dir string, env map[string]string, files map[string]string, loc locator, bad report) {
	sh := runScript(script, dir, env)
	if sh.Bad != "" {
		bad("undecided", "what the run script of %s does could not be determined: %s", cs.name, sh.Bad)
		return
	}
	byPkg := map[string][]shCmd{}
	for _, cmd := range sh.Cmds {
		pkg, _ := loc.dirOf(cmd)
		if pkg == "" {
			bad("start", "the run script of %s runs %s in %s, which is no process", cs.name, cmd.Argv[0], cmd.Dir)
			continue
		}
		byPkg[path.Clean(pkg)] = append(byPkg[path.Clean(pkg)], cmd)
	}
	for _, ps := range cs.procs {
		c.Count("processes", 1)
		clean := cleanName(b, ps.name)
		pkg := ""
		for p := range byPkg {
			if path.Base(p) == clean {
				pkg = p
			}
		}
		cmds := byPkg[pkg]
		switch {
		case pkg == "" || len(cmds) == 0:
			bad("start", "the run script of %s does not start %s", cs.name, ps.name)
			continue
		case len(cmds) > 1:
			bad("start", "the run script of %s starts %s %d times", cs.name, ps.name, len(cmds))
		}
		if !cmds[0].Bg && len(cs.procs) > 1 {
			bad("start", "the run script of %s waits for %s before it starts other processes", cs.name, ps.name)
		}
		_, args := loc.dirOf(cmds[0])
		got := map[string]string{}
		for _, a := range args {
			k, v, ok := strings.Cut(strings.TrimLeft(a, "-"), "=")
			if !ok || !strings.HasPrefix(a, "-") {
				bad("args", "%s is started with the argument %s", ps.name, a)
				continue
			}
			if _, twice := got[k]; twice {
				bad("args", "%s is given %s twice", ps.name, k)
			}
			got[k] = v
		}
		want := map[string]bool{}
		for _, e := range ps.edges() {
			c.Count("arguments", 1)
			want[e] = true
			v, ok := got[e]
			if !ok {
				bad("args", "%s is not given its argument %s", ps.name, e)
			} else if v != env[envVar(b, e)] {
				bad("args", "%s is given %q for %s; the environment says %q", ps.name, v, e, env[envVar(b, e)])
			}
		}
		for _, k := range sortedKeys(got) {
			if !want[k] {
				bad("args", "%s is given %s, which it does not know", ps.name, k)
			}
		}
		checkProcess(c, b, ps, files, pkg, bad)
	}
	// Without one of the variables, nothing runs.
	for _, ps := range cs.procs {
		for _, e := range ps.edges() {
			less := map[string]string{}
			for k, v := range env {
				if k != envVar(b, e) {
					less[k] = v
				}
			}
			c.Count("missing", 1)
			if sh := runScript(script, dir, less); sh.Bad != "" {
				bad("undecided", "what the run script of %s does without %s could not be determined: %s", cs.name, e, sh.Bad)
			} else if len(sh.Cmds) > 0 {
				bad("missing", "without the variable for %s the run script of %s still starts processes", e, cs.name)
			} else if sh.status == 0 {
				bad("missing", "without the variable for %s the run script of %s succeeds", e, cs.name)
			}
		}
	}
}

func checkProcess(c *core.Ctx, b *emit.B, ps procSpec, files map[string]string, pkg string, bad report) {
	p := readProcess(b, files, pkg, bad)
	workspaceOf(files, pkg, bad)
	want := ps.edges()
	sort.Strings(want)
	got := append([]string(nil), p.required...)
	sort.Strings(got)
	if strings.Join(want, " ") != strings.Join(got, " ") {
		bad("main", "the process %s requires the arguments %v; it needs %v", ps.name, got, want)
	}
}

// d01Names: the scripts and the processes derive the same variable from a name.
func d01Names(c *core.Ctx, b *emit.B) {
	names := []string{"a.b-c_d.bind_addr", "9lives.addr", "12_x.dial_addr", "CamelCase.X", "rate.limit", "a b", "x..y", "trailing.", "a__b.c_", "_x-1.y2", "A.b__C9"}
	for _, n := range names {
		c.Count("names", 1)
		vals := map[string]string{}
		for _, f := range [][2]string{{"plugins/linux", "EnvVar"}, {"runtime/plugins/golang", "EnvVar"}} {
			d := b.Evaluate(false, func(m *peval.Machine) peval.Value {
				vals[f[0]] = peval.Str(b.Fn(f[0], f[1], n))
				return nil
			})
			if d.Unk != "" || d.Failed != "" {
				c.Fail("undecided", f[0]+"."+f[1], token.NoPos, "the variable for %q could not be determined: %s%s", n, d.Unk, d.Failed)
				return
			}
		}
		if vals["plugins/linux"] != vals["runtime/plugins/golang"] {
			c.Fail("names", "plugins/linux.EnvVar", token.NoPos, "for %q, deployments set the variable %s and processes read %s", n, vals["plugins/linux"], vals["runtime/plugins/golang"])
		}
		if v := vals["plugins/linux"]; !shName(v) && n != "a b" {
			c.Fail("names", "plugins/linux.EnvVar", token.NoPos, "for %q the variable is %q, which is no name of a variable", n, v)
		}
	}
}
