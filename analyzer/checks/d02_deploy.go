package checks

import (
	"fmt"
	"go/token"
	"path"
	"sort"
	"strconv"
	"strings"

	"gopkg.in/yaml.v3"

	"verif/analyzer/core"
	"verif/analyzer/emit"
	"verif/analyzer/peval"
)

func init() {
	register(&Check{
		ID: "D02",
		Rules: "The deployment generators are evaluated for schematic deployments whose containers stand for every kind of argument (addresses bound and dialled, inside and outside the deployment; configuration with a value, required and optional; off-the-shelf and local images; extra environment, commands, volumes and options), in both orders of declaration and of map iteration. " +
			"The emitted manifests are parsed: instance: every container is there once with its image; bind: every server is told a port that nothing else in its network uses, and the port is reachable; " +
			"dial: every client is told the place where the server listens, or gets it from the caller; config: every value that is not fixed comes from the caller under its own name; options: what containers asked for is in the manifest; container: off-the-shelf containers ask for the environment that their image needs to serve clients; reject: what cannot be deployed is an error.",
		Run:       runD02,
		NotDecide: "What Docker or Kubernetes make of a valid manifest; values with quotes, backslashes or line breaks.",
	})
}

type bindSpec struct {
	addr      string
	preferred int64
	given     int64
}

type confSpec struct {
	name     string
	optional bool
	value    string
}

type ctrSpec struct {
	inst, image string
	local       bool
	binds       []bindSpec
	dials       []string
	confs       []confSpec
	env         [][2]string
	volumes     [][2]string
	cmd         []string
	custom      [][2]string
	other       bool   // has an argument that is not configuration
	stray       string // an instance that does not exist gets an option
}

// stub makes the container node.
func (s *ctrSpec) stub(b *emit.B) peval.Iface {
	return b.Container(s.inst+".node", func(t *emit.CtrTarget) peval.Value {
		var args []peval.Iface
		for _, x := range s.confs {
			args = append(args, b.Config(x.name, x.optional, x.value))
		}
		for _, d := range s.dials {
			args = append(args, b.Dial(d))
		}
		for _, x := range s.binds {
			n := b.Bind(x.addr, x.preferred)
			if x.given != 0 {
				emit.Put(n, "Port", x.given)
				emit.Put(n, "Hostname", s.inst)
			}
			args = append(args, n)
		}
		if s.other {
			args = append(args, b.Other("other"))
		}
		m := "DeclarePrebuiltInstance"
		if s.local {
			m = "DeclareLocalImage"
		}
		if e := t.Call(m, s.inst, s.image, emit.Nodes(args...)); e != nil {
			return e
		}
		for _, kv := range s.env {
			if e := t.Call("SetEnvironmentVariable", s.inst, kv[0], kv[1]); e != nil {
				return e
			}
		}
		for _, kv := range s.volumes {
			if e := t.Call("AddVolume", s.inst, kv[0], kv[1]); e != nil {
				return e
			}
		}
		for _, kv := range s.custom {
			if e := t.Call("AddCustomConf", s.inst, kv[0], kv[1]); e != nil {
				return e
			}
		}
		if len(s.cmd) > 0 {
			if e := t.Call("SetCustomCommand", s.inst, emit.Strs(s.cmd...)); e != nil {
				return e
			}
		}
		switch s.stray {
		case "env":
			return t.Call("SetEnvironmentVariable", "nobody", "K", "V")
		case "cmd":
			return t.Call("SetCustomCommand", "nobody", emit.Strs("x"))
		case "volume":
			return t.Call("AddVolume", "nobody", "/a", "/b")
		case "custom":
			return t.Call("AddCustomConf", "nobody", "a", "b")
		}
		return nil
	})
}

func (s *ctrSpec) has(addr string) *bindSpec {
	for i := range s.binds {
		if s.binds[i].addr == addr {
			return &s.binds[i]
		}
	}
	return nil
}

// the schematic containers
func frontCtr(conf bool) *ctrSpec {
	s := &ctrSpec{inst: "front.ctr", image: "img/front:1", binds: []bindSpec{{addr: "front.http.addr"}, {addr: "front.grpc.addr", preferred: 2000}}, dials: []string{"back.addr", "third.addr"}}
	s.confs = []confSpec{{name: "fixed_value", value: "x1"}}
	if conf {
		s.confs = append(s.confs, confSpec{name: "needed.value"}, confSpec{name: "extra.value", optional: true})
	}
	return s
}

func backCtr() *ctrSpec {
	return &ctrSpec{inst: "back_ctr", image: "img/back", binds: []bindSpec{{addr: "back.addr", given: 6379}, {addr: "back.ui.addr", given: 2000}},
		env: [][2]string{{"ROOT_HOST", "%"}, {"PASS_WORD", "a&b<c>d'e+f"}}, cmd: []string{"run", "--fast"}, custom: [][2]string{{"runtime", "nvidia"}, {"privileged", "true"}}}
}

func thirdCtr() *ctrSpec {
	return &ctrSpec{inst: "third.ctr", image: "third.img", local: true, binds: []bindSpec{{addr: "third.addr", preferred: 6379}, {addr: "third.ui.addr"}}, dials: []string{"front.http.addr", "front.grpc.addr"}}
}

func quietCtr() *ctrSpec { // neither binds nor dials
	return &ctrSpec{inst: "quiet", image: "img/quiet", env: [][2]string{{"ONE", "1"}}}
}

func lonelyCtr() *ctrSpec { // no environment at all but what it dials
	return &ctrSpec{inst: "lonely", image: "img/lonely", dials: []string{"back.addr"}}
}

// crowdCtr has many of everything.
func crowdCtr(conf bool) *ctrSpec {
	s := &ctrSpec{inst: "crowd.ctr", image: "crowd.img", local: true}
	for i := 0; i < 9; i++ {
		n := strconv.Itoa(i)
		s.binds = append(s.binds, bindSpec{addr: "crowd" + n + ".addr", preferred: int64(7000 + i%3)})
		s.dials = append(s.dials, "crowd"+n+".addr")
		s.env = append(s.env, [2]string{"VAR_" + n, "v" + n})
		s.cmd = append(s.cmd, "arg"+n)
		if conf {
			s.confs = append(s.confs, confSpec{name: "conf" + n, optional: i%2 == 0})
			s.dials = append(s.dials, "far"+n+".addr")
		}
	}
	s.dials = append(s.dials, "back.addr", "front.grpc.addr")
	return s
}

type deployment struct {
	name string
	ctrs []*ctrSpec
	rev  bool
}

func orders(name string, ctrs ...*ctrSpec) []deployment {
	var r []*ctrSpec
	for i := range ctrs {
		r = append(r, ctrs[len(ctrs)-1-i])
	}
	return []deployment{{name, ctrs, false}, {name + ", declared the other way round", r, false}, {name + ", maps the other way round", ctrs, true}}
}

func stubs(b *emit.B, cs []*ctrSpec) peval.Value {
	var ns []peval.Iface
	for _, s := range cs {
		ns = append(ns, s.stub(b))
	}
	return emit.Nodes(ns...)
}

type yamap = map[string]any

func runD02(c *core.Ctx) {
	b := emit.New(c)
	compose(c, b)
	kube(c, b)
	containerPorts(c, true)
	c.Floor("service", 20)
	c.Floor("pod", 10)
}

func str(v any) string {
	if v == nil {
		return ""
	}
	return fmt.Sprint(v)
}

func list(v any) []string {
	var out []string
	l, _ := v.([]any)
	for _, x := range l {
		out = append(out, str(x))
	}
	return out
}

func asMap(v any) yamap {
	m, _ := v.(yamap)
	return m
}

// environment is the environment of a docker-compose service.
func environment(v any) (map[string]string, string) {
	out := map[string]string{}
	switch x := v.(type) {
	case nil:
	case yamap:
		for k, v := range x {
			out[k] = str(v)
		}
	case []any:
		for _, e := range x {
			k, v, ok := strings.Cut(str(e), "=")
			if _, isStr := e.(string); !ok || !isStr {
				return nil, fmt.Sprintf("an entry of the environment is %v", e)
			}
			if _, twice := out[k]; twice {
				return nil, "the variable " + k + " is set twice"
			}
			out[k] = v
		}
	default:
		return nil, "the environment is no list"
	}
	return out, ""
}

func envVar(b *emit.B, name string) string { return peval.Str(b.Fn("plugins/linux", "EnvVar", name)) }

func cleanName(b *emit.B, name string) string { return peval.Str(b.Fn("blueprint/pkg/ir", "CleanName", name)) }

// compose decides docker-compose deployments.
func compose(c *core.Ctx, b *emit.B) {
	run := func(d deployment) *emit.Deployed {
		return b.Evaluate(d.rev, func(m *peval.Machine) peval.Value {
			n := b.Node("plugins/dockercompose", "Deployment", map[string]peval.Value{"DeploymentName": "my_app", "Nodes": stubs(b, d.ctrs)})
			return b.Artifacts(n)(m)
		})
	}
	front, back, third := frontCtr(true), backCtr(), thirdCtr()
	back.volumes = [][2]string{{"/src", "/dst"}, {"data", "/var/lib"}}
	ds := orders("compose: three containers", front, back, third)
	ds = append(ds, orders("compose: servers elsewhere", frontCtr(true), lonelyCtr(), quietCtr())...)
	ds = append(ds, orders("compose: one container", lonelyCtr())...)
	ds = append(ds, orders("compose: many arguments", crowdCtr(true), backCtr(), frontCtr(false))...)
	var texts []string
	for _, d := range ds {
		e := run(d)
		bad := func(rule, f string, a ...any) {
			c.Fail(rule, "plugins/dockercompose "+d.name, token.NoPos, f, a...)
		}
		if e.Unk != "" {
			bad("undecided", "what is emitted could not be determined: %s", e.Unk)
			continue
		}
		if e.Failed != "" {
			bad("instance", "the deployment fails: %s", e.Failed)
			continue
		}
		texts = append(texts, e.Files["docker-compose.yml"])
		composeFile(c, b, d, e.Files["docker-compose.yml"], bad)
	}
	for i := 0; i+2 < len(texts); i += 3 {
		if texts[i] != texts[i+2] {
			c.Fail("order", "plugins/dockercompose", token.NoPos, "the manifest depends on the order of map iteration")
		}
	}
	rejects(c, "plugins/dockercompose", run, false)
}

// rejects: what cannot be deployed.
func rejects(c *core.Ctx, who string, run func(d deployment) *emit.Deployed, pod bool) {
	twin := backCtr()
	twin.inst = "back.ctr" // the same service name
	clash := &ctrSpec{inst: "clash", image: "i", binds: []bindSpec{{addr: "x.addr", given: 80}, {addr: "y.addr", given: 80}}}
	other := &ctrSpec{inst: "odd", image: "i", other: true}
	cases := []struct {
		what string
		ctrs []*ctrSpec
	}{
		{"two containers of one name", []*ctrSpec{backCtr(), twin}},
		{"two servers of a container given one port", []*ctrSpec{clash}},
		{"an argument that is no configuration", []*ctrSpec{other}},
	}
	for _, s := range []string{"env", "cmd", "volume", "custom"} {
		cases = append(cases, struct {
			what string
			ctrs []*ctrSpec
		}{"an option (" + s + ") for a container that does not exist", []*ctrSpec{{inst: "fine", image: "i", stray: s}}})
	}
	if pod {
		two := &ctrSpec{inst: "other", image: "i", binds: []bindSpec{{addr: "z.addr", given: 6379}}}
		cases = append(cases, struct {
			what string
			ctrs []*ctrSpec
		}{"two containers of a pod given one port", []*ctrSpec{backCtr(), two}})
	}
	for _, x := range cases {
		c.Count("rejected", 1)
		for _, rev := range []bool{false, true} {
			e := run(deployment{x.what, x.ctrs, rev})
			switch {
			case e.Unk != "":
				c.Fail("undecided", who+" "+x.what, token.NoPos, "what is emitted could not be determined: %s", e.Unk)
			case e.Failed == "":
				c.Fail("reject", who+" "+x.what, token.NoPos, "it is accepted")
			case strings.HasPrefix(e.Failed, "panics"):
				c.Fail("reject", who+" "+x.what, token.NoPos, "it %s", e.Failed)
			}
		}
	}
}

type failer func(rule, f string, a ...any)

func composeFile(c *core.Ctx, b *emit.B, d deployment, text string, bad failer) {
	var top yamap
	if err := yaml.Unmarshal([]byte(text), &top); err != nil {
		bad("instance", "the manifest is not valid YAML: %v", err)
		return
	}
	services := asMap(top["services"])
	if len(services) != len(d.ctrs) {
		bad("instance", "%d containers become %d services", len(d.ctrs), len(services))
	}
	// which service is which container
	host := map[*ctrSpec]string{}
	for n, v := range services {
		s := asMap(v)
		c.Count("service", 1)
		for _, x := range d.ctrs {
			if build := asMap(s["build"]); x.local && build != nil && path.Clean(str(build["context"])) == path.Clean(x.image) || !x.local && str(s["image"]) == x.image {
				if host[x] != "" {
					bad("instance", "%s is there twice", x.inst)
				}
				host[x] = n
			}
		}
	}
	port := map[string]string{}  // by address
	place := map[string]string{} // by address
	envs := map[*ctrSpec]map[string]string{}
	for _, x := range d.ctrs {
		n := host[x]
		if n == "" {
			bad("instance", "no service for %s", x.inst)
			continue
		}
		s := asMap(services[n])
		if h := str(s["hostname"]); h != "" && h != n {
			bad("instance", "the host name %s of %s is not the one clients use", h, n)
		}
		env, wrong := environment(s["environment"])
		if wrong != "" {
			bad("config", "%s: %s", n, wrong)
		}
		envs[x] = env
		used := map[string]bool{}
		expose := list(s["expose"])
		ports := list(s["ports"])
		for _, bd := range x.binds {
			c.Count("bind", 1)
			ev := envVar(b, bd.addr+".bind_addr")
			p := strconv.Itoa(int(bd.given))
			if bd.given == 0 {
				h, q, ok := strings.Cut(env[ev], ":")
				if !ok || h != "0.0.0.0" || q == "" || q == "0" {
					bad("bind", "%s is told to listen on %q", bd.addr, env[ev])
					continue
				}
				p = q
			} else if v, set := env[ev]; set && v != "0.0.0.0:"+p {
				bad("bind", "%s is told to listen on %q", bd.addr, v)
			}
			if used[p] {
				bad("bind", "two servers of %s listen on port %s", n, p)
			}
			used[p] = true
			port[bd.addr], place[bd.addr] = p, n+":"+p
			exposed := false
			for _, e := range expose {
				exposed = exposed || e == p
			}
			mapped := false
			for _, e := range ports {
				if i := strings.LastIndex(e, ":"); i >= 0 && e[i+1:] == p {
					if fromCaller(e[:i], ev, false) {
						mapped = true
					} else if !anyCaller(b, e[:i], x) {
						bad("bind", "port %s of %s is published as %s", p, n, e[:i])
					}
				}
			}
			if !exposed && !mapped {
				bad("bind", "port %s of %s is not exposed", p, n)
			}
			if !mapped {
				bad("bind", "port %s of %s is not published where the caller says", p, n)
			}
		}
		for _, e := range expose {
			if !used[e] {
				bad("bind", "%s exposes the port %s that nothing listens on", n, e)
			}
		}
		for _, e := range ports {
			if i := strings.LastIndex(e, ":"); i < 0 || !used[e[i+1:]] {
				bad("bind", "%s publishes a port that nothing listens on: %s", n, e)
			}
		}
		for _, kv := range x.env {
			if env[envVar(b, kv[0])] != kv[1] && env[kv[0]] != kv[1] {
				bad("options", "%s does not get %s=%s but %q", n, kv[0], kv[1], env[kv[0]])
			}
		}
		for _, cf := range x.confs {
			c.Count("config", 1)
			v, set := env[envVar(b, cf.name)]
			switch {
			case cf.value != "":
				if set && v != cf.value {
					bad("config", "%s gets another value of %s than the fixed one: %s", n, cf.name, v)
				}
			case !set || !fromCaller(v, envVar(b, cf.name), cf.optional):
				bad("config", "%s does not get %s from the caller: %q", n, cf.name, v)
			}
		}
		for _, vol := range x.volumes {
			found := false
			for _, e := range list(s["volumes"]) {
				found = found || e == vol[0]+":"+vol[1]
			}
			if !found {
				bad("options", "%s does not get the volume %s", n, vol[0])
			}
		}
		if len(x.cmd) > 0 && strings.Join(list(s["command"]), " ") != strings.Join(x.cmd, " ") {
			bad("options", "%s does not run the command %v but %v", n, x.cmd, s["command"])
		}
		if len(x.cmd) == 0 && s["command"] != nil {
			bad("options", "%s runs a command nobody asked for", n)
		}
		for _, kv := range x.custom {
			if str(s[kv[0]]) != kv[1] {
				bad("options", "%s does not get the option %s", n, kv[0])
			}
		}
	}
	for _, x := range d.ctrs {
		env := envs[x]
		known := map[string]bool{}
		for _, dl := range x.dials {
			c.Count("dial", 1)
			ev := envVar(b, dl+".dial_addr")
			known[ev] = true
			v := env[ev]
			if at := place[dl]; at != "" {
				if v != at {
					bad("dial", "%s is told that %s is at %q; it is at %s", x.inst, dl, v, at)
				}
			} else if !fromCaller(v, ev, false) {
				bad("dial", "%s does not get %s from the caller: %q", x.inst, dl, v)
			}
		}
		for _, bd := range x.binds {
			known[envVar(b, bd.addr+".bind_addr")] = true
		}
		for _, cf := range x.confs {
			known[envVar(b, cf.name)] = true
		}
		for _, kv := range x.env {
			known[kv[0]], known[envVar(b, kv[0])] = true, true
		}
		for k := range env {
			if !known[k] {
				bad("config", "%s gets the variable %s, which is not its own", x.inst, k)
			}
		}
	}
}

// fromCaller: the value is the caller's variable of the name, and its absence is an error unless it
// is optional.
func fromCaller(v, name string, optional bool) bool {
	if !strings.HasPrefix(v, "${"+name) || !strings.HasSuffix(v, "}") {
		return v == "$"+name && optional
	}
	rest := strings.TrimSuffix(strings.TrimPrefix(v, "${"+name), "}")
	if optional {
		return rest == "" || rest == "-" || rest == ":-"
	}
	return strings.HasPrefix(rest, "?") || strings.HasPrefix(rest, ":?")
}

func anyCaller(b *emit.B, v string, x *ctrSpec) bool {
	for _, bd := range x.binds {
		if fromCaller(v, envVar(b, bd.addr+".bind_addr"), false) {
			return true
		}
	}
	return false
}

// kube decides kubernetes deployments.
func kube(c *core.Ctx, b *emit.B) {
	type pod struct {
		name string
		ctrs []*ctrSpec
	}
	run := func(pods []pod, rev bool, registry string) *emit.Deployed {
		return b.Evaluate(rev, func(m *peval.Machine) peval.Value {
			var ns []peval.Iface
			for _, p := range pods {
				ns = append(ns, b.Node("plugins/kubernetes/kubepod", "PodDeployment", map[string]peval.Value{"PodName": p.name, "DockerRegistryAddr": registry, "Nodes": stubs(b, p.ctrs)}))
			}
			n := b.Node("plugins/kubernetes", "Application", map[string]peval.Value{"AppName": "my_app", "Nodes": emit.Nodes(ns...)})
			return b.Artifacts(n)(m)
		})
	}
	type scen struct {
		name string
		pods []pod
		reg  string
	}
	f, bk, th := frontCtr(false), backCtr(), thirdCtr()
	vol := quietCtr()
	vol.volumes = [][2]string{{"/src", "/dst"}}
	scens := []scen{
		{"one pod", []pod{{"only_pod", []*ctrSpec{f, bk, th}}}, ""},
		{"one pod and a registry", []pod{{"only_pod", []*ctrSpec{th, bk, f}}}, "reg.org:5000"},
		{"two pods", []pod{{"front_pod", []*ctrSpec{f}}, {"back_pod", []*ctrSpec{bk, th}}}, ""},
		{"three pods", []pod{{"third_pod", []*ctrSpec{th}}, {"back_pod", []*ctrSpec{bk, quietCtr()}}, {"front_pod", []*ctrSpec{f}}}, ""},
		{"a client alone", []pod{{"lonely_pod", []*ctrSpec{lonelyCtr()}}, {"back_pod", []*ctrSpec{bk}}}, ""},
		{"many arguments", []pod{{"crowd_pod", []*ctrSpec{crowdCtr(false)}}, {"back_pod", []*ctrSpec{bk, f, th}}}, ""},
		{"a volume", []pod{{"quiet_pod", []*ctrSpec{vol}}}, ""},
	}
	for _, s := range scens {
		var texts []string
		for _, rev := range []bool{false, true} {
			nm := s.name
			if rev {
				nm += ", maps the other way round"
			}
			e := run(s.pods, rev, s.reg)
			bad := func(rule, f string, a ...any) { c.Fail(rule, "plugins/kubernetes "+nm, token.NoPos, f, a...) }
			if e.Unk != "" {
				bad("undecided", "what is emitted could not be determined: %s", e.Unk)
				continue
			}
			if e.Failed != "" {
				bad("instance", "the deployment fails: %s", e.Failed)
				continue
			}
			all := ""
			for _, k := range sortedKeys(e.Files) {
				all += "--- " + k + "\n" + e.Files[k]
			}
			texts = append(texts, all)
			var ps [][]*ctrSpec
			for _, p := range s.pods {
				ps = append(ps, p.ctrs)
			}
			kubeFiles(c, b, ps, e.Files, s.reg, bad)
		}
		if len(texts) == 2 && texts[0] != texts[1] {
			c.Fail("order", "plugins/kubernetes "+s.name, token.NoPos, "the manifests depend on the order of map iteration: %s", firstDiff(texts[0], texts[1]))
		}
	}
	one := func(d deployment) *emit.Deployed { return run([]pod{{"p", d.ctrs}}, d.rev, "") }
	rejects(c, "plugins/kubernetes", one, true)
	for what, ctrs := range map[string][]*ctrSpec{"a value that only the caller knows": {frontCtr(true), backCtr(), thirdCtr()}, "a server that is not deployed": {lonelyCtr()}} {
		c.Count("rejected", 1)
		if e := one(deployment{what, ctrs, false}); e.Unk != "" || e.Failed == "" || strings.HasPrefix(e.Failed, "panics") {
			c.Fail("reject", "plugins/kubernetes "+what, token.NoPos, "it is accepted %s%s", e.Unk, e.Failed)
		}
	}
}

func sortedKeys(m map[string]string) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// dnsName: names of kubernetes objects.
func dnsName(s string) bool {
	if s == "" || len(s) > 63 || s[0] == '-' || s[len(s)-1] == '-' {
		return false
	}
	for _, r := range s {
		if !(r >= 'a' && r <= 'z' || r >= '0' && r <= '9' || r == '-') {
			return false
		}
	}
	return true
}

func kubeFiles(c *core.Ctx, b *emit.B, pods [][]*ctrSpec, files map[string]string, registry string, bad failer) {
	conf := map[string]string{} // name/key of the config maps
	var deps []yamap
	var svcs []yamap
	for _, f := range sortedKeys(files) {
		dec := yaml.NewDecoder(strings.NewReader(files[f]))
		for {
			var doc yamap
			err := dec.Decode(&doc)
			if err != nil && err.Error() == "EOF" {
				break
			}
			if err != nil {
				bad("instance", "%s is not valid YAML: %v", f, err)
				break
			}
			name := str(asMap(doc["metadata"])["name"])
			if doc != nil && !dnsName(name) {
				bad("instance", "%s: %q is not a name", f, name)
			}
			switch str(doc["kind"]) {
			case "ConfigMap":
				for k, v := range asMap(doc["data"]) {
					conf[name+"/"+k] = str(v)
				}
			case "Deployment":
				deps = append(deps, doc)
			case "Service":
				svcs = append(svcs, doc)
			}
		}
	}
	if len(deps) != len(pods) || len(svcs) > len(pods) {
		bad("instance", "%d pods become %d deployments and %d services", len(pods), len(deps), len(svcs))
	}
	type where struct {
		pod  int
		svc  string
		port string
	}
	at := map[string]where{}
	envs := map[*ctrSpec]map[string]string{}
	seen := map[*ctrSpec]int{}
	podOf := map[*ctrSpec]int{}
	for i, d := range deps {
		c.Count("pod", 1)
		tmpl := asMap(asMap(d["spec"])["template"])
		labels := asMap(asMap(tmpl["metadata"])["labels"])
		if !subset(asMap(asMap(asMap(d["spec"])["selector"])["matchLabels"]), labels) {
			bad("instance", "a deployment does not select its own pods")
		}
		if n := str(asMap(d["spec"])["replicas"]); n != "" && n != "1" {
			bad("instance", "a deployment runs its containers %s times", n)
		}
		svc := ""
		svcPorts := map[string]string{}
		for _, s := range svcs {
			if sel := asMap(asMap(s["spec"])["selector"]); subset(sel, labels) && len(sel) > 0 {
				svc = str(asMap(s["metadata"])["name"])
				ports, _ := asMap(s["spec"])["ports"].([]any)
				names := map[string]bool{}
				for _, p := range ports {
					m := asMap(p)
					t := str(m["targetPort"])
					if t == "" {
						t = str(m["port"])
					}
					svcPorts[str(m["port"])] = t
					if n := str(m["name"]); !dnsName(n) && len(ports) > 1 || names[n] {
						bad("instance", "the name %q of a port is not valid or not unique", n)
					} else {
						names[n] = true
					}
				}
			}
		}
		ctrs, _ := asMap(tmpl["spec"])["containers"].([]any)
		used := map[string]bool{}
		npod := -1
		total := 0
		for _, cv := range ctrs {
			k := asMap(cv)
			if !dnsName(str(k["name"])) {
				bad("instance", "%q is not a name of a container", k["name"])
			}
			x := (*ctrSpec)(nil)
			for pi, p := range pods {
				for _, y := range p {
					img := y.image
					if y.local {
						img = y.inst
						if registry != "" {
							img = registry + "/" + y.inst
						}
					}
					if str(k["image"]) == img {
						x = y
						if npod >= 0 && npod != pi {
							bad("instance", "containers of different pods are together")
						}
						npod = pi
					}
				}
			}
			if x == nil {
				bad("instance", "the image %q is nobody's", k["image"])
				continue
			}
			seen[x]++
			podOf[x] = i
			total++
			env := map[string]string{}
			es, _ := k["env"].([]any)
			for _, e := range es {
				m := asMap(e)
				n := str(m["name"])
				if _, twice := env[n]; twice {
					bad("config", "the variable %s is set twice", n)
				}
				if ref := asMap(asMap(m["valueFrom"])["configMapKeyRef"]); ref != nil {
					v, ok := conf[str(ref["name"])+"/"+str(ref["key"])]
					if !ok {
						bad("dial", "%s refers to %s in %s, which is not there", n, ref["key"], ref["name"])
					}
					env[n] = v
				} else {
					if _, isStr := m["value"].(string); !isStr {
						bad("config", "the value of %s is no string", n)
					}
					env[n] = str(m["value"])
				}
			}
			envs[x] = env
			announced := map[string]bool{}
			ps, _ := k["ports"].([]any)
			for _, p := range ps {
				announced[str(asMap(p)["containerPort"])] = true
			}
			for _, bd := range x.binds {
				c.Count("bind", 1)
				ev := envVar(b, bd.addr+".bind_addr")
				p := strconv.Itoa(int(bd.given))
				if bd.given == 0 {
					h, q, ok := strings.Cut(env[ev], ":")
					if !ok || h != "0.0.0.0" || q == "" || q == "0" {
						bad("bind", "%s is told to listen on %q", bd.addr, env[ev])
						continue
					}
					p = q
				} else if v, set := env[ev]; set && v != "0.0.0.0:"+p {
					bad("bind", "%s is told to listen on %q", bd.addr, v)
				}
				if used[p] {
					bad("bind", "two servers of a pod listen on port %s", p)
				}
				used[p] = true
				if !announced[p] {
					bad("bind", "port %s of %s is not announced", p, x.inst)
				}
				sp := ""
				for from, to := range svcPorts {
					if to == p {
						sp = from
					}
				}
				if sp == "" {
					bad("bind", "port %s of %s is not part of the service", p, x.inst)
				}
				at[bd.addr] = where{i, svc, sp}
				if sp == "" {
					at[bd.addr] = where{i, svc, p}
				}
			}
			for _, kv := range x.env {
				if env[envVar(b, kv[0])] != kv[1] && env[kv[0]] != kv[1] {
					bad("options", "%s does not get %s=%s but %q", x.inst, kv[0], kv[1], env[kv[0]])
				}
			}
			for _, cf := range x.confs {
				if v, set := env[envVar(b, cf.name)]; set && v != cf.value {
					bad("config", "%s gets another value of %s than the fixed one: %s", x.inst, cf.name, v)
				}
			}
			cmd := append(list(k["command"]), list(k["args"])...)
			if strings.Join(cmd, " ") != strings.Join(x.cmd, " ") {
				bad("options", "%s does not run the command %v but %v", x.inst, x.cmd, cmd)
			}
			for _, kv := range x.custom {
				if str(k[kv[0]]) != kv[1] {
					bad("options", "%s does not get the option %s", x.inst, kv[0])
				}
			}
			if len(x.volumes) > 0 {
				ms, _ := k["volumeMounts"].([]any)
				if len(ms) != len(x.volumes) {
					c.Fail("volume", "plugins/kubernetes", token.NoPos, "%s does not get its volume", x.inst)
				}
			}
		}
		if npod >= 0 && total != len(pods[npod]) {
			bad("instance", "a pod has %d of %d containers", total, len(pods[npod]))
		}
	}
	for _, p := range pods {
		for _, x := range p {
			if seen[x] != 1 {
				bad("instance", "%s is there %d times", x.inst, seen[x])
				continue
			}
			known := map[string]bool{}
			for _, dl := range x.dials {
				c.Count("dial", 1)
				ev := envVar(b, dl+".dial_addr")
				known[ev] = true
				w, ok := at[dl]
				v := envs[x][ev]
				if !ok {
					bad("dial", "%s dials %s, which is nowhere, as %q", x.inst, dl, v)
				} else if local := w.pod == podOf[x]; !(local && v == "localhost:"+w.port) && v != w.svc+":"+w.port {
					bad("dial", "%s is told that %s is at %q; it is at %s:%s", x.inst, dl, v, w.svc, w.port)
				}
			}
			for _, bd := range x.binds {
				known[envVar(b, bd.addr+".bind_addr")] = true
			}
			for _, cf := range x.confs {
				known[envVar(b, cf.name)] = true
			}
			for _, kv := range x.env {
				known[kv[0]], known[envVar(b, kv[0])] = true, true
			}
			for k := range envs[x] {
				if !known[k] {
					bad("config", "%s gets the variable %s, which is not its own", x.inst, k)
				}
			}
		}
	}
}

// subset: everything in a is in b.
func subset(a, b yamap) bool {
	for k, v := range a {
		if str(b[k]) != str(v) {
			return false
		}
	}
	return true
}
