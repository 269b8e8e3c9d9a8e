package checks

import (
	"fmt"
	"go/token"
	"path"
	"strings"

	"verif/analyzer/core"
	"verif/analyzer/emit"
	"verif/analyzer/peval"
)

// A process of some plugin, as a workspace sees it: it asks for a directory, puts files there, and
// may provide build scripts, commands for the Dockerfile and a run function.
type plugged struct {
	name    string
	scripts []string // build scripts, below the directory of the process
	custom  bool     // commands for the Dockerfile
}

type pluggedScen struct {
	name string
	ps   []plugged
}

func pluggedScens() []pluggedScen {
	return []pluggedScen{
		{"no build script", []plugged{{name: "a.proc"}, {name: "b_proc"}}},
		{"one build script", []plugged{{name: "a.proc", scripts: []string{"build.sh"}}}},
		{"build scripts of the same name", []plugged{
			{name: "a.proc", scripts: []string{"build.sh"}}, {name: "b.proc", scripts: []string{"build.sh"}}, {name: "1-c.proc", scripts: []string{"build.sh"}}}},
		{"several build scripts", []plugged{
			{name: "a.proc", scripts: []string{"build.sh", "deps.sh", "lib/deep/build.sh", "lib/build.sh"}}, {name: "other", scripts: []string{"lib/build.sh"}}}},
		{"build scripts and Dockerfile commands", []plugged{
			{name: "a.proc", custom: true}, {name: "b.proc", scripts: []string{"build.sh"}}, {name: "c.proc"}, {name: "d.proc", custom: true}}},
	}
}

// d01Outside: a build script that is not in the workspace is refused.
func d01Outside(c *core.Ctx, b *emit.B) {
	for _, out := range []string{emit.DeployDir, "build/docker"} {
		for _, p := range []string{"../build.sh", "../sibling/build.sh", "a_proc/../../build.sh", "/etc/build.sh"} {
			if p[0] != '/' {
				p = out + "/" + p
			}
			d, _ := deployPlugged(b, out, false, false, []plugged{{name: "a.proc"}}, p)
			c.Count("outside", 1)
			switch {
			case d.Unk != "":
				c.Fail("undecided", "a workspace", token.NoPos, "what is emitted could not be determined: %s", d.Unk)
			case d.Failed == "":
				c.Fail("scripts", "a workspace in "+out, token.NoPos, "the build script %s, which is outside of the workspace, is accepted", p)
			}
		}
	}
}

// d01Nodes: a container asks every process in it for what that process can provide, once.
func d01Nodes(c *core.Ctx, b *emit.B) {
	type kind struct{ artifacts, instance bool }
	kinds := []kind{{true, true}, {true, false}, {false, true}, {false, false}}
	for _, order := range [][]int{{0, 1, 2, 3}, {3, 2, 1, 0}, {2, 0}, {1, 2, 2, 0, 0}} {
		for _, compose := range []bool{false, true} {
			for _, fail := range []string{"", "artifacts", "instance"} {
				var log []string
				d := b.Evaluate(false, func(m *peval.Machine) peval.Value {
					var ns []peval.Iface
					for i, k := range order {
						note := func(what string) func(t *emit.CtrTarget) peval.Value {
							return func(t *emit.CtrTarget) peval.Value {
								log = append(log, fmt.Sprint(what, " ", i))
								if fail == what && i == len(order)/2 {
									return peval.MkErr("broken")
								}
								return nil
							}
						}
						var a, in func(t *emit.CtrTarget) peval.Value
						if kinds[k].artifacts {
							a = note("artifacts")
						}
						if kinds[k].instance {
							in = note("instance")
						}
						ns = append(ns, b.Process(fmt.Sprintf("p%d.proc", i), a, in))
					}
					n := b.AsNode("plugins/linuxcontainer", "Container", b.Fn("plugins/linuxcontainer", "newLinuxContainerNode", "the.ctr"))
					emit.Put(n, "Nodes", emit.Nodes(ns...))
					if compose {
						return b.Artifacts(b.Node("plugins/dockercompose", "Deployment", map[string]peval.Value{"DeploymentName": "my_app", "Nodes": emit.Nodes(n)}))(m)
					}
					return b.Artifacts(n)(m)
				})
				where := fmt.Sprintf("a container with processes of the kinds %v", order)
				if d.Unk != "" {
					c.Fail("undecided", where, token.NoPos, "what a container asks its processes could not be determined: %s", d.Unk)
					return
				}
				c.Count("asked", 1)
				k := kinds[order[len(order)/2]]
				broken := fail == "artifacts" && k.artifacts || fail == "instance" && k.instance
				if broken {
					if d.Failed == "" {
						c.Fail("image", where, token.NoPos, "the container is generated although the %s of a process cannot be", fail)
					}
					continue
				}
				if d.Failed != "" {
					c.Fail("image", where, token.NoPos, "the generators fail: %s", d.Failed)
					continue
				}
				n := map[string]int{}
				for _, l := range log {
					n[l]++
				}
				for i, k := range order {
					for what, has := range map[string]bool{"artifacts": kinds[k].artifacts, "instance": kinds[k].instance} {
						want := 0
						if has {
							want = 1
						}
						if got := n[fmt.Sprint(what, " ", i)]; got != want {
							c.Fail("image", where, token.NoPos, "a process is asked for its %s %d times instead of %d", what, got, want)
						}
					}
				}
			}
		}
	}
}

func deployPlugged(b *emit.B, out string, docker, rev bool, ps []plugged, extra string) (d *emit.Deployed, dirs []string) {
	d = b.Evaluate(rev, func(m *peval.Machine) peval.Value {
		fn := "NewBasicWorkspace"
		if docker {
			fn = "NewDockerWorkspace"
		}
		v := b.Fn("plugins/linuxcontainer", fn, "the.ctr", out)
		t := b.C.P.SSAPk[core.Mod+"plugins/linuxcontainer"].Func(fn).Signature.Results().At(0).Type()
		call := func(name string, args ...peval.Value) peval.Value {
			r, ok := m.Method(t, v, name, args...)
			if !ok {
				panic(peval.Undecided{Msg: "the workspace has no method " + name})
			}
			return r
		}
		for _, p := range ps {
			r, ok := call("CreateProcessDir", p.name).(peval.Tuple)
			if !ok || len(r) != 2 {
				panic(peval.Undecided{Msg: "CreateProcessDir"})
			}
			if r[1] != nil {
				return r[1]
			}
			dir := peval.Str(r[0])
			dirs = append(dirs, dir)
			m.Files[dir+"/file.txt"] = &peval.File{Data: "x"}
			m.Files[dir+"/main.go"] = &peval.File{Data: "package main\n"}
			for _, s := range p.scripts {
				m.Files[dir+"/"+s] = &peval.File{Data: "#!/bin/bash\ntrue\n"}
				if err := call("AddBuildScript", dir+"/"+s); err != nil {
					return err
				}
			}
			if p.custom && docker {
				clean := path.Base(dir)
				call("AddDockerfileCommands", clean, "FROM golang:1.22 AS "+clean+"\nCOPY ./"+clean+" /src\nWORKDIR /src\nRUN mkdir /"+clean+"\nRUN go build -o /"+clean+"/bin ./\n")
			}
		}
		for _, p := range ps {
			fn := "function run() {\ncd " + cleanOf(p.name) + "\n./bin --started &\n" + envOf(p.name) + "=$!\nreturn $?\n}"
			if err := call("DeclareRunCommand", p.name, fn, peval.Slice{}); err != nil {
				return err
			}
		}
		if extra != "" {
			if err := call("AddBuildScript", extra); err != nil {
				return err
			}
		}
		return call("Finish")
	})
	if out != emit.DeployDir {
		d.Files = under(d.Files, out)
	}
	return
}

var (
	cleanOf = func(n string) string {
		return strings.TrimLeft(strings.NewReplacer(".", "_", "-", "_").Replace(n), "0123456789")
	}
	envOf = func(n string) string { return strings.ToUpper(cleanOf(n)) }
)

// d01Scripts: the build script runs what processes provide, and the image holds every process.
func d01Scripts(c *core.Ctx, b *emit.B) {
	scens := pluggedScens()
	for _, sc := range scens {
		nm, ps := sc.name, sc.ps
		for _, docker := range []bool{false, true} {
			for i, rev := range []bool{false, true} {
				// relative to the working directory, too
				out := []string{emit.DeployDir, "build/docker"}[i]
				where := map[bool]string{false: "a workspace", true: "a workspace for an image"}[docker] + " with " + nm
				bad := func(rule, f string, a ...any) { c.Fail(rule, where, token.NoPos, f, a...) }
				d, dirs := deployPlugged(b, out, docker, rev, ps, "")
				switch {
				case d.Unk != "":
					bad("undecided", "what is emitted could not be determined: %s", d.Unk)
					continue
				case d.Failed != "":
					bad("scripts", "the workspace fails: %s", d.Failed)
					continue
				}
				c.Count("workspaces", 1)
				for i, p := range ps {
					if want := path.Join(out, cleanName(b, p.name)); dirs[i] != want {
						bad("scripts", "%s is given the directory %s instead of %s", p.name, dirs[i], want)
					}
				}
				sh := runScript(d.Files["build.sh"], "/", nil)
				if sh.Bad != "" || d.Files["build.sh"] == "" {
					bad("undecided", "what the build script does could not be determined: %s", sh.Bad)
					continue
				}
				ran := map[string]int{}
				may := map[string]bool{}
				for _, cmd := range sh.Cmds {
					p := path.Join(cmd.Dir, cmd.Argv[0])
					switch {
					case cmd.Argv[0] == "chmod":
						for _, a := range cmd.Argv[1:] {
							may[path.Join(cmd.Dir, a)] = true
						}
					case strings.HasPrefix(cmd.Argv[0], "./") && len(cmd.Argv) == 1:
						if path.Dir(p) != cmd.Dir {
							bad("scripts", "the build script %s does not run in its own directory", p)
						}
						if !may[p] {
							bad("scripts", "the build script %s is run before it is made executable", p)
						}
						if ran[p]++; ran[p] == 2 {
							bad("scripts", "the build script %s runs twice", p)
						}
					default:
						bad("scripts", "the build script runs %s in %s", strings.Join(cmd.Argv, " "), cmd.Dir)
					}
				}
				want := map[string]bool{}
				for _, p := range ps {
					for _, s := range p.scripts {
						c.Count("build scripts", 1)
						w := "/" + path.Join(cleanName(b, p.name), s)
						want[w] = true
						if ran[w] == 0 {
							bad("scripts", "the build script of %s, %s, is not run", p.name, s)
						}
					}
				}
				for p := range ran {
					if !want[p] {
						bad("scripts", "the build script runs %s, which no process provides", p)
					}
				}
				run := d.Files["run.sh"]
				root := "/"
				if docker {
					im := buildImage(d.Files["Dockerfile"], d.Files, bad)
					if im == nil {
						bad("image", "there is no Dockerfile")
						continue
					}
					for _, p := range ps {
						clean := cleanName(b, p.name)
						if p.custom {
							if im.bins["/"+clean+"/bin"] != clean {
								bad("image", "the image does not hold what the Dockerfile commands of %s build", p.name)
							}
							continue
						}
						if im.files["/"+clean+"/file.txt"] != clean+"/file.txt" {
							bad("image", "the image does not hold the files of %s", p.name)
						}
						for _, s := range p.scripts {
							if im.files["/"+path.Join(clean, s)] == "" {
								bad("image", "the image does not hold the build script %s of %s", s, p.name)
							}
						}
					}
					if k := len(im.entry); k == 0 || im.files[im.abs(im.entry[k-1])] != "run.sh" {
						bad("image", "the image does not run the run script")
					}
					if !im.ran["build.sh"] {
						bad("image", "the image is built without running the build script")
					}
					root = im.work
				}
				sh = runScript(run, root, nil)
				if sh.Bad != "" {
					bad("undecided", "what the run script does could not be determined: %s", sh.Bad)
					continue
				}
				n := map[string]int{}
				for _, cmd := range sh.Cmds {
					if len(cmd.Argv) == 2 && cmd.Argv[0] == "./bin" {
						n[strings.TrimPrefix(cmd.Dir, "/")]++
					}
				}
				for _, p := range ps {
					if k := n[cleanName(b, p.name)]; k != 1 {
						bad("start", "the run function of %s runs %d times", p.name, k)
					}
				}
			}
		}
	}
}
