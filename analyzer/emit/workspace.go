package emit

import (
	"path"
	"sort"
	"strings"

	"golang.org/x/mod/modfile"
	"golang.org/x/tools/go/ssa"

	"verif/analyzer/core"
	. "verif/analyzer/peval"
)

// Mod is a module that the compiler can find.
type Mod struct {
	Path, Version, Dir string
	Local              bool
	How                string // how a local module is one: main, replaced, or as the go.mod is where the source is
}

func (md *Mod) short() string { return path.Base(md.Path) }

// Ran is a command that was run.
type Ran struct {
	Dir  string
	Args []string
}

// modfiles models what is outside of the compiler: the syntax of go.mod files, which is that of the
// library that reads them; copying of directories; and commands, which are recorded.
func (b *B) modfiles(m *Machine) {
	b.Ran = nil
	files := map[*Value]*modfile.File{}
	syn := func(v Value) *modfile.File {
		if r, ok := v.(*Ref); ok && r != nil && files[r.P] != nil {
			return files[r.P]
		}
		panic(Undecided{Msg: "unknown go.mod file"})
	}
	ext := map[string]func(m *Machine, fn *ssa.Function, a []Value) Value{}
	parse := func(m *Machine, fn *ssa.Function, a []Value) Value {
		f, err := modfile.Parse("go.mod", []byte(m.Bytes(a[1])), nil)
		if err != nil {
			return Tuple{nil, MkErr(err.Error())}
		}
		p := m.Prog.ImportedPackage("golang.org/x/mod/modfile")
		v := m.Prog.ImportedPackage("golang.org/x/mod/module")
		if p == nil || v == nil {
			panic(Undecided{Msg: "go.mod file"})
		}
		mod := Zero(p.Type("Module").Type()).(*Struct)
		ver := Zero(v.Type("Version").Type()).(*Struct)
		if f.Module != nil {
			ver.Set("Path", f.Module.Mod.Path)
			ver.Set("Version", f.Module.Mod.Version)
		}
		mod.Set("Mod", ver)
		s := Zero(p.Type("File").Type()).(*Struct)
		if f.Module != nil {
			s.Set("Module", NewRef(mod))
		}
		r := NewRef(s)
		files[r.P] = f
		return Tuple{r, nil}
	}
	fail := func(err error) Value {
		if err == nil {
			return nil
		}
		return MkErr(err.Error())
	}
	ext["golang.org/x/mod/modfile.Parse"] = parse
	ext["golang.org/x/mod/modfile.ParseLax"] = parse
	ext["golang.org/x/mod/modfile.ParseWork"] = func(m *Machine, fn *ssa.Function, a []Value) Value {
		if _, err := modfile.ParseWork("go.work", []byte(m.Bytes(a[1])), nil); err != nil {
			return Tuple{nil, MkErr(err.Error())}
		}
		return Tuple{&Opaque{Why: "go.work"}, nil}
	}
	ext["(*golang.org/x/mod/modfile.File).AddReplace"] = func(m *Machine, fn *ssa.Function, a []Value) Value {
		return fail(syn(a[0]).AddReplace(Str(a[1]), Str(a[2]), Str(a[3]), Str(a[4])))
	}
	ext["(*golang.org/x/mod/modfile.File).DropReplace"] = func(m *Machine, fn *ssa.Function, a []Value) Value {
		return fail(syn(a[0]).DropReplace(Str(a[1]), Str(a[2])))
	}
	ext["(*golang.org/x/mod/modfile.File).AddRequire"] = func(m *Machine, fn *ssa.Function, a []Value) Value {
		return fail(syn(a[0]).AddRequire(Str(a[1]), Str(a[2])))
	}
	ext["(*golang.org/x/mod/modfile.File).AddNewRequire"] = func(m *Machine, fn *ssa.Function, a []Value) Value {
		ind, _ := a[3].(bool)
		syn(a[0]).AddNewRequire(Str(a[1]), Str(a[2]), ind)
		return nil
	}
	ext["(*golang.org/x/mod/modfile.File).Cleanup"] = func(m *Machine, fn *ssa.Function, a []Value) Value { syn(a[0]).Cleanup(); return nil }
	ext["(*golang.org/x/mod/modfile.File).SortBlocks"] = func(m *Machine, fn *ssa.Function, a []Value) Value { syn(a[0]).SortBlocks(); return nil }
	ext["(*golang.org/x/mod/modfile.File).Format"] = func(m *Machine, fn *ssa.Function, a []Value) Value {
		data, err := syn(a[0]).Format()
		if err != nil {
			return Tuple{nil, MkErr(err.Error())}
		}
		return Tuple{m.FromString(string(data)), nil}
	}
	ext["github.com/otiai10/copy.Copy"] = func(m *Machine, fn *ssa.Function, a []Value) Value {
		src, dst := path.Clean(Str(a[0])), path.Clean(Str(a[1]))
		var ks []string
		for k := range m.Files {
			if strings.HasPrefix(k, src+"/") {
				ks = append(ks, k)
			}
		}
		if len(ks) == 0 {
			return MkErr("nothing at " + src)
		}
		sort.Strings(ks)
		for _, k := range ks {
			f := *m.Files[k]
			m.Files[dst+strings.TrimPrefix(k, src)] = &f
		}
		return nil
	}
	ext["os/exec.Command"] = func(m *Machine, fn *ssa.Function, a []Value) Value {
		p := m.Prog.ImportedPackage("os/exec")
		if p == nil {
			panic(Undecided{Msg: "os/exec"})
		}
		s := Zero(p.Type("Cmd").Type()).(*Struct)
		s.Set("Path", a[0])
		as := Slice{a[0]}
		if v, ok := a[1].(Slice); ok {
			as = append(as, v...)
		}
		s.Set("Args", as)
		return NewRef(s)
	}
	run := func(m *Machine, fn *ssa.Function, a []Value) Value {
		s := Obj(a[0])
		r := Ran{Dir: Str(s.Field("Dir"))}
		if v, ok := s.Field("Args").(Slice); ok {
			for _, x := range v {
				r.Args = append(r.Args, Str(x))
			}
		}
		b.Ran = append(b.Ran, r)
		if b.RunFails {
			return MkErr("exit status 1")
		}
		return nil
	}
	ext["(*os/exec.Cmd).Run"] = run
	for k, f := range ext {
		f := f
		m.Hooks[k] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) { return f(m, fn, a), true }
	}
}

// Modules has the machine know the given modules, and lets the compiler itself see to it that the
// modules of its nodes end up in what it generates.
func (b *B) Modules(mods []*Mod) {
	m := b.M
	for _, k := range []string{"plugins/golang.AddModule", "plugins/golang.AddToModule", "plugins/golang.AddToWorkspace",
		"(*plugins/workflow/workflowspec.Service).AddToModule", "(*plugins/workflow/workflowspec.Service).AddToWorkspace"} {
		delete(m.Hooks, k)
	}
	m.Hooks["plugins/golang/goparser.FindPackageModule"] = func(m *Machine, fn *ssa.Function, a []Value) (Value, bool) {
		name := Str(a[0])
		var best *Mod
		for _, x := range mods {
			if (name == x.Path || strings.HasPrefix(name, x.Path+"/")) && (best == nil || len(x.Path) > len(best.Path)) {
				best = x
			}
		}
		if best == nil {
			return Tuple{nil, MkErr("no valid module found for " + name)}, true
		}
		return Tuple{b.Ptr(parser_, "ModuleInfo", map[string]Value{"ShortName": best.short(), "Path": best.Path, "Version": best.Version, "Dir": best.Dir, "IsLocal": best.Local}), nil}, true
	}
	for _, x := range mods {
		if x.Dir != "" {
			m.Files[x.Dir+"/go.mod"] = &File{Data: "module " + x.Path + "\n\ngo 1.25\n"}
			m.Files[x.Dir+"/"+x.short()+".go"] = &File{Data: "package " + x.short() + "\n"}
		}
	}
}

// ParsedModule describes a module the way the parser does.
func (b *B) ParsedModule(md *Mod) Value {
	return b.Ptr(parser_, "ParsedModule", map[string]Value{"ShortName": md.short(), "Name": md.Path, "Version": md.Version, "SrcDir": md.Dir, "IsLocal": md.Local})
}

var _ = core.Mod

// ParsedIn is a parsed file of a package of a module.
func (b *B) ParsedIn(md *Mod) Value {
	pp := b.Ptr(parser_, "ParsedPackage", map[string]Value{"Name": md.Path, "ShortName": md.short(), "Module": b.ParsedModule(md)})
	return b.Ptr(parser_, "ParsedFile", map[string]Value{"Package": pp})
}

// Generates is a node that generates its own artifacts.
func (b *B) Generates(name string, f func(dir string) Value) Iface {
	ms := map[string]func(*Machine, []Value) Value{"Name": ret(name), "String": ret(name),
		"GenerateArtifacts": func(m *Machine, a []Value) Value { return f(Str(a[len(a)-1])) }}
	return Iface{V: &Stub{Name: name, Methods: ms, Is: isIface(ms)}}
}
