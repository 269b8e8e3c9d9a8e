package emit

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"path"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	. "verif/analyzer/peval"
)

// astOf describes syntax trees to the machine: every node becomes a value of the type of the same
// name in the program's go/ast.
type astOf struct {
	m    *Machine
	pk   map[string]*ssa.Package
	seen map[any]*Ref
}

func (a *astOf) named(t reflect.Type) types.Type {
	p := a.m.Prog.ImportedPackage(t.PkgPath())
	if p == nil || p.Type(t.Name()) == nil {
		panic(Undecided{Msg: "the program does not know " + t.String()})
	}
	return p.Type(t.Name()).Type()
}

func (a *astOf) val(v reflect.Value) Value {
	switch v.Kind() {
	case reflect.Bool:
		return v.Bool()
	case reflect.String:
		return v.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return v.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return int64(v.Uint())
	case reflect.Pointer:
		if v.IsNil() {
			return nil
		}
		if r := a.seen[v.Interface()]; r != nil {
			return r
		}
		switch v.Interface().(type) {
		case *ast.Object, *ast.Scope, *ast.CommentGroup:
			return nil
		}
		r := NewRef(Zero(a.named(v.Type().Elem())))
		a.seen[v.Interface()] = r
		s := (*r.P).(*Struct)
		for i := 0; i < v.Elem().NumField(); i++ {
			f := v.Elem().Type().Field(i)
			if !f.IsExported() {
				continue
			}
			switch f.Name {
			case "Unresolved", "Comments", "Scope", "Obj", "Doc":
				continue
			}
			s.Set(f.Name, a.val(v.Elem().Field(i)))
		}
		return r
	case reflect.Interface:
		if v.IsNil() {
			return nil
		}
		e := v.Elem()
		return Iface{T: types.NewPointer(a.named(e.Type().Elem())), V: a.val(e)}
	case reflect.Slice:
		if v.IsNil() {
			return nil
		}
		out := Slice{}
		for i := 0; i < v.Len(); i++ {
			out = append(out, a.val(v.Index(i)))
		}
		return out
	case reflect.Map:
		mp := NewMap()
		var ks []string
		for _, k := range v.MapKeys() {
			ks = append(ks, k.String())
		}
		sort.Strings(ks)
		for _, k := range ks {
			mp.Set(k, a.val(v.MapIndex(reflect.ValueOf(k))))
		}
		return mp
	}
	panic(Undecided{Msg: "syntax of kind " + v.Kind().String()})
}

// Workflow has the machine find the given source files, which are those of the given modules.
func (b *B) Workflow(files map[string]string, mods []*Mod) {
	m := b.M
	for _, k := range []string{"plugins/golang/goparser.FindPackageModule", "plugins/golang/goparser.GetModuleInfo", "plugins/golang/gocode.IsBuiltinPackage"} {
		delete(m.Hooks, k)
	}
	for k := range m.Hooks {
		if k == "plugins/golang.AddModule" || k == "plugins/golang.AddToModule" || k == "plugins/golang.AddToWorkspace" || strings.Contains(k, "goparser.") || strings.Contains(k, "workflowspec.") || strings.Contains(k, "gocode.") {
			delete(m.Hooks, k)
		}
	}
	for _, x := range mods {
		m.Files[x.Dir+"/go.mod"] = &File{Data: "module " + x.Path + "\n\ngo 1.25\n"}
	}
	dirs := map[string]bool{}
	for f, src := range files {
		m.Files[f] = &File{Data: src}
		for d := path.Dir(f); d != "/" && d != "."; d = path.Dir(d) {
			dirs[d] = true
		}
	}
	// look finds the directories that were made since.
	look := func() {
		for f := range m.Files {
			d := path.Dir(f)
			if strings.HasSuffix(f, "/") {
				d = path.Clean(f)
			}
			for ; d != "/" && d != "." && !dirs[d]; d = path.Dir(d) {
				dirs[d] = true
			}
		}
	}
	a := &astOf{m: m, seen: map[any]*Ref{}}
	hook := func(name string, f func(m *Machine, x []Value) Value) {
		m.Hooks[name] = func(m *Machine, fn *ssa.Function, x []Value) (Value, bool) { return f(m, x), true }
	}
	in := func(dir string) []string {
		var out []string
		for f := range m.Files {
			if path.Dir(f) == dir && !strings.HasSuffix(f, "/") {
				out = append(out, f)
			}
		}
		sort.Strings(out)
		return out
	}
	info := func(p string) Value {
		isDir := dirs[p]
		return Iface{V: &Stub{Name: "info", Methods: map[string]func(*Machine, []Value) Value{"IsDir": ret(isDir), "Name": ret(path.Base(p))}}}
	}
	var walk func(p string, f func(p string) Value) Value
	skip := func(v Value) bool { return v != nil && strings.Contains(m.Sprint(v), "SkipDir") }
	walk = func(p string, f func(p string) Value) Value {
		if r := f(p); r != nil {
			if skip(r) {
				return nil
			}
			return r
		}
		if !dirs[p] {
			return nil
		}
		var sub []string
		for d := range dirs {
			if path.Dir(d) == p {
				sub = append(sub, d)
			}
		}
		sub = append(sub, in(p)...)
		sort.Strings(sub)
		for _, s := range sub {
			if r := walk(s, f); r != nil {
				return r
			}
		}
		return nil
	}
	for _, name := range []string{"path/filepath.Walk", "path/filepath.WalkDir"} {
		hook(name, func(m *Machine, x []Value) Value {
			root := path.Clean(Str(x[0]))
			look()
			if !dirs[root] {
				return m.Call(x[1], []Value{root, nil, MkErr("no such directory")})
			}
			return walk(root, func(p string) Value { return m.Call(x[1], []Value{p, info(p), nil}) })
		})
	}
	parse := func(f string, mode parser.Mode) (*ast.File, error) {
		fl := m.Files[f]
		if fl == nil {
			return nil, fmt.Errorf("open %s: no such file", f)
		}
		return parser.ParseFile(token.NewFileSet(), f, fl.Data, mode)
	}
	hook("os.ReadDir", func(m *Machine, x []Value) Value {
		dir := path.Clean(Str(x[0]))
		look()
		if !dirs[dir] {
			return Tuple{nil, MkErr("no such directory")}
		}
		var names []string
		for d := range dirs {
			if path.Dir(d) == dir {
				names = append(names, d)
			}
		}
		names = append(names, in(dir)...)
		sort.Strings(names)
		out := Slice{}
		for _, n := range names {
			out = append(out, info(n))
		}
		return Tuple{out, nil}
	})
	hook("reflect.DeepEqual", func(m *Machine, x []Value) Value { return deepEqual(x[0], x[1], 0) })
	hook("go/parser.ParseDir", func(m *Machine, x []Value) Value {
		dir := path.Clean(Str(x[1]))
		pkgs := map[string]*ast.Package{}
		var first Value
		for _, f := range in(dir) {
			if !strings.HasSuffix(f, ".go") {
				continue
			}
			if x[2] != nil && m.Call(x[2], []Value{info(f)}) != true {
				continue
			}
			af, err := parse(f, parser.SkipObjectResolution)
			if err != nil {
				if first == nil {
					first = MkErr(err.Error())
				}
				continue
			}
			p := pkgs[af.Name.Name]
			if p == nil {
				p = &ast.Package{Name: af.Name.Name, Files: map[string]*ast.File{}}
				pkgs[af.Name.Name] = p
			}
			p.Files[f] = af
		}
		return Tuple{a.val(reflect.ValueOf(pkgs)), first}
	})
	hook("go/parser.ParseFile", func(m *Machine, x []Value) Value {
		af, err := parse(Str(x[1]), parser.SkipObjectResolution)
		if err != nil {
			return Tuple{nil, MkErr(err.Error())}
		}
		return Tuple{a.val(reflect.ValueOf(af)), nil}
	})
	hook("golang.org/x/tools/go/packages.Load", func(m *Machine, x []Value) Value {
		pp := m.Prog.ImportedPackage("golang.org/x/tools/go/packages")
		if pp == nil {
			panic(Undecided{Msg: "packages.Load"})
		}
		out := Slice{}
		add := func(id string, md *Mod) {
			s := Zero(pp.Type("Package").Type()).(*Struct)
			s.Set("ID", id)
			s.Set("PkgPath", id)
			s.Set("Name", path.Base(id))
			if md != nil {
				ms := Zero(pp.Type("Module").Type()).(*Struct)
				ms.Set("Path", md.Path)
				ms.Set("Version", md.Version)
				ms.Set("Dir", md.Dir)
				ms.Set("GoMod", md.Dir+"/go.mod")
				switch {
				case md.Local && md.How == "main":
					ms.Set("Main", true)
				case md.Local && md.How == "replaced":
					ms.Set("Replace", NewRef(Zero(pp.Type("Module").Type()).(*Struct)))
				case !md.Local:
					ms.Set("GoMod", "/cache/download/"+md.Path+"/@v/"+md.Version+".mod")
				}
				s.Set("Module", NewRef(ms))
			}
			out = append(out, NewRef(s))
		}
		var pats []Value
		if sl, ok := x[1].(Slice); ok {
			pats = sl
		}
		for _, pv := range pats {
			pat := Str(pv)
			if pat == "std" {
				for _, p := range []string{"context", "errors", "fmt", "strings", "sync", "time"} {
					add(p, nil)
				}
				continue
			}
			prefix, all := strings.CutSuffix(pat, "...")
			var ids []string
			own := map[string]*Mod{}
			for d := range dirs {
				var md *Mod
				for _, x := range mods {
					if (d == x.Dir || strings.HasPrefix(d, x.Dir+"/")) && (md == nil || len(x.Dir) > len(md.Dir)) {
						md = x
					}
				}
				has := false
				for _, f := range in(d) {
					has = has || strings.HasSuffix(f, ".go")
				}
				if md == nil || !has {
					continue
				}
				id := md.Path + strings.TrimPrefix(d, md.Dir)
				if id == pat || all && strings.HasPrefix(id, prefix) {
					ids = append(ids, id)
					own[id] = md
				}
			}
			sort.Strings(ids)
			for _, id := range ids {
				add(id, own[id])
			}
			if len(ids) == 0 && !all {
				add(pat, nil)
			}
		}
		return Tuple{out, nil}
	})
}

// TypeName spells a type the way the compiler understood it.
func TypeName(v Value) string {
	i, ok := v.(Iface)
	if !ok {
		if v == nil {
			return "nothing"
		}
		return "?"
	}
	s := Obj(i)
	if s == nil {
		return "nothing"
	}
	n, _ := types.Unalias(s.T).(*types.Named)
	if n == nil {
		return "?"
	}
	sub := func(f string) string { return TypeName(s.Field(f)) }
	switch n.Obj().Name() {
	case "BasicType":
		return Str(s.Field("Name"))
	case "UserType":
		return Str(s.Field("Package")) + "." + Str(s.Field("Name"))
	case "Pointer":
		return "*" + sub("PointerTo")
	case "Slice":
		return "[]" + sub("SliceOf")
	case "Map":
		return "map[" + sub("KeyType") + "]" + sub("ValueType")
	case "Ellipsis":
		return "..." + sub("EllipsisOf")
	case "Chan":
		return "chan " + sub("ChanOf")
	case "SendChan":
		return "chan<- " + sub("SendType")
	case "ReceiveChan":
		return "<-chan " + sub("ReceiveType")
	case "AnyType":
		return "any"
	case "InterfaceType":
		return "interface"
	case "FuncType":
		return "func"
	case "StructType":
		return "struct"
	case "GenericType":
		return sub("BaseType") + "[...]"
	case "GenericTypeParam":
		return Str(s.Field("ParamName"))
	}
	return "?" + n.Obj().Name()
}

// deepEqual is reflect.DeepEqual.
func deepEqual(a, b Value, depth int) bool {
	if depth > 50 {
		panic(Undecided{Msg: "comparing very deep values"})
	}
	switch x := a.(type) {
	case nil:
		return b == nil
	case Iface:
		y, ok := b.(Iface)
		return ok && types.Identical(x.T, y.T) && deepEqual(x.V, y.V, depth+1)
	case *Ref:
		y, ok := b.(*Ref)
		return ok && (x.P == y.P || deepEqual(*x.P, *y.P, depth+1))
	case *Struct:
		y, ok := b.(*Struct)
		if !ok || !types.Identical(x.T, y.T) {
			return false
		}
		st := x.T.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if !deepEqual(x.Field(st.Field(i).Name()), y.Field(st.Field(i).Name()), depth+1) {
				return false
			}
		}
		return true
	case Slice:
		y, ok := b.(Slice)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !deepEqual(x[i], y[i], depth+1) {
				return false
			}
		}
		return true
	case string, bool, int64:
		return a == b
	}
	panic(Undecided{Msg: fmt.Sprintf("comparing values like %T", a)})
}

// Generated is a builder of a module or of a workspace that records what is asked of it. What is
// visited already is said at the second time, as always.
func (b *B) Generated(kind string, fails bool, note func(string), workspace Value) Iface {
	seen := map[string]bool{}
	res := func(v ...Value) Value {
		if fails {
			v[len(v)-1] = MkErr("it cannot be added")
		}
		if len(v) == 1 {
			return v[0]
		}
		return Tuple(v)
	}
	st := &Stub{Name: "a " + kind, Is: func(t types.Type) bool {
		n, _ := types.Unalias(t).(*types.Named)
		return n != nil && n.Obj().Name() == kind
	}, Methods: map[string]func(*Machine, []Value) Value{
		"Visited": func(m *Machine, a []Value) Value {
			n := Str(a[0])
			old := seen[n]
			seen[n] = true
			return old
		},
		"ImplementsBuildContext": nilErr,
		"Workspace":              ret(workspace),
		"Require": func(m *Machine, a []Value) Value {
			note("requires " + Str(a[0]) + " " + Str(a[1]))
			return res(nil)
		},
		"AddLocalModule": func(m *Machine, a []Value) Value {
			note("copies " + Str(a[1]) + " to " + Str(a[0]))
			return res("/out/"+Str(a[0]), nil)
		},
	}}
	return Iface{V: st}
}
