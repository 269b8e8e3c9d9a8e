package load

import (
	_ "embed"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

// Rules name some of what is not exported. If such a thing has been given another name, it is given the one
// it is known by before the rules look: names says which there are, with what tells them apart.
//
//go:embed names.txt
var names string

type decl struct {
	key, shape string // package, kind, container; what it looks like apart from names
	name       string
	obj        types.Object
	pos        token.Pos
}

var word = regexp.MustCompile(`[\pL_][\pL\pN_]*`)

// local lists what the packages declare without exporting it. container names are as canon says.
func locals(p *Program, kind string, canon map[types.Object]string) (out []decl) {
	called := func(o types.Object) string {
		if n, ok := canon[o]; ok {
			return n
		}
		return o.Name()
	}
	for _, pk := range p.Pkgs {
		if pk.Name == "main" {
			continue
		}
		shape := func(t types.Type) string {
			s := types.TypeString(t, func(q *types.Package) string {
				if q == pk.Types {
					return ""
				}
				return q.Path()
			})
			return word.ReplaceAllStringFunc(s, func(w string) string {
				if o := pk.Types.Scope().Lookup(w); o != nil && !o.Exported() {
					return called(o)
				}
				return w
			})
		}
		add := func(container string, o types.Object, shape string) {
			if o.Name() == "_" || o.Exported() || o.Name() == "init" {
				return
			}
			out = append(out, decl{pk.PkgPath + "\t" + kind + "\t" + container, shape, o.Name(), o, o.Pos()})
		}
		sc := pk.Types.Scope()
		for _, n := range sc.Names() {
			o := sc.Lookup(n)
			switch o := o.(type) {
			case *types.TypeName:
				if kind == "type" {
					k := fmt.Sprintf("%T", o.Type().Underlying())
					if nt, ok := o.Type().(*types.Named); ok {
						k += fmt.Sprint(nt.TypeParams().Len())
						var ms []string
						for i := 0; i < nt.NumMethods(); i++ {
							if m := nt.Method(i); m.Exported() {
								ms = append(ms, m.Name())
							}
						}
						sort.Strings(ms)
						k += strings.Join(ms, ",")
					}
					switch u := o.Type().Underlying().(type) {
					case *types.Struct:
						for i := 0; i < u.NumFields(); i++ {
							if f := u.Field(i); f.Exported() {
								k += "," + f.Name()
							}
						}
					case *types.Interface:
						for i := 0; i < u.NumMethods(); i++ {
							if f := u.Method(i); f.Exported() {
								k += "," + f.Name()
							}
						}
					}
					add("", o, k)
				}
				nt, ok := o.Type().(*types.Named)
				if !ok || o.IsAlias() {
					continue
				}
				if kind == "method" {
					for i := 0; i < nt.NumMethods(); i++ {
						add(called(o), nt.Method(i), shape(nt.Method(i).Type()))
					}
				}
				if u, ok := nt.Underlying().(*types.Interface); ok && kind == "method" {
					for i := 0; i < u.NumExplicitMethods(); i++ {
						add(called(o), u.ExplicitMethod(i), shape(u.ExplicitMethod(i).Type()))
					}
				}
				if u, ok := nt.Underlying().(*types.Struct); ok && kind == "field" {
					for i := 0; i < u.NumFields(); i++ {
						if !u.Field(i).Embedded() {
							add(called(o), u.Field(i), shape(u.Field(i).Type()))
						}
					}
				}
			case *types.Func:
				if kind == "func" {
					add("", o, shape(o.Type()))
				}
			case *types.Var, *types.Const:
				if kind == "var" {
					add("", o, fmt.Sprintf("%T ", o)+shape(o.Type()))
				}
			}
		}
	}
	sort.SliceStable(out, func(i, j int) bool {
		a, b := out[i], out[j]
		if a.key != b.key {
			return a.key < b.key
		}
		return less(p.Fset.Position(a.pos), p.Fset.Position(b.pos))
	})
	return
}

func less(a, b token.Position) bool {
	if a.Filename != b.Filename {
		return a.Filename < b.Filename
	}
	return a.Offset < b.Offset
}

var kinds = []string{"type", "method", "field", "func", "var"}

// Names writes down what there is.
func Names(p *Program) string {
	var b strings.Builder
	for _, k := range kinds {
		for _, d := range locals(p, k, nil) {
			fmt.Fprintf(&b, "%s\t%s\t%s\n", d.key, d.name, d.shape)
		}
	}
	return b.String()
}

// renamed finds what has another name than it is known by.
func renamed(p *Program) map[types.Object]string {
	type known struct{ name, shape string }
	had := map[string][]known{}
	for _, l := range strings.Split(names, "\n") {
		f := strings.Split(l, "\t")
		if len(f) == 5 {
			k := strings.Join(f[:3], "\t")
			had[k] = append(had[k], known{f[3], f[4]})
		}
	}
	canon := map[types.Object]string{}
	for _, kind := range kinds {
		now := map[string][]decl{}
		var keys []string
		for _, d := range locals(p, kind, canon) {
			if now[d.key] == nil {
				keys = append(keys, d.key)
			}
			now[d.key] = append(now[d.key], d)
		}
		for _, k := range keys {
			is := map[string]bool{}
			for _, d := range now[k] {
				is[d.name] = true
			}
			was := map[string]bool{}
			for _, d := range had[k] {
				was[d.name] = true
			}
			used := map[types.Object]bool{}
			for _, h := range had[k] {
				if is[h.name] {
					continue
				}
				for _, d := range now[k] {
					if !was[d.name] && !used[d.obj] && d.shape == h.shape {
						used[d.obj] = true
						canon[d.obj] = h.name
						break
					}
				}
			}
		}
	}
	return canon
}

// rewrite gives the files in which something has to be called by the name it is known by.
func rewrite(p *Program, canon map[types.Object]string) map[string][]byte {
	// methods of interfaces and of what implements them go together
	out := map[string][]byte{}
	for _, pk := range p.Pkgs {
		for i, f := range pk.Syntax {
			type edit struct {
				at, end int
				to      string
			}
			var es []edit
			ast.Inspect(f, func(n ast.Node) bool {
				id, ok := n.(*ast.Ident)
				if !ok {
					return true
				}
				o := pk.TypesInfo.Defs[id]
				if o == nil {
					o = pk.TypesInfo.Uses[id]
				}
				switch x := o.(type) {
				case *types.Func:
					o = x.Origin()
				case *types.Var:
					o = x.Origin()
					if x.Embedded() {
						t := x.Type()
						if q, ok := t.(*types.Pointer); ok {
							t = q.Elem()
						}
						if nt, ok := t.(*types.Named); ok && nt.Obj().Name() == id.Name {
							o = nt.Origin().Obj()
						}
					}
				}
				if o == nil {
					return true
				}
				if to, ok := canon[o]; ok {
					q := p.Fset.PositionFor(id.Pos(), false)
					es = append(es, edit{q.Offset, q.Offset + len(id.Name), to})
				}
				return true
			})
			if len(es) == 0 || i >= len(pk.CompiledGoFiles) {
				continue
			}
			name := p.Fset.PositionFor(f.Pos(), false).Filename
			src, err := os.ReadFile(name)
			if err != nil {
				continue
			}
			sort.Slice(es, func(a, b int) bool { return es[a].at < es[b].at })
			var b []byte
			at := 0
			for _, e := range es {
				if e.at < at {
					continue
				}
				b = append(append(b, src[at:e.at]...), e.to...)
				at = e.end
			}
			out[filepath.Clean(name)] = append(b, src[at:]...)
		}
	}
	return out
}

var _ packages.LoadMode
