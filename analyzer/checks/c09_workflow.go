package checks

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"path"
	"sort"
	"strings"

	"verif/analyzer/core"
	"verif/analyzer/emit"
	"verif/analyzer/peval"
)

func init() {
	register(&Check{
		ID: "C09",
		Rules: "What the compiler reads from workflow code is evaluated for a family of schematic modules, in both orders of map iteration, and compared with what Go's own type checker says about the same source: " +
			"reads: every struct, interface and function is there, with the names, parameters, results and fields of the types that Go gives them, whichever file or package they come from; " +
			"calls: the operations of a service are the methods of its interface without context and error; " +
			"service: an interface or struct is a service exactly if Go says that its methods take a context first and return an error last, that there is a constructor that generated code can call, and that one implements the other; what is chosen fits together, and is the same in both orders; " +
			"types: two types are equal for the compiler only if they are the same type, and always if they are written alike; " +
			"limits: code that the compiler cannot represent is refused or read as it is, and never read as something else; modules: a package, struct or interface is found in the module it belongs to, sets that are derived from others know what those know, modules of one name are refused, and the modules of a service are required or copied as what they are.",
		Run:       runC09,
		NotDecide: "Source that is not in the family; build constraints and vendoring; which of several services of one interface is chosen.",
	})
}

// flowCase is a set of modules, and what is to be looked at in it.
type flowCase struct {
	what  string
	files map[string]string
	mods  []*emit.Mod
	limit bool     // it may be refused
	ask   []string // services to ask for: package.Name
}

// goSide is what Go says about the packages of a case.
type goSide struct {
	pkgs  map[string]*types.Package
	err   map[string]error
	b     *emit.B
	src   map[string][]*ast.File
	fset  *token.FileSet
	tests string // what tests declare
}

func (g *goSide) Import(p string) (*types.Package, error) {
	if fs := g.src[p]; fs != nil {
		if pk := g.pkgs[p]; pk != nil {
			return pk, nil
		}
		conf := types.Config{Importer: g, Error: func(error) {}}
		pk, err := conf.Check(p, g.fset, fs, nil)
		if err != nil {
			return nil, fmt.Errorf("%s: %v", p, err)
		}
		g.pkgs[p] = pk
		return pk, nil
	}
	return g.b.Import(p)
}

func goSideOf(b *emit.B, fc *flowCase) (*goSide, error) {
	g := &goSide{pkgs: map[string]*types.Package{}, b: b, src: map[string][]*ast.File{}, fset: token.NewFileSet()}
	var fs []string
	for f := range fc.files {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	for _, f := range fs {
		if strings.HasSuffix(f, "_test.go") {
			g.tests += fc.files[f]
			continue
		}
		af, err := parser.ParseFile(g.fset, f, fc.files[f], parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		p := fc.pkgOf(f)
		g.src[p] = append(g.src[p], af)
	}
	for p := range g.src {
		if _, err := g.Import(p); err != nil {
			return nil, err
		}
	}
	return g, nil
}

func (fc *flowCase) pkgOf(file string) string {
	var md *emit.Mod
	for _, m := range fc.mods {
		if strings.HasPrefix(file, m.Dir+"/") && (md == nil || len(m.Dir) > len(md.Dir)) {
			md = m
		}
	}
	return md.Path + strings.TrimPrefix(path.Dir(file), md.Dir)
}

// goName spells a type the way the compiler should understand it.
func goName(t types.Type) string {
	switch t := t.(type) {
	case *types.Alias:
		if t.Obj().Pkg() == nil {
			return t.Obj().Name()
		}
		return t.Obj().Pkg().Path() + "." + t.Obj().Name()
	case *types.Basic:
		return t.Name()
	case *types.Named:
		n := t.Obj().Name()
		if t.Obj().Pkg() != nil {
			n = t.Obj().Pkg().Path() + "." + n
		}
		if t.TypeArgs().Len() > 0 {
			var as []string
			for i := 0; i < t.TypeArgs().Len(); i++ {
				as = append(as, goName(t.TypeArgs().At(i)))
			}
			n += "[" + strings.Join(as, ",") + "]"
		}
		return n
	case *types.Pointer:
		return "*" + goName(t.Elem())
	case *types.Slice:
		return "[]" + goName(t.Elem())
	case *types.Array:
		return fmt.Sprintf("[%d]%s", t.Len(), goName(t.Elem()))
	case *types.Map:
		return "map[" + goName(t.Key()) + "]" + goName(t.Elem())
	case *types.Chan:
		return map[types.ChanDir]string{types.SendRecv: "chan ", types.SendOnly: "chan<- ", types.RecvOnly: "<-chan "}[t.Dir()] + goName(t.Elem())
	case *types.TypeParam:
		return t.Obj().Name()
	case *types.Interface:
		if t.Empty() && t.NumEmbeddeds() == 0 {
			return "interface"
		}
	}
	return types.TypeString(t, nil)
}

// reading compares a type with the compiler's reading of it: 1 right, 0 only its kind, -1 wrong.
func reading(want, got string) int {
	norm := strings.NewReplacer("interface{}", "any")
	w, g := norm.Replace(want), norm.Replace(got)
	w, g = strings.ReplaceAll(w, "interface", "any"), strings.ReplaceAll(g, "interface", "any")
	if w == g {
		return 1
	}
	return -1
}

type param struct {
	name, typ string
	t         types.Type
}

func (p param) String() string { return strings.TrimSpace(p.name + " " + p.typ) }

type signat struct{ params, results []param }

func goSignature(s *types.Signature) signat {
	var r signat
	list := func(t *types.Tuple, variadic bool) []param {
		var out []param
		for i := 0; i < t.Len(); i++ {
			v := t.At(i)
			n := goName(v.Type())
			if variadic && i == t.Len()-1 {
				n = "..." + goName(v.Type().(*types.Slice).Elem())
			}
			nm := v.Name()
			out = append(out, param{nm, n, v.Type()})
		}
		return out
	}
	r.params, r.results = list(s.Params(), s.Variadic()), list(s.Results(), false)
	return r
}

func readVars(v peval.Value) []param {
	var out []param
	sl, _ := v.(peval.Slice)
	for _, x := range sl {
		s, _ := x.(*peval.Struct)
		if s == nil {
			out = append(out, param{"?", "?", nil})
			continue
		}
		out = append(out, param{peval.Str(s.Field("Name")), emit.TypeName(s.Field("Type")), nil})
	}
	return out
}

func readFunc(v peval.Value) (name string, s signat) {
	o := peval.Obj(v)
	if o == nil {
		o, _ = v.(*peval.Struct)
	}
	if o == nil {
		return "?", s
	}
	if in, ok := o.Field("Func").(*peval.Struct); ok {
		o = in
	}
	return peval.Str(o.Field("Name")), signat{readVars(o.Field("Arguments")), readVars(o.Field("Returns"))}
}

// sameParams compares parameters by type, and by name where they have one.
func sameParams(want, got []param, names, limit bool) string {
	if len(want) != len(got) {
		return fmt.Sprintf("%d and not %d", len(got), len(want))
	}
	seen := map[string]bool{}
	for i, w := range want {
		if reading(w.typ, got[i].typ) != 1 && !(limit && kindOnly(w.t, got[i].typ)) {
			return fmt.Sprintf("number %d has the type %s and not %s", i+1, got[i].typ, w.typ)
		}
		if !names {
			continue
		}
		if w.name != "" && w.name != "_" && w.name != got[i].name {
			return fmt.Sprintf("number %d is called %s and not %s", i+1, got[i].name, w.name)
		}
		if n := got[i].name; n == "" || n == "_" || seen[n] {
			return fmt.Sprintf("number %d has no name of its own: %q", i+1, n)
		}
		seen[got[i].name] = true
	}
	return ""
}

func sameSignature(want, got signat, limit bool) string {
	if s := sameParams(want.params, got.params, true, limit); s != "" {
		return "parameters: " + s
	}
	if s := sameParams(want.results, got.results, false, limit); s != "" {
		return "results: " + s
	}
	return ""
}

func runC09(c *core.Ctx) {
	b := emit.New(c)
	for _, fc := range flowCases() {
		c09Case(c, b, fc)
	}
	c09Types(c, b)
	c09Modules(c, b)
	c.Floor("types", 2000)
	c.Floor("modules", 20)
	c.Floor("reads", 150)
	c.Floor("calls", 10)
	c.Floor("service", 30)
	c.Floor("limits", 15)
}

func c09Case(c *core.Ctx, b *emit.B, fc *flowCase) {
	g, err := goSideOf(b, fc)
	if err != nil {
		c.Fail("undecided", fc.what, token.NoPos, "the schematic source is not Go: %v", err)
		return
	}
	chosen := map[string]string{}
	for _, rev := range []bool{false, true} {
		c09Reads(c, b, fc, g, rev)
		for _, a := range fc.ask {
			got := c09Service(c, b, fc, g, rev, a)
			if old, ok := chosen[a]; ok && old != got {
				c.Fail("service", fc.what+" "+a, token.NoPos, "depending on the order of a map it is %s or %s", old, got)
			}
			chosen[a] = got
		}
	}
}

const c09parser = "plugins/golang/goparser"

// c09Reads compares everything that is read.
func c09Reads(c *core.Ctx, b *emit.B, fc *flowCase, g *goSide, rev bool) {
	rule := "reads"
	if fc.limit {
		rule = "limits"
	}
	var bads []string
	bad := func(f string, a ...any) { bads = append(bads, fmt.Sprintf(f, a...)) }
	n := 0
	d := b.Evaluate(rev, func(m *peval.Machine) peval.Value {
		b.Workflow(fc.files, fc.mods)
		set := b.Fn(c09parser, "New", nil)
		sv := b.AsNode(c09parser, "ParsedModuleSet", set)
		var ps []string
		for p := range g.pkgs {
			ps = append(ps, p)
		}
		sort.Strings(ps)
		for _, p := range ps {
			r, ok := m.Method(sv.T, sv.V, "GetPackage", p)
			if !ok {
				panic(peval.Undecided{Msg: "a module set has no GetPackage"})
			}
			t := r.(peval.Tuple)
			if t[1] != nil {
				return t[1]
			}
			pk := peval.Obj(t[0])
			if pk == nil {
				bad("package %s is nothing", p)
				continue
			}
			if got := peval.Str(pk.Field("Name")); got != p {
				bad("package %s is called %s", p, got)
			}
			if md := peval.Obj(pk.Field("Module")); md == nil || !strings.HasPrefix(p+"/", peval.Str(md.Field("Name"))+"/") || !strings.HasPrefix(p, peval.Str(md.Field("Name"))) {
				bad("package %s belongs to another module", p)
			} else {
				for _, x := range fc.mods {
					if x.Path != peval.Str(md.Field("Name")) {
						continue
					}
					if md.Field("SrcDir") != x.Dir || md.Field("ShortName") != path.Base(x.Path) {
						bad("module %s is in %v and called %v", x.Path, md.Field("SrcDir"), md.Field("ShortName"))
					}
					if md.Field("IsLocal") != x.Local || md.Field("Version") != x.Version {
						bad("module %s: local %v, version %v", x.Path, md.Field("IsLocal"), md.Field("Version"))
					}
				}
			}
			n += c09Package(fc, g, p, pk, bad)
		}
		return nil
	})
	what := fc.what
	if d.Unk != "" {
		c.Fail("undecided", what, token.NoPos, "what is read could not be determined: %s", d.Unk)
		return
	}
	if d.Failed != "" {
		if !fc.limit || strings.HasPrefix(d.Failed, "panics") {
			c.Fail(rule, what, token.NoPos, "it cannot be read: %s", d.Failed)
		} else {
			c.Ok(rule, what)
		}
		return
	}
	for i := 0; i < n || i == 0; i++ {
		c.Ok(rule, what)
	}
	for _, x := range bads {
		c.Fail(rule, what, token.NoPos, "%s", x)
	}
}

func mapOf(v peval.Value) map[string]peval.Value {
	out := map[string]peval.Value{}
	m, _ := v.(*peval.Map)
	if m == nil {
		return out
	}
	for _, k := range m.Keys() {
		x, _ := m.Get(k)
		out[peval.Str(k)] = x
	}
	return out
}

func c09Package(fc *flowCase, g *goSide, p string, pk *peval.Struct, bad func(f string, a ...any)) int {
	n := 0
	gp := g.pkgs[p]
	ifaces, structs, funcs := mapOf(pk.Field("Interfaces")), mapOf(pk.Field("Structs")), mapOf(pk.Field("Funcs"))
	file := func(what string, v peval.Value) {
		o := peval.Obj(v)
		if o == nil {
			bad("%s is nothing", what)
			return
		}
		f := peval.Obj(o.Field("File"))
		if f == nil || peval.Obj(f.Field("Package")) != pk && peval.Obj(f.Field("Package")).Field("Name") != pk.Field("Name") {
			bad("%s is said to be in another package", what)
		}
	}
	sc := gp.Scope()
	for _, name := range sc.Names() {
		at := gp.Path() + "." + name
		switch o := sc.Lookup(name).(type) {
		case *types.Func:
			n++
			f, ok := funcs[name]
			if !ok {
				if !fc.limit {
					bad("function %s is not found", at)
				}
				continue
			}
			file("function "+at, f)
			nm, s := readFunc(f)
			if nm != name {
				bad("function %s is called %s", at, nm)
			}
			if why := sameSignature(goSignature(o.Type().(*types.Signature)), s, fc.limit); why != "" {
				bad("function %s: %s", at, why)
			}
		case *types.TypeName:
			if o.IsAlias() {
				continue
			}
			nt, _ := o.Type().(*types.Named)
			if nt == nil {
				continue
			}
			switch u := nt.Underlying().(type) {
			case *types.Interface:
				n++
				f, ok := ifaces[name]
				if !ok {
					if !fc.limit {
						bad("interface %s is not found", at)
					}
					continue
				}
				file("interface "+at, f)
				ms := mapOf(peval.Obj(f).Field("Methods"))
				if peval.Obj(f).Field("Name") != name {
					bad("interface %s is called %v", at, peval.Obj(f).Field("Name"))
				}
				for i := 0; i < u.NumMethods(); i++ {
					n++
					c09Method("interface "+at, u.Method(i), ms, bad, fc)
				}
				if len(ms) > u.NumMethods() {
					bad("interface %s is said to have %d methods, and has %d", at, len(ms), u.NumMethods())
				}
			case *types.Struct:
				n++
				f, ok := structs[name]
				if !ok {
					if !fc.limit {
						bad("struct %s is not found", at)
					}
					continue
				}
				file("struct "+at, f)
				so := peval.Obj(f)
				if so.Field("Name") != name {
					bad("struct %s is called %v", at, so.Field("Name"))
				}
				ms := mapOf(so.Field("Methods"))
				for i := 0; i < nt.NumMethods(); i++ {
					n++
					c09Method("struct "+at, nt.Method(i), ms, bad, fc)
				}
				if len(ms) > nt.NumMethods() {
					bad("struct %s is said to have %d methods, and has %d", at, len(ms), nt.NumMethods())
				}
				n += c09Fields(at, u, so, fc, bad)
			}
		}
	}
	vars := mapOf(pk.Field("Vars"))
	for _, af := range g.src[p] {
		for _, d := range af.Decls {
			gd, _ := d.(*ast.GenDecl)
			if gd == nil || gd.Tok != token.VAR {
				continue
			}
			for _, sp := range gd.Specs {
				vs := sp.(*ast.ValueSpec)
				if len(vs.Names) > 1 || vs.Names[0].Name == "_" {
					continue
				}
				n++
				name := vs.Names[0].Name
				v := peval.Obj(vars[name])
				if v == nil {
					bad("variable %s.%s is not found", p, name)
					continue
				}
				file("variable "+p+"."+name, vars[name])
				if v.Field("Name") != name {
					bad("variable %s.%s is called %v", p, name, v.Field("Name"))
				}
				if a := peval.Obj(v.Field("Ast")); a == nil {
					bad("variable %s.%s is without its declaration", p, name)
				} else if vals, _ := a.Field("Values").(peval.Slice); len(vals) != len(vs.Values) {
					bad("variable %s.%s has the declaration of another", p, name)
				}
			}
		}
	}
	for name := range funcs {
		if _, ok := sc.Lookup(name).(*types.Func); !ok && name != "init" && name != "_" && !strings.Contains(g.tests, name) {
			bad("there is no function %s.%s that a program can use", gp.Path(), name)
		}
	}
	for name := range ifaces {
		if sc.Lookup(name) == nil && !strings.Contains(g.tests, name) {
			bad("there is no interface %s.%s that a program can use", gp.Path(), name)
		}
	}
	for name := range structs {
		if sc.Lookup(name) == nil && !strings.Contains(g.tests, name) {
			bad("there is no struct %s.%s that a program can use", gp.Path(), name)
		}
	}
	return n
}

func c09Method(what string, m *types.Func, ms map[string]peval.Value, bad func(f string, a ...any), fc *flowCase) {
	v, ok := ms[m.Name()]
	if !ok {
		if !fc.limit {
			bad("%s: method %s is not found", what, m.Name())
		}
		return
	}
	nm, s := readFunc(v)
	if nm != m.Name() {
		bad("%s: method %s is called %s", what, m.Name(), nm)
	}
	if why := sameSignature(goSignature(m.Type().(*types.Signature)), s, fc.limit); why != "" {
		bad("%s: method %s: %s", what, m.Name(), why)
	}
}

func c09Fields(at string, u *types.Struct, so *peval.Struct, fc *flowCase, bad func(f string, a ...any)) int {
	list, _ := so.Field("FieldsList").(peval.Slice)
	named := mapOf(so.Field("Fields"))
	read := func(v peval.Value) (string, string) {
		o := peval.Obj(v)
		if o == nil {
			return "?", "?"
		}
		if in, ok := o.Field("Variable").(*peval.Struct); ok {
			o = in
		}
		return peval.Str(o.Field("Name")), emit.TypeName(o.Field("Type"))
	}
	if len(list) != u.NumFields() {
		bad("struct %s is said to have %d fields, and has %d", at, len(list), u.NumFields())
		return 1
	}
	var embedded []peval.Value
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		nm, tn := read(list[i])
		if o := peval.Obj(list[i]); o == nil || o.Field("Position") != int64(i) {
			bad("struct %s: field %d is said to be at another place", at, i)
		}
		if f.Embedded() {
			embedded = append(embedded, list[i])
		}
		if f.Embedded() {
			if nm != "" && nm != f.Name() {
				bad("struct %s: the embedded field %s is called %s", at, f.Name(), nm)
			}
		} else {
			if nm != f.Name() {
				bad("struct %s: field %d is called %s and not %s", at, i, nm, f.Name())
			}
			if f.Name() == "_" {
				continue
			}
			n2, t2 := read(named[f.Name()])
			if n2 != nm || t2 != tn {
				bad("struct %s: there is no field under the name %s", at, f.Name())
			}
		}
		if reading(goName(f.Type()), tn) != 1 && (!kindOnly(f.Type(), tn) || !fc.limit && strings.Contains(tn, "nothing")) {
			bad("struct %s: field %s has the type %s and not %s", at, f.Name(), tn, goName(f.Type()))
		}
	}
	anon, _ := so.Field("AnonymousFields").(peval.Slice)
	if p := so.Field("PromotedField"); peval.Obj(p) != nil {
		anon = append(peval.Slice{p}, anon...)
	}
	if len(anon) != len(embedded) {
		bad("struct %s: %d fields are embedded, and %d are said to be", at, len(embedded), len(anon))
	} else {
		for i := range anon {
			if peval.Obj(anon[i]) != peval.Obj(embedded[i]) {
				bad("struct %s: another field is said to be embedded", at)
			}
		}
	}
	return u.NumFields()
}

// kindOnly: of functions, literal structs and interfaces and instances of generic types, only the kind is read.
func kindOnly(t types.Type, got string) bool {
	if strings.Contains(got, "nothing") { // it is known that it is not understood, and equals nothing
		return true
	}
	switch t := t.(type) {
	case *types.Signature:
		return got == "func"
	case *types.Struct:
		return got == "struct"
	case *types.Interface:
		return got == "interface"
	case *types.Named:
		return t.TypeArgs().Len() > 0 && strings.HasSuffix(got, "[...]")
	case *types.Pointer:
		return strings.HasPrefix(got, "*") && kindOnly(t.Elem(), got[1:])
	case *types.Slice:
		return strings.HasPrefix(got, "[]") && kindOnly(t.Elem(), got[2:])
	}
	return false
}

func isContext(t types.Type) bool { return goName(t) == "context.Context" }

// callable: a function that generated code can call to make something: it takes a context and returns it and an error.
func callable(f *types.Func) (types.Type, bool) {
	s := f.Type().(*types.Signature)
	if s.TypeParams().Len() > 0 || !f.Exported() || f.Pkg().Name() == "main" {
		return nil, false
	}
	if s.Params().Len() == 0 || !isContext(s.Params().At(0).Type()) || s.Variadic() && s.Params().Len() == 1 {
		return nil, false
	}
	if s.Results().Len() != 2 || !core.IsError(s.Results().At(1).Type()) {
		return nil, false
	}
	return s.Results().At(0).Type(), true
}

func validService(n *types.Named) bool {
	it, ok := n.Underlying().(*types.Interface)
	if !ok || n.TypeParams().Len() > 0 {
		return false
	}
	for i := 0; i < it.NumMethods(); i++ {
		s := it.Method(i).Type().(*types.Signature)
		if s.Params().Len() == 0 || !isContext(s.Params().At(0).Type()) || s.Results().Len() == 0 || !core.IsError(s.Results().At(s.Results().Len()-1).Type()) {
			return false
		}
		if s.Variadic() && s.Params().Len() == 1 {
			return false
		}
	}
	return true
}

// c09Service asks for a service and says what was chosen.
func c09Service(c *core.Ctx, b *emit.B, fc *flowCase, g *goSide, rev bool, ask string) string {
	i := strings.LastIndex(ask, ".")
	pkg, name := ask[:i], ask[i+1:]
	what := fc.what + " " + ask
	rule := "service"
	// what Go says
	var nt *types.Named
	if gp := g.pkgs[pkg]; gp != nil {
		if tn, ok := gp.Scope().Lookup(name).(*types.TypeName); ok {
			nt, _ = tn.Type().(*types.Named)
		}
	}
	mod := func(p string) string { // only the module of what is asked for is read for sure
		best := ""
		for _, m := range fc.mods {
			if (p == m.Path || strings.HasPrefix(p, m.Path+"/")) && len(m.Path) > len(best) {
				best = m.Path
			}
		}
		return best
	}
	home := mod(pkg)
	var ctors []string
	var others []*types.Named // structs for an interface, interfaces for a struct
	isIface := nt != nil && types.IsInterface(nt)
	ok := nt != nil
	if ok {
		want := types.Type(nt)
		if !isIface {
			want = types.NewPointer(nt)
		}
		for p, gp := range g.pkgs {
			if mod(p) != home {
				continue
			}
			for _, nm := range gp.Scope().Names() {
				switch o := gp.Scope().Lookup(nm).(type) {
				case *types.Func:
					if t, good := callable(o); good && types.Identical(t, want) {
						ctors = append(ctors, p+"."+nm)
					}
				case *types.TypeName:
					n, _ := o.Type().(*types.Named)
					if n == nil || o.IsAlias() {
						continue
					}
					if it, isI := n.Underlying().(*types.Interface); isI && !isIface {
						if validService(n) && types.Implements(want, it) {
							others = append(others, n)
						}
					} else if isIface {
						if it := nt.Underlying().(*types.Interface); types.Implements(types.NewPointer(n), it) && !types.IsInterface(n) {
							others = append(others, n)
						}
					}
				}
			}
		}
		ok = len(ctors) > 0 && len(others) > 0 && (!isIface || validService(nt))
	}
	var bads []string
	bad := func(f string, a ...any) { bads = append(bads, fmt.Sprintf(f, a...)) }
	got := ""
	d := b.Evaluate(rev, func(m *peval.Machine) peval.Value {
		b.Workflow(fc.files, fc.mods)
		t := b.Fn("plugins/workflow/workflowspec", "GetServiceByName", pkg, name).(peval.Tuple)
		if t[1] != nil {
			got = "refused"
			return nil
		}
		s := peval.Obj(t[0])
		if s == nil {
			bad("there is neither a service nor an error")
			return nil
		}
		id := func(v peval.Value) (string, *peval.Struct) {
			o := peval.Obj(v)
			if o == nil {
				return "nothing", nil
			}
			nm := o.Field("Name")
			if in, ok := o.Field("Func").(*peval.Struct); ok {
				nm = in.Field("Name")
			}
			f := peval.Obj(o.Field("File"))
			if f == nil || peval.Obj(f.Field("Package")) == nil {
				return "?." + peval.Str(nm), o
			}
			return peval.Str(peval.Obj(f.Field("Package")).Field("Name")) + "." + peval.Str(nm), o
		}
		in, iv := id(s.Field("Iface"))
		cn, _ := id(s.Field("Constructor"))
		sn, _ := id(s.Field("Struct"))
		got = in + " made by " + cn + ", a " + sn
		if !ok {
			bad("Go says that it is no service, and it is taken for one: %s", got)
			return nil
		}
		has := func(ns []*types.Named, x string) bool {
			for _, n := range ns {
				if n.Obj().Pkg().Path()+"."+n.Obj().Name() == x {
					return true
				}
			}
			return false
		}
		if !contains(ctors, cn) {
			bad("%s is no constructor of it", cn)
		}
		var it *types.Named
		if isIface {
			it = nt
			if in != ask {
				bad("its interface is said to be %s", in)
			}
			if !has(others, sn) {
				bad("%s does not implement it", sn)
			}
		} else {
			if sn != ask {
				bad("its struct is said to be %s", sn)
			}
			if !has(others, in) {
				bad("it does not implement %s, or that is no service", in)
			}
			for _, n := range others {
				if n.Obj().Pkg().Path()+"."+n.Obj().Name() == in {
					it = n
				}
			}
		}
		// the operations
		if it == nil || iv == nil {
			return nil
		}
		ii := b.AsNode(c09parser, "ParsedInterface", s.Field("Iface"))
		r, found := m.Method(ii.T, ii.V, "ServiceInterface", nil)
		if !found {
			panic(peval.Undecided{Msg: "an interface has no ServiceInterface"})
		}
		si := peval.Obj(r)
		if ut, _ := si.Field("UserType").(*peval.Struct); ut == nil || peval.Str(ut.Field("Package"))+"."+peval.Str(ut.Field("Name")) != in {
			bad("the service's interface has another name")
		}
		ms := mapOf(si.Field("Methods"))
		u := it.Underlying().(*types.Interface)
		if len(ms) != u.NumMethods() {
			bad("the service has %d operations and not %d", len(ms), u.NumMethods())
		}
		for i := 0; i < u.NumMethods(); i++ {
			f := u.Method(i)
			w := goSignature(f.Type().(*types.Signature))
			w.params, w.results = w.params[1:], w.results[:len(w.results)-1]
			v, there := ms[f.Name()]
			if !there {
				bad("the service lacks %s", f.Name())
				continue
			}
			nm, sg := readFunc(v)
			if nm != f.Name() {
				bad("operation %s is called %s", f.Name(), nm)
			}
			if why := sameSignature(w, sg, fc.limit); why != "" {
				bad("operation %s: %s", f.Name(), why)
			}
			c.Ok("calls", what+" "+f.Name())
		}
		return nil
	})
	switch {
	case d.Unk != "":
		c.Fail("undecided", what, token.NoPos, "what is chosen could not be determined: %s", d.Unk)
		return "?"
	case d.Failed != "":
		c.Fail(rule, what, token.NoPos, "asking for it ends with: %s", d.Failed)
	case got == "refused" && ok && !fc.limit:
		c.Fail(rule, what, token.NoPos, "it is a service, and is refused")
	}
	if fc.limit {
		c.Ok("limits", what)
	} else {
		c.Ok(rule, what)
	}
	for _, x := range bads {
		c.Fail(rule, what, token.NoPos, "%s", x)
	}
	return got
}
