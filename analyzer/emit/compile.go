package emit

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"path"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/core"
)

// Module is a type-checked emitted module with its SSA form.
type Module struct {
	Fset  *token.FileSet
	Pkgs  map[string]*types.Package
	Files map[string][]*ast.File
	Infos map[string]*types.Info
	Prog  *ssa.Program
	SSA   map[string]*ssa.Package
	Errs  []string          // type errors in emitted code
	IDL   []string          // errors in emitted interface descriptions
	Stub  map[string]bool   // packages written down for an interface compiler
	Src   map[string]string // source by file
}

type modImporter struct {
	b    *B
	mod  *Module
	srcs map[string]map[string]string
	busy map[string]bool
}

func (mi *modImporter) Import(p string) (*types.Package, error) {
	if pkg := mi.b.SamplePkgs[p]; pkg != nil {
		return pkg, nil
	}
	if p == ModName || strings.HasPrefix(p, ModName+"/") {
		return mi.check(p)
	}
	return mi.b.Import(p)
}

func (mi *modImporter) check(p string) (*types.Package, error) {
	if t, ok := mi.mod.Pkgs[p]; ok {
		return t, nil
	}
	if mi.busy[p] {
		return nil, fmt.Errorf("import cycle through %s", p)
	}
	mi.busy[p] = true
	defer delete(mi.busy, p)
	fs, ok := mi.srcs[p]
	if !ok {
		return nil, fmt.Errorf("no package %s is emitted", p)
	}
	var names []string
	for n := range fs {
		names = append(names, n)
	}
	sort.Strings(names)
	var files []*ast.File
	for _, n := range names {
		f, err := parser.ParseFile(mi.mod.Fset, n, fs[n], parser.ParseComments)
		if err != nil {
			mi.mod.Errs = append(mi.mod.Errs, err.Error())
			if f == nil {
				continue
			}
		}
		files = append(files, f)
	}
	info := newInfo()
	conf := types.Config{Importer: mi, Error: func(err error) {
		mi.mod.Errs = append(mi.mod.Errs, err.Error())
	}}
	pkg, _ := conf.Check(p, mi.mod.Fset, files, info)
	mi.mod.Pkgs[p] = pkg
	mi.mod.Files[p] = files
	mi.mod.Infos[p] = info
	return pkg, nil
}

// Compile type-checks the emitted module and builds its SSA form when it has no errors.
func (b *B) Compile(e *Emission) *Module {
	mod := &Module{Fset: b.C.P.Fset, Pkgs: map[string]*types.Package{}, Files: map[string][]*ast.File{}, Infos: map[string]*types.Info{}, SSA: map[string]*ssa.Package{}, Stub: map[string]bool{}, Src: e.Files}
	mi := &modImporter{b: b, mod: mod, srcs: map[string]map[string]string{}, busy: map[string]bool{}}
	add := func(dir, name, src string) {
		p := ModName
		if dir != "." {
			p = ModName + "/" + dir
		}
		if mi.srcs[p] == nil {
			mi.srcs[p] = map[string]string{}
		}
		mi.srcs[p][e.Name()+":"+path.Join(dir, name)] = src
	}
	for _, f := range e.Order {
		dir, name := path.Dir(f), path.Base(f)
		switch path.Ext(f) {
		case ".go":
			add(dir, name, e.Files[f])
		case ".proto":
			src, errs := protoStub(path.Base(dir), e.Files[f])
			mod.IDL = append(mod.IDL, errs...)
			add(dir, name+".pb.go", src)
		case ".thrift":
			sub := strings.ToLower(strings.TrimSuffix(name, ".thrift"))
			src, errs := thriftStub(sub, e.Files[f])
			mod.IDL = append(mod.IDL, errs...)
			add(path.Join(dir, sub), name+".gen.go", src)
			mod.Stub[ModName+"/"+path.Join(dir, sub)] = true
		}
	}
	var ps []string
	for p := range mi.srcs {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for _, p := range ps {
		mi.check(p)
	}
	sort.Strings(mod.Errs)
	if len(mod.Errs) > 0 {
		return mod
	}
	prog := ssa.NewProgram(mod.Fset, ssa.InstantiateGenerics)
	seen := map[*types.Package]bool{}
	var dep func(p *types.Package)
	dep = func(p *types.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		for _, q := range p.Imports() {
			dep(q)
		}
		for path, q := range mod.Pkgs {
			if q == p {
				mod.SSA[path] = prog.CreatePackage(p, mod.Files[path], mod.Infos[path], true)
				return
			}
		}
		prog.CreatePackage(p, nil, nil, true)
	}
	for _, p := range ps {
		dep(mod.Pkgs[p])
	}
	prog.Build()
	mod.Prog = prog
	return mod
}

var _ = core.Mod
