package main

import (
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

// renames gives every unexported thing that is picked another name.
func renames(pick func(f *file, o types.Object) bool) func(f *file, n ast.Node) (string, bool) {
	return func(f *file, n ast.Node) (string, bool) {
		id, ok := n.(*ast.Ident)
		if !ok || id.Name == "_" || token.IsExported(id.Name) {
			return "", false
		}
		o := f.info.Defs[id]
		if o == nil {
			o = f.info.Uses[id]
		}
		if o == nil || o.Pkg() == nil || !strings.Contains(o.Pkg().Path(), "blueprint-uservices/blueprint") && !strings.Contains(o.Pkg().Path(), "/blueprint/") {
			return "", false
		}
		if v, ok := o.(*types.Var); ok && v.Embedded() {
			t := v.Type()
			if p, ok := t.(*types.Pointer); ok {
				t = p.Elem()
			}
			if n, ok := t.(*types.Named); ok && n.Obj().Name() == id.Name {
				o = n.Obj()
			}
		}
		if !pick(f, o) {
			return "", false
		}
		return id.Name + "Rf", true
	}
}

func global(o types.Object) bool { return o.Parent() == o.Pkg().Scope() }

func init() {
	variants["renamefn"] = renames(func(f *file, o types.Object) bool {
		fn, ok := o.(*types.Func)
		return ok && fn.Name() != "main" && fn.Name() != "init"
	})
	variants["renamety"] = renames(func(f *file, o types.Object) bool {
		_, ok := o.(*types.TypeName)
		return ok && global(o)
	})
	variants["renamefld"] = renames(func(f *file, o types.Object) bool {
		v, ok := o.(*types.Var)
		return ok && v.IsField() && !v.Embedded()
	})
	variants["renamevar"] = renames(func(f *file, o types.Object) bool {
		switch o.(type) {
		case *types.Var, *types.Const:
			return global(o)
		}
		return false
	})
}
