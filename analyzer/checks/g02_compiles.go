package checks

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/core"
	"verif/analyzer/emit"
)

// shaped is what the generators emit for one further service interface.
type shaped struct {
	Shape emit.Shape
	B     *emit.B
	Es    []*emitted
}

func shapes(c *core.Ctx) []*shaped {
	return core.Memo(c, "shapes", func() []*shaped {
		var out []*shaped
		for _, sh := range emit.Shapes() {
			b := emit.New(c)
			b.Use(sh)
			s := &shaped{Shape: sh, B: b}
			for _, e := range b.EmitAll() {
				x := &emitted{E: e}
				if len(e.Files) > 0 {
					x.M = b.Compile(e)
					if x.M.Prog != nil {
						instantiate(x)
					}
				}
				s.Es = append(s.Es, x)
			}
			out = append(out, s)
		}
		return out
	})
}

func init() {
	register(&Check{
		ID:    "G02",
		Rules: "Every node type that emits Go code is evaluated on the schematic service and on further service interfaces that vary parameter and result types, packages, names and arity. For each, either the generator reports an error or the emitted files parse and type-check, emitted interface descriptions are valid, the emitted instantiation code yields an instance, and the instance implements the interface the node declares to the nodes that use it.",
		Run: func(c *core.Ctx) {
			g := generated(c)
			all := []*shaped{{B: g.B, Shape: emit.Shape{Label: "schematic service"}, Es: g.Es}}
			all = append(all, shapes(c)...)
			for _, s := range all {
				sub := c
				if s.Shape.Group != "" {
					sub = c.Fork(c.Prop)
				}
				for _, x := range s.Es {
					compiles(sub, s.B, s.Shape.Label, x)
				}
				if sub != c {
					c.Count("emission", sub.Counts["emission"])
					bad := map[string]bool{}
					for _, r := range sub.Reports {
						if r.Rule == "undecided" || r.Rule == "instantiates" || r.Rule == "declared" {
							c.Fail(r.Rule, r.Construct, token.NoPos, "%s", r.Msg)
							continue
						}
						bad[r.Construct] = true
					}
					if len(bad) > 0 {
						var ns []string
						for n := range bad {
							ns = append(ns, strings.TrimSuffix(n, " for "+s.Shape.Label))
						}
						sort.Strings(ns)
						c.Fail("compiles", s.Shape.Group, token.NoPos, "for a service with %s, the code of these generators does not type-check: %s", s.Shape.Label, strings.Join(ns, ", "))
					}
				}
			}
			argNames(c)
			c.Floor("argument", 2)
			c.Floor("emission", 100)
			c.Floor("declared interface", 20)
		}})
}

// compiles: a generator either refuses the service or emits code that type-checks, whose
// instantiation succeeds, and whose instance has the interface the node declares to others.
func compiles(c *core.Ctx, b *emit.B, label string, x *emitted) {
	n := x.E.Name() + " for " + label
	c.Count("emission", 1)
	switch {
	case x.E.Unk != "":
		c.Fail("undecided", n, token.NoPos, "what the generator emits could not be determined: %s", x.E.Unk)
		return
	case x.E.Failed != "":
		c.Ok("refused", n+": "+trunc(x.E.Failed))
		if label == "schematic service" {
			c.Fail("refused", n, token.NoPos, "the generator refuses an ordinary service: %s", x.E.Failed)
		}
		return
	case x.M == nil:
		c.Fail("nothing", n, token.NoPos, "nothing is emitted and no error reported")
		return
	}
	for _, e := range x.M.IDL {
		c.Fail("idl", n, token.NoPos, "the emitted interface description is invalid: %s", e)
	}
	if len(x.M.Errs) > 0 {
		c.Fail("compiles", n, token.NoPos, "the emitted code does not type-check: %s", trunc(strings.Join(x.M.Errs, "; ")))
		return
	}
	if x.Inst == nil {
		c.Fail("instantiates", n, token.NoPos, "the emitted instantiation code yields no instance: %s", x.BadPath)
		return
	}
	d := x.E.Decl
	if d == nil {
		return
	}
	pkg := x.M.Pkgs[d.Pkg]
	if pkg == nil {
		pkg = b.SamplePkgs[d.Pkg]
	}
	if pkg == nil {
		c.Count("declared elsewhere", 1)
		return
	}
	tn, ok := pkg.Scope().Lookup(d.Name).(*types.TypeName)
	if !ok {
		c.Fail("declared", n, token.NoPos, "the interface %s.%s the node declares is not emitted", d.Pkg, d.Name)
		return
	}
	it, ok := tn.Type().Underlying().(*types.Interface)
	if !ok {
		return
	}
	c.Count("declared interface", 1)
	if !types.Implements(x.InstT, it) {
		c.Fail("implements", n, token.NoPos, "the instance of type %s is not usable as the interface %s.%s the node declares", x.InstT, d.Pkg, d.Name)
	}
	have := map[string]bool{}
	for i := 0; i < it.NumMethods(); i++ {
		have[it.Method(i).Name()] = true
	}
	for m := range d.Methods {
		if !have[m] {
			c.Fail("declared", n, token.NoPos, "the interface %s.%s lacks the method %s the node declares", d.Pkg, d.Name, m)
		}
	}
}

// argNames: generated code passes arguments on by name, so the parser must give each one a name.
func argNames(c *core.Ctx) {
	for _, fn := range c.Under("plugins/golang/goparser") {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(*ssa.Call)
				if !ok || len(call.Call.Args) != 2 {
					continue
				}
				if bi, ok := call.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "append" {
					continue
				}
				if !fieldLoad(call.Call.Args[0], "Arguments") {
					continue
				}
				sl, ok := call.Call.Args[1].(*ssa.Slice)
				if !ok {
					continue
				}
				arr, ok := sl.X.(*ssa.Alloc)
				if !ok {
					continue
				}
				for _, ref := range *arr.Referrers() {
					ia, ok := ref.(*ssa.IndexAddr)
					if !ok {
						continue
					}
					c.Count("argument", 1)
					named, whole := false, false
					for _, r := range *ia.Referrers() {
						switch r := r.(type) {
						case *ssa.FieldAddr:
							if fieldName(r) != "Name" {
								continue
							}
							for _, s := range *r.Referrers() {
								if st, ok := s.(*ssa.Store); ok && st.Addr == r {
									k, isConst := st.Val.(*ssa.Const)
									named = !isConst || k.Value != nil && k.Value.ExactString() != `""`
								}
							}
						case *ssa.Store:
							whole = r.Addr == ia
							if u, ok := r.Val.(*ssa.UnOp); ok && whole {
								named = namedVariable(u.X)
								if _, local := u.X.(*ssa.Alloc); !local {
									named = true
								}
							} else if whole {
								named = true
							}
						}
					}
					if !named {
						c.Fail("unnamed", core.Name(fn), call.Pos(), "an argument without a name is recorded without one; generated code cannot pass it on")
					}
				}
			}
		}
	}
}

func fieldName(fa *ssa.FieldAddr) string {
	st, ok := core.Deref(fa.X.Type()).Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	return st.Field(fa.Field).Name()
}

func fieldLoad(v ssa.Value, name string) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	return ok && fieldName(fa) == name
}

func namedVariable(v ssa.Value) bool {
	if v.Referrers() == nil {
		return true
	}
	for _, r := range *v.Referrers() {
		if fa, ok := r.(*ssa.FieldAddr); ok && fieldName(fa) == "Name" {
			for _, s := range *fa.Referrers() {
				if st, ok := s.(*ssa.Store); ok && st.Addr == fa {
					k, isConst := st.Val.(*ssa.Const)
					if !isConst || k.Value != nil && k.Value.ExactString() != `""` {
						return true
					}
				}
			}
		}
	}
	return false
}
