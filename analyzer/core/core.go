// Package core holds what every rule shares: the loaded program, stable names for
// constructs, reports, and small queries over SSA.
package core

import (
	"fmt"
	"go/token"
	"go/types"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/load"
)

const Mod = "github.com/blueprint-uservices/blueprint/"

// Report is one violation: Rule+Construct identify it, independent of line numbers.
type Report struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	Where     string `json:"where"`
	Msg       string `json:"message"`
}

func (r Report) Key() string { return r.Rule + " @ " + r.Construct }

// Ctx is handed to every check.
type Ctx struct {
	P        *load.Program
	Prop     string
	Thorough bool
	Tmp      string

	Reports []Report
	Counts  map[string]int
	Samples map[string][]string
	Notes   []string

	funcs   []*ssa.Function
	memo    map[string]any
	callers map[*ssa.Function][]ssa.CallInstruction
}

func NewCtx(p *load.Program, prop string) *Ctx {
	return &Ctx{P: p, Prop: prop, Counts: map[string]int{}, Samples: map[string][]string{}, memo: map[string]any{}}
}

// Fork returns a context that shares the program and its caches but collects its own results.
func (c *Ctx) Fork(prop string) *Ctx {
	n := NewCtx(c.P, prop)
	n.Thorough = c.Thorough
	n.Tmp = c.Tmp
	n.funcs = c.Funcs()
	n.memo = c.memo
	n.callers = c.callers
	return n
}

// Memo caches expensive shared results.
func Memo[T any](c *Ctx, key string, f func() T) T {
	if v, ok := c.memo[key]; ok {
		return v.(T)
	}
	v := f()
	c.memo[key] = v
	return v
}

// Count records n more obligations examined under a rule.
func (c *Ctx) Count(rule string, n int) { c.Counts[rule] += n }

// Ok records one obligation examined, with a sample.
func (c *Ctx) Ok(rule, sample string) {
	c.Counts[rule]++
	if len(c.Samples[rule]) < 6 {
		c.Samples[rule] = append(c.Samples[rule], sample)
	}
}

func (c *Ctx) Fail(rule, construct string, pos token.Pos, format string, args ...any) {
	r := Report{Rule: rule, Construct: construct, Where: c.Pos(pos), Msg: fmt.Sprintf(format, args...)}
	for _, o := range c.Reports {
		if o.Key() == r.Key() && o.Where == r.Where {
			return
		}
	}
	c.Reports = append(c.Reports, r)
}

// Floor fails the check when a rule examined fewer instances than confirmed by reading.
func (c *Ctx) Floor(rule string, min int) {
	if c.Counts[rule] < min {
		c.Fail("floor", rule, token.NoPos, "rule %s matched %d instances, at least %d were confirmed by reading: an anchor of the rule is gone, so the property is undecided", rule, c.Counts[rule], min)
	}
}

func (c *Ctx) Pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	q := c.P.Fset.Position(p)
	rel, err := filepath.Rel(c.P.Root, q.Filename)
	if err != nil {
		rel = q.Filename
	}
	return fmt.Sprintf("%s:%d", rel, q.Line)
}

func Short(path string) string { return strings.TrimPrefix(path, Mod) }

// Name is the stable name of a function: enclosing package-level function for closures.
func Name(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	s := f.RelString(nil)
	return strings.ReplaceAll(s, Mod, "")
}

// Top returns the outermost enclosing function.
func Top(f *ssa.Function) *ssa.Function {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f
}

// Funcs lists every function of the workspace packages with a body, closures included.
func (c *Ctx) Funcs() []*ssa.Function {
	if c.funcs != nil {
		return c.funcs
	}
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil {
			return
		}
		seen[f] = true
		if f.Synthetic == "" || f.Synthetic == "package initializer" || strings.HasPrefix(f.Synthetic, "instance") {
			c.funcs = append(c.funcs, f)
		}
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, pk := range c.P.Pkgs {
		sp := c.P.SSAPk[pk.PkgPath]
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				if n, ok := m.Type().(*types.Named); ok {
					for i := 0; i < n.NumMethods(); i++ {
						if f := c.P.SSA.FuncValue(n.Method(i)); f != nil {
							add(f)
						}
					}
				}
			}
		}
	}
	sort.Slice(c.funcs, func(i, j int) bool {
		a, b := c.funcs[i], c.funcs[j]
		if a.Pos() != b.Pos() {
			return a.Pos() < b.Pos()
		}
		return a.String() < b.String()
	})
	return c.funcs
}

// Under selects functions whose package path (without the module prefix) starts with one of the prefixes.
func (c *Ctx) Under(prefixes ...string) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range c.Funcs() {
		if InPkg(f, prefixes...) {
			out = append(out, f)
		}
	}
	return out
}

func PkgOf(f *ssa.Function) string {
	f = Top(f)
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Pkg != nil {
		return Short(f.Pkg.Pkg.Path())
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return Short(f.Object().Pkg().Path())
	}
	return ""
}

func InPkg(f *ssa.Function, prefixes ...string) bool {
	p := PkgOf(f)
	for _, x := range prefixes {
		if p == x || strings.HasPrefix(p, strings.TrimSuffix(x, "/")+"/") {
			return true
		}
	}
	return false
}

// Func finds "pkg.Name" or "pkg.(*T).Name"/"pkg.T.Name" (module prefix omitted).
func (c *Ctx) Func(pkg, name string) *ssa.Function {
	sp := c.P.SSAPk[Mod+pkg]
	if sp == nil {
		return nil
	}
	if i := strings.Index(name, "."); i >= 0 {
		tn, mn := name[:i], name[i+1:]
		t := sp.Type(tn)
		if t == nil {
			return nil
		}
		n, ok := t.Type().(*types.Named)
		if !ok {
			return nil
		}
		for i := 0; i < n.NumMethods(); i++ {
			if n.Method(i).Name() == mn {
				return c.P.SSA.FuncValue(n.Method(i))
			}
		}
		return nil
	}
	return sp.Func(name)
}

// MustFunc finds a function or reports the missing anchor.
func (c *Ctx) MustFunc(pkg, name string) *ssa.Function {
	f := c.Func(pkg, name)
	if f == nil || f.Blocks == nil {
		c.Fail("anchor", pkg+"."+name, token.NoPos, "function %s.%s, which implements the guarantee, no longer exists: the property is undecided", pkg, name)
		return nil
	}
	return f
}

// Type finds a named type in a workspace package (or any loaded dependency).
func (c *Ctx) NamedType(pkg, name string) *types.Named {
	sp := c.P.SSAPk[Mod+pkg]
	if sp == nil {
		return nil
	}
	o := sp.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := types.Unalias(o.Type()).(*types.Named)
	return n
}

// WithClosures lists f and all functions nested in it.
func WithClosures(f *ssa.Function) []*ssa.Function {
	out := []*ssa.Function{f}
	for _, a := range f.AnonFuncs {
		out = append(out, WithClosures(a)...)
	}
	return out
}

// Calls lists the call instructions of f.
func Calls(f *ssa.Function) []ssa.CallInstruction {
	var out []ssa.CallInstruction
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if ci, ok := i.(ssa.CallInstruction); ok {
				out = append(out, ci)
			}
		}
	}
	return out
}

// CalleeName is the stable name of what a call resolves to: "pkg.F", "(*pkg.T).M", "(pkg.I).M" for
// interface calls, "builtin:x", or "" when dynamic. The module prefix is omitted.
func CalleeName(ci ssa.CallInstruction) string {
	cc := ci.Common()
	if cc.IsInvoke() {
		t := cc.Value.Type()
		if n, ok := types.Unalias(t).(*types.Named); ok {
			// name the interface that declares the method
			s := types.TypeString(n.Origin(), nil)
			return strings.ReplaceAll("("+s+")."+cc.Method.Name(), Mod, "")
		}
		if r := cc.Method.Type().(*types.Signature).Recv(); r != nil {
			return strings.ReplaceAll("("+types.TypeString(r.Type(), nil)+")."+cc.Method.Name(), Mod, "")
		}
		return "(?)." + cc.Method.Name()
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return "builtin:" + b.Name()
	}
	if f := cc.StaticCallee(); f != nil {
		if f.Parent() != nil {
			return "closure:" + Name(f)
		}
		if o := f.Origin(); o != nil {
			f = o
		}
		return strings.ReplaceAll(f.RelString(nil), Mod, "")
	}
	return ""
}

// MethodName is the bare name of the called function or method.
func MethodName(ci ssa.CallInstruction) string {
	cc := ci.Common()
	if cc.IsInvoke() {
		return cc.Method.Name()
	}
	if f := cc.StaticCallee(); f != nil {
		return f.Name()
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return b.Name()
	}
	return ""
}

var ErrorType = types.Universe.Lookup("error").Type()

func IsError(t types.Type) bool { return types.Identical(t, ErrorType) }

func IsContext(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "context" && n.Obj().Name() == "Context"
}

// ErrResult returns the error result of a call: its index (-1 none) and the SSA value holding it (nil if never extracted).
func ErrResult(ci ssa.CallInstruction) (int, ssa.Value) {
	sig := ci.Common().Signature()
	res := sig.Results()
	if res.Len() == 0 || !IsError(res.At(res.Len()-1).Type()) {
		return -1, nil
	}
	v, ok := ci.(*ssa.Call)
	if !ok {
		return res.Len() - 1, nil
	}
	if res.Len() == 1 {
		return 0, v
	}
	for _, r := range *v.Referrers() {
		if e, ok := r.(*ssa.Extract); ok && e.Index == res.Len()-1 {
			return e.Index, e
		}
	}
	return res.Len() - 1, nil
}

// Result returns the value of result i of a call (nil if never extracted).
func Result(v *ssa.Call, i int) ssa.Value {
	if v.Common().Signature().Results().Len() == 1 {
		return v
	}
	for _, r := range *v.Referrers() {
		if e, ok := r.(*ssa.Extract); ok && e.Index == i {
			return e
		}
	}
	return nil
}

func IsNil(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.IsNil()
}

// Deref strips one pointer.
func Deref(t types.Type) types.Type {
	if p, ok := types.Unalias(t).Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// TypeName renders a type without the module prefix.
func TypeName(t types.Type) string {
	return strings.ReplaceAll(types.TypeString(t, nil), Mod, "")
}

// FieldName names field i of the struct x points to or is.
func FieldName(x ssa.Value, i int) string {
	if s, ok := Deref(x.Type()).Underlying().(*types.Struct); ok && i < s.NumFields() {
		return s.Field(i).Name()
	}
	return fmt.Sprint(i)
}
