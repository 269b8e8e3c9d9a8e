package checks

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/core"
	"verif/analyzer/errflow"
)

// harmless: calls whose error result carries no information the caller can act on.
func harmlessErr(name string) bool {
	switch {
	case strings.HasPrefix(name, "fmt.Print"), strings.HasPrefix(name, "fmt.Fprint"),
		strings.HasPrefix(name, "(*strings.Builder)."), strings.HasPrefix(name, "(*bytes.Buffer)."),
		strings.HasPrefix(name, "(hash.Hash"), strings.HasSuffix(name, ".Close"),
		name == "io.WriteString", name == "os.Remove", name == "os.RemoveAll",
		strings.HasPrefix(name, "(runtime/core/backend.Logger)."), strings.HasPrefix(name, "(*flag.FlagSet)."):
		return true
	}
	return false
}

type errSpec struct {
	rule     string
	prefixes []string
	skipPkg  []string
	// tolerated calls: "package -> callee", confirmed by reading to be deliberate
	tolerated map[string]string
	recorder  func(ssa.CallInstruction) bool
	only      func(ssa.CallInstruction) bool
	strict    func(*ssa.Function) bool // functions in which only the recorder reports
	skipFn    func(*ssa.Function) bool
}

// tolerates: the call, or all that can fail in the helper that is called, is tolerated.
func (s *errSpec) tolerates(f *ssa.Function, ci ssa.CallInstruction) bool {
	if _, ok := s.tolerated[core.PkgOf(f)+" -> "+core.CalleeName(ci)]; ok {
		return true
	}
	g := ci.Common().StaticCallee()
	if g == nil || g.Blocks == nil || core.PkgOf(g) != core.PkgOf(f) || token.IsExported(g.Name()) {
		return false
	}
	n := 0
	for _, c := range core.Calls(g) {
		if i, _ := core.ErrResult(c); i >= 0 {
			if _, ok := s.tolerated[core.PkgOf(g)+" -> "+core.CalleeName(c)]; !ok {
				return false
			}
			n++
		}
	}
	return n > 0
}

// probe: calls whose failure is an answer, in functions that have no error to return.
func probe(f *ssa.Function, callee string) bool {
	if callee == "os.Stat" {
		return true
	}
	r := f.Signature.Results()
	if r.Len() > 0 && core.IsError(r.At(r.Len()-1).Type()) {
		return false
	}
	switch callee {
	case "strconv.Atoi", "os.Getwd", "path/filepath.Rel", "(blueprint/pkg/wiring.WiringSpec).GetProperty":
		return r.Len() > 0 || callee == "(blueprint/pkg/wiring.WiringSpec).GetProperty"
	}
	return false
}

// owners gives for a function the one that it is a part of: itself, or the only caller if it has one.
func owners(c *core.Ctx) func(*ssa.Function) *ssa.Function {
	callers := map[*ssa.Function]map[*ssa.Function]bool{}
	add := func(g, f *ssa.Function) {
		if o := g.Origin(); o != nil {
			g = o
		}
		if callers[g] == nil {
			callers[g] = map[*ssa.Function]bool{}
		}
		callers[g][core.Top(f)] = true
	}
	for _, f := range c.Funcs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						add(g, f)
					}
				}
			}
		}
	}
	return func(f *ssa.Function) *ssa.Function {
		for i := 0; i < 4; i++ {
			t := core.Top(f)
			cs := callers[t]
			if token.IsExported(t.Name()) || len(cs) != 1 {
				break
			}
			for g := range cs {
				if g == t || core.PkgOf(g) != core.PkgOf(t) {
					return f
				}
				f = g
			}
		}
		return f
	}
}

func runErrflow(c *core.Ctx, s errSpec) {
	owner := owners(c)
	for _, f := range c.Under(s.prefixes...) {
		skip := false
		for _, p := range s.skipPkg {
			if core.InPkg(f, p) {
				skip = true
			}
		}
		if skip || s.skipFn != nil && s.skipFn(owner(f)) {
			continue
		}
		for _, ci := range core.Calls(f) {
			if _, ok := ci.(*ssa.Call); !ok {
				continue
			}
			i, _ := core.ErrResult(ci)
			if i < 0 {
				continue
			}
			n := core.CalleeName(ci)
			if harmlessErr(n) || s.only != nil && !s.only(ci) {
				continue
			}
			site := core.Name(owner(f)) + " -> " + n
			if s.tolerates(f, ci) {
				c.Ok(s.rule+"/deliberate", site)
				continue
			}
			if probe(f, n) || f.Parent() != nil && f.Signature.Results().Len() == 0 && probe(core.Top(f), n) {
				continue
			}
			strict := s.strict != nil && s.strict(f)
			fd := errflow.Analyse(ci, errflow.Config{LogCounts: !strict, Strict: strict, Recorder: s.recorder})
			c.Ok(s.rule, site)
			if fd == nil {
				continue
			}
			c.Fail(s.rule, site, ci.Pos(), "a failure of this call is %s on the path ending at %s", fd.Out, c.Pos(fd.At))
		}
	}
}

// takesSpec: wiring functions report failures to the wiring spec they are given.
func takesSpec(f *ssa.Function) bool {
	for _, p := range core.Top(f).Params {
		if core.TypeName(p.Type()) == "blueprint/pkg/wiring.WiringSpec" {
			return true
		}
	}
	return false
}

func compileRecorder(ci ssa.CallInstruction) bool {
	return core.MethodName(ci) == "AddError"
}

func init() {
	register(&Check{
		ID:    "C02",
		Rules: "Every call in the compiler (blueprint/, plugins/) that can fail is followed path by path: a path on which it failed must not end in a nil-error return, in the error of a different call, or with the failure dropped.",
		Run: func(c *core.Ctx) {
			runErrflow(c, errSpec{
				rule: "errflow", prefixes: []string{"blueprint", "plugins"},
				recorder: compileRecorder,
				skipPkg:  []string{"blueprint/pkg/blueprint/logging"},
				tolerated: map[string]string{
					"plugins/golang/gogen -> (*plugins/golang/gogen.WorkspaceBuilderImpl).goModTidy":              "the generated modules are complete without it; the failure is logged",
					"plugins/golang/gogen -> plugins/golang.GetGoInterface":                                       "DeclareConstructor falls back to the node's plain code",
					"plugins/gotests -> plugins/workflow/workflowspec.GetServiceByName":                           "a registry that is not a workflow service is skipped",
					"plugins/golang/goparser -> plugins/golang/goparser.GetModuleInfo":                            "falls back to reading go.mod",
					"plugins/workflow/workflowspec -> plugins/workflow/workflowspec.isInterfaceAValidService":     "asks whether a candidate interface is a service",
					"plugins/workflow/workflowspec -> plugins/workflow/workflowspec.implements":                   "asks whether a candidate struct implements the service",
					"plugins/workflow/workflowspec -> plugins/workflow/workflowspec.validateConstructorSignature": "asks whether a function is a constructor of the service",
				},
				strict: takesSpec,
			})
			c.Floor("errflow", 500)
		},
	})
}
