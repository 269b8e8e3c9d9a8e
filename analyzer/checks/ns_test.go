package checks

import (
	"fmt"
	"os"
	"testing"

	"golang.org/x/tools/go/ssa"
	"verif/analyzer/core"
	"verif/analyzer/flow"
	"verif/analyzer/load"
)

// TestFn follows one function with opaque parameters: PKG= FN= (as core.Func), INL=package prefix list
func TestFn(t *testing.T) {
	tmp := t.TempDir()
	p, err := load.Load("/repo", tmp)
	if err != nil {
		t.Fatal(err)
	}
	c := core.NewCtx(p, "")
	c.Tmp = tmp
	fn := c.MustFunc(os.Getenv("PKG"), os.Getenv("FN"))
	e := flow.New(c.P.SSA)
	inl := os.Getenv("INL")
	e.Inline = func(f *ssa.Function) bool {
		return inl != "" && core.InPkg(f, inl) && f != fn && f.Name() != os.Getenv("NOT") && f.Name() != "Info" && f.Name() != "Error"
	}
	st := flow.NewState()
	var args []flow.Val
	for i, p := range fn.Params {
		s := &flow.Sym{ID: fmt.Sprintf("p%d", i), T: p.Type()}
		if i == 0 {
			st.Assume(s, false)
		}
		args = append(args, s)
	}
	ps := e.Run(fn, args, st)
	fmt.Println("paths", len(ps), e.Over)
	for i, p := range ps {
		fmt.Println("== path", i, p.How, p.Ret.Key())
		for _, cd := range p.St.Conds {
			fmt.Println("    if", cd.V.Key(), cd.B)
		}
		for _, ev := range p.St.Trace {
			r := ""
			if ev.Res != nil {
				r = ev.Res.Key()
			}
			rc := ""
			if ev.Recv != nil {
				rc = ev.Recv.Key()
			}
			fmt.Println("    ", ev.Kind, ev.Name, ev.Method, "recv", rc, "args", flowKeys(ev.Args), "->", r)
		}
	}
}
