package checks

import (
	"fmt"
	"os"
	"strings"
	"testing"
	"verif/analyzer/core"
	"verif/analyzer/load"
)

func TestGen(t *testing.T) {
	tmp := t.TempDir()
	p, err := load.Load("/repo", tmp)
	if err != nil {
		t.Fatal(err)
	}
	c := core.NewCtx(p, "")
	c.Tmp = tmp
	g := generated(c)
	for _, x := range g.Es {
		fmt.Println("=====", x.E.Name(), x.Down, x.E.Params)
		if x.Inst == nil {
			continue
		}
		for _, m := range []string{"Ping", "Echo"} {
			fn := x.method(m)
			if fn == nil {
				fmt.Println("no method", m)
				continue
			}
			eng := x.engine()
			ps := x.run(eng, fn)
			fmt.Println("  --", m, "paths", len(ps), eng.Over)
			for i, p := range ps {
				if i > 6 {
					break
				}
				fmt.Println("     ", p.How, p.Ret.Key(), p.St.Late)
				for _, ev := range p.St.Trace {
					if g.downstream(ev) {
						fmt.Println("         down", ev.Method, ev.Recv.Key(), flowKeys(ev.Args), ev.Res.Key())
					}
					if ev.Kind != "call" && ev.Kind != "mapset" {
						fmt.Println("         ", ev.Kind, ev.Name, ev.Held)
					}
				}
			}
		}
	}
}
func flowKeys[T interface{ Key() string }](a []T) (o []string) {
	for _, x := range a {
		o = append(o, x.Key())
	}
	return
}

// TestTrace prints every event of one emission's methods: EM=name substring, METH=method.
func TestTrace(t *testing.T) {
	if os.Getenv("EM") == "" {
		t.Skip()
	}
	tmp := t.TempDir()
	p, err := load.Load("/repo", tmp)
	if err != nil {
		t.Fatal(err)
	}
	c := core.NewCtx(p, "")
	c.Tmp = tmp
	g := generated(c)
	for _, x := range g.Es {
		if !strings.Contains(x.E.Name(), os.Getenv("EM")) || x.Inst == nil {
			continue
		}
		fmt.Println("=====", x.E.Name(), x.Down, x.E.Params)
		for _, m := range g.methods(x) {
			if m.Name != os.Getenv("METH") && m.Name != "" {
				continue
			}
			for _, p := range m.Paths {
				fmt.Println("  PATH", p.How, p.Ret.Key(), "late", p.St.Late, "retat", p.RetAt)
				for _, ev := range p.St.Trace {
					fmt.Println("     ", ev.Kind, ev.Name, flowKeys(ev.Args), ev.Res, ev.Held, ev.Gor)
				}
			}
		}
	}
}
