package checks

import (
	"fmt"
	"os"
	"testing"
	"time"
	"verif/analyzer/core"
	"verif/analyzer/load"
)

func TestEntries(t *testing.T) {
	if os.Getenv("ENT") == "" {
		t.Skip()
	}
	tmp := t.TempDir()
	p, err := load.Load("/repo", tmp)
	if err != nil {
		t.Fatal(err)
	}
	c := core.NewCtx(p, "")
	c.Tmp = tmp
	g := generated(c)
	for _, x := range g.Es {
		t0 := time.Now()
		es := g.entries(x)
		fmt.Println(x.E.Name(), time.Since(t0))
		for _, e := range es {
			n := 0
			for _, p := range e.Paths {
				n += len(p.St.Trace)
			}
			fmt.Println("    ", e.Name, len(e.Paths), n)
		}
	}
}
