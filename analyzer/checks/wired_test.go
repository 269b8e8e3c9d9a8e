package checks

import (
	"fmt"
	"os"
	"testing"

	"verif/analyzer/core"
	"verif/analyzer/load"
)

func testCtx(t *testing.T) *core.Ctx {
	tmp := t.TempDir()
	r := os.Getenv("REPO")
	if r == "" {
		r = "/repo"
	}
	p, err := load.Load(r, tmp)
	if err != nil {
		t.Fatal(err)
	}
	c := core.NewCtx(p, "T")
	c.Tmp = tmp
	return c
}

func TestWired(t *testing.T) {
	if os.Getenv("DUMP") == "" {
		t.Skip()
	}
	c := testCtx(t)
	for _, w := range wiringFns(c) {
		fmt.Println(w.Name, len(w.Paths), w.Over, len(w.Defs))
		if os.Getenv("W") != "" && w.Name != os.Getenv("W") {
			continue
		}
		for _, p := range w.Paths {
			fmt.Println("   ===")
			dumpPath(p)
		}
		for _, d := range w.Defs {
			fmt.Println("   def", d.Def.Args[0].Key(), len(d.Paths), d.Over)
			for _, p := range d.Paths {
				fmt.Println("      ", p.How, p.Ret.Key())
				dumpPath(p)
			}
		}
	}
}
