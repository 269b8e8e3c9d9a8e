package emit

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"verif/analyzer/core"
	"verif/analyzer/load"
)

func TestDump(t *testing.T) {
	tmp := t.TempDir()
	p, err := load.Load("/repo", tmp)
	if err != nil {
		t.Fatal(err)
	}
	c := core.NewCtx(p, "")
	c.Tmp = tmp
	b := New(c)
	for _, e := range b.EmitAll() {
		fmt.Println("=====", e.Name(), e.Extends, "files", e.Order, "FAILED", e.Failed, "UNK", e.Unk)
		if len(e.Files) > 0 {
			m := b.Compile(e)
			for _, x := range m.Errs {
				fmt.Println("   TYPE:", x)
			}
			for _, x := range m.IDL {
				fmt.Println("   IDL:", x)
			}
		}
		if os.Getenv("DUMPDIR") != "" {
			for _, f := range e.Order {
				p := os.Getenv("DUMPDIR") + "/" + strings.ReplaceAll(e.Name(), "/", "_") + "/" + f
				os.MkdirAll(filepath.Dir(p), 0755)
				os.WriteFile(p, []byte(e.Files[f]), 0644)
			}
		}
		if os.Getenv("DUMP") != "" && os.Getenv("DUMP") == e.Node {
			for _, f := range e.Order {
				fmt.Println("-----", f)
				fmt.Println(e.Files[f])
			}
		}
	}
}
