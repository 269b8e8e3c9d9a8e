package checks

import (
	"fmt"
	"os"
	"strings"
	"testing"

	"verif/analyzer/core"
	"verif/analyzer/emit"
	"verif/analyzer/load"
)

func TestD01(t *testing.T) {
	tmp := t.TempDir()
	p, err := load.Load("/repo", tmp)
	if err != nil {
		t.Fatal(err)
	}
	c := core.NewCtx(p, "")
	c.Tmp = tmp
	b := emit.New(c)
	var sc linuxScen
	for _, s := range linuxScens() {
		if s.top == os.Getenv("TOP") && strings.Contains(s.name, os.Getenv("SC")) {
			sc = s
			break
		}
	}
	e := deployLinux(b, sc, false)
	fmt.Println("FAILED", e.Failed, "UNK", e.Unk)
	for _, f := range sortedKeys(e.Files) {
		fmt.Println("=====", f)
		fmt.Println(e.Files[f])
	}
	for d := range e.Dirs {
		fmt.Println("DIR", d)
	}
}
