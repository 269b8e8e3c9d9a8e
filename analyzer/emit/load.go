package emit

import (
	"embed"
	"fmt"
	"go/ast"
	"go/parser"
	"go/types"
	"os"
	"os/exec"
	"sort"
	"strings"

	"golang.org/x/tools/go/gcexportdata"

	"verif/analyzer/core"
	"verif/analyzer/load"
)

//go:embed stubs
var stubFS embed.FS

// stub packages state the API of libraries that are not present offline, as documented by them.
var stubPaths = map[string]string{
	"github.com/apache/thrift/lib/go/thrift":      "stubs/thrift.go.txt",
	"github.com/gorilla/mux":                      "stubs/mux.go.txt",
	"github.com/mercari/go-circuitbreaker":        "stubs/circuitbreaker.go.txt",
	"google.golang.org/grpc":                      "stubs/grpc.go.txt",
	"google.golang.org/grpc/credentials/insecure": "stubs/insecure.go.txt",
	"golang.org/x/time/rate":                      "stubs/rate.go.txt",
}

// Import resolves an import of emitted code.
func (b *B) Import(path string) (*types.Package, error) {
	if p, ok := b.impCach[path]; ok && p.Complete() {
		return p, nil
	}
	if p := b.SamplePkgs[path]; p != nil {
		return p, nil
	}
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if pk, ok := b.C.P.ByPth[path]; ok {
		return pk.Types, nil
	}
	if st, ok := stubPaths[path]; ok {
		src, err := stubFS.ReadFile(st)
		if err != nil {
			return nil, err
		}
		f, err := parser.ParseFile(b.C.P.Fset, st, src, 0)
		if err != nil {
			return nil, err
		}
		conf := types.Config{Importer: b, IgnoreFuncBodies: true}
		p, err := conf.Check(path, b.C.P.Fset, []*ast.File{f}, nil)
		if err != nil {
			return nil, fmt.Errorf("stub of %s: %v", path, err)
		}
		b.impCach[path] = p
		return p, nil
	}
	exp, ok := b.exports[path]
	if !ok {
		ov, err := load.Overlay(b.C.P.Root, b.C.Tmp)
		if err != nil {
			return nil, err
		}
		cmd := exec.Command("go", "list", "-export", "-e", "-f", "{{.Export}}", path)
		cmd.Dir = b.C.P.Root
		cmd.Env = load.Env(ov)
		o, _ := cmd.Output()
		exp = strings.TrimSpace(string(o))
		b.exports[path] = exp
	}
	if exp == "" {
		return nil, fmt.Errorf("no package %s", path)
	}
	f, err := os.Open(exp)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	r, err := gcexportdata.NewReader(f)
	if err != nil {
		return nil, err
	}
	return gcexportdata.Read(r, b.C.P.Fset, b.impCach, path)
}

// seed the import cache with every package the type checker already knows.
func (b *B) seed() {
	var visit func(p *types.Package)
	seen := map[*types.Package]bool{}
	visit = func(p *types.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		if o, ok := b.impCach[p.Path()]; !ok || !o.Complete() && p.Complete() {
			b.impCach[p.Path()] = p
		}
		for _, q := range p.Imports() {
			visit(q)
		}
	}
	var ps []string
	for p := range b.C.P.ByPth {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for _, p := range ps {
		visit(b.C.P.ByPth[p].Types)
	}
}

var _ = core.Mod
