// Package load loads the whole of /repo (type-checked syntax for every workspace
// package, export data for everything else) and builds SSA for it.
package load

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"go/ast"
	"go/parser"
	"go/token"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const missing = "gitlab.mpi-sws.org/cld/tracing/tracing-framework-go"

var excluded = regexp.MustCompile(`^github.com/blueprint-uservices/blueprint/(runtime/plugins/xtrace|plugins/xtrace|examples/leaf/wiring)(/|$)`)

type Program struct {
	Root  string
	Fset  *token.FileSet
	Pkgs  []*packages.Package
	ByPth map[string]*packages.Package
	SSA   *ssa.Program
	SSAPk map[string]*ssa.Package
}

// Env returns the environment under which the go command can resolve /repo offline.
func Env(overlay string) []string {
	env := []string{}
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOTOOLCHAIN=") || strings.HasPrefix(e, "GOPROXY=") || strings.HasPrefix(e, "GOWORK=") {
			continue
		}
		env = append(env, e)
	}
	return append(env, "GOTOOLCHAIN=local", "GOPROXY=off", "CGO_ENABLED=1", "GOFLAGS=-overlay="+overlay)
}

// Overlay writes copies of the go.mod files of root without the one requirement that
// cannot be fetched, into dir, and returns the overlay file.
func Overlay(root, dir string) (string, error) {
	re := regexp.MustCompile(`(?m)^\s*(?:require\s+)?` + regexp.QuoteMeta(missing) + `\s.*\n`)
	rep := map[string]string{}
	n := 0
	err := filepath.WalkDir(root, func(p string, d os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if d.IsDir() {
			if d.Name() == ".git" {
				return filepath.SkipDir
			}
			return nil
		}
		if d.Name() != "go.mod" {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		nb := re.ReplaceAll(b, nil)
		if string(nb) != string(b) {
			n++
			dst := filepath.Join(dir, fmt.Sprintf("gomod_%d", n))
			if err := os.WriteFile(dst, nb, 0644); err != nil {
				return err
			}
			rep[p] = dst
		}
		return nil
	})
	if err != nil {
		return "", err
	}
	b, _ := json.Marshal(map[string]any{"Replace": rep})
	out := filepath.Join(dir, "overlay.json")
	return out, os.WriteFile(out, b, 0644)
}

// Load loads every workspace package of root that can be built here.
func Load(root, tmp string) (*Program, error) {
	ov, err := Overlay(root, tmp)
	if err != nil {
		return nil, err
	}
	env := Env(ov)
	run := func(args ...string) ([]string, error) {
		c := exec.Command("go", args...)
		c.Dir = root
		c.Env = env
		var eb strings.Builder
		c.Stderr = &eb
		o, err := c.Output()
		if err != nil {
			return nil, fmt.Errorf("go %v: %v: %s", args, err, eb.String())
		}
		return strings.Fields(string(o)), nil
	}
	mods, err := run("list", "-m", "-f", "{{.Path}}/...")
	if err != nil {
		return nil, err
	}
	all, err := run(append([]string{"list", "-e", "-f", "{{.ImportPath}}"}, mods...)...)
	if err != nil {
		return nil, err
	}
	var pats []string
	for _, p := range all {
		if !excluded.MatchString(p) {
			pats = append(pats, p)
		}
	}
	sort.Strings(pats)
	p, err := source(root, env, pats, nil)
	if err != nil {
		return nil, err
	}
	if canon := renamed(p); len(canon) > 0 {
		if q, err := source(root, env, pats, rewrite(p, canon)); err == nil {
			p = q
		} else if os.Getenv("NAMES") != "" {
			fmt.Fprintln(os.Stderr, err)
		}
	}
	if f := os.Getenv("WRITE_NAMES"); f != "" {
		if err := os.WriteFile(f, []byte(Names(p)), 0644); err != nil {
			return nil, err
		}
	}
	prog, sp := ssautil.Packages(p.Pkgs, ssa.InstantiateGenerics)
	for i, s := range sp {
		if s == nil {
			return nil, fmt.Errorf("no SSA for %s", p.Pkgs[i].PkgPath)
		}
		p.SSAPk[p.Pkgs[i].PkgPath] = s
	}
	prog.Build()
	p.SSA = prog
	return p, nil
}

// source reads and type-checks the packages, with some of the files replaced.
func source(root string, env, pats []string, instead map[string][]byte) (*Program, error) {
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule | packages.NeedExportFile | packages.NeedEmbedFiles,
		Dir: root, Env: env, Fset: fset,
		ParseFile: func(fset *token.FileSet, name string, src []byte) (*ast.File, error) {
			if b, ok := instead[filepath.Clean(name)]; ok {
				src = b
			}
			return parser.ParseFile(fset, name, src, parser.AllErrors|parser.ParseComments)
		},
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	p := &Program{Root: root, Fset: fset, ByPth: map[string]*packages.Package{}, SSAPk: map[string]*ssa.Package{}}
	var errs []string
	for _, pk := range pkgs {
		for _, e := range pk.Errors {
			// a package with only test files is not an error
			if strings.Contains(e.Msg, "no non-test Go files") || strings.Contains(e.Msg, "build constraints exclude all Go files") {
				continue
			}
			errs = append(errs, e.Error())
		}
		if len(pk.Syntax) == 0 {
			continue
		}
		p.Pkgs = append(p.Pkgs, pk)
		p.ByPth[pk.PkgPath] = pk
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("packages do not type-check:\n%s", strings.Join(errs, "\n"))
	}
	return p, nil
}
