// The analyzer decides the properties of /verif/properties.jsonl from the source of /repo.
//
//	analyzer -check C02 [-repo /repo] [-verif /verif]
//
// exit 0: no construct violates the property. exit 1: one does, or the property is undecided.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif/analyzer/checks"
	"verif/analyzer/core"
	"verif/analyzer/load"
)

func main() {
	id := flag.String("check", "", "property id, or 'all'")
	repo := flag.String("repo", "/repo", "tree to analyse")
	verif := flag.String("verif", "/verif", "where evidence and known findings live")
	verbose := flag.Bool("v", false, "print what was examined")
	dry := flag.Bool("n", false, "do not write evidence")
	flag.Parse()

	tmp, err := os.MkdirTemp("", "verif-analyzer-")
	if err != nil {
		fmt.Println("cannot make a scratch directory:", err)
		os.Exit(1)
	}
	code := run(*id, *repo, *verif, tmp, *verbose, *dry)
	os.RemoveAll(tmp)
	os.Exit(code)
}

func run(id, repo, verif, tmp string, verbose, dry bool) int {
	var ids []string
	if id == "all" {
		for k := range checks.All {
			ids = append(ids, k)
		}
		sort.Strings(ids)
	} else {
		for _, k := range strings.Split(id, ",") {
			if checks.All[k] == nil {
				fmt.Printf("no such check %q\n", k)
				return 1
			}
			ids = append(ids, k)
		}
	}
	t0 := time.Now()
	prog, lerr := load.Load(repo, tmp)
	loadS := time.Since(t0).Seconds()
	var base *core.Ctx
	if lerr == nil {
		base = core.NewCtx(prog, "")
		base.Thorough = os.Getenv("VERIF_TIER") == "thorough"
		base.Tmp = tmp
	}
	code := 0
	for _, k := range ids {
		t1 := time.Now()
		var c *core.Ctx
		if lerr != nil {
			c = core.NewCtx(nil, k)
			c.Reports = append(c.Reports, core.Report{Rule: "load", Construct: "workspace", Where: "-", Msg: lerr.Error()})
		} else {
			c = base.Fork(k)
			func() {
				defer func() {
					if r := recover(); r != nil {
						c.Reports = append(c.Reports, core.Report{Rule: "undecided", Construct: "analyzer", Where: "-", Msg: fmt.Sprintf("the analysis did not finish: %v\n%s", r, debug.Stack())})
					}
				}()
				checks.All[k].Run(c)
			}()
		}
		if finish(c, checks.All[k], verif, time.Since(t1).Seconds()+loadS, loadS, verbose, dry) {
			code = 1
		}
	}
	return code
}

// known reads the committed list of genuine defects that are recorded rather than repaired.
func known(path string) map[string]map[string]string {
	out := map[string]map[string]string{}
	f, err := os.Open(path)
	if err != nil {
		return out
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		// known: property=<id> key=<rule @ construct> | <what fails>
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property=")
		sp := strings.SplitN(l, " key=", 2)
		if len(sp) != 2 {
			continue
		}
		kv := strings.SplitN(sp[1], " | ", 2)
		if len(kv) != 2 {
			continue
		}
		if out[sp[0]] == nil {
			out[sp[0]] = map[string]string{}
		}
		out[sp[0]][strings.TrimSpace(kv[0])] = kv[1]
	}
	return out
}

func finish(c *core.Ctx, ch *checks.Check, verif string, wall, loadS float64, verbose, dry bool) bool {
	kn := known(filepath.Join(verif, "KNOWN_FINDINGS.txt"))[c.Prop]
	var bad []core.Report
	seen := map[string]bool{}
	for _, r := range c.Reports {
		if what, ok := kn[r.Key()]; ok {
			if !seen[r.Key()] {
				fmt.Printf("KNOWN-FINDING: property=%s %s [%s at %s]\n", c.Prop, what, r.Key(), r.Where)
			}
			seen[r.Key()] = true
			continue
		}
		bad = append(bad, r)
	}
	sort.SliceStable(bad, func(i, j int) bool { return bad[i].Key() < bad[j].Key() })
	total := 0
	for _, n := range c.Counts {
		total += n
	}
	evdir := filepath.Join(verif, "evidence")
	os.MkdirAll(evdir, 0755)
	replay := filepath.Join(evdir, c.Prop+".violations.json")
	if !dry {
		os.Remove(replay)
	}
	if len(bad) > 0 {
		b, _ := json.MarshalIndent(bad, "", "  ")
		if !dry {
			os.WriteFile(replay, b, 0644)
		}
		for _, r := range bad {
			fmt.Printf("%s: [%s] %s: %s\n", r.Where, r.Rule, r.Construct, r.Msg)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.Prop, replay)
	}
	if verbose || len(bad) == 0 {
		fmt.Printf("%s: %d constructs examined under %d rules, %d violations, %.1fs\n", c.Prop, total, len(c.Counts), len(bad), wall)
	}
	if verbose {
		var ks []string
		for k := range c.Counts {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Printf("  %-40s %5d  e.g. %s\n", k, c.Counts[k], strings.Join(c.Samples[k], "; "))
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	files, funcs := 0, 0
	if c.P != nil {
		for _, p := range c.P.Pkgs {
			files += len(p.Syntax)
		}
		funcs = len(c.Funcs())
	}
	var samples []map[string]any
	var rules []string
	for k := range c.Counts {
		rules = append(rules, k)
	}
	sort.Strings(rules)
	for _, k := range rules {
		samples = append(samples, map[string]any{"rule": k, "examined": c.Counts[k], "examples": c.Samples[k]})
	}
	var kf []string
	for k := range seen {
		kf = append(kf, k)
	}
	sort.Strings(kf)
	ev := map[string]any{
		"property": c.Prop, "tier": tier, "seed": seed, "level": "other",
		"coverage": map[string]any{
			"explanation":          "Static analysis of the current source of /repo (type-checked syntax and SSA; templates parsed and expanded by the analyser's own model). " + ch.Rules,
			"constructs_examined":  total,
			"per_rule":             samples,
			"program_files":        files,
			"program_functions":    funcs,
			"known_findings_seen":  kf,
			"not_decided":          ch.NotDecide,
			"notes":                c.Notes,
			"load_and_ssa_seconds": loadS,
		},
		"assumptions": []string{"the go/types and go/ssa front end represents the source faithfully", "code outside the workspace modules behaves as its documentation says"},
		"wall_s":      wall,
		"violations":  len(bad),
	}
	if !dry {
		b, _ := json.MarshalIndent(ev, "", " ")
		os.WriteFile(filepath.Join(evdir, c.Prop+".json"), b, 0644)
	}
	return len(bad) > 0
}
