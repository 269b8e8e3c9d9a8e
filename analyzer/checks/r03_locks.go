package checks

import (
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/core"
	"verif/analyzer/flow"
)

func init() {
	register(&Check{
		ID: "R03",
		Rules: "Lockset analysis of the objects of the runtime library that services share: over all paths of all exported methods of each type, every field, element and map that any of them writes is accessed under one common lock, held exclusively by writers, or only through sync/atomic; " +
			"library objects that are not safe for concurrent use are used under a lock; package variables are not written by methods; every lock taken is released however the method ends, is not taken twice, and is not held while waiting for a channel.",
		Run:       runR03,
		NotDecide: "Objects that one goroutine uses while setting up (builders, workloads, cursors).",
	})
}

// notShared: types whose objects are used by one goroutine.
var notShared = map[string]bool{
	rtNS + ".NamespaceBuilder":       true, // used once, by main
	"runtime/core/workload.Workload": true, // set up before the engine
	"runtime/core/workload.Engine":   true, // R11
}

var paramRef = regexp.MustCompile(`\bp[1-9][0-9]*\b`)
var indexRef = regexp.MustCompile(`\[[^\]]*\]$`)

func runR03(c *core.Ctx) {
	types_, methods := runtimeTypes(c)
	for _, t := range types_ {
		if !notShared[core.TypeName(t)] {
			lockDiscipline(c, t, methods[t])
		}
	}
	c.Floor("methods", 60)
	c.Floor("locked", 5)
}

// runtimeTypes lists the exported types of the runtime library and their exported methods.
func runtimeTypes(c *core.Ctx) ([]*types.Named, map[*types.Named][]*ssa.Function) {
	ms := map[*types.Named][]*ssa.Function{}
	var ts []*types.Named
	for _, f := range c.Under("runtime") {
		if f.Signature.Recv() == nil || f.Parent() != nil || f.Synthetic != "" || !token.IsExported(f.Name()) || f.Origin() != nil && f.Origin() != f {
			continue
		}
		t, ok := core.Deref(f.Signature.Recv().Type()).(*types.Named)
		if !ok || !t.Obj().Exported() {
			continue
		}
		t = t.Origin()
		if ms[t] == nil {
			ts = append(ts, t)
		}
		ms[t] = append(ms[t], f)
	}
	sort.Slice(ts, func(i, j int) bool { return core.TypeName(ts[i]) < core.TypeName(ts[j]) })
	return ts, ms
}

// sharedCell names the memory that a base is part of, if it belongs to the receiver.
func sharedCell(b string) string {
	if !strings.Contains(b, "*p0") {
		return ""
	}
	return paramRef.ReplaceAllString(indexRef.ReplaceAllString(b, "[]"), "_")
}

func lockDiscipline(c *core.Ctx, t *types.Named, ms []*ssa.Function) {
	r := newRT(c, "runtime")
	r.share = func(b string) bool { return strings.Contains(b, "*p0") || strings.HasPrefix(b, "g:") }
	r.fork = 2
	// operators of queries and other packages are not part of the object
	pkg := core.Short(t.Obj().Pkg().Path())
	r.pkgs = []string{pkg}
	r.inl = func(f *ssa.Function) bool { return core.PkgOf(f) == pkg || core.Short(core.PkgOf(f)) == pkg }
	acc := map[string][]access{}
	lib := map[string][]access{}
	for _, fn := range ms {
		st := flow.NewState()
		e := r.engine()
		e.MaxPath = 3000
		args := opaque(fn, st)
		for _, a := range args[1:] {
			if _, isI := flow.TypeOf(a).Underlying().(*types.Interface); isI {
				st.Assume(a, false)
			}
		}
		ps := e.Run(fn, args, st)
		c.Ok("methods", core.Name(fn))
		if len(ps) == 0 {
			r.bad(fn, nil, "undecided", "the function cannot be followed")
		}
		for _, p := range ps {
			for _, ev := range p.St.Trace {
				in := core.Name(fn)
				switch ev.Kind {
				case "load", "store":
					if cell := sharedCell(ev.Name); cell != "" {
						acc[cell] = append(acc[cell], access{ev.Kind == "store", ev, in, false})
					} else if strings.HasPrefix(ev.Name, "g:") && ev.Kind == "store" {
						r.bad(fn, p, "package-variable", "it writes the package variable %s", strings.TrimPrefix(ev.Name, "g:"))
					}
				case "mapget", "mapset", "mapdel":
					if cell := sharedCell(ev.Recv.Key()); cell != "" {
						acc["content of "+cell] = append(acc["content of "+cell], access{ev.Kind != "mapget", ev, in, false})
					}
				case "recv", "send":
					if len(ev.Locks) > 0 && !ev.Poll {
						r.bad(fn, p, "held-up", "it waits for a channel with a lock held, so one slow call holds up all others")
					}
				case "call":
					if locks(ev) {
						for _, l := range ev.Locks {
							if l == ev.Recv.Key() || l == "r:"+ev.Recv.Key() {
								r.bad(fn, p, "deadlock", "it takes a lock that it already holds")
							}
						}
					}
					if ev.Name == "time.Sleep" && len(ev.Locks) > 0 {
						r.bad(fn, p, "held-up", "it pauses with a lock held")
					}
					if n := unsafeLib(ev.Name); n != "" && ev.Recv != nil && sharedCell(ev.Recv.Key()) != "" {
						lib[n+" "+sharedCell(ev.Recv.Key())] = append(lib[n+" "+sharedCell(ev.Recv.Key())], access{true, ev, in, false})
					}
				}
			}
			if p.How == "return" || p.How == "panic" {
				if l := heldAtEnd(p); len(l) > 0 && p.How == "return" {
					r.bad(fn, p, "released", "it can return with a lock held")
				}
			}
		}
	}
	for _, m := range []map[string][]access{acc, lib} {
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			w := false
			for _, a := range m[k] {
				w = w || a.Write
			}
			name := core.TypeName(t) + " " + cellTitle(k)
			if !w {
				c.Ok("read-only", name)
				continue
			}
			if why := protected(m[k]); why != "" {
				c.Fail("lockset", name, t.Obj().Pos(), "%s is changed while requests are served, %s", cellTitle(k), why)
			} else {
				c.Ok("locked", name)
			}
		}
	}
}

var fieldRef = regexp.MustCompile(`\.(\w+)`)

func cellTitle(k string) string {
	ms := fieldRef.FindAllStringSubmatch(k, -1)
	var out []string
	for _, m := range ms {
		out = append(out, m[1])
	}
	s := "the field " + strings.Join(out, ".")
	if strings.HasPrefix(k, "content of ") || strings.HasSuffix(k, "[]") {
		s = "the content of " + s
	}
	return s
}
