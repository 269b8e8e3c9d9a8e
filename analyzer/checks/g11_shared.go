package checks

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/core"
	"verif/analyzer/flow"
)

// entry is code of an instance that concurrent requests reach.
type entry struct {
	Name  string
	Paths []*flow.Path
	Once  bool // runs once per instance
}

// root of a memory cell: the variable it is part of.
func cellRoot(b string) string {
	if i := strings.IndexAny(b, ".["); i > 0 && !strings.HasPrefix(b, "g:") {
		return b[:i]
	}
	return b
}

// field names the part of the shared state a cell belongs to.
func cellField(b string) string {
	r := cellRoot(b)
	rest := strings.TrimPrefix(b, r)
	if strings.HasPrefix(rest, ".") {
		if i := strings.IndexAny(rest[1:], ".["); i > 0 {
			return r + rest[:i+1]
		}
		return b
	}
	return r
}

// heap: the cells that exist when the instance is built.
func (x *emitted) heap() map[string]bool {
	out := map[string]bool{}
	for b := range x.St.Mem {
		if strings.HasPrefix(b, "a:") {
			out[cellRoot(b)] = true
		}
	}
	// cells captured by closures the constructor hands out
	if x.Build != nil {
		for _, ev := range x.Build.St.Trace {
			for _, a := range ev.Args {
				if f, ok := flow.Strip(a).(*flow.Func); ok {
					for _, b := range f.Bind {
						if c, ok := flow.Strip(b).(*flow.Addr); ok {
							out[cellRoot(c.Base)] = true
						}
					}
				}
			}
		}
	}
	return out
}

// entries lists the methods of the instance and the functions its construction gave away.
func (g *genAll) entries(x *emitted) []entry {
	var out []entry
	have := map[string]bool{}
	if x.local() {
		for _, m := range g.methods(x) {
			if m.Fn != nil {
				have[m.Name] = true
				out = append(out, entry{Name: m.Name, Paths: m.Paths})
			}
		}
	}
	ms := types.NewMethodSet(x.InstT)
	for i := 0; i < ms.Len(); i++ {
		n := ms.At(i).Obj().Name()
		fn := x.M.Prog.MethodValue(ms.At(i))
		if have[n] || fn == nil || fn.Blocks == nil || x.stubbed(fn) || !token.IsExported(n) {
			continue
		}
		if fn.Synthetic != "" {
			continue // promoted from what is embedded
		}
		eng := x.engine()
		eng.MaxFork = 1 // marshalling code branches on every value
		eng.MaxPath = 400
		out = append(out, entry{Name: n, Paths: x.run(eng, fn), Once: n == "Run"})
	}
	if x.Build != nil {
		for _, ev := range x.Build.St.Trace {
			if ev.Kind != "call" || ev.Name == "" {
				continue
			}
			for _, a := range ev.Args {
				f, ok := flow.Strip(a).(*flow.Func)
				if !ok || f.Fn.Blocks == nil || !inModule(f.Fn) || synchronous(ev.Name) {
					continue
				}
				eng := x.engine()
				var args []flow.Val
				st := x.Build.St.Fork()
				for _, p := range f.Fn.Params {
					args = append(args, &flow.Sym{ID: "arg:" + p.Name(), T: p.Type()})
				}
				out = append(out, entry{Name: "the function given to " + core.Short(ev.Name), Paths: eng.RunFunc(f, args, st)})
			}
		}
	}
	return out
}

// synchronous: library functions that call their argument before they return.
func synchronous(n string) bool {
	switch n {
	case "(*sync.Once).Do", "sort.Slice", "sort.SliceStable", "slices.SortFunc", "strings.Map":
		return true
	}
	return false
}

// unsafeLib: methods of library types that must not be called concurrently.
func unsafeLib(n string) string {
	for _, t := range []string{"(*math/rand.Rand).", "(*math/rand/v2.Rand).", "(*bytes.Buffer).", "(*strings.Builder).", "(*container/list.List).", "(*container/ring.Ring).", "(*bufio.Writer).", "(*bufio.Reader).", "(*encoding/json.Encoder).", "(*encoding/gob.Encoder)."} {
		if strings.HasPrefix(n, t) {
			return t[2 : len(t)-2]
		}
	}
	return ""
}

type access struct {
	Write bool
	Ev    *flow.Event
	In    string
	Once  bool
}

func init() {
	register(&Check{
		ID:    "G11",
		Rules: "Lockset analysis of the emitted classes: over all paths of all methods of an instance, and of every function its construction hands out, every cell that exists once the instance is built and that any of them writes is accessed under one common lock, held exclusively by writers; library objects that are not safe for concurrent use are only used under a common lock; package variables are not written; every lock taken is released on every path, never taken twice, and not held during a call of the wrapped service or a pause.",
		Run: func(c *core.Ctx) {
			g := generated(c)
			for _, x := range g.Es {
				if !x.usable(c) {
					continue
				}
				sharedState(c, g, x)
			}
			c.Floor("entries", 100)
		},
	})
}

func sharedState(c *core.Ctx, g *genAll, x *emitted) {
	heap := x.heap()
	acc := map[string][]access{}
	name := x.E.Name()
	lib := map[string][]access{}
	libType := map[string]string{}
	reported := map[string]bool{}
	bad := func(rule, site, f string, a ...any) {
		if !reported[rule+site] {
			reported[rule+site] = true
			c.Fail(rule, site, token.NoPos, f, a...)
		}
	}
	for _, e := range g.entries(x) {
		c.Ok("entries", name+" "+e.Name)
		for _, p := range e.Paths {
			for _, ev := range p.St.Trace {
				switch ev.Kind {
				case "load", "store":
					if heap[cellRoot(ev.Name)] {
						acc[cellField(ev.Name)] = append(acc[cellField(ev.Name)], access{ev.Kind == "store", ev, e.Name, e.Once && ev.Gor == 0})
					} else if strings.HasPrefix(ev.Name, "g:") && ev.Kind == "store" {
						bad("package-variable", name+" "+e.Name, "emitted code: %s writes the package variable %s", e.Name, strings.TrimPrefix(ev.Name, "g:"))
					}
				case "mapset", "mapdel":
					if a, ok := ev.Recv.(*flow.Addr); ok && heap[cellRoot(a.Base)] {
						acc[a.Base] = append(acc[a.Base], access{true, ev, e.Name, e.Once})
					} else if s, ok := ev.Recv.(*flow.Sym); ok && strings.HasPrefix(s.ID, "state:") {
						acc[s.ID] = append(acc[s.ID], access{true, ev, e.Name, e.Once})
					}
				case "call":
					if len(ev.Locks) > 0 {
						k := ""
						if ev.Recv != nil {
							k = ev.Recv.Key()
						}
						switch {
						case strings.HasSuffix(ev.Name, ").Lock") && strings.Contains(ev.Name, "sync."):
							for _, l := range ev.Locks {
								if l == k || l == "r:"+k {
									bad("deadlock", name+" "+e.Name, "emitted code: %s takes a lock it already holds", e.Name)
								}
							}
						case g.downstream(ev):
							bad("held-up", name+" "+e.Name, "emitted code: %s calls the wrapped service with a lock held, so one slow call holds up all others", e.Name)
						case ev.Name == "time.Sleep":
							bad("held-up", name+" "+e.Name, "emitted code: %s pauses with a lock held", e.Name)
						}
					}
					t := unsafeLib(ev.Name)
					if t == "" || ev.Recv == nil {
						continue
					}
					r := flow.Strip(ev.Recv)
					shared := false
					if a, ok := r.(*flow.Addr); ok {
						shared = heap[cellRoot(a.Base)]
					} else if x.inHeap(r) {
						shared = true
					}
					if shared {
						lib[r.Key()] = append(lib[r.Key()], access{true, ev, e.Name, e.Once})
						libType[r.Key()] = t
					}
				}
			}
			if p.How == "return" {
				if l := heldAtEnd(p); len(l) > 0 {
					bad("released", name+" "+e.Name, "emitted code: %s can return with a lock held", e.Name)
				}
			}
		}
	}
	var fs []string
	for f := range acc {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	for _, f := range fs {
		w, concurrent := false, false
		for _, a := range acc[f] {
			w = w || a.Write
			concurrent = concurrent || !a.Once
		}
		if !w || !concurrent {
			c.Ok("cells", name+" "+x.cellName(f))
			continue
		}
		if why := protected(acc[f]); why != "" {
			bad("lockset", name+" "+x.cellName(f), "emitted code: %s is changed while requests are served, %s", x.cellName(f), why)
		} else {
			c.Ok("locked", name+" "+x.cellName(f))
		}
	}
	var ls []string
	for f := range lib {
		ls = append(ls, f)
	}
	sort.Strings(ls)
	for _, f := range ls {
		if why := protected(lib[f]); why != "" {
			bad("lockset", name+" "+libType[f], "emitted code: requests share a %s, which is not safe for concurrent use, %s", libType[f], why)
		} else {
			c.Ok("locked", name+" "+libType[f])
		}
	}
}

// inHeap: an opaque value that the built instance holds.
func (x *emitted) inHeap(v flow.Val) bool {
	for _, y := range x.St.Mem {
		if flow.Strip(y).Key() == v.Key() {
			return true
		}
	}
	return false
}

func (x *emitted) cellName(f string) string {
	if a, ok := flow.Strip(x.Inst).(*flow.Addr); ok {
		if n, ok := strings.CutPrefix(f, a.Base+"."); ok {
			return "the field " + n
		}
	}
	if n, ok := strings.CutPrefix(f, "state:"); ok {
		return "the field " + n
	}
	return "a variable the instance shares"
}

// protected says why the accesses have no lock in common; empty if they do.
func protected(as []access) string {
	var common map[string]bool
	for _, a := range as {
		if a.Once && !a.Write {
			continue
		}
		h := map[string]bool{}
		for _, l := range a.Ev.Locks {
			if n, ok := strings.CutPrefix(l, "r:"); ok {
				if !a.Write {
					h[n] = true
				}
				continue
			}
			h[l] = true
		}
		if len(h) == 0 {
			what := "read"
			if a.Write {
				what = "written"
			}
			return "but " + a.In + " has it " + what + " without a lock"
		}
		if common == nil {
			common = h
			continue
		}
		for l := range common {
			if !h[l] {
				delete(common, l)
			}
		}
	}
	if common != nil && len(common) == 0 {
		return "under different locks"
	}
	return ""
}

func heldAtEnd(p *flow.Path) []string {
	var held []string
	for _, ev := range during(p) {
		if ev.Kind != "call" || ev.Recv == nil || ev.Gor != 0 {
			continue
		}
		switch ev.Name {
		case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock", "(sync.Locker).Lock":
			held = append(held, ev.Recv.Key())
		case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock", "(sync.Locker).Unlock":
			for i := len(held) - 1; i >= 0; i-- {
				if held[i] == ev.Recv.Key() {
					held = append(held[:i:i], held[i+1:]...)
					break
				}
			}
		}
	}
	return held
}

var _ *ssa.Function
