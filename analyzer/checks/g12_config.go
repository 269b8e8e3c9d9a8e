package checks

import (
	"go/token"
	"sort"
	"strings"

	"verif/analyzer/core"
	"verif/analyzer/emit"
)

func init() {
	register(&Check{
		ID:    "G12",
		Rules: "Every generator is evaluated for nodes of one type and one service that differ in their configuration. A generated file outside the namespace that instantiates the nodes is written once for the service, so it must not depend on the configuration: files of the same path must have the same content.",
		Run: func(c *core.Ctx) {
			g := generated(c)
			alt := emit.New(c)
			alt.Another()
			by := map[string][]*emit.Emission{}
			for _, x := range g.Es {
				by[x.E.Node] = append(by[x.E.Node], x.E)
			}
			for _, e := range alt.EmitAll() {
				by[e.Node] = append(by[e.Node], e)
			}
			var ns []string
			for n := range by {
				ns = append(ns, n)
			}
			sort.Strings(ns)
			for _, n := range ns {
				es := by[n]
				content := map[string]string{}
				for _, e := range es {
					if e.Unk != "" || e.Failed != "" {
						c.Fail("undecided", n, token.NoPos, "what the generator emits could not be determined: %s%s", e.Unk, e.Failed)
						continue
					}
					c.Count("emission", 1)
					for _, p := range e.Order {
						if strings.HasPrefix(p, "wired/") {
							continue
						}
						old, seen := content[p]
						if !seen {
							content[p] = e.Files[p]
							continue
						}
						c.Count("shared file", 1)
						if code(old) != code(e.Files[p]) {
							c.Fail("baked", n, token.NoPos, "the generated class in %s depends on the configuration of the node (%s); a second node of the type for the same service gets the class of the first", p, firstDiff(code(old), code(e.Files[p])))
							content[p] = e.Files[p]
						}
					}
				}
			}
			pairs(c, g)
			c.Floor("emission", 40)
			c.Floor("pair", 50)
			c.Floor("shared file", 25)
		},
	})
}

func firstDiff(a, b string) string {
	as, bs := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(as) && i < len(bs); i++ {
		if as[i] != bs[i] {
			return strings.TrimSpace(as[i]) + " / " + strings.TrimSpace(bs[i])
		}
	}
	return "length"
}

// pairs: two nodes that emit into one process.
func pairs(c *core.Ctx, g *genAll) {
	b := emit.New(c)
	solo := map[string]*emit.Emission{}
	for _, e := range b.EmitAll() {
		if e.Variant != "flag=true" {
			solo[e.Node] = e
		}
	}
	first := b.Sample
	ob := emit.New(c)
	ob.UseOrder()
	osolo := map[string]*emit.Emission{}
	for _, e := range ob.EmitAll() {
		if e.Variant != "flag=true" {
			osolo[e.Node] = e
		}
	}
	gens := emit.Generators(c)
	for _, t := range gens {
		n := core.TypeName(t)
		e := b.EmitPair(t, t, b.Order(), false)
		pair(c, b, n+" of two services", e, solo[n], osolo[n])
		e = b.EmitPair(t, t, first, false)
		pair(c, b, n+" twice for one service", e, solo[n], nil)
		for _, t2 := range gens {
			if t2 == t || t2.Obj().Pkg() != t.Obj().Pkg() {
				continue
			}
			n2 := core.TypeName(t2)
			e = b.EmitPair(t, t2, b.Order(), false)
			pair(c, b, n+" next to "+n2, e, solo[n], osolo[n2])
			e = b.EmitPair(t, t2, first, false)
			pair(c, b, n+" next to "+n2+" of the same service", e, solo[n], solo[n2])
		}
	}
}

func pair(c *core.Ctx, b *emit.B, n string, e, one, two *emit.Emission) {
	c.Count("pair", 1)
	if e.Unk != "" || e.Failed != "" {
		c.Fail("undecided", n, token.NoPos, "what the generators emit could not be determined: %s%s", e.Unk, e.Failed)
		return
	}
	for _, s := range []*emit.Emission{one, two} {
		if s == nil {
			continue
		}
		for _, p := range s.Order {
			if strings.HasPrefix(p, "wired/") || strings.HasSuffix(p, ".sh") {
				continue
			}
			c.Count("file next to another", 1)
			got, ok := e.Files[p]
			if !ok {
				c.Fail("missing", n, token.NoPos, "the file %s is not emitted when the other node is present", p)
			} else if code(got) != code(s.Files[p]) && (one == nil || code(got) != code(one.Files[p])) && (two == nil || code(got) != code(two.Files[p])) {
				c.Fail("disturbed", n, token.NoPos, "the file %s differs when the other node is present: %s", p, firstDiff(code(s.Files[p]), code(got)))
			}
		}
	}
	x := &emitted{E: e}
	x.M = b.Compile(e)
	if len(x.M.Errs) > 0 || len(x.M.IDL) > 0 {
		c.Fail("compiles", n, token.NoPos, "the emitted code does not type-check: %s", trunc(strings.Join(append(x.M.IDL, x.M.Errs...), "; ")))
		return
	}
	for _, inst := range []string{e.Inst, e.Inst2} {
		e2 := *e
		e2.Inst = inst
		y := &emitted{E: &e2, M: x.M}
		instantiate(y)
		c.Count("instance", 1)
		if y.Inst == nil {
			c.Fail("instantiates", n, token.NoPos, "the instantiation code of %s yields no instance: %s", inst, y.BadPath)
		}
	}
}

// code is a file without its imports and comment lines.
func code(s string) string {
	var out []string
	if i := strings.Index(s, "\nimport ("); i >= 0 {
		if j := strings.Index(s[i:], "\n)"); j >= 0 {
			s = s[:i] + s[i+j+2:]
		}
	}
	for _, l := range strings.Split(s, "\n") {
		if t := strings.TrimSpace(l); t != "" && !strings.HasPrefix(t, "//") {
			out = append(out, l)
		}
	}
	return strings.Join(out, "\n")
}
