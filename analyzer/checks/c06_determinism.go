package checks

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/core"
	"verif/analyzer/emit"
)

// C06: compiling the same application again gives the same files.
//
// Two parts. Whatever a generator writes is evaluated twice, with every iteration over a map
// going one way and then the other. In the code of the compiler that is not evaluated this way,
// every loop over a map is classified by what its order can reach.

type detLint struct {
	c       *core.Ctx
	sorted  map[string]bool // fields whose content is sorted somewhere
	covered map[*ssa.IndexAddr]bool
}

// mapLoop is a natural loop over a map.
type mapLoop struct {
	fn     *ssa.Function
	pos    token.Pos
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	taint  map[ssa.Value]bool
	seeds  map[ssa.Value]bool // the key and the value
}

func mapLoops(f *ssa.Function) (out []*mapLoop) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			nx, ok := in.(*ssa.Next)
			if !ok || nx.IsString {
				continue
			}
			rng, ok := nx.Iter.(*ssa.Range)
			if !ok {
				continue
			}
			if _, ok := rng.X.Type().Underlying().(*types.Map); !ok {
				continue
			}
			l := &mapLoop{fn: f, pos: rng.Pos(), head: b, taint: map[ssa.Value]bool{}}
			l.blocks = natural(b)
			l.blocks[b] = true
			for _, r := range *nx.Referrers() {
				if x, ok := r.(*ssa.Extract); ok && x.Index > 0 {
					l.taint[x] = true
				}
			}
			l.spread()
			out = append(out, l)
		}
	}
	return
}

// natural: the blocks that reach a back edge to the head without passing it.
func natural(head *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	out := map[*ssa.BasicBlock]bool{}
	var work []*ssa.BasicBlock
	for _, p := range head.Preds {
		if head.Dominates(p) {
			work = append(work, p)
		}
	}
	if len(work) > 0 {
		out[head] = true
	}
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if out[x] {
			continue
		}
		out[x] = true
		work = append(work, x.Preds...)
	}
	return out
}

// spread marks the values computed from the key or the value of the iteration.
func (l *mapLoop) spread() {
	l.seeds = map[ssa.Value]bool{}
	for v := range l.taint {
		l.seeds[v] = true
	}
	for changed := true; changed; {
		changed = false
		for _, b := range l.fn.Blocks {
			// also blocks that leave the loop: what they compute from the key is as arbitrary
			if !l.head.Dominates(b) {
				continue
			}
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && l.taint[s.Val] {
					if a, ok := rootAlloc(s.Addr); ok && l.blocks[a.Block()] && !l.taint[a] {
						l.taint[a] = true
						changed = true
					}
				}
				v, ok := in.(ssa.Value)
				if !ok || l.taint[v] {
					continue
				}
				if ph, ok := in.(*ssa.Phi); ok && !l.blocks[b] && len(ph.Edges) > 1 {
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op != nil && l.taint[*op] {
						l.taint[v] = true
						changed = true
						break
					}
				}
			}
		}
	}
}

// inv: the value exists once, before the loop.
func (l *mapLoop) inv(v ssa.Value) bool {
	if l.taint[v] {
		return false
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		return true
	}
	if !l.blocks[in.Block()] {
		return true
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		return l.inv(x.X)
	case *ssa.FieldAddr:
		return l.inv(x.X)
	case *ssa.Field:
		return l.inv(x.X)
	case *ssa.MakeInterface:
		return l.inv(x.X)
	case *ssa.ChangeInterface:
		return l.inv(x.X)
	case *ssa.ChangeType:
		return l.inv(x.X)
	case *ssa.TypeAssert:
		return l.inv(x.X)
	case *ssa.Extract:
		return l.inv(x.Tuple)
	case *ssa.Phi:
		// the accumulator of the loop
		return x.Block() == l.head
	}
	return false
}

// told: the value only ends up in messages.
func told(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	refs := v.Referrers()
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		switch x := r.(type) {
		case *ssa.DebugRef:
		case ssa.CallInstruction:
			n := core.CalleeName(x)
			if bi, ok := x.Common().Value.(*ssa.Builtin); ok {
				switch bi.Name() {
				case "len", "cap", "print", "println":
					continue
				case "append":
				default:
					return false
				}
			}
			if isMessage(n) {
				continue
			}
			cv, ok := x.(*ssa.Call)
			if !ok {
				return false
			}
			if n == "fmt.Sprintf" || n == "fmt.Sprint" || n == "fmt.Sprintln" || strings.HasPrefix(n, "strings.") || isAppend(x) {
				if !told(cv, seen) {
					return false
				}
				continue
			}
			return false
		case *ssa.Store:
			a, ok := rootAlloc(x.Addr)
			if !ok || !told(a, seen) {
				return false
			}
		case *ssa.Phi, *ssa.MakeInterface, *ssa.Slice, *ssa.ChangeType, *ssa.Convert, *ssa.BinOp, *ssa.IndexAddr, *ssa.UnOp, *ssa.ChangeInterface:
			if !told(r.(ssa.Value), seen) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func isBuiltin(ci ssa.CallInstruction, name string) bool {
	b, ok := ci.Common().Value.(*ssa.Builtin)
	return ok && b.Name() == name
}

// adds: the call adds to a list, itself or by a function that does nothing else.
func adds(ci ssa.CallInstruction) (list ssa.Value, rest []ssa.Value, ok bool) {
	args := ci.Common().Args
	if isBuiltin(ci, "append") {
		return args[0], args[1:], true
	}
	g := ci.Common().StaticCallee()
	if g == nil || len(g.Blocks) != 1 {
		return nil, nil, false
	}
	r, is := g.Blocks[0].Instrs[len(g.Blocks[0].Instrs)-1].(*ssa.Return)
	if !is || len(r.Results) != 1 {
		return nil, nil, false
	}
	cv, is := r.Results[0].(*ssa.Call)
	if !is || !isBuiltin(cv, "append") {
		return nil, nil, false
	}
	list = cv.Call.Args[0]
	if u, is := list.(*ssa.UnOp); is { // a field of a parameter
		if fa, is := u.X.(*ssa.FieldAddr); is {
			list = fa.X
		}
	}
	for i, p := range g.Params {
		if list == ssa.Value(p) && i < len(args) {
			return args[i], append(append([]ssa.Value(nil), args[:i]...), args[i+1:]...), true
		}
	}
	return nil, nil, false
}

func isAppend(ci ssa.CallInstruction) bool {
	_, _, ok := adds(ci)
	return ok
}

func rootAlloc(v ssa.Value) (*ssa.Alloc, bool) {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return x, true
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.FieldAddr:
			v = x.X
		default:
			return nil, false
		}
	}
}

func isMessage(n string) bool {
	return n == "fmt.Errorf" || n == "errors.New" || n == "errors.Join" || strings.HasSuffix(n, ".Errorf") || strings.HasPrefix(n, "golang.org/x/exp/slog.") || strings.HasPrefix(n, "log/slog.") || strings.HasPrefix(n, "log.") || strings.HasPrefix(n, "fmt.Print")
}

func isSort(n string) bool {
	if strings.HasSuffix(n, ".init") {
		return false
	}
	return strings.HasPrefix(n, "sort.") || n == "(sort.StringSlice).Sort" || n == "(sort.IntSlice).Sort" || strings.HasPrefix(n, "slices.Sort") || strings.HasPrefix(n, "golang.org/x/exp/slices.Sort")
}

// use is one place where an unordered value ends up.
type use struct {
	what string
	pos  token.Pos
}

// ends follows a slice whose order is arbitrary to where the order shows; nothing when it is
// sorted first. depth bounds the calls followed.
func (d *detLint) ends(v ssa.Value, from *mapLoop, depth int, seen map[ssa.Value]bool) (out []use) {
	if seen[v] || v.Referrers() == nil {
		return nil
	}
	seen[v] = true
	outside := func(in ssa.Instruction) bool { return from == nil || in.Parent() != from.fn || !from.blocks[in.Block()] }
	sorts := d.sortsOf(v, outside)
	before := func(in ssa.Instruction) bool { return after(sorts, in) }
	carries := func(in ssa.Instruction) bool {
		switch in.(type) {
		case *ssa.Phi, *ssa.Store:
			return true
		}
		return false
	}
	for _, r := range *v.Referrers() {
		if !outside(r) && !carries(r) || before(r) {
			continue
		}
		switch x := r.(type) {
		case *ssa.Return:
			if depth <= 0 {
				continue
			}
			for i, res := range x.Results {
				if res == v {
					sites := d.callers(x.Parent())
					if len(sites) == 0 && x.Parent().Parent() == nil {
						out = append(out, use{"it is handed to whoever calls " + core.Name(x.Parent()), x.Pos()})
					}
					for _, site := range sites {
						cv, ok := site.(*ssa.Call)
						if !ok {
							continue
						}
						var rv ssa.Value = cv
						if len(x.Results) > 1 {
							rv = core.Result(cv, i)
						}
						if rv != nil {
							out = append(out, d.ends(rv, nil, depth-1, seen)...)
						}
					}
				}
			}
		case *ssa.Phi, *ssa.Slice, *ssa.ChangeType, *ssa.Convert, *ssa.MakeInterface, *ssa.ChangeInterface:
			out = append(out, d.ends(r.(ssa.Value), from, depth, seen)...)
		case *ssa.Store:
			if x.Val != v {
				continue
			}
			if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
				if depth > 0 && !d.sorted[fieldKey(fa)] {
					for _, ld := range d.loads(fieldKey(fa)) {
						for _, u := range d.ends(ld, nil, depth-1, seen) {
							u.what = "it is kept in " + fieldKey(fa) + ", and " + u.what
							out = append(out, u)
						}
					}
				}
				if d.inTemplate(fa) {
					out = append(out, use{"it is kept in " + fieldKey(fa) + ", which a template reads", x.Pos()})
				}
				continue
			}
			if a, ok := rootAlloc(x.Addr); ok {
				var lds []*ssa.UnOp
				var sorts []ssa.Instruction
				for _, r2 := range *a.Referrers() {
					if ld, ok := r2.(*ssa.UnOp); ok && ld.Op == token.MUL {
						lds = append(lds, ld)
						sorts = append(sorts, d.sortsOf(ld, outside)...)
					}
				}
				for _, ld := range lds {
					if !after(sorts, ld) {
						out = append(out, d.ends(ld, from, depth, seen)...)
					}
				}
			}
		case *ssa.IndexAddr, *ssa.Index:
			// element by element: judged by what the loop over it does
			if ia, ok := r.(*ssa.IndexAddr); ok && ia.X == v {
				out = append(out, d.elements(ia)...)
			}
		case ssa.CallInstruction:
			n := core.CalleeName(x)
			switch {
			case isBuiltin(x, "len"), isBuiltin(x, "cap"), isMessage(n), isSort(n):
			case isAppend(x):
				if cv, ok := x.(*ssa.Call); ok {
					out = append(out, d.ends(cv, from, depth, seen)...)
				}
			case n == "strings.Join":
				if cv, ok := x.(*ssa.Call); ok && !told(cv, map[ssa.Value]bool{}) {
					out = append(out, use{"it is joined into a text", x.Pos()})
				}
			default:
				callee := x.Common().StaticCallee()
				if callee == nil || len(callee.Blocks) == 0 || depth <= 0 {
					continue
				}
				for i, a := range x.Common().Args {
					if a == v && i < len(callee.Params) {
						out = append(out, d.ends(callee.Params[i], nil, depth-1, seen)...)
					}
				}
			}
		}
	}
	return
}

// inTemplate: a template of the package reads the field.
func (d *detLint) inTemplate(fa *ssa.FieldAddr) bool {
	texts := core.Memo(d.c, "det.templates", func() map[string][]string {
		out := map[string][]string{}
		for _, f := range d.c.Under("blueprint/", "plugins/") {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						if k, ok := (*op).(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
							if t := constant.StringVal(k.Value); strings.Contains(t, "{{") {
								out[core.PkgOf(f)] = append(out[core.PkgOf(f)], t)
							}
						}
					}
				}
			}
		}
		return out
	})
	n, ok := core.Deref(fa.X.Type()).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	read := regexp.MustCompile(`\{\{[^}]*\.` + core.FieldName(fa.X, fa.Field) + `\b`)
	for _, t := range texts[core.Short(n.Obj().Pkg().Path())] {
		if read.MatchString(t) {
			return true
		}
	}
	return false
}

// sortsOf: where the list is put in order, in place, by a call on it or on a conversion of it.
func (d *detLint) sortsOf(v ssa.Value, outside func(ssa.Instruction) bool) (sorts []ssa.Instruction) {
	vals := []ssa.Value{v}
	for i := 0; i < len(vals); i++ {
		for _, r := range *vals[i].Referrers() {
			if !outside(r) {
				continue
			}
			switch x := r.(type) {
			case ssa.CallInstruction:
				if d.sorts(x, vals[i], 0) {
					sorts = append(sorts, r)
				}
			case *ssa.MakeInterface, *ssa.ChangeType, *ssa.Slice:
				if i < 8 {
					vals = append(vals, r.(ssa.Value))
				}
			}
		}
	}
	return
}

// after: the instruction comes after one of the others on every path.
func after(sorts []ssa.Instruction, in ssa.Instruction) bool {
	for _, s := range sorts {
		if s.Parent() != in.Parent() {
			continue
		}
		if s.Block() == in.Block() {
			for _, x := range s.Block().Instrs {
				if x == s {
					return true
				}
				if x == in {
					break
				}
			}
		} else if s.Block().Dominates(in.Block()) {
			return true
		}
	}
	return false
}

// loads are the places where the field is read.
func (d *detLint) loads(key string) []ssa.Value {
	m := core.Memo(d.c, "det.loads", func() map[string][]ssa.Value {
		out := map[string][]ssa.Value{}
		for _, f := range d.c.Under("blueprint/", "plugins/") {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if ld, ok := in.(*ssa.UnOp); ok && ld.Op == token.MUL {
						if fa, ok := ld.X.(*ssa.FieldAddr); ok {
							out[fieldKey(fa)] = append(out[fieldKey(fa)], ld)
						}
					}
				}
			}
		}
		return out
	})
	return m[key]
}

func (d *detLint) callers(f *ssa.Function) []ssa.CallInstruction {
	m := core.Memo(d.c, "det.callers", func() map[*ssa.Function][]ssa.CallInstruction {
		out := map[*ssa.Function][]ssa.CallInstruction{}
		for _, g := range d.c.Funcs() {
			for _, ci := range core.Calls(g) {
				if sc := ci.Common().StaticCallee(); sc != nil {
					out[sc] = append(out[sc], ci)
					if o := sc.Origin(); o != nil && o != sc {
						out[o] = append(out[o], ci)
					}
				}
			}
		}
		return out
	})
	return m[f]
}

// sorts: the call puts the slice in order.
func (d *detLint) sorts(ci ssa.CallInstruction, v ssa.Value, depth int) bool {
	n := core.CalleeName(ci)
	if isSort(n) {
		return len(ci.Common().Args) > 0 && ci.Common().Args[0] == v
	}
	callee := ci.Common().StaticCallee()
	if callee == nil || depth > 2 || len(callee.Blocks) == 0 {
		return false
	}
	for i, a := range ci.Common().Args {
		if a != v || i >= len(callee.Params) {
			continue
		}
		var vals []ssa.Value
		vals = append(vals, callee.Params[i])
		for j := 0; j < len(vals); j++ {
			for _, r := range *vals[j].Referrers() {
				switch x := r.(type) {
				case *ssa.MakeInterface, *ssa.ChangeType:
					vals = append(vals, r.(ssa.Value))
				case ssa.CallInstruction:
					if d.sorts(x, vals[j], depth+1) {
						return true
					}
				}
			}
		}
	}
	return false
}

// elements: what is done with the elements one after the other.
func (d *detLint) elements(ia *ssa.IndexAddr) (out []use) {
	for _, r := range *ia.Referrers() {
		ld, ok := r.(*ssa.UnOp)
		if !ok || ld.Op != token.MUL {
			continue
		}
		if _, fixed := ia.Index.(*ssa.Const); fixed {
			if !told(ld, map[ssa.Value]bool{}) && !theOnlyOne(ia) {
				out = append(out, use{"one of its elements is picked by position", ia.Pos()})
			}
			continue
		}
		if l := listLoop(ia, ld); l != nil && !d.covered[ia] {
			d.covered[ia] = true
			d.loop(l)
		}
	}
	return
}

// listLoop is the innermost loop that passes over the elements of an unordered list.
func listLoop(ia *ssa.IndexAddr, ld *ssa.UnOp) *mapLoop {
	f := ia.Parent()
	for h := ia.Block(); h != nil; h = h.Idom() {
		blocks := natural(h)
		if !blocks[ia.Block()] {
			continue
		}
		l := &mapLoop{fn: f, head: h, blocks: blocks, pos: ia.Pos(), taint: map[ssa.Value]bool{}}
		l.taint[ld] = true
		l.spread()
		return l
	}
	return nil
}

// theOnlyOne: the list is known to have one element.
func theOnlyOne(ia *ssa.IndexAddr) bool {
	prev := ia.Block()
	for x := prev.Idom(); x != nil; prev, x = x, x.Idom() {
		i, ok := x.Instrs[len(x.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		b, ok := i.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		call, ok := b.X.(*ssa.Call)
		k, isK := b.Y.(*ssa.Const)
		if !ok || !isK || !isBuiltin(call, "len") || call.Call.Args[0] != ia.X || k.Int64() != 1 {
			continue
		}
		if b.Op == token.EQL && x.Succs[0].Dominates(prev) || (b.Op == token.NEQ || b.Op == token.GTR) && x.Succs[1].Dominates(prev) && !x.Succs[0].Dominates(prev) {
			return true
		}
	}
	return false
}

func isWrite(n string) bool {
	return strings.HasPrefix(n, "fmt.Fprint") || n == "io.WriteString" || n == "(*strings.Builder).WriteString" || n == "(*bytes.Buffer).WriteString" ||
		n == "(*strings.Builder).Write" || n == "(*bytes.Buffer).Write" || n == "(*os.File).WriteString" || n == "(*os.File).Write"
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// accumulates: the text is added to again the next time round.
func accumulates(x *ssa.BinOp) bool {
	seen := map[ssa.Value]bool{}
	var back func(v ssa.Value) bool
	back = func(v ssa.Value) bool {
		if v == ssa.Value(x) {
			return true
		}
		if seen[v] {
			return false
		}
		seen[v] = true
		switch y := v.(type) {
		case *ssa.BinOp:
			return back(y.X) || back(y.Y)
		case *ssa.Phi:
			for _, e := range y.Edges {
				if back(e) {
					return true
				}
			}
		case *ssa.UnOp:
			if a, ok := y.X.(*ssa.Alloc); ok {
				for _, r := range *a.Referrers() {
					if s, ok := r.(*ssa.Store); ok && s.Addr == a && back(s.Val) {
						return true
					}
				}
			}
		}
		return false
	}
	return back(x.X) || back(x.Y)
}

func fieldKey(fa *ssa.FieldAddr) string {
	return core.TypeName(core.Deref(fa.X.Type())) + "." + core.FieldName(fa.X, fa.Field)
}

// sortedFields are the fields whose slices are put in order somewhere.
func sortedFields(c *core.Ctx) map[string]bool {
	out := map[string]bool{}
	for _, f := range c.Funcs() {
		for _, ci := range core.Calls(f) {
			if !isSort(core.CalleeName(ci)) {
				continue
			}
			v := ci.Common().Args[0]
			for {
				if mi, ok := v.(*ssa.MakeInterface); ok {
					v = mi.X
				} else if ct, ok := v.(*ssa.ChangeType); ok {
					v = ct.X
				} else {
					break
				}
			}
			if ld, ok := v.(*ssa.UnOp); ok {
				if fa, ok := ld.X.(*ssa.FieldAddr); ok {
					out[fieldKey(fa)] = true
				}
			}
		}
	}
	return out
}

// keeps: the function appends to a list its receiver (or a package variable) holds; "" if not.
func (d *detLint) keeps(f *ssa.Function, depth int, seen map[*ssa.Function]bool) string {
	if f == nil || seen[f] || depth > 3 || len(f.Blocks) == 0 {
		return ""
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			cv, ok := st.Val.(*ssa.Call)
			if !ok || !isAppend(cv) {
				continue
			}
			if fa, ok := st.Addr.(*ssa.FieldAddr); ok && len(f.Params) > 0 && f.Signature.Recv() != nil && rootedIn(fa.X, f.Params[0]) {
				k := fieldKey(fa)
				if d.sorted[k] {
					continue
				}
				if d.inTemplate(fa) {
					return k + ", which a template reads"
				}
				for _, ld := range d.loads(k) {
					if us := d.ends(ld, nil, 2, map[ssa.Value]bool{}); len(us) > 0 {
						return k + ", and " + us[0].what
					}
				}
			}
		}
	}
	for _, ci := range core.Calls(f) {
		sc := ci.Common().StaticCallee()
		if sc == nil || sc.Signature.Recv() == nil || f.Signature.Recv() == nil || len(ci.Common().Args) == 0 {
			continue
		}
		if rootedIn(ci.Common().Args[0], f.Params[0]) {
			if k := d.keeps(sc, depth+1, seen); k != "" {
				return k
			}
		}
	}
	return ""
}

func rootedIn(v, p ssa.Value) bool {
	for {
		if v == p {
			return true
		}
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.UnOp:
			v = x.X
		default:
			return false
		}
	}
}

// loop classifies one loop over a map.
func (d *detLint) loop(l *mapLoop) {
	c := d.c
	name := core.Name(l.fn)
	fail := func(rule string, pos token.Pos, f string, a ...any) {
		if !pos.IsValid() {
			pos = l.pos
		}
		c.Fail(rule, name, pos, f, a...)
	}
	c.Ok("map-loops", fmt.Sprintf("%s at %s", name, c.Pos(l.pos)))
	for b := range l.blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Call:
				n := core.CalleeName(x)
				switch {
				case isAppend(x):
					if list, rest, _ := adds(x); !l.any(rest) && !l.inv(list) {
						continue
					}
					if !l.grows(x) {
						continue
					}
					if d.debugText(l.fn) {
						continue
					}
					for _, u := range d.ends(x, l, 3, map[ssa.Value]bool{}) {
						fail("list-order", x.Pos(), "a list is filled in the order a map is iterated over, which differs from run to run, and %s", u.what)
					}
				case isWrite(n):
					if l.inv(x.Call.Args[0]) && !d.debugText(l.fn) {
						fail("text-order", x.Pos(), "text is written in the order a map is iterated over, which differs from run to run")
					}
				default:
					if l.folds(x) {
						fail("fold-order", x.Pos(), "%s is given the outcome for one entry of a map with the next, in the order the map is iterated over, which differs from run to run", n)
					}
					if keepsOrder(n) && l.inv(x.Call.Args[0]) && l.any(x.Call.Args) {
						fail("list-order", x.Pos(), "%s is called in the order a map is iterated over, which differs from run to run", n)
					}
					for _, callee := range d.callees(x) {
						recv := x.Call.Value
						if !x.Call.IsInvoke() {
							if callee.Signature.Recv() == nil || len(x.Call.Args) == 0 {
								continue
							}
							recv = x.Call.Args[0]
						}
						if !l.inv(recv) && !l.group(recv) || !l.any(x.Call.Args) {
							continue
						}
						if k := d.keeps(callee, 0, map[*ssa.Function]bool{}); k != "" {
							fail("list-order", x.Pos(), "%s keeps what it is given in a list (%s), and it is called in the order a map is iterated over, which differs from run to run", core.Name(callee), k)
						}
					}
				}
			case *ssa.BinOp:
				if x.Op == token.ADD && isString(x.Type()) && accumulates(x) && !d.debugText(l.fn) {
					if !told(x, map[ssa.Value]bool{}) {
						fail("text-order", x.Pos(), "a text grows in the order a map is iterated over, which differs from run to run")
					}
				}
			case *ssa.Go, *ssa.Send:
			case *ssa.Store:
				if fa, ok := x.Addr.(*ssa.FieldAddr); ok && l.inv(fa.X) && l.taint[x.Val] && l.unconditional(b) {
					if cv, ok := x.Val.(*ssa.Call); !ok || !isAppend(cv) {
						fail("last-wins", x.Pos(), "%s holds whatever entry of the map came last, which differs from run to run", fieldKey(fa))
					}
				}
			}
		}
	}
	// the first entry that fits
	for _, b := range l.fn.Blocks {
		if !l.head.Dominates(b) || l.blocks[b] || !l.exit(b) {
			continue
		}
		for _, in := range b.Instrs {
			if r, ok := in.(*ssa.Return); ok {
				for _, v := range r.Results {
					if l.taint[v] && !core.IsError(v.Type()) && !l.onlyMatch(b) {
						fail("first-wins", r.Pos(), "the entry of a map that is returned is the first one met that fits, and the order differs from run to run")
					}
				}
			}
		}
	}
	for _, b := range l.fn.Blocks {
		if l.blocks[b] {
			continue
		}
		for _, in := range b.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			for i, e := range ph.Edges {
				from := b.Preds[i]
				if l.taint[e] && !core.IsError(e.Type()) && (l.blocks[from] && from != l.head || l.exit(from)) && !l.onlyMatch(from) && !told(ph, map[ssa.Value]bool{}) {
					fail("first-wins", l.pos, "the entry of a map that is picked is the first one met that fits, and the order differs from run to run")
				}
			}
		}
	}
	// the last entry
	for _, in := range l.head.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			continue
		}
		for i, e := range ph.Edges {
			from := l.head.Preds[i]
			if l.blocks[from] && l.taint[e] && !core.IsError(e.Type()) && e != ssa.Value(ph) && d.lastWins(l, ph, e) {
				fail("last-wins", l.pos, "the entry of a map that is picked is whichever came last, and the order differs from run to run")
			}
		}
	}
}

// group: the value is that of a group which entries share, found by something other than the key.
func (l *mapLoop) group(v ssa.Value) bool {
	lk, ok := v.(*ssa.Lookup)
	if !ok || !l.inv(lk.X) || l.seeds[lk.Index] {
		return false
	}
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if o, ok := in.(*ssa.Lookup); ok && o.CommaOk && l.inv(o.X) && sameCell(o.X, lk.X) && !l.seeds[o.Index] {
				return true
			}
		}
	}
	return false
}

func sameCell(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	if ok1 && ok2 {
		f, ok1 := x.X.(*ssa.FieldAddr)
		g, ok2 := y.X.(*ssa.FieldAddr)
		return x.X == y.X || ok1 && ok2 && f.X == g.X && f.Field == g.Field
	}
	return false
}

// folds: the outcome of the call for one entry is an argument of the call for the next.
func (l *mapLoop) folds(x *ssa.Call) bool {
	if !l.any(x.Call.Args) && !l.taint[x.Call.Value] {
		return false
	}
	if n := core.CalleeName(x); isMessage(n) {
		return false
	}
	outs := map[ssa.Value]bool{x: true}
	for _, r := range *x.Referrers() {
		if e, ok := r.(*ssa.Extract); ok {
			outs[e] = true
		}
	}
	for _, a := range x.Call.Args {
		ph, ok := a.(*ssa.Phi)
		if !ok || ph.Block() != l.head || core.IsError(ph.Type()) {
			continue
		}
		switch t := ph.Type().Underlying().(type) {
		case *types.Slice:
		case *types.Basic:
			if t.Info()&types.IsString == 0 {
				continue
			}
		default:
			continue
		}
		for _, e := range ph.Edges {
			if outs[e] && !told(ph, map[ssa.Value]bool{}) {
				return true
			}
		}
	}
	return false
}

// keepsOrder: library operations that add to an ordered document.
func keepsOrder(n string) bool {
	return strings.HasPrefix(n, "(*golang.org/x/mod/modfile.File).Add") || strings.HasPrefix(n, "(*golang.org/x/mod/modfile.WorkFile).Add")
}

// exit: a block outside the loop that is only reached from inside its body, not by running out.
func (l *mapLoop) exit(b *ssa.BasicBlock) bool {
	if l.blocks[b] {
		return false
	}
	for x := b; x != nil; x = x.Idom() {
		if l.blocks[x] {
			return x != l.head
		}
		// the block the loop runs out to
		for _, p := range x.Preds {
			if p == l.head {
				return false
			}
		}
	}
	return false
}

func (l *mapLoop) any(vs []ssa.Value) bool {
	for _, v := range vs {
		if l.taint[v] {
			return true
		}
	}
	return false
}

// grows: the list appended to is one that exists before the loop.
func (l *mapLoop) grows(x *ssa.Call) bool {
	seen := map[ssa.Value]bool{}
	var up func(v ssa.Value) bool
	up = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		switch y := v.(type) {
		case *ssa.Phi:
			if y.Block() == l.head {
				return true
			}
			if !l.blocks[y.Block()] {
				return true
			}
			for _, e := range y.Edges {
				if up(e) {
					return true
				}
			}
		case *ssa.Call:
			if list, _, ok := adds(y); ok {
				if _, is := list.Type().Underlying().(*types.Slice); !is {
					return l.inv(list)
				}
				return up(list)
			}
			return !l.blocks[y.Block()]
		case *ssa.UnOp:
			if a, ok := rootAlloc(y.X); ok {
				return !l.blocks[a.Block()] || a.Heap && false
			}
			return l.inv(y.X)
		case *ssa.Slice:
			return up(y.X)
		case *ssa.Const, *ssa.Parameter, *ssa.FreeVar:
			return false
		case *ssa.Lookup:
			return l.inv(y.X) && l.inv(y.Index)
		}
		return false
	}
	list, _, _ := adds(x)
	if list == nil {
		return false
	}
	if _, is := list.Type().Underlying().(*types.Slice); !is {
		return l.inv(list)
	}
	return up(list)
}

// unconditional: the block is passed whenever the body runs.
func (l *mapLoop) unconditional(b *ssa.BasicBlock) bool {
	for _, p := range l.head.Preds {
		if l.blocks[p] && !b.Dominates(p) {
			return false
		}
	}
	return true
}

// onlyMatch: the block is reached only if something of the entry equals a given value.
func (l *mapLoop) onlyMatch(b *ssa.BasicBlock) bool {
	prev := b
	for x := b; x != nil; x = x.Idom() {
		if x != b && len(x.Instrs) > 0 {
			if i, ok := x.Instrs[len(x.Instrs)-1].(*ssa.If); ok && l.blocks[x] && x != l.head {
				if l.matches(i.Cond, x.Succs[0] == prev || x.Succs[0].Dominates(prev)) {
					return true
				}
			}
		} else if x == b && l.blocks[x] {
			if i, ok := x.Instrs[len(x.Instrs)-1].(*ssa.If); ok && x != l.head {
				for j, s := range x.Succs {
					if !l.blocks[s] && l.matches(i.Cond, j == 0) {
						return true
					}
				}
			}
		}
		if x == l.head {
			break
		}
		prev = x
	}
	return false
}

func (l *mapLoop) matches(v ssa.Value, truth bool) bool {
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return l.matches(x.X, !truth)
		}
	case *ssa.Extract:
		// a lookup of a given key: it is in one of them
		if lk, ok := x.Tuple.(*ssa.Lookup); ok && x.Index == 1 && truth {
			return l.taint[lk.X] && !l.taint[lk.Index]
		}
	case *ssa.BinOp:
		if truth && x.Op == token.EQL || !truth && x.Op == token.NEQ {
			_, cx := x.X.(*ssa.Const)
			_, cy := x.Y.(*ssa.Const)
			if cx || cy {
				return false
			}
			return l.taint[x.X] != l.taint[x.Y]
		}
	}
	return false
}

// lastWins: the value is replaced by that of the entry without having been looked at.
func (d *detLint) lastWins(l *mapLoop, ph *ssa.Phi, e ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var dep func(v ssa.Value) bool // computed from the earlier value
	dep = func(v ssa.Value) bool {
		if v == ssa.Value(ph) {
			return true
		}
		if seen[v] {
			return false
		}
		seen[v] = true
		in, ok := v.(ssa.Instruction)
		if !ok || !l.blocks[in.Block()] {
			return false
		}
		for _, op := range in.Operands(nil) {
			if *op != nil && dep(*op) {
				return true
			}
		}
		return false
	}
	if dep(e) {
		return false
	}
	if ph.Referrers() == nil || told(ph, map[ssa.Value]bool{}) {
		return false
	}
	return true
}

func (d *detLint) callees(x *ssa.Call) []*ssa.Function {
	if sc := x.Call.StaticCallee(); sc != nil {
		return []*ssa.Function{sc}
	}
	return nil
}

// debugText: a String method, whose result is for people; those that end up in files are
// among what is evaluated.
func (d *detLint) debugText(f *ssa.Function) bool { return d.debug(core.Top(f), 0) }

func (d *detLint) debug(f *ssa.Function, depth int) bool {
	if f.Name() == "String" && f.Signature.Recv() != nil {
		return true
	}
	cs := d.callers(f)
	for _, ci := range cs {
		if depth > 2 || !d.debug(core.Top(ci.Parent()), depth+1) {
			return false
		}
	}
	return len(cs) > 0
}

func init() {
	register(&Check{
		ID:    "C06",
		Rules: "Every generator is evaluated for the schematic service and further ones, and every schematic deployment, once with all iterations over maps going one way and once the other: the files are the same byte by byte. In the code of the compiler every loop over a map is followed to where its order can show: a list it fills that is neither sorted nor only counted or told in messages (followed through calls, results, fields and further loops), text it writes or adds to, the first or last entry that fits being picked, an outcome handed from one entry to the next, calls that keep what they are given in a list or a library's document. The compiler starts nothing concurrently and uses no clock, random number, process or host identity, or unsorted list of map keys outside of messages.",
		Run: func(c *core.Ctx) {
			d := &detLint{c: c, sorted: sortedFields(c), covered: map[*ssa.IndexAddr]bool{}}
			for _, f := range c.Under("blueprint/", "plugins/") {
				d.sources(f)
				for _, l := range mapLoops(f) {
					d.loop(l)
				}
			}
			d.emitted()
			d.deployed()
			c.Floor("functions", 900)
			c.Floor("map-loops", 40)
			c.Floor("emissions", 120)
			c.Floor("files", 300)
			c.Floor("deployments", 100)
		},
	})
}

// sources: what differs from run to run by itself.
func (d *detLint) sources(f *ssa.Function) {
	c := d.c
	c.Count("functions", 1)
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Go:
				c.Fail("concurrent", core.Name(f), x.Pos(), "the compiler does this concurrently with the rest, so that the order of what it does differs from run to run")
			case *ssa.Select:
				c.Fail("concurrent", core.Name(f), x.Pos(), "which case is taken differs from run to run")
			case ssa.CallInstruction:
				n := core.CalleeName(x)
				if arbitrary(n) {
					if cv, ok := x.(*ssa.Call); ok && !told(cv, map[ssa.Value]bool{}) {
						c.Fail("arbitrary", core.Name(f), x.Pos(), "the result of %s differs from run to run", n)
					}
				}
			}
		}
	}
}

func arbitrary(n string) bool {
	switch n {
	case "time.Now", "os.Getpid", "os.Getppid", "os.Hostname", "os.MkdirTemp", "os.CreateTemp", "(reflect.Value).Pointer", "(reflect.Value).MapKeys", "(reflect.Value).MapRange", "maps.Keys", "maps.Values", "maps.All", "golang.org/x/exp/maps.Keys", "golang.org/x/exp/maps.Values":
		return true
	}
	return strings.HasPrefix(n, "math/rand.") || strings.HasPrefix(n, "math/rand/v2.") || strings.HasPrefix(n, "(*math/rand.Rand)") || strings.HasPrefix(n, "crypto/rand.") || strings.HasPrefix(n, "github.com/google/uuid.")
}

// emitted compares what generators write under one order of map iterations and under the other.
func (d *detLint) emitted() {
	c := d.c
	compare := func(in string, use func(b *emit.B)) {
		b, o := emit.New(c), emit.New(c)
		use(b)
		use(o)
		o.Rev = true
		fwd, rev := b.EmitAll(), o.EmitAll()
		if len(fwd) != len(rev) {
			c.Fail("undecided", "generators", token.NoPos, "%d generators were evaluated and then %d", len(fwd), len(rev))
			return
		}
		for i, e := range fwd {
			r := rev[i]
			if e.Unk != "" || r.Unk != "" {
				c.Fail("undecided", e.Name(), e.Named.Obj().Pos(), "what it writes could not be evaluated: %s%s", e.Unk, r.Unk)
				continue
			}
			if (e.Failed != "") != (r.Failed != "") {
				c.Fail("output-order", e.Name(), e.Named.Obj().Pos(), "whether it fails differs with the order in which maps are iterated over: %s%s", e.Failed, r.Failed)
				continue
			}
			if e.Failed != "" {
				c.Count("refused", 1)
				continue
			}
			c.Count("emissions", 1)
			for _, f := range sortedKeys(merge(e.Files, r.Files)) {
				if e.Files[f] != r.Files[f] {
					c.Fail("output-order", e.Node, e.Named.Obj().Pos(), "what %s writes in %s for %s differs with the order in which maps are iterated over: %s", e.Name(), f, in, firstDiff(e.Files[f], r.Files[f]))
				} else {
					c.Ok("files", e.Name()+" "+f)
				}
			}
		}
	}
	compare("the schematic service", func(b *emit.B) {})
	for _, sh := range emit.Shapes() {
		compare("a service with "+sh.Label, func(b *emit.B) { b.Use(sh) })
	}
}

// deployed compares what the deployment generators write in the same way.
func (d *detLint) deployed() {
	f := d.c.Fork("C06")
	for _, id := range []string{"C04", "D01", "D02"} {
		All[id].Run(f)
	}
	for _, n := range []string{"deployments", "service", "pod", "env"} {
		d.c.Count("deployments", f.Counts[n])
	}
	for _, r := range f.Reports {
		if r.Rule == "order" {
			d.c.Reports = append(d.c.Reports, r)
		}
	}
}

func merge(a, b map[string]string) map[string]string {
	out := map[string]string{}
	for k, v := range a {
		out[k] = v
	}
	for k, v := range b {
		out[k] = v
	}
	return out
}
