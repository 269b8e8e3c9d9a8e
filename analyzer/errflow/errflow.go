// Package errflow decides, per call site that can fail, what happens to the failure on every
// path through the calling function: it must reach the function's own error result (or a
// recorder, or a panic) and must not be followed by a nil-error return.
package errflow

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/core"
)

// Outcome of one failing call.
type Outcome int

const (
	Reported    Outcome = iota
	Discarded           // result never looked at
	NilReturned         // some path on which the call failed ends with a nil error
	Replaced            // some path returns the (possibly nil) error of a different, later call
	Unrecorded          // the function has no error result, and some failing path records it nowhere
)

func (o Outcome) String() string {
	return [...]string{"reported", "discarded", "nil-error return", "replaced by a later call's error", "not recorded"}[o]
}

type Finding struct {
	Call ssa.CallInstruction
	Out  Outcome
	At   token.Pos // the return or call at fault
}

type Config struct {
	// Recorder says a call with the failure among its arguments counts as having reported it
	// even if the function then returns a nil error.
	Recorder func(ci ssa.CallInstruction) bool
	// LogCounts: in a function without an error result, passing the error to any call is enough.
	LogCounts bool
	// Strict: in a function without an error result, only a Recorder reports a failure; the
	// function's other results do not.
	Strict bool
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// answers: results that can tell the caller "no" (a bool, a nilable value).
func answers(rs *types.Tuple) bool {
	for i := 0; i < rs.Len(); i++ {
		switch u := rs.At(i).Type().Underlying().(type) {
		case *types.Basic:
			if u.Info()&types.IsBoolean != 0 {
				return true
			}
		case *types.Pointer, *types.Interface, *types.Slice, *types.Map:
			return true
		}
	}
	return false
}

// answering is the function that answers for f: the one around it if it only does a part of its work.
func answering(f *ssa.Function) *ssa.Function {
	for f.Parent() != nil && f.Signature.Results().Len() == 0 {
		f = f.Parent()
	}
	return f
}

// sameOrigin: recv is the object whose method produced the failure.
func (w *walker) sameOrigin(recv ssa.Value) bool {
	cc := w.ci.Common()
	if cc.IsInvoke() {
		return sameVar(cc.Value, recv)
	}
	return len(cc.Args) > 0 && sameVar(cc.Args[0], recv)
}

// sameVar: the values are one, or are read from one variable.
func sameVar(a, b ssa.Value) bool {
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	return a == b || ok1 && ok2 && x.Op == token.MUL && y.Op == token.MUL && x.X == y.X
}

// pairedAndTested: the callee returns (.., bool, error) with a false bool exactly when it returns
// an error, and the caller tests the bool.
func pairedAndTested(ci ssa.CallInstruction) bool {
	g := ci.Common().StaticCallee()
	v, ok := ci.(*ssa.Call)
	if !ok || g == nil || g.Blocks == nil {
		return false
	}
	res := g.Signature.Results()
	n := res.Len()
	if n < 2 {
		return false
	}
	bi := -1
	for i := 0; i < n-1; i++ {
		if b, ok := res.At(i).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			bi = i
		}
	}
	if bi < 0 {
		return false
	}
	bv := core.Result(v, bi)
	if bv == nil || len(realRefs(bv)) == 0 {
		return false
	}
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			r, ok := in.(*ssa.Return)
			if !ok {
				continue
			}
			k, ok := r.Results[bi].(*ssa.Const)
			if !ok || k.Value == nil {
				return false
			}
			if constant.BoolVal(k.Value) != core.IsNil(r.Results[n-1]) {
				return false
			}
		}
	}
	return true
}

// logsGivenError: a reporting method (one named Error, returning the error it formats) whose
// arguments carry another error; dropping its result loses nothing but the formatted copy.
func logsGivenError(ci ssa.CallInstruction) bool {
	if core.MethodName(ci) != "Error" {
		return false
	}
	found := false
	var seen = map[ssa.Value]bool{}
	var visit func(v ssa.Value, d int)
	visit = func(v ssa.Value, d int) {
		if v == nil || d > 8 || seen[v] || found {
			return
		}
		seen[v] = true
		if core.IsError(v.Type()) {
			found = true
			return
		}
		switch x := v.(type) {
		case *ssa.MakeInterface:
			visit(x.X, d+1)
		case *ssa.ChangeInterface:
			visit(x.X, d+1)
		case *ssa.Slice:
			visit(x.X, d+1)
		case *ssa.Call:
			for _, a := range x.Call.Args {
				visit(a, d+1)
			}
			if x.Call.IsInvoke() {
				visit(x.Call.Value, d+1)
			}
		case *ssa.Alloc:
			for _, r := range *x.Referrers() {
				if ia, ok := r.(*ssa.IndexAddr); ok {
					for _, q := range *ia.Referrers() {
						if s, ok := q.(*ssa.Store); ok {
							visit(s.Val, d+1)
						}
					}
				}
			}
		}
	}
	for _, a := range ci.Common().Args {
		visit(a, 0)
	}
	return found
}

type state struct {
	alias map[ssa.Value]bool // exactly the failing error
	taint map[ssa.Value]bool // computed from it
	rec   bool               // already recorded somewhere
	phi   map[*ssa.Phi]ssa.Value
}

func (s *state) clone() *state {
	n := &state{map[ssa.Value]bool{}, map[ssa.Value]bool{}, s.rec, map[*ssa.Phi]ssa.Value{}}
	for k := range s.alias {
		n.alias[k] = true
	}
	for k := range s.taint {
		n.taint[k] = true
	}
	for k, v := range s.phi {
		n.phi[k] = v
	}
	return n
}

func (s *state) key(b *ssa.BasicBlock) string {
	var ks []string
	for k := range s.alias {
		ks = append(ks, "a"+k.Name())
	}
	for k := range s.taint {
		ks = append(ks, "t"+k.Name())
	}
	sort.Strings(ks)
	r := "0"
	if s.rec {
		r = "1"
	}
	return strconv.Itoa(b.Index) + r + strings.Join(ks, ",")
}

func errIndex(f *ssa.Function) int {
	r := f.Signature.Results()
	if r.Len() > 0 && core.IsError(r.At(r.Len()-1).Type()) {
		return r.Len() - 1
	}
	return -1
}

// Analyse one call site.
func Analyse(ci ssa.CallInstruction, cfg Config) *Finding {
	f := ci.Parent()
	idx, ev := core.ErrResult(ci)
	if idx < 0 {
		return nil
	}
	if pairedAndTested(ci) || logsGivenError(ci) {
		return nil
	}
	if ev == nil || len(realRefs(ev)) == 0 {
		return &Finding{ci, Discarded, ci.Pos()}
	}
	st := &state{map[ssa.Value]bool{ev: true}, map[ssa.Value]bool{}, false, map[*ssa.Phi]ssa.Value{}}
	w := &walker{f: f, cfg: cfg, ei: errIndex(f), seen: map[string]bool{}, ci: ci, ev: ev}
	blk := ci.Block()
	i := 0
	for k, in := range blk.Instrs {
		if in == ci.(ssa.Instruction) {
			i = k + 1
		}
	}
	w.walk(blk, i, st)
	return w.res
}

func realRefs(v ssa.Value) []ssa.Instruction {
	var out []ssa.Instruction
	for _, r := range *v.Referrers() {
		if _, ok := r.(*ssa.DebugRef); ok {
			continue
		}
		out = append(out, r)
	}
	return out
}

type walker struct {
	f    *ssa.Function
	cfg  Config
	ei   int
	seen map[string]bool
	ci   ssa.CallInstruction
	ev   ssa.Value
	res  *Finding
	n    int
}

func root(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}

func (w *walker) fail(o Outcome, p token.Pos) {
	if w.res == nil {
		w.res = &Finding{w.ci, o, p}
	}
}

func (w *walker) walk(b *ssa.BasicBlock, from int, st *state) {
	if w.res != nil {
		return
	}
	w.n++
	if w.n > 4000 {
		return
	}
	tainted := func(v ssa.Value) bool { return st.alias[v] || st.taint[v] }
	for _, in := range b.Instrs[from:] {
		switch x := in.(type) {
		case *ssa.MakeInterface:
			if tainted(x.X) {
				st.taint[x] = true
			}
		case *ssa.ChangeInterface:
			if st.alias[x.X] {
				st.alias[x] = true
			} else if st.taint[x.X] {
				st.taint[x] = true
			}
		case *ssa.ChangeType:
			if tainted(x.X) {
				st.taint[x] = true
			}
		case *ssa.Convert:
			if tainted(x.X) {
				st.taint[x] = true
			}
		case *ssa.BinOp:
			if x.Op == token.ADD && (tainted(x.X) || tainted(x.Y)) {
				st.taint[x] = true
			}
		case *ssa.TypeAssert:
			if tainted(x.X) {
				st.taint[x] = true
			}
		case *ssa.Extract:
			if x != w.ev && tainted(x.Tuple) {
				st.taint[x] = true
			}
		case *ssa.Slice:
			if tainted(x.X) || tainted(root(x.X)) {
				st.taint[x] = true
			}
		case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Index, *ssa.Field:
		case *ssa.UnOp:
			if x.Op == token.MUL {
				r := root(x.X)
				if st.alias[x.X] {
					st.alias[x] = true
				} else if tainted(r) {
					st.taint[x] = true
				} else {
					delete(st.alias, x)
					delete(st.taint, x)
				}
			}
		case *ssa.Store:
			r := root(x.Addr)
			if tainted(x.Val) {
				if _, ok := r.(*ssa.Alloc); ok {
					if r == x.Addr && st.alias[x.Val] {
						st.alias[r] = true
					} else {
						st.taint[r] = true
					}
				} else {
					// stored in a field, global or captured variable
					st.rec = true
					if _, isfv := r.(*ssa.FreeVar); isfv && r == x.Addr && st.alias[x.Val] {
						st.alias[r] = true
					}
				}
			} else if r == x.Addr {
				delete(st.alias, r)
				delete(st.taint, r)
			}
		case *ssa.MapUpdate:
			if tainted(x.Value) || tainted(x.Key) {
				st.rec = true
			}
		case *ssa.Send:
			if tainted(x.X) {
				st.rec = true
			}
		case *ssa.Panic:
			return // a panic is loud
		case *ssa.MakeClosure:
			for _, bnd := range x.Bindings {
				if tainted(bnd) {
					st.taint[x] = true
				}
			}
		case ssa.CallInstruction:
			if x == w.ci {
				// around a loop: the failure was not reported before the call is made again
				w.atEnd(nil, st, in.Pos())
				return
			}
			cc := x.Common()
			has := false
			if m := core.MethodName(x); m == "Err" && len(cc.Args)+b2i(cc.IsInvoke()) == 1 {
				// the accessor of an object whose failure is being followed yields that failure
				recv := cc.Value
				if !cc.IsInvoke() {
					recv = cc.Args[0]
				}
				if v, ok := x.(*ssa.Call); ok && core.IsError(v.Type()) && w.sameOrigin(recv) {
					st.alias[v] = true
					continue
				}
			}
			for _, a := range cc.Args {
				if tainted(a) {
					has = true
				}
			}
			if cc.IsInvoke() && tainted(cc.Value) {
				has = true
			}
			if !cc.IsInvoke() && tainted(cc.Value) {
				has = true
			}
			if has {
				if w.cfg.Recorder != nil && w.cfg.Recorder(x) {
					st.rec = true
				}
				if w.ei < 0 && w.cfg.LogCounts {
					st.rec = true
				}
				if b, ok := cc.Value.(*ssa.Builtin); ok && b.Name() == "append" {
					// collected
				}
				if v, ok := x.(*ssa.Call); ok {
					st.taint[v] = true
				}
			} else if v, ok := x.(*ssa.Call); ok {
				delete(st.taint, v)
			}
			if isExit(x) {
				return
			}
		case *ssa.Return:
			w.atEnd(x, st, x.Pos())
			return
		case *ssa.If:
			w.branch(b, x, st)
			return
		case *ssa.Jump:
			w.edge(b, b.Succs[0], st)
			return
		}
	}
}

func isExit(ci ssa.CallInstruction) bool {
	switch core.CalleeName(ci) {
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "runtime.Goexit":
		return true
	}
	return false
}

func (w *walker) edge(from, to *ssa.BasicBlock, st *state) {
	if w.res != nil {
		return
	}
	n := st.clone()
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	type upd struct {
		p *ssa.Phi
		v ssa.Value
	}
	var us []upd
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		us = append(us, upd{p, p.Edges[pi]})
	}
	for _, u := range us {
		delete(n.alias, u.p)
		delete(n.taint, u.p)
		if st.alias[u.v] {
			n.alias[u.p] = true
		} else if st.taint[u.v] {
			n.taint[u.p] = true
		}
		v := u.v
		if q, ok := v.(*ssa.Phi); ok {
			if r, ok := st.phi[q]; ok {
				v = r
			}
		}
		n.phi[u.p] = v
	}
	k := n.key(to)
	if w.seen[k] {
		return
	}
	w.seen[k] = true
	w.walk(to, 0, n)
}

func (w *walker) branch(b *ssa.BasicBlock, x *ssa.If, st *state) {
	t, f := true, true
	switch v := w.cond(x.Cond, st); v {
	case 1:
		f = false
	case -1:
		t = false
	case 2: // sentinel comparison: the true branch handles a specific failure deliberately
		t = false
	case -2:
		f = false
	}
	if t {
		w.edge(b, b.Succs[0], st)
	}
	if f {
		w.edge(b, b.Succs[1], st)
	}
}

// cond evaluates a branch condition knowing the error is non-nil: 1 true, -1 false, 0 unknown,
// 2 true means the error is a specific sentinel, -2 false means it.
func (w *walker) cond(c ssa.Value, st *state) int { return w.condAt(c, st, 0) }

func (w *walker) condAt(c ssa.Value, st *state, depth int) int {
	is := func(v ssa.Value) bool { return st.alias[v] || (st.taint[v] && types.IsInterface(v.Type())) }
	switch x := c.(type) {
	case *ssa.BinOp:
		if x.Op != token.NEQ && x.Op != token.EQL {
			return 0
		}
		var other ssa.Value
		if is(x.X) {
			other = x.Y
		} else if is(x.Y) {
			other = x.X
		} else {
			return 0
		}
		if core.IsNil(other) {
			if x.Op == token.NEQ {
				return 1
			}
			return -1
		}
		if x.Op == token.EQL {
			return 2
		}
		return -2
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return -w.condAt(x.X, st, depth)
		}
	case *ssa.Phi:
		if v, ok := st.phi[x]; ok && v != x {
			if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool {
				if constant.BoolVal(k.Value) {
					return 1
				}
				return -1
			}
			return w.condAt(v, st, depth)
		}
	case *ssa.Call:
		n := core.CalleeName(x)
		if (n == "errors.Is" || n == "errors.As" || n == "os.IsNotExist" || n == "os.IsExist") && len(x.Call.Args) > 0 && is(x.Call.Args[0]) {
			return 2
		}
		if g := x.Call.StaticCallee(); g != nil && g.Blocks != nil && x.Call.Signature().Results().Len() == 1 {
			for i, a := range x.Call.Args {
				if is(a) && i < len(g.Params) {
					return w.boolSummary(g, g.Params[i], depth)
				}
			}
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.TypeAssert); ok && is(c.X) {
			return 2
		}
	}
	return 0
}

// boolSummary: what a predicate helper returns when its error parameter is non-nil, as cond says it.
func (w *walker) boolSummary(g *ssa.Function, p ssa.Value, depth int) int {
	if depth > 3 {
		return 0
	}
	all, special := map[int]bool{}, map[int]bool{}
	steps := 0
	var walk func(b *ssa.BasicBlock, st *state, pruned bool)
	edge := func(from, to *ssa.BasicBlock, st *state, pruned bool) {
		n := st.clone()
		for i, pr := range to.Preds {
			if pr != from {
				continue
			}
			for _, in := range to.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				v := ph.Edges[i]
				delete(n.alias, ph)
				if st.alias[v] {
					n.alias[ph] = true
				}
				if q, ok := v.(*ssa.Phi); ok && st.phi[q] != nil {
					v = st.phi[q]
				}
				n.phi[ph] = v
			}
		}
		walk(to, n, pruned)
	}
	truth := func(v ssa.Value, st *state) int {
		for k := 0; k < 4; k++ {
			if ph, ok := v.(*ssa.Phi); ok && st.phi[ph] != nil {
				v = st.phi[ph]
			}
		}
		if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool {
			return 2*b2i(constant.BoolVal(k.Value)) - 1
		}
		return w.condAt(v, st, depth+1)
	}
	walk = func(b *ssa.BasicBlock, st *state, pruned bool) {
		if steps++; steps > 300 {
			all[0] = true
			return
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.ChangeInterface:
				if st.alias[x.X] {
					st.alias[x] = true
				}
			case *ssa.Return:
				v := truth(x.Results[0], st)
				if pruned {
					special[v] = true
				} else {
					all[v] = true
				}
			case *ssa.If:
				v := truth(x.Cond, st)
				if v != -1 {
					edge(b, b.Succs[0], st, pruned || v == 2)
				}
				if v != 1 {
					edge(b, b.Succs[1], st, pruned || v == -2)
				}
			case *ssa.Jump:
				edge(b, b.Succs[0], st, pruned)
			}
		}
	}
	walk(g.Blocks[0], &state{map[ssa.Value]bool{p: true}, map[ssa.Value]bool{}, false, map[*ssa.Phi]ssa.Value{}}, false)
	if len(all) != 1 || special[0] {
		return 0
	}
	for v := range all {
		switch {
		case v == 1 && (special[-1] || special[2]):
			return -2
		case v == -1 && (special[1] || special[2]):
			return 2
		case v == 2 && special[-1], v == -2 && special[1]:
			return 0
		}
		return v
	}
	return 0
}

func (w *walker) atEnd(r *ssa.Return, st *state, pos token.Pos) {
	if st.rec {
		return
	}
	if w.ei < 0 {
		// returned as an ordinary result?
		if r != nil {
			for _, v := range r.Results {
				if st.alias[v] || st.taint[v] {
					return
				}
			}
			// the caller learns of the failure from another kind of result
			if f := answering(w.f); !w.cfg.Strict && errIndex(f) < 0 && answers(f.Signature.Results()) {
				return
			}
		}
		w.fail(Unrecorded, pos)
		return
	}
	if r == nil {
		// next iteration: the failing error was lost unless collected in something still live
		for v := range st.taint {
			if a, ok := v.(*ssa.Alloc); ok && core.IsError(core.Deref(a.Type())) {
				return
			}
			if p, ok := v.(*ssa.Phi); ok && p != nil {
				return
			}
			if c, ok := v.(*ssa.Call); ok && collected(c) {
				return
			}
		}
		w.fail(Replaced, pos)
		return
	}
	v := r.Results[w.ei]
	for k := 0; k < 4; k++ {
		if p, ok := v.(*ssa.Phi); ok && !st.alias[v] && !st.taint[v] {
			if q, ok := st.phi[p]; ok {
				v = q
				continue
			}
		}
		break
	}
	if st.alias[v] || st.taint[v] {
		return
	}
	if core.IsNil(v) {
		// an explicit nil error, though the failure may be in another result
		for _, o := range r.Results {
			if st.alias[o] {
				return
			}
		}
		w.fail(NilReturned, pos)
		return
	}
	if FreshError(v) {
		return
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if _, ok := u.X.(*ssa.Global); ok {
			return // sentinel error variable
		}
	}
	w.fail(Replaced, pos)
}

func collected(c *ssa.Call) bool {
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "append"
}

// FreshError says v is an error that cannot be nil.
func FreshError(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return !core.IsNil(x.X)
	case *ssa.Call:
		switch n := core.CalleeName(x); n {
		case "fmt.Errorf", "errors.New", "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf", "blueprint/pkg/blueprint.Errorf":
			return true
		}
		if g := x.Call.StaticCallee(); g != nil && g.Blocks != nil && g.Signature.Results().Len() == 1 {
			return alwaysErr(g, 0)
		}
	case *ssa.ChangeInterface:
		return FreshError(x.X)
	}
	return false
}

func alwaysErr(g *ssa.Function, d int) bool {
	if d > 3 {
		return false
	}
	n := 0
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if r, ok := in.(*ssa.Return); ok {
				n++
				if !FreshError(r.Results[len(r.Results)-1]) {
					return false
				}
			}
		}
	}
	return n > 0
}
