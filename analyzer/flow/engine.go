package flow

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"maps"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/core"
)

// Event is something a path does that rules care about.
type Event struct {
	Kind   string // call, go, send, recv, store, race
	Name   string // stable name of the callee
	Method string
	Call   ssa.CallInstruction
	Invoke bool
	Recv   Val
	Target Val   // the function value of a dynamic call
	Args   []Val // without the receiver; variadic arguments flattened
	Res    Val
	Outs   []Val // what an unknown callee may have left in the variables it was given
	Fn     *ssa.Function
	Pos    token.Pos
	Held   int
	Gor    int
	Defer  bool
	Site   string
	Locks  []string // keys of the locks held
	Alts   []string // for a receive: the channels the same select waits for
	Poll   bool     // for a receive: the select has a default
	Closed bool     // for a receive: the channel is closed and empty
}

// Cond is a branch condition decided on a path, in the order the path met them.
type Cond struct {
	V Val
	B bool
}

type pendingG struct {
	fn     *Func
	args   []Val
	writes map[string]bool
	reads  map[string]bool
	id     int
}

type State struct {
	env   map[int]map[ssa.Value]Val
	Mem   map[string]Val
	facts map[string]bool
	forks map[string]int
	Trace []*Event
	From  map[string][]Val // what an opaque value was computed from
	pend  []*pendingG
	susp  []*susp
	yield func(*State)
	chans map[string][]Val
	chCap map[string]int64
	Done  map[string]bool
	held  []string
	maps  map[string][]Val // the keys of maps whose content is known
	n     int
	gor   int
	Conds []Cond
	Late  bool // a spawned goroutine ran after its spawner had moved on
}

func NewState() *State {
	return &State{env: map[int]map[ssa.Value]Val{}, Mem: map[string]Val{}, facts: map[string]bool{}, forks: map[string]int{}, From: map[string][]Val{}, chans: map[string][]Val{}, chCap: map[string]int64{}, Done: map[string]bool{}, maps: map[string][]Val{}}
}

func (s *State) clone() *State {
	n := *s
	n.env = make(map[int]map[ssa.Value]Val, len(s.env))
	for k, v := range s.env {
		n.env[k] = maps.Clone(v)
	}
	n.Mem = maps.Clone(s.Mem)
	n.facts = maps.Clone(s.facts)
	n.forks = maps.Clone(s.forks)
	n.From = maps.Clone(s.From)
	n.chans = maps.Clone(s.chans)
	n.chCap = maps.Clone(s.chCap)
	n.maps = maps.Clone(s.maps)
	n.Done = maps.Clone(s.Done)
	n.Trace = s.Trace[:len(s.Trace):len(s.Trace)]
	n.pend = s.pend[:len(s.pend):len(s.pend)]
	n.susp = s.susp[:len(s.susp):len(s.susp)]
	n.held = s.held[:len(s.held):len(s.held)]
	n.Conds = s.Conds[:len(s.Conds):len(s.Conds)]
	return &n
}

// Fork copies a state for a caller that wants to run several functions from it.
func (s *State) Fork() *State {
	n := s.clone()
	n.Trace = nil
	n.forks = map[string]int{}
	n.env = map[int]map[ssa.Value]Val{}
	return n
}

func (s *State) Fresh(what string, t types.Type) *Sym {
	s.n++
	return &Sym{ID: fmt.Sprintf("%s#%d", what, s.n), T: t}
}

// NilFact: 1 nil, -1 not nil, 0 unknown.
func (s *State) NilFact(v Val) int {
	switch x := v.(type) {
	case NilV:
		return 1
	case *Iface:
		if x.T != nil {
			switch x.T.Underlying().(type) {
			case *types.Basic, *types.Struct, *types.Array, *types.Slice, *types.Map:
				return -1
			}
		}
		return s.NilFact(x.V)
	case *Addr, *Func, *SliceV, *Struct, Const, Zero:
		return -1
	case *App:
		switch {
		case strings.HasPrefix(x.Op, "err:"), x.Op == "make", x.Op == "append":
			return -1
		case x.Op == "load" && len(x.Args) == 1 && x.T != nil && core.IsError(x.T) && strings.HasPrefix(x.Args[0].Key(), "&g:"):
			return -1 // package-level error values are not nil
		}
	}
	if b, ok := s.facts["nil:"+v.Key()]; ok {
		if b {
			return 1
		}
		return -1
	}
	return 0
}

func (s *State) Assume(v Val, isNil bool) { s.facts["nil:"+v.Key()] = isNil }

// AssumeBool records a boolean fact.
func (s *State) AssumeBool(v Val, b bool) {
	if a, ok := v.(*App); ok && a.Op == "not" {
		s.AssumeBool(a.Args[0], !b)
		return
	}
	if a, ok := v.(*App); ok && a.Op == "==" {
		if _, n := a.Args[1].(NilV); n {
			s.Assume(a.Args[0], b)
			return
		}
	}
	s.facts["b:"+v.Key()] = b
	s.Conds = append(s.Conds, Cond{v, b})
}

// Bool: 1 true, -1 false, 0 unknown.
func (s *State) Bool(v Val) int {
	switch x := v.(type) {
	case Const:
		if x.V.Kind() == constant.Bool {
			if constant.BoolVal(x.V) {
				return 1
			}
			return -1
		}
	case *App:
		switch x.Op {
		case "not":
			return -s.Bool(x.Args[0])
		case "==":
			if _, ok := x.Args[1].(NilV); ok {
				return s.NilFact(x.Args[0])
			}
		}
	}
	if b, ok := s.facts["b:"+v.Key()]; ok {
		if b {
			return 1
		}
		return -1
	}
	return 0
}

// Derives reports whether v was computed, possibly by opaque calls, from the value with key k.
func (s *State) Derives(v Val, k string) bool {
	seen := map[string]bool{}
	var rec func(v Val) bool
	rec = func(v Val) bool {
		if v == nil {
			return false
		}
		key := v.Key()
		if key == k {
			return true
		}
		if seen[key] {
			return false
		}
		seen[key] = true
		switch x := v.(type) {
		case *App:
			for _, a := range x.Args {
				if rec(a) {
					return true
				}
			}
		case *Struct:
			if rec(x.Base) {
				return true
			}
			for _, a := range x.F {
				if rec(a) {
					return true
				}
			}
		case *Iface:
			return rec(x.V)
		case Tuple:
			for _, a := range x {
				if rec(a) {
					return true
				}
			}
		case *Func:
			for _, a := range x.Bind {
				if rec(a) {
					return true
				}
			}
			return x.Recv != nil && rec(x.Recv)
		case *Addr:
			if strings.HasPrefix(x.Base, "*") && (x.Base == "*"+k || strings.HasPrefix(x.Base, "*"+k+".") || strings.HasPrefix(x.Base, "*"+k+"[")) {
				return true
			}
			for b, c := range s.Mem {
				if b == x.Base || strings.HasPrefix(b, x.Base+".") || strings.HasPrefix(b, x.Base+"[") {
					if rec(c) {
						return true
					}
				}
			}
		case *SliceV:
			return rec(x.Arr)
		case *Sym:
			for b, c := range s.Mem {
				if strings.HasPrefix(b, "*"+key+".") && rec(c) {
					return true
				}
			}
		}
		for _, f := range s.From[key] {
			if rec(f) {
				return true
			}
		}
		return false
	}
	return rec(v)
}

// OpenChans forgets what known channels hold: anything may arrive.
func (s *State) OpenChans() {
	s.chans = map[string][]Val{}
}

// ChanState gives what a channel made on the path holds, and its capacity (-1 when not known).
func (s *State) ChanState(key string) (held []Val, capacity int64, ok bool) {
	held, ok = s.chans[key]
	return held, s.chCap[key], ok
}

// Path is one way through the analysed function.
type Path struct {
	St    *State
	Ret   Tuple
	How   string // return, panic, cut
	At    token.Pos
	Where *ssa.Function
	RetAt int // how much of the trace had happened when the function returned
}

type Out struct {
	Res Val
	Set func(*State)
}

type Engine struct {
	Prog    *ssa.Program
	Inline  func(fn *ssa.Function) bool
	Model   func(e *Engine, st *State, ev *Event) ([]Out, bool)
	NoHavoc func(t types.Type) bool
	Shared  func(base string) bool // cells whose accesses are recorded
	Sched   bool                   // follow goroutines in every order (sched.go)
	AllLate bool                   // follow every path of goroutines that outlive the function
	NoRec   bool                   // a call of a function that is being followed is an event
	MaxFork int
	MaxPath int
	Paths   []*Path
	Over    bool
	frames  int
	steps   int
	from    *frame // the caller of the function being entered
}

func New(prog *ssa.Program) *Engine {
	return &Engine{Prog: prog, MaxFork: 2, MaxPath: 6000}
}

type frame struct {
	id     int
	fn     *ssa.Function
	bind   []Val
	defers *[]*deferred
	depth  int
	gor    int
	up     *frame
}

func (fr *frame) active(fn *ssa.Function) bool {
	for ; fr != nil; fr = fr.up {
		if fr.fn == fn {
			return true
		}
	}
	return false
}

type deferred struct {
	call *ssa.Defer
	fn   Val
	recv Val
	args []Val
}

type cont func(st *State, res Val)

// Run analyses fn from st with the given arguments and returns its paths.
func (e *Engine) Run(fn *ssa.Function, args []Val, st *State) []*Path {
	e.Paths = nil
	e.steps = 0
	e.enter(st, fn, nil, args, 0, 0, func(st *State, res Val) {
		t, _ := res.(Tuple)
		if t == nil && res != nil {
			t = Tuple{res}
		}
		at := len(st.Trace)
		if e.Sched {
			e.rest(st, func(s2 *State) {
				e.path(&Path{St: s2, Ret: t, How: "return", At: fn.Pos(), Where: fn, RetAt: at})
			})
			return
		}
		if e.AllLate {
			e.late(st, func(s2 *State) {
				e.path(&Path{St: s2, Ret: t, How: "return", At: fn.Pos(), Where: fn, RetAt: at})
			})
			return
		}
		// what a goroutine still pending would do after the function has returned
		for len(st.pend) > 0 {
			p := st.pend[0]
			st.pend = st.pend[1:]
			st.Late = true
			done := false
			e.enter(st, p.fn.Fn, p.fn.Bind, p.args, 1, p.id, func(s2 *State, _ Val) {
				if done {
					return
				}
				done = true
				st = s2
			})
			if !done {
				break
			}
		}
		e.path(&Path{St: st, Ret: t, How: "return", At: fn.Pos(), Where: fn, RetAt: at})
	})
	return e.Paths
}

// late runs what is still pending, following every way it can go.
func (e *Engine) late(st *State, k func(*State)) {
	if len(st.pend) == 0 {
		k(st)
		return
	}
	p := st.pend[0]
	st.pend = st.pend[1:]
	st.Late = true
	rest := st.clone()
	done := false
	e.enter(st, p.fn.Fn, p.fn.Bind, p.args, 1, p.id, func(s2 *State, _ Val) {
		done = true
		e.late(s2, k)
	})
	if !done {
		e.late(rest, k) // it waits for ever
	}
}

// RunFunc analyses a function value, with what it captured, from st.
func (e *Engine) RunFunc(f *Func, args []Val, st *State) []*Path {
	e.Paths = nil
	e.steps = 0
	e.enter(st, f.Fn, f.Bind, args, 0, 0, func(st *State, res Val) {
		t, _ := res.(Tuple)
		if t == nil && res != nil {
			t = Tuple{res}
		}
		e.path(&Path{St: st, Ret: t, How: "return", At: f.Fn.Pos(), Where: f.Fn, RetAt: len(st.Trace)})
	})
	return e.Paths
}

func (e *Engine) path(p *Path) {
	if len(e.Paths) >= e.MaxPath {
		e.Over = true
		return
	}
	e.Paths = append(e.Paths, p)
}

func (e *Engine) enter(st *State, fn *ssa.Function, bind []Val, args []Val, depth, gor int, k cont) {
	if fn.Blocks == nil || depth > 48 {
		k(st, e.opaqueRes(st, fn.Signature, fn.Name(), args, nil))
		return
	}
	e.frames++
	fr := &frame{id: e.frames, fn: fn, bind: bind, depth: depth, gor: gor, up: e.from}
	e.from = nil
	var ds []*deferred
	fr.defers = &ds
	env := map[ssa.Value]Val{}
	for i, p := range fn.Params {
		if i < len(args) {
			env[p] = args[i]
		} else {
			env[p] = st.Fresh("arg", p.Type())
		}
	}
	st.env[fr.id] = env
	e.block(st, fr, ds, fn.Blocks[0], nil, 0, k)
}

func (e *Engine) val(st *State, fr *frame, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return constVal(x)
	case *ssa.Global:
		return &Addr{Base: "g:" + strings.ReplaceAll(x.RelString(nil), core.Mod, ""), T: core.Deref(x.Type())}
	case *ssa.Function:
		if o := x.Origin(); o != nil && x.Blocks == nil {
			return &Func{Fn: o} // an instance within a generic function
		}
		return &Func{Fn: x}
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == x && i < len(fr.bind) {
				return fr.bind[i]
			}
		}
	case *ssa.Builtin:
		return &Sym{ID: "builtin:" + x.Name()}
	}
	if r, ok := st.env[fr.id][v]; ok {
		return r
	}
	s := st.Fresh("undef", v.Type())
	st.env[fr.id][v] = s
	return s
}

func constVal(c *ssa.Const) Val {
	if c.Value == nil {
		switch c.Type().Underlying().(type) {
		case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
			return NilV{}
		}
		return ZeroOf(c.Type())
	}
	v := c.Value
	if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
		v = constant.ToFloat(v)
	}
	return Const{v}
}

// ZeroOf is the zero value of t.
func ZeroOf(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Const{constant.MakeBool(false)}
		case u.Info()&types.IsInteger != 0:
			return Const{constant.MakeInt64(0)}
		case u.Info()&types.IsFloat != 0:
			return Const{constant.ToFloat(constant.MakeInt64(0))}
		case u.Info()&types.IsString != 0:
			return Const{constant.MakeString("")}
		}
		return NilV{}
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return NilV{}
	}
	return Zero{t}
}

func fieldOf(v Val, name string, t types.Type) Val {
	switch x := v.(type) {
	case *Struct:
		if f, ok := x.F[name]; ok {
			return f
		}
		return fieldOf(x.Base, name, t)
	case Zero:
		return ZeroOf(t)
	case *App:
		if x.Op == "load" { // a field of what a pointer points to
			if a, ok := x.Args[0].(*Addr); ok {
				return MkApp("load", t, &Addr{Base: a.Base + "." + name, T: t})
			}
		}
	}
	return MkApp("field:"+name, t, v)
}

// Load reads a cell.
// fieldType is the type of a field of a struct type, if known.
func fieldType(t types.Type, name string) types.Type {
	if t == nil {
		return nil
	}
	s, ok := t.Underlying().(*types.Struct)
	for i := 0; ok && i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return s.Field(i).Type()
		}
	}
	return nil
}

func (st *State) Load(a *Addr) Val {
	if v, ok := st.Mem[a.Base]; ok {
		// fields written after the whole
		return st.withSub(a, v)
	}
	// inside a whole that was written
	b := a.Base
	for {
		i := strings.LastIndexAny(b, ".[")
		if i <= 0 {
			break
		}
		b = b[:i]
		if v, ok := st.Mem[b]; ok {
			rest := a.Base[len(b):]
			if strings.HasPrefix(rest, ".") && strings.Count(rest, ".") == 1 && !strings.Contains(rest, "[") {
				return fieldOf(v, rest[1:], a.T)
			}
			if strings.HasPrefix(rest, ".") && !strings.Contains(rest, "[") {
				w := v
				parts := strings.Split(rest[1:], ".")
				for j, p := range parts {
					t := a.T
					if j < len(parts)-1 {
						t = fieldType(TypeOf(w), p)
					}
					w = fieldOf(w, p, t)
				}
				return w
			}
			return MkApp("elem"+rest, a.T, v)
		}
	}
	var base Val
	if a.Alloc || strings.HasPrefix(a.Base, "a:") {
		base = ZeroOf(a.T)
		if i := strings.LastIndex(a.Base, "["); i > 0 && strings.HasSuffix(a.Base, "]") && !numeric(a.Base[i+1:len(a.Base)-1]) {
			// an unknown element: any of those written
			var vs []Val
			for _, k := range st.Cells(a.Base[:i]) {
				r := k[i:]
				if len(r) > 2 && r[0] == '[' && strings.IndexByte(r, ']') == len(r)-1 && numeric(r[1:len(r)-1]) {
					vs = append(vs, st.Mem[k])
				}
			}
			if len(vs) > 0 {
				base = &App{Op: "choose", Args: append(vs, &Sym{ID: a.Base[i:]}), T: a.T}
			}
		}
	} else {
		base = MkApp("load", a.T, &Addr{Base: a.Base, T: a.T})
	}
	return st.withSub(a, base)
}

func (st *State) withSub(a *Addr, base Val) Val {
	s, ok := a.T.Underlying().(*types.Struct)
	if !ok {
		return base
	}
	f := map[string]Val{}
	for i := 0; i < s.NumFields(); i++ {
		sub := a.Base + "." + s.Field(i).Name()
		has := false
		for k := range st.Mem {
			if k == sub || strings.HasPrefix(k, sub+".") || strings.HasPrefix(k, sub+"[") {
				has = true
			}
		}
		if has {
			f[s.Field(i).Name()] = st.Load(&Addr{Base: sub, T: s.Field(i).Type(), Alloc: a.Alloc})
		}
	}
	if len(f) == 0 {
		return base
	}
	if b, ok := base.(*Struct); ok {
		for k, v := range b.F {
			if _, have := f[k]; !have {
				f[k] = v
			}
		}
		base = b.Base
	}
	return &Struct{Base: base, F: f}
}

func numeric(s string) bool {
	for _, r := range s {
		if r < '0' || r > '9' {
			return false
		}
	}
	return s != ""
}

// Store writes a cell.
func (st *State) Store(a *Addr, v Val) {
	for k := range st.Mem {
		if strings.HasPrefix(k, a.Base+".") || strings.HasPrefix(k, a.Base+"[") {
			delete(st.Mem, k)
		}
	}
	st.Mem[a.Base] = v
}

// Fields lists the known cells under a base.
func (st *State) Cells(base string) []string {
	var out []string
	for k := range st.Mem {
		if k == base || strings.HasPrefix(k, base+".") || strings.HasPrefix(k, base+"[") {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out
}

func toAddr(v Val, t types.Type) *Addr {
	switch x := Strip(v).(type) {
	case *Addr:
		return x
	default:
		return &Addr{Base: "*" + x.Key(), T: t}
	}
}

func isNumber(v Val) (constant.Value, bool) {
	c, ok := v.(Const)
	if ok && (c.V.Kind() == constant.Int || c.V.Kind() == constant.Float) {
		return c.V, true
	}
	return nil, false
}

func (e *Engine) binop(st *State, op token.Token, x, y Val, t types.Type) Val {
	x0, y0 := x, y
	x, y = Strip(x), Strip(y)
	cx, okx := x.(Const)
	cy, oky := y.(Const)
	switch op {
	case token.EQL, token.NEQ:
		var r Val
		if okx && oky && cx.V.Kind() != constant.Unknown && (cx.V.Kind() == cy.V.Kind() || cx.V.Kind() != constant.String && cx.V.Kind() != constant.Bool) {
			r = Const{constant.MakeBool(constant.Compare(cx.V, token.EQL, cy.V))}
		} else {
			if _, n := x.(NilV); n {
				x, y = y, x
				x0, y0 = y0, x0
			}
			if _, n := y0.(NilV); n {
				if f := st.NilFact(x0); f != 0 {
					r = Const{constant.MakeBool(f == 1)}
				}
			} else if _, n := y.(NilV); n {
				if f := st.NilFact(x); f != 0 {
					r = Const{constant.MakeBool(f == 1)}
				}
			}
			if r == nil && x.Key() == y.Key() {
				r = Const{constant.MakeBool(true)}
			}
			if r == nil {
				if _, n := y.(NilV); !n && x.Key() > y.Key() {
					x, y = y, x
				}
				r = MkApp("==", t, x, y)
			}
		}
		if op == token.NEQ {
			return not(r)
		}
		return r
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		if okx && oky && cx.V.Kind() != constant.Bool {
			return Const{constant.MakeBool(constant.Compare(cx.V, op, cy.V))}
		}
		switch op {
		case token.LSS:
			return MkApp("<", t, x, y)
		case token.GTR:
			return MkApp("<", t, y, x)
		case token.LEQ:
			return not(MkApp("<", t, y, x))
		default:
			return not(MkApp("<", t, x, y))
		}
	}
	if okx && oky {
		switch op {
		case token.ADD, token.SUB, token.MUL, token.QUO, token.REM, token.AND, token.OR, token.XOR, token.AND_NOT:
			if cx.V.Kind() == constant.Bool || cy.V.Kind() == constant.Bool {
				break
			}
			o := op
			b, _ := t.Underlying().(*types.Basic)
			if op == token.QUO || op == token.REM {
				if z, ok := isNumber(y); ok && constant.Sign(z) == 0 {
					break
				}
				if b != nil && b.Info()&types.IsInteger != 0 && op == token.QUO {
					o = token.QUO_ASSIGN
				}
			}
			if (o == token.REM || o == token.AND || o == token.OR || o == token.XOR) && (cx.V.Kind() != constant.Int || cy.V.Kind() != constant.Int) {
				break
			}
			return Const{Wrap(constant.BinaryOp(cx.V, o, cy.V), t)}
		}
	}
	// x + 0, x * 1 and the like are not simplified except for integers
	if oky && op == token.ADD && cy.V.Kind() == constant.Int && constant.Sign(cy.V) == 0 {
		return x
	}
	if w, _ := Width(t); okx && w > 0 && op == token.ADD && cx.V.Kind() == constant.Int && constant.Sign(cx.V) == 0 {
		return y
	}
	return MkApp(op.String(), t, x, y)
}

// Width gives the number of bits of an integer type, and whether it has a sign.
func Width(t types.Type) (bits uint, signed bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 || b.Info()&types.IsUntyped != 0 {
		return 0, false
	}
	signed = b.Info()&types.IsUnsigned == 0
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8, signed
	case types.Int16, types.Uint16:
		return 16, signed
	case types.Int32, types.Uint32:
		return 32, signed
	}
	return 64, signed
}

// Wrap brings the result of integer arithmetic into the range of its type.
func Wrap(v constant.Value, t types.Type) constant.Value {
	bits, signed := uint(0), false
	if t != nil && v.Kind() == constant.Int {
		bits, signed = Width(t)
	}
	if bits == 0 {
		return v
	}
	one := constant.MakeInt64(1)
	n := constant.Shift(one, token.SHL, bits)
	v = constant.BinaryOp(v, token.REM, n)
	if constant.Sign(v) < 0 {
		v = constant.BinaryOp(v, token.ADD, n)
	}
	if signed && constant.Compare(v, token.GEQ, constant.Shift(one, token.SHL, bits-1)) {
		v = constant.BinaryOp(v, token.SUB, n)
	}
	return v
}

func not(v Val) Val {
	switch x := v.(type) {
	case Const:
		return Const{constant.MakeBool(!constant.BoolVal(x.V))}
	case *App:
		if x.Op == "not" {
			return x.Args[0]
		}
	}
	return MkApp("not", types.Typ[types.Bool], v)
}

func (e *Engine) opaqueRes(st *State, sig *types.Signature, what string, args []Val, recv Val) Val {
	r := sig.Results()
	mk := func(i int) Val {
		s := st.Fresh(what+fmt.Sprintf(".%d", i), r.At(i).Type())
		f := append([]Val{}, args...)
		if recv != nil {
			f = append(f, recv)
		}
		st.From[s.Key()] = f
		return s
	}
	switch r.Len() {
	case 0:
		return Tuple{}
	case 1:
		return mk(0)
	}
	var t Tuple
	for i := 0; i < r.Len(); i++ {
		t = append(t, mk(i))
	}
	return t
}

func (e *Engine) block(st *State, fr *frame, ds []*deferred, b, prev *ssa.BasicBlock, start int, k cont) {
	for {
		if e.Over {
			return
		}
		e.steps++
		if e.steps > 400000 {
			e.Over = true
			return
		}
		if start == 0 && prev != nil {
			// phis are assigned together
			pi := -1
			for i, p := range b.Preds {
				if p == prev {
					pi = i
					break
				}
			}
			type pv struct {
				p *ssa.Phi
				v Val
			}
			var ps []pv
			for _, in := range b.Instrs {
				p, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				ps = append(ps, pv{p, e.val(st, fr, p.Edges[pi])})
			}
			for _, p := range ps {
				st.env[fr.id][p.p] = p.v
			}
		}
		next := (*ssa.BasicBlock)(nil)
		for i := start; i < len(b.Instrs); i++ {
			in := b.Instrs[i]
			resume := func(s2 *State) { e.block(s2, fr, ds, b, prev, i+1, k) }
			switch x := in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
			case *ssa.If:
				c := e.val(st, fr, x.Cond)
				switch st.Bool(c) {
				case 1:
					next = b.Succs[0]
				case -1:
					next = b.Succs[1]
				default:
					site := fmt.Sprintf("%p", x)
					st.forks[site]++
					if st.forks[site] > e.MaxFork {
						e.path(&Path{St: st, How: "cut", At: x.Cond.Pos(), Where: fr.fn})
						return
					}
					s2 := st.clone()
					s2.AssumeBool(c, true)
					e.block(s2, fr, append([]*deferred{}, ds...), b.Succs[0], b, 0, k)
					st.AssumeBool(c, false)
					next = b.Succs[1]
				}
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.Return:
				var t Tuple
				for _, r := range x.Results {
					t = append(t, e.val(st, fr, r))
				}
				delete(st.env, fr.id)
				if len(t) == 1 {
					k(st, t[0])
				} else {
					if t == nil {
						t = Tuple{}
					}
					k(st, t)
				}
				return
			case *ssa.Panic:
				e.path(&Path{St: st, How: "panic", At: x.Pos(), Where: fr.fn})
				return
			case *ssa.RunDefers:
				e.runDefers(st, fr, ds, func(s2 *State) { e.block(s2, fr, nil, b, prev, i+1, k) })
				return
			case *ssa.Defer:
				d := &deferred{call: x}
				d.fn, d.recv, d.args = e.callee(st, fr, x)
				ds = append(ds[:len(ds):len(ds)], d)
			case *ssa.Go:
				fn, recv, args := e.callee(st, fr, x)
				ev := e.event(st, fr, x, fn, recv, args)
				ev.Kind = "go"
				st.Trace = append(st.Trace, ev)
				if f, ok := fn.(*Func); ok && f.Fn.Blocks != nil {
					st.gor++
					w, r := footprint(f)
					a := args
					if f.Recv != nil {
						a = append([]Val{f.Recv}, args...)
					}
					if e.Inline == nil || f.Fn.Parent() != nil || e.Inline(f.Fn) {
						st.pend = append(st.pend, &pendingG{fn: f, args: a, writes: w, reads: r, id: st.gor})
					}
				}
			case *ssa.Call:
				fn, recv, args := e.callee(st, fr, x)
				e.doCall(st, fr, x, fn, recv, args, false, func(s2 *State, res Val) {
					s2.env[fr.id][x] = res
					resume(s2)
				})
				return
			case *ssa.Send:
				if e.Sched {
					e.schedSend(st, fr, e.val(st, fr, x.Chan), e.val(st, fr, x.X), x.Pos(), resume)
					return
				}
				e.instr(st, fr, in)
			case *ssa.Select:
				if e.Sched {
					e.schedSelect(st, fr, x, resume)
					return
				}
				e.doSelect(st, fr, x, resume)
				return
			case *ssa.UnOp:
				if x.Op == token.ARROW {
					recv := e.recv
					if e.Sched {
						recv = func(st *State, fr *frame, ch Val, t types.Type, commaOk bool, k cont) {
							e.schedRecv(st, fr, ch, t, commaOk, x.Pos(), k)
						}
					}
					recv(st, fr, e.val(st, fr, x.X), x.Type(), x.CommaOk, func(s2 *State, v Val) {
						s2.env[fr.id][x] = v
						resume(s2)
					})
					return
				}
				e.instr(st, fr, in)
			case *ssa.TypeAssert:
				v := e.val(st, fr, x.X)
				ok := -2
				if f, is := v.(*Iface); is && f.T != nil {
					if types.IsInterface(x.AssertedType) {
						if types.Implements(f.T, x.AssertedType.Underlying().(*types.Interface)) {
							ok = 1
						} else {
							ok = 0
						}
					} else if types.Identical(f.T, x.AssertedType) {
						ok = 1
					} else {
						ok = 0
					}
				}
				if types.IsInterface(x.X.Type()) && types.IsInterface(x.AssertedType) && types.AssignableTo(x.X.Type(), x.AssertedType) && st.NilFact(v) == -1 {
					ok = 1
				}
				if st.NilFact(v) == 1 {
					ok = 0
				}
				is := MkApp("is:"+types.TypeString(x.AssertedType, nil), types.Typ[types.Bool], Strip(v))
				if ok == -2 && x.CommaOk {
					switch st.Bool(is) {
					case 1:
						ok = 1
					case -1:
						ok = 0
					}
				}
				inner := v
				if !types.IsInterface(x.AssertedType) {
					inner = Strip(v)
					f, isI := v.(*Iface)
					known := isI && f.T != nil && types.Identical(f.T, x.AssertedType)
					if _, isS := inner.(*Sym); !known && (isS || ok == -2) {
						inner = MkApp("as:"+types.TypeString(x.AssertedType, nil), x.AssertedType, Strip(v))
					}
				}
				yes := func(s2 *State) {
					if x.CommaOk {
						s2.env[fr.id][x] = Tuple{inner, Const{constant.MakeBool(true)}}
					} else {
						s2.env[fr.id][x] = inner
					}
				}
				no := func(s2 *State) {
					s2.env[fr.id][x] = Tuple{ZeroOf(x.AssertedType), Const{constant.MakeBool(false)}}
				}
				switch {
				case ok == 1:
					yes(st)
				case ok == 0 && x.CommaOk:
					no(st)
				case ok == 0:
					e.path(&Path{St: st, How: "panic", At: x.Pos(), Where: fr.fn})
					return
				case !x.CommaOk:
					s2 := st.clone()
					s2.Trace = append(s2.Trace, &Event{Kind: "badassert", Fn: fr.fn, Pos: x.Pos()})
					e.path(&Path{St: s2, How: "panic", At: x.Pos(), Where: fr.fn})
					yes(st)
				default:
					s2 := st.clone()
					s2.AssumeBool(is, false)
					no(s2)
					resume(s2)
					st.AssumeBool(is, true)
					yes(st)
				}
			default:
				if !e.instr(st, fr, in) {
					e.path(&Path{St: st, How: "panic", At: in.Pos(), Where: fr.fn})
					return
				}
			}
			if next != nil {
				break
			}
		}
		if next == nil {
			return
		}
		prev, b, start = b, next, 0
	}
}

// footprint lists the captured cells a goroutine body writes and reads.
func footprint(f *Func) (w, r map[string]bool) {
	w, r = map[string]bool{}, map[string]bool{}
	var scan func(fn *ssa.Function, bind []Val)
	scan = func(fn *ssa.Function, bind []Val) {
		base := func(v ssa.Value) string {
			for {
				switch x := v.(type) {
				case *ssa.FieldAddr:
					v = x.X
					continue
				case *ssa.FreeVar:
					for i, fv := range fn.FreeVars {
						if fv == x && i < len(bind) {
							if a, ok := bind[i].(*Addr); ok {
								return a.Base
							}
						}
					}
				}
				return ""
			}
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if k := base(x.Addr); k != "" {
						w[k] = true
					}
				case *ssa.UnOp:
					if x.Op == token.MUL {
						if k := base(x.X); k != "" {
							r[k] = true
						}
					}
				case *ssa.MakeClosure:
					var bs []Val
					for _, bv := range x.Bindings {
						if k := base(bv); k != "" {
							bs = append(bs, &Addr{Base: k})
						} else {
							bs = append(bs, NilV{})
						}
					}
					scan(x.Fn.(*ssa.Function), bs)
				}
			}
		}
	}
	scan(f.Fn, f.Bind)
	return
}

func (e *Engine) race(st *State, fr *frame, a *Addr, write bool, pos token.Pos) {
	for _, p := range st.pend {
		if p.id == fr.gor {
			continue
		}
		root := a.Base
		if i := strings.IndexAny(root, ".["); i > 0 {
			root = root[:i]
		}
		if p.writes[root] || write && p.reads[root] {
			st.Trace = append(st.Trace, &Event{Kind: "race", Name: root, Fn: fr.fn, Pos: pos, Gor: fr.gor})
		}
	}
}

func (e *Engine) instr(st *State, fr *frame, in ssa.Instruction) bool {
	env := st.env[fr.id]
	switch x := in.(type) {
	case *ssa.Alloc:
		st.n++
		a := &Addr{Base: fmt.Sprintf("a:%d", st.n), T: core.Deref(x.Type()), Alloc: true}
		env[x] = a
	case *ssa.UnOp:
		v := e.val(st, fr, x.X)
		switch x.Op {
		case token.MUL:
			if st.NilFact(v) == 1 {
				return false
			}
			a := toAddr(v, x.Type())
			if a.T == nil {
				a = &Addr{Base: a.Base, T: x.Type(), Alloc: a.Alloc}
			}
			e.race(st, fr, a, false, x.Pos())
			env[x] = st.Load(a)
			if e.Shared != nil && e.Shared(a.Base) {
				st.Trace = append(st.Trace, &Event{Kind: "load", Name: a.Base, Recv: a, Args: []Val{env[x]}, Fn: fr.fn, Pos: x.Pos(), Gor: fr.gor, Held: len(st.held), Locks: st.held})
			}
		case token.NOT:
			env[x] = not(v)
		case token.SUB:
			if c, ok := v.(Const); ok {
				env[x] = Const{constant.UnaryOp(token.SUB, c.V, 0)}
			} else {
				env[x] = MkApp("neg", x.Type(), v)
			}
		default:
			env[x] = MkApp("un"+x.Op.String(), x.Type(), v)
		}
	case *ssa.BinOp:
		env[x] = e.binop(st, x.Op, e.val(st, fr, x.X), e.val(st, fr, x.Y), x.Type())
	case *ssa.FieldAddr:
		v := e.val(st, fr, x.X)
		if st.NilFact(v) == 1 {
			return false
		}
		a := toAddr(v, core.Deref(x.X.Type()))
		stt := core.Deref(x.X.Type()).Underlying().(*types.Struct)
		f := stt.Field(x.Field)
		env[x] = &Addr{Base: a.Base + "." + f.Name(), T: f.Type(), Alloc: a.Alloc}
	case *ssa.Field:
		v := e.val(st, fr, x.X)
		stt := x.X.Type().Underlying().(*types.Struct)
		f := stt.Field(x.Field)
		env[x] = fieldOf(v, f.Name(), f.Type())
	case *ssa.IndexAddr:
		v := Strip(e.val(st, fr, x.X))
		i := e.val(st, fr, x.Index)
		et := core.Deref(x.Type())
		idx := i.Key()
		if c, ok := i.(Const); ok {
			idx = c.V.ExactString()
		}
		switch s := v.(type) {
		case *SliceV:
			if c, ok := i.(Const); ok && c.V.Kind() == constant.Int {
				n, exact := constant.Int64Val(c.V)
				if exact && (n < 0 || n >= s.Len) {
					return false
				}
				idx = fmt.Sprint(s.Off + n)
			}
			env[x] = &Addr{Base: s.Arr.Base + "[" + idx + "]", T: et, Alloc: s.Arr.Alloc}
		case *Addr:
			env[x] = &Addr{Base: s.Base + "[" + idx + "]", T: et, Alloc: s.Alloc}
		case NilV:
			return false
		default:
			env[x] = &Addr{Base: "*" + v.Key() + "[" + idx + "]", T: et}
		}
	case *ssa.Index:
		env[x] = MkApp("index", x.Type(), e.val(st, fr, x.X), e.val(st, fr, x.Index))
	case *ssa.Lookup:
		m := Strip(e.val(st, fr, x.X))
		ks, whole := st.maps[m.Key()]
		i := e.val(st, fr, x.Index)
		if _, isC := Strip(i).(Const); whole && !isC && len(ks) > 0 {
			whole = false
		}
		for _, k := range ks {
			if _, isC := Strip(k).(Const); !isC {
				whole = false // an entry under an unknown key may be the one
			}
		}
		vt := x.Type()
		if x.CommaOk {
			vt = x.Type().(*types.Tuple).At(0).Type()
		}
		var v Val
		if c, ok := st.Mem["m:"+m.Key()+"["+i.Key()+"]"]; ok {
			v = c
		} else if _, isNil := m.(NilV); isNil || whole {
			v = ZeroOf(vt)
		} else {
			v = MkApp("lookup", vt, m, i)
		}
		if _, isMap := x.X.Type().Underlying().(*types.Map); isMap {
			e.mapRead(st, fr, m, x.Pos())
		}
		if _, have := st.Mem["m:"+m.Key()+"["+i.Key()+"]"]; x.CommaOk && (have || whole) {
			if !have {
				v = ZeroOf(vt)
			}
			env[x] = Tuple{v, Const{constant.MakeBool(have)}}
		} else if x.CommaOk {
			env[x] = Tuple{v, MkApp("has", types.Typ[types.Bool], m, i)}
		} else {
			env[x] = v
		}
	case *ssa.MapUpdate:
		m := Strip(e.val(st, fr, x.Map))
		if st.NilFact(m) == 1 {
			return false
		}
		kv, vv := e.val(st, fr, x.Key), e.val(st, fr, x.Value)
		st.MapSet(m, kv, vv)
		st.Trace = append(st.Trace, &Event{Kind: "mapset", Recv: m, Args: []Val{kv, vv}, Fn: fr.fn, Pos: x.Pos(), Gor: fr.gor, Held: len(st.held), Locks: st.held})
	case *ssa.Store:
		v := e.val(st, fr, x.Addr)
		if st.NilFact(v) == 1 {
			return false
		}
		a := toAddr(v, core.Deref(x.Addr.Type()))
		val := e.val(st, fr, x.Val)
		e.race(st, fr, a, true, x.Pos())
		st.Store(a, val)
		if !strings.HasPrefix(a.Base, "a:") || e.Shared != nil && e.Shared(a.Base) {
			st.Trace = append(st.Trace, &Event{Kind: "store", Name: a.Base, Recv: a, Args: []Val{val}, Fn: fr.fn, Pos: x.Pos(), Gor: fr.gor, Held: len(st.held), Locks: st.held})
		}
	case *ssa.MakeClosure:
		f := &Func{Fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.Bind = append(f.Bind, e.val(st, fr, b))
		}
		if strings.HasSuffix(f.Fn.Name(), "$bound") && len(f.Bind) == 1 {
			// a method value
			if o, ok := f.Fn.Object().(*types.Func); ok && o != nil {
				if m := e.Prog.FuncValue(o); m != nil {
					f = &Func{Fn: m, Recv: f.Bind[0]}
				}
			}
		}
		env[x] = f
	case *ssa.MakeInterface:
		v := e.val(st, fr, x.X)
		env[x] = &Iface{V: v, T: x.X.Type()}
		if _, isNil := v.(NilV); isNil {
			env[x] = &Iface{V: &Sym{ID: "typednil", T: x.X.Type()}, T: x.X.Type()}
		}
	case *ssa.ChangeInterface:
		env[x] = e.val(st, fr, x.X)
	case *ssa.ChangeType:
		env[x] = e.val(st, fr, x.X)
	case *ssa.Convert, *ssa.MultiConvert:
		var from ssa.Value
		var t types.Type
		if c, ok := x.(*ssa.Convert); ok {
			from, t = c.X, c.Type()
		} else {
			c := x.(*ssa.MultiConvert)
			from, t = c.X, c.Type()
		}
		v := e.val(st, fr, from)
		if c, ok := v.(Const); ok {
			if b, isB := t.Underlying().(*types.Basic); isB {
				switch {
				case b.Info()&types.IsInteger != 0 && c.V.Kind() == constant.Int:
					env[in.(ssa.Value)] = Const{Wrap(c.V, t)}
					return true
				case b.Info()&types.IsInteger != 0 && c.V.Kind() == constant.Float:
					if i := constant.ToInt(c.V); i.Kind() == constant.Int {
						env[in.(ssa.Value)] = Const{i}
						return true
					}
				case b.Info()&types.IsFloat != 0 && c.V.Kind() != constant.String:
					env[in.(ssa.Value)] = Const{constant.ToFloat(c.V)}
					return true
				case b.Info()&types.IsString != 0 && c.V.Kind() == constant.String:
					env[in.(ssa.Value)] = c
					return true
				}
			}
		}
		if types.Identical(from.Type(), t) {
			env[in.(ssa.Value)] = v
			return true
		}
		env[in.(ssa.Value)] = MkApp("conv:"+types.TypeString(t, nil), t, v)
	case *ssa.MakeMap:
		st.n++
		m := MkApp("make", x.Type(), &Sym{ID: fmt.Sprintf("map#%d", st.n)})
		env[x] = m
		st.maps[m.Key()] = nil
	case *ssa.MakeChan:
		st.n++
		c := MkApp("make", x.Type(), &Sym{ID: fmt.Sprintf("chan#%d", st.n)})
		env[x] = c
		st.chans[c.Key()] = nil
		st.chCap[c.Key()] = -1
		if n, ok := e.val(st, fr, x.Size).(Const); ok {
			if i, exact := constant.Int64Val(n.V); exact {
				st.chCap[c.Key()] = i
			}
		}
	case *ssa.MakeSlice:
		st.n++
		n := e.val(st, fr, x.Len)
		env[x] = MkApp("make", x.Type(), &Sym{ID: fmt.Sprintf("slice#%d", st.n)}, n)
		if c, ok := n.(Const); ok {
			if i, exact := constant.Int64Val(c.V); exact && i <= 8 {
				et := x.Type().Underlying().(*types.Slice).Elem()
				sv := &SliceV{Arr: &Addr{Base: fmt.Sprintf("a:%d", st.n), T: types.NewArray(et, i), Alloc: true}, Len: i}
				if c, ok := e.val(st, fr, x.Cap).(Const); ok && x.Cap != nil {
					if n, exact := constant.Int64Val(c.V); exact && n > i {
						sv.Spare = n - i
					}
				}
				env[x] = sv
			}
		}
	case *ssa.Slice:
		v := Strip(e.val(st, fr, x.X))
		if a, ok := v.(*Addr); ok {
			if at, ok := a.T.Underlying().(*types.Array); ok && x.Low == nil && x.High == nil {
				env[x] = &SliceV{Arr: a, Len: at.Len()}
				return true
			}
		}
		lo, hi := Val(NilV{}), Val(NilV{})
		if x.Low != nil {
			lo = e.val(st, fr, x.Low)
		}
		if x.High != nil {
			hi = e.val(st, fr, x.High)
		}
		max := Val(NilV{})
		if x.Max != nil {
			max = e.val(st, fr, x.Max)
		}
		if c, ok := lo.(Const); ok && constant.Sign(c.V) == 0 && x.High == nil && x.Max == nil {
			env[x] = v
			return true
		}
		if sv, ok := v.(*SliceV); ok {
			from, to := int64(0), sv.Len
			end := sv.Len + sv.Spare
			known := true
			for _, b := range []struct {
				v Val
				i *int64
			}{{lo, &from}, {hi, &to}, {max, &end}} {
				if _, none := b.v.(NilV); none {
					continue
				}
				c, ok := b.v.(Const)
				if !ok || c.V.Kind() != constant.Int {
					known = false
					break
				}
				*b.i, _ = constant.Int64Val(c.V)
			}
			if known {
				if from < 0 || from > to || to > end || end > sv.Len+sv.Spare {
					return false
				}
				env[x] = &SliceV{Arr: sv.Arr, Off: sv.Off + from, Len: to - from, Spare: end - to}
				return true
			}
		}
		env[x] = MkApp("slice", x.Type(), v, lo, hi)
	case *ssa.Extract:
		t := e.val(st, fr, x.Tuple)
		if tp, ok := t.(Tuple); ok && x.Index < len(tp) {
			env[x] = tp[x.Index]
		} else {
			env[x] = MkApp(fmt.Sprintf("res%d", x.Index), x.Type(), t)
		}
	case *ssa.Range:
		st.n++
		r := MkApp("range", nil, Strip(e.val(st, fr, x.X)))
		if _, isMap := x.X.Type().Underlying().(*types.Map); isMap {
			e.mapRead(st, fr, r.Args[0], x.Pos())
		}
		r.key = fmt.Sprintf("range#%d", st.n)
		env[x] = r
	case *ssa.Next:
		it := e.val(st, fr, x.Iter)
		m := it
		if a, ok := it.(*App); ok && a.Op == "range" {
			m = a.Args[0]
		}
		n := st.forks["next:"+it.Key()]
		st.forks["next:"+it.Key()]++
		tt := x.Type().(*types.Tuple)
		ix := Const{constant.MakeInt64(int64(n))}
		if _, isNil := m.(NilV); isNil {
			env[x] = Tuple{Const{constant.MakeBool(false)}, ZeroOf(types.Typ[types.Int]), ZeroOf(types.Typ[types.Int])}
			return true
		}
		if ks, ok := st.maps[m.Key()]; ok {
			if n < len(ks) {
				env[x] = Tuple{Const{constant.MakeBool(true)}, ks[n], st.Mem["m:"+m.Key()+"["+ks[n].Key()+"]"]}
			} else {
				env[x] = Tuple{Const{constant.MakeBool(false)}, ZeroOf(types.Typ[types.Int]), ZeroOf(types.Typ[types.Int])}
			}
			return true
		}
		env[x] = Tuple{MkApp("more", types.Typ[types.Bool], m, ix), MkApp("mapkey", tt.At(1).Type(), m, ix), MkApp("mapval", tt.At(2).Type(), m, ix)}
	case *ssa.Send:
		c := Strip(e.val(st, fr, x.Chan))
		v := e.val(st, fr, x.X)
		st.Trace = append(st.Trace, &Event{Kind: "send", Recv: c, Args: []Val{v}, Fn: fr.fn, Pos: x.Pos(), Gor: fr.gor, Held: len(st.held), Locks: st.held})
		st.chans[c.Key()] = append(st.chans[c.Key()][:len(st.chans[c.Key()]):len(st.chans[c.Key()])], v)
	case *ssa.SliceToArrayPointer:
		env[x] = MkApp("arrptr", x.Type(), e.val(st, fr, x.X))
	}
	return true
}

func (e *Engine) mapRead(st *State, fr *frame, m Val, pos token.Pos) {
	if e.Shared != nil {
		st.Trace = append(st.Trace, &Event{Kind: "mapget", Recv: m, Fn: fr.fn, Pos: pos, Gor: fr.gor, Held: len(st.held), Locks: st.held})
	}
}

// OpenMaps forgets what known maps hold: anything may be under any key.
func (st *State) OpenMaps() {
	st.maps = map[string][]Val{}
	for k := range st.Mem {
		if strings.HasPrefix(k, "m:") {
			delete(st.Mem, k)
		}
	}
}

// plain: the keys are constants or inputs, taken to be different ones.
func plain(ks []Val) bool {
	for _, k := range ks {
		switch Strip(k).(type) {
		case Const, *Sym:
		default:
			return false
		}
	}
	return true
}

// MapSet stores an entry of a map.
func (st *State) MapSet(m, k, v Val) {
	cell := "m:" + m.Key() + "[" + k.Key() + "]"
	if ks, ok := st.maps[m.Key()]; ok {
		if _, have := st.Mem[cell]; !have {
			st.maps[m.Key()] = append(ks[:len(ks):len(ks)], k)
		}
	}
	st.Mem[cell] = v
}

// NewMap makes a map with known content.
func (st *State) NewMap(t types.Type) Val {
	st.n++
	m := MkApp("make", t, &Sym{ID: fmt.Sprintf("map#%d", st.n)})
	st.maps[m.Key()] = nil
	return m
}

// ResetMap makes a map known to be empty.
func (st *State) ResetMap(m Val) {
	p := "m:" + m.Key() + "["
	for k := range st.Mem {
		if strings.HasPrefix(k, p) {
			delete(st.Mem, k)
		}
	}
	st.maps[m.Key()] = nil
}

// MapEntries lists the content of a map, if it is known.
func (st *State) MapEntries(m Val) (keys, vals []Val, known bool) {
	m = Strip(m)
	ks, ok := st.maps[m.Key()]
	for _, k := range ks {
		vals = append(vals, st.Mem["m:"+m.Key()+"["+k.Key()+"]"])
	}
	return ks, vals, ok
}

// NewArray makes a slice of n elements, zero until written.
func (st *State) NewSlice(et types.Type, n int64) *SliceV {
	st.n++
	return &SliceV{Arr: &Addr{Base: fmt.Sprintf("a:%d", st.n), T: types.NewArray(et, n), Alloc: true}, Len: n}
}

// Elem is the address of an element of a known slice.
func (s *SliceV) Elem(i int64) *Addr {
	return &Addr{Base: fmt.Sprintf("%s[%d]", s.Arr.Base, s.Off+i), T: s.Arr.T.Underlying().(*types.Array).Elem(), Alloc: s.Arr.Alloc}
}

// New makes a cell of type t.
func (st *State) New(t types.Type) *Addr {
	st.n++
	return &Addr{Base: fmt.Sprintf("a:%d", st.n), T: t, Alloc: true}
}

// Queued lists values sent on a channel made on this path and never received, with its capacity.
func (st *State) Queued() map[string]int64 {
	out := map[string]int64{}
	for k, q := range st.chans {
		c, ok := st.chCap[k]
		if ok && c >= 0 && int64(len(q)) > c {
			out[k] = int64(len(q)) - c
		}
	}
	return out
}

func (e *Engine) callee(st *State, fr *frame, ci ssa.CallInstruction) (fn, recv Val, args []Val) {
	cc := ci.Common()
	for _, a := range cc.Args {
		args = append(args, e.val(st, fr, a))
	}
	if cc.IsInvoke() {
		recv = e.val(st, fr, cc.Value)
		return nil, recv, args
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return &Sym{ID: "builtin:" + b.Name()}, nil, args
	}
	return e.val(st, fr, cc.Value), nil, args
}

func (e *Engine) event(st *State, fr *frame, ci ssa.CallInstruction, fn, recv Val, args []Val) *Event {
	ev := &Event{Kind: "call", Call: ci, Fn: fr.fn, Pos: ci.Pos(), Recv: recv, Held: len(st.held), Locks: st.held, Gor: fr.gor, Invoke: ci.Common().IsInvoke(), Site: fmt.Sprintf("%p", ci)}
	ev.Name = core.CalleeName(ci)
	ev.Target = fn
	ev.Method = core.MethodName(ci)
	if f, ok := fn.(*Func); ok {
		if f.Fn.Origin() != nil {
			ev.Name = strings.ReplaceAll(f.Fn.Origin().RelString(nil), core.Mod, "")
		} else {
			ev.Name = strings.ReplaceAll(f.Fn.RelString(nil), core.Mod, "")
		}
		ev.Method = f.Fn.Name()
		if o := f.Fn.Origin(); o != nil {
			ev.Method = o.Name()
		}
		if f.Recv != nil {
			ev.Recv = f.Recv
			ev.Args = args
		} else if f.Fn.Signature.Recv() != nil && len(args) > 0 {
			ev.Recv = args[0]
			args = args[1:]
		}
	}
	ev.Args = append([]Val{}, args...)
	if ci.Common().Signature().Variadic() {
		ev.Args = flatten(st, args)
	}
	return ev
}

// Flat gives the elements of a list that is the last argument in its place.
func (st *State) Flat(args []Val) []Val { return flatten(st, args) }

func flatten(st *State, args []Val) []Val {
	out := append([]Val{}, args...)
	if len(out) == 0 {
		return out
	}
	if s, ok := out[len(out)-1].(*SliceV); ok {
		out = out[:len(out)-1]
		var et types.Type
		if at, ok := s.Arr.T.Underlying().(*types.Array); ok {
			et = at.Elem()
		}
		for i := int64(0); i < s.Len; i++ {
			out = append(out, st.Load(&Addr{Base: fmt.Sprintf("%s[%d]", s.Arr.Base, s.Off+i), T: et, Alloc: true}))
		}
	}
	return out
}

// resolve finds the method an interface call on a value of known dynamic type reaches.
func (e *Engine) resolve(recv Val, m *types.Func) (*ssa.Function, Val) {
	f, ok := recv.(*Iface)
	if !ok || f.T == nil || types.IsInterface(f.T) {
		return nil, nil
	}
	sel := types.NewMethodSet(f.T).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil, nil
	}
	fn := e.Prog.MethodValue(sel)
	return fn, f.V
}

func (e *Engine) doCall(st *State, fr *frame, ci ssa.CallInstruction, fn, recv Val, args []Val, deferred bool, k cont) {
	cc := ci.Common()
	if b, ok := fn.(*Sym); ok && strings.HasPrefix(b.ID, "builtin:") {
		k(st, e.builtin(st, fr, ci, strings.TrimPrefix(b.ID, "builtin:"), args))
		return
	}
	if cc.IsInvoke() {
		if m, rv := e.resolve(recv, cc.Method); m != nil && m.Blocks != nil && (m.Synthetic == "" || strings.Contains(m.Synthetic, "wrapper")) {
			if e.Inline == nil || e.Inline(m) {
				e.from = fr
				e.enter(st, m, nil, append([]Val{rv}, args...), fr.depth+1, fr.gor, k)
				return
			}
		}
	}
	ev := e.event(st, fr, ci, fn, recv, args)
	ev.Defer = deferred
	var model []Out
	handled := false
	if e.Model != nil {
		model, handled = e.Model(e, st, ev)
	}
	if !handled {
		if f, ok := fn.(*Func); ok && f.Fn.Blocks != nil {
			a := args
			if f.Recv != nil {
				a = append([]Val{f.Recv}, args...)
			}
			if (f.Fn.Parent() != nil || e.Inline == nil || e.Inline(f.Fn)) && !(e.NoRec && fr.active(f.Fn)) {
				e.from = fr
				e.enter(st, f.Fn, f.Bind, a, fr.depth+1, fr.gor, k)
				return
			}
		}
		if e.Sched && e.schedWait(st, fr, ev, func(s2 *State) { k(s2, Tuple{}) }) {
			return
		}
		if ev.Name == "(*sync.WaitGroup).Wait" && len(st.pend) > 0 {
			// every goroutine runs before the wait ends
			e.drain(st, fr, "", func(s2 *State) {
				ne := *ev
				ne.Res = Tuple{}
				s2.Trace = append(s2.Trace, &ne)
				k(s2, Tuple{})
			})
			return
		}
		model, handled = e.std(st, ev)
	}
	if !handled {
		model = []Out{{Res: e.opaqueRes(st, cc.Signature(), ev.Name, ev.Args, ev.Recv)}}
		e.havoc(st, ev)
	}
	for i := range model {
		s2 := st
		if i < len(model)-1 {
			s2 = st.clone()
		}
		if model[i].Set != nil {
			model[i].Set(s2)
		}
		ne := *ev
		ne.Res = model[i].Res
		s2.Trace = append(s2.Trace, &ne)
		k(s2, model[i].Res)
	}
}

func (e *Engine) havoc(st *State, ev *Event) {
	all := append([]Val{}, ev.Args...)
	if ev.Recv != nil && !ev.Invoke {
		all = append(all, ev.Recv)
	}
	for _, a := range all {
		delete(st.maps, Strip(a).Key())
		x, ok := Strip(a).(*Addr)
		if !ok || strings.HasPrefix(x.Base, "g:") {
			continue
		}
		if e.NoHavoc != nil && x.T != nil && e.NoHavoc(x.T) {
			continue
		}
		if x.T == nil {
			continue
		}
		s := st.Fresh("out:"+ev.Name, x.T)
		var f []Val
		for _, o := range append(append([]Val{}, ev.Args...), ev.Recv) {
			if o != nil && o != a {
				f = append(f, o)
			}
		}
		f = append(f, st.Load(x))
		st.From[s.Key()] = f
		ev.Outs = append(ev.Outs, s)
		st.Store(x, s)
	}
}

func (e *Engine) runDefers(st *State, fr *frame, ds []*deferred, k func(*State)) {
	if len(ds) == 0 {
		k(st)
		return
	}
	d := ds[len(ds)-1]
	rest := ds[:len(ds)-1]
	e.doCall(st, fr, d.call, d.fn, d.recv, d.args, true, func(s2 *State, _ Val) { e.runDefers(s2, fr, rest, k) })
}

func (e *Engine) recv(st *State, fr *frame, ch Val, t types.Type, commaOk bool, k cont) {
	ch = Strip(ch)
	key := ch.Key()
	if _, local := st.chans[key]; local {
		e.drain(st, fr, key, func(s2 *State) {
			q := s2.chans[key]
			if len(q) == 0 {
				if !s2.Done["closed:"+key] {
					return // nothing will ever arrive: the path does not continue
				}
				et := t
				if tt, ok := t.(*types.Tuple); ok {
					et = tt.At(0).Type()
				}
				v := ZeroOf(et)
				s2.Trace = append(s2.Trace, &Event{Kind: "recv", Recv: ch, Res: v, Fn: fr.fn, Gor: fr.gor, Closed: true})
				if commaOk {
					v = Tuple{v, Const{constant.MakeBool(false)}}
				}
				k(s2, v)
				return
			}
			v := q[0]
			s2.chans[key] = q[1:]
			s2.Trace = append(s2.Trace, &Event{Kind: "recv", Recv: ch, Res: v, Fn: fr.fn, Gor: fr.gor})
			if commaOk {
				v = Tuple{v, Const{constant.MakeBool(true)}}
			}
			k(s2, v)
		})
		return
	}
	e.note(st, ch)
	var v Val
	if commaOk {
		tt := t.(*types.Tuple)
		v = Tuple{st.Fresh("recv", tt.At(0).Type()), st.Fresh("recvok", types.Typ[types.Bool])}
	} else {
		v = st.Fresh("recv", t)
	}
	st.Trace = append(st.Trace, &Event{Kind: "recv", Recv: ch, Res: v, Fn: fr.fn, Gor: fr.gor})
	k(st, v)
}

// note: a context was seen to be done.
func (e *Engine) note(st *State, ch Val) {
	if a, ok := ch.(*App); ok && a.Op == "ctx.Done" {
		st.Done[a.Args[0].Key()] = true
	}
}

// drain runs pending goroutines until something is queued on the channel.
func (e *Engine) drain(st *State, fr *frame, key string, k func(*State)) {
	if len(st.chans[key]) > 0 || len(st.pend) == 0 {
		k(st)
		return
	}
	p := st.pend[0]
	st.pend = st.pend[1:]
	e.enter(st, p.fn.Fn, p.fn.Bind, p.args, fr.depth+1, p.id, func(s2 *State, _ Val) { e.drain(s2, fr, key, k) })
}

func (e *Engine) doSelect(st *State, fr *frame, x *ssa.Select, k func(*State)) {
	n := 2
	for _, s := range x.States {
		if s.Dir == types.RecvOnly {
			n++
		}
	}
	mk := func(i int, ok Val, val Val, at int) Tuple {
		t := Tuple{Const{constant.MakeInt64(int64(i))}, ok}
		r := 0
		for j, s := range x.States {
			if s.Dir == types.RecvOnly {
				if j == at {
					t = append(t, val)
				} else {
					t = append(t, ZeroOf(core.Deref(s.Chan.Type().Underlying().(*types.Chan).Elem())))
				}
				r++
			}
		}
		return t
	}
	site := fmt.Sprintf("%p", x)
	st.forks[site]++
	over := st.forks[site] > e.MaxFork
	if over {
		e.path(&Path{St: st, How: "cut", At: x.Pos(), Where: fr.fn})
		if !e.Sched {
			return
		}
	}
	for i, s := range x.States {
		s2 := st.clone()
		ch := e.val(s2, fr, s.Chan)
		if over { // what others have done can still be seen
			if _, local := s2.chans[Strip(ch).Key()]; !local || s.Dir != types.RecvOnly {
				continue
			}
		}
		if e.Sched { // what cannot be taken now is not taken
			key := Strip(ch).Key()
			_, local := s2.chans[key]
			if local && s.Dir == types.RecvOnly && !s2.arrived(key) {
				continue
			}
			if n, local := s2.chCap[key]; local && s.Dir == types.SendOnly && n >= 0 && int64(len(s2.chans[key])) >= n {
				continue
			}
		}
		if s.Dir == types.SendOnly {
			c := Strip(ch)
			v := e.val(s2, fr, s.Send)
			s2.Trace = append(s2.Trace, &Event{Kind: "send", Recv: c, Args: []Val{v}, Fn: fr.fn, Pos: x.Pos(), Gor: fr.gor})
			s2.chans[c.Key()] = append(s2.chans[c.Key()][:len(s2.chans[c.Key()]):len(s2.chans[c.Key()])], v)
			s2.env[fr.id][x] = mk(i, Const{constant.MakeBool(true)}, NilV{}, -1)
			k(s2)
			continue
		}
		e.recv(s2, fr, ch, s.Chan.Type().Underlying().(*types.Chan).Elem(), false, func(s3 *State, v Val) {
			ev := *s3.Trace[len(s3.Trace)-1]
			ev.Poll = !x.Blocking
			ev.Pos = x.Pos()
			for _, o := range x.States {
				ev.Alts = append(ev.Alts, Strip(e.val(s3, fr, o.Chan)).Key())
			}
			var ok Val = Const{constant.MakeBool(!ev.Closed)}
			if _, local := s3.chans[Strip(ch).Key()]; !local {
				ok = s3.Fresh("recvok", types.Typ[types.Bool])
				ev.Outs = []Val{ok}
			}
			s3.Trace = append(s3.Trace[:len(s3.Trace)-1:len(s3.Trace)-1], &ev)
			s3.env[fr.id][x] = mk(i, ok, v, i)
			k(s3)
		})
	}
	if !x.Blocking && !over {
		st.env[fr.id][x] = mk(-1, Const{constant.MakeBool(false)}, NilV{}, -1)
		k(st)
	}
}

func (e *Engine) builtin(st *State, fr *frame, ci ssa.CallInstruction, name string, args []Val) Val {
	var t types.Type
	if v := ci.Value(); v != nil {
		t = v.Type()
	}
	switch name {
	case "len", "cap":
		switch x := Strip(args[0]).(type) {
		case NilV:
			return Const{constant.MakeInt64(0)}
		case *SliceV:
			if name == "cap" {
				return Const{constant.MakeInt64(x.Len + x.Spare)}
			}
			return Const{constant.MakeInt64(x.Len)}
		case Const:
			if x.V.Kind() == constant.String {
				return Const{constant.MakeInt64(int64(len(constant.StringVal(x.V))))}
			}
		case *App:
			if ks, ok := st.maps[x.Key()]; ok && name == "len" && plain(ks) {
				return Const{constant.MakeInt64(int64(len(ks)))}
			}
			if x.Op == "make" && len(x.Args) == 2 && name == "len" {
				return x.Args[1]
			}
		}
		return MkApp(name, types.Typ[types.Int], Strip(args[0]))
	case "append":
		if len(args) == 2 && t != nil {
			if _, none := Strip(args[1]).(NilV); none {
				return args[0]
			}
			var old, add *SliceV
			ok := true
			switch b := args[0].(type) {
			case NilV:
			case *SliceV:
				old = b
			default:
				ok = false
			}
			add, ok2 := args[1].(*SliceV)
			if ok && ok2 {
				et := t.Underlying().(*types.Slice).Elem()
				load := func(s *SliceV) (vs []Val) {
					for i := int64(0); s != nil && i < s.Len; i++ {
						vs = append(vs, st.Load(&Addr{Base: s.Elem(i).Base, T: et, Alloc: s.Arr.Alloc}))
					}
					return
				}
				vs := load(add)
				if old != nil && old.Spare >= add.Len { // in place
					out := &SliceV{Arr: old.Arr, Off: old.Off, Len: old.Len + add.Len, Spare: old.Spare - add.Len}
					for i, v := range vs {
						st.Store(&Addr{Base: out.Elem(old.Len + int64(i)).Base, T: et, Alloc: old.Arr.Alloc}, v)
					}
					return out
				}
				vs = append(load(old), vs...)
				n := int64(len(vs))
				room := n
				if old != nil && 2*(old.Len+old.Spare) > n {
					room = 2 * (old.Len + old.Spare)
				}
				out := st.NewSlice(et, room)
				out.Len, out.Spare = n, room-n
				for i, v := range vs {
					st.Store(out.Elem(int64(i)), v)
				}
				return out
			}
		}
		return MkApp("append", t, flatten(st, args)...)
	case "close":
		c := Strip(args[0])
		st.Trace = append(st.Trace, &Event{Kind: "close", Recv: c, Fn: fr.fn, Pos: ci.Pos(), Gor: fr.gor})
		if _, ok := st.chans[c.Key()]; ok {
			st.Done["closed:"+c.Key()] = true
			st.chCap[c.Key()] = 1 << 20
		}
		return Tuple{}
	case "delete":
		m := Strip(args[0])
		if ks, ok := st.maps[m.Key()]; ok {
			// a constant key names one entry of a map whose keys are constants
			_, known := Strip(args[1]).(Const)
			var rest []Val
			for _, k := range ks {
				if _, isC := Strip(k).(Const); !isC {
					known = false
				}
				if k.Key() != args[1].Key() {
					rest = append(rest, k)
				}
			}
			if known {
				st.maps[m.Key()] = rest
			} else {
				delete(st.maps, m.Key())
			}
		}
		delete(st.Mem, "m:"+m.Key()+"["+args[1].Key()+"]")
		st.Trace = append(st.Trace, &Event{Kind: "mapdel", Recv: Strip(args[0]), Args: args[1:], Fn: fr.fn, Pos: ci.Pos(), Gor: fr.gor, Held: len(st.held), Locks: st.held})
		return Tuple{}
	case "clear":
		if m := Strip(args[0]); len(st.maps[m.Key()]) > 0 {
			for _, k := range st.maps[m.Key()] {
				delete(st.Mem, "m:"+m.Key()+"["+k.Key()+"]")
			}
			st.maps[m.Key()] = nil
		}
		return Tuple{}
	case "copy":
		dst, ok := Strip(args[0]).(*SliceV)
		src, ok2 := Strip(args[1]).(*SliceV)
		if ok && ok2 {
			var vs []Val
			for i := int64(0); i < dst.Len && i < src.Len; i++ {
				vs = append(vs, st.Load(src.Elem(i)))
			}
			for i, v := range vs {
				st.Store(dst.Elem(int64(i)), v)
			}
			return Const{constant.MakeInt64(int64(len(vs)))}
		}
		return MkApp(name, t, args...)
	case "print", "println":
		return MkApp(name, t, args...)
	case "min", "max":
		best := -1
		for i, a := range args {
			k, ok := a.(Const)
			if !ok || k.V == nil {
				return MkApp(name, t, args...)
			}
			op := token.LSS
			if name == "max" {
				op = token.GTR
			}
			if best < 0 || constant.Compare(k.V, op, args[best].(Const).V) {
				best = i
			}
		}
		if best >= 0 {
			return args[best]
		}
		return MkApp(name, t, args...)
	case "recover":
		return NilV{}
	}
	return MkApp("builtin:"+name, t, args...)
}

// std models library calls whose meaning the rules rely on.
func (e *Engine) std(st *State, ev *Event) ([]Out, bool) {
	one := func(v Val) ([]Out, bool) { return []Out{{Res: v}}, true }
	sig := ev.Call.Common().Signature()
	rt := func(i int) types.Type {
		if sig.Results().Len() > i {
			return sig.Results().At(i).Type()
		}
		return nil
	}
	switch ev.Name {
	case "maps.Copy", "golang.org/x/exp/maps.Copy":
		dst, src := Strip(ev.Args[0]), Strip(ev.Args[1])
		if ks, ok := st.maps[src.Key()]; ok {
			return []Out{{Res: Tuple{}, Set: func(s *State) {
				for _, k := range ks {
					s.MapSet(dst, k, s.Mem["m:"+src.Key()+"["+k.Key()+"]"])
				}
			}}}, true
		}
		return []Out{{Res: Tuple{}, Set: func(s *State) { delete(s.maps, dst.Key()) }}}, true
	case "maps.Clone", "golang.org/x/exp/maps.Clone":
		src := Strip(ev.Args[0])
		if ks, ok := st.maps[src.Key()]; ok {
			n := st.NewMap(rt(0))
			for _, k := range ks {
				st.MapSet(n, k, st.Mem["m:"+src.Key()+"["+k.Key()+"]"])
			}
			return one(n)
		}
	case "errors.New", "fmt.Errorf", "blueprint/pkg/blueprint.Errorf", "github.com/pkg/errors.Errorf", "github.com/pkg/errors.New":
		st.n++
		return one(&App{Op: "err:" + ev.Name, Args: ev.Args, T: rt(0), key: fmt.Sprintf("err:%s#%d", ev.Name, st.n)})
	case "(context.Context).Done":
		return one(MkApp("ctx.Done", rt(0), Strip(ev.Recv)))
	case "(context.Context).Err":
		c := Strip(ev.Recv)
		v := MkApp("ctx.Err", rt(0), c)
		if st.Done[c.Key()] {
			st.Assume(v, false)
		}
		return one(v)
	case "context.WithValue":
		return one(MkApp(ev.Name, rt(0), ev.Args...))
	case "context.WithTimeout", "context.WithDeadline", "context.WithCancel", "context.WithTimeoutCause", "context.WithDeadlineCause":
		st.n++
		c := &App{Op: ev.Name, Args: ev.Args, T: rt(0), key: fmt.Sprintf("%s#%d", ev.Name, st.n)}
		return one(Tuple{c, MkApp("cancel", rt(1), c)})
	case "context.Background", "context.TODO":
		return one(MkApp(ev.Name, rt(0), ev.Args...))
	case "context.WithoutCancel": // does not end with its parent: not derived from it
		return one(MkApp(ev.Name, rt(0)))
	case "fmt.Sprintf", "fmt.Sprint", "strings.ToLower", "strings.ToUpper", "strings.TrimSpace", "strconv.Itoa", "strconv.FormatInt", "strconv.FormatFloat", "math.Min", "math.Max", "(time.Duration).Seconds", "(time.Duration).Milliseconds", "(time.Time).Add", "(time.Time).Sub":
		a := ev.Args
		if ev.Recv != nil {
			a = append([]Val{ev.Recv}, a...)
		}
		for i := range a {
			a[i] = Strip(a[i])
		}
		return one(MkApp(ev.Name, rt(0), a...))
	case "time.ParseDuration":
		if c, ok := ev.Args[0].(Const); ok && c.V.Kind() == constant.String {
			if d, ok := parseDuration(constant.StringVal(c.V)); ok {
				return one(Tuple{Const{constant.MakeInt64(d)}, NilV{}})
			}
			return one(Tuple{Const{constant.MakeInt64(0)}, MkApp("err:parse", rt(1), ev.Args[0])})
		}
	case "strconv.ParseInt", "strconv.Atoi":
		if c, ok := ev.Args[0].(Const); ok && c.V.Kind() == constant.String {
			var i int64
			if _, err := fmt.Sscanf(constant.StringVal(c.V), "%d", &i); err == nil && fmt.Sprint(i) == constant.StringVal(c.V) {
				return one(Tuple{Const{constant.MakeInt64(i)}, NilV{}})
			}
		}
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock", "(sync.Locker).Lock":
		k := lockKey(ev)
		return []Out{{Res: Tuple{}, Set: func(s *State) { s.held = append(s.held[:len(s.held):len(s.held)], k) }}}, true
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock", "(sync.Locker).Unlock":
		k := lockKey(ev)
		return []Out{{Res: Tuple{}, Set: func(s *State) {
			for i := len(s.held) - 1; i >= 0; i-- {
				if s.held[i] == k {
					s.held = append(append([]string{}, s.held[:i]...), s.held[i+1:]...)
					break
				}
			}
		}}}, true
	}
	return nil, false
}

// lockKey names a held lock; read locks start with "r:".
func lockKey(ev *Event) string {
	if strings.Contains(ev.Name, ").R") {
		return "r:" + ev.Recv.Key()
	}
	return ev.Recv.Key()
}

// Duration parses a duration in nanoseconds.
func Duration(s string) (int64, bool) { return parseDuration(s) }

func parseDuration(s string) (int64, bool) {
	units := []struct {
		u string
		n int64
	}{{"ns", 1}, {"us", 1e3}, {"µs", 1e3}, {"ms", 1e6}, {"s", 1e9}, {"m", 60e9}, {"h", 3600e9}}
	i := 0
	for i < len(s) && (s[i] >= '0' && s[i] <= '9' || s[i] == '.') {
		i++
	}
	if i == 0 {
		return 0, false
	}
	v := constant.MakeFromLiteral(s[:i], token.FLOAT, 0)
	for _, u := range units {
		if s[i:] == u.u {
			r := constant.BinaryOp(v, token.MUL, constant.MakeInt64(u.n))
			n, exact := constant.Int64Val(constant.ToInt(r))
			return n, exact
		}
	}
	return 0, false
}

// Decided reports that a branch on the path was decided on a value mentioning key.
func (st *State) Decided(key string) bool {
	for f := range st.facts {
		if strings.HasPrefix(f, "b:") && strings.Contains(f, key) {
			return true
		}
	}
	return false
}
