package checks

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/core"
	"verif/analyzer/flow"
)

// node is a document of known shape whose leaves are opaque values of known type.
type node struct {
	kind string // doc, list, leaf
	keys []string
	kids []*node
	v    flow.Val // of a leaf: an interface value, or nil
}

func (n *node) get(k string) *node {
	if n != nil && n.kind == "doc" {
		for i := range n.keys {
			if n.keys[i] == k {
				return n.kids[i]
			}
		}
	}
	return nil
}

func (n *node) String() string {
	switch {
	case n == nil:
		return "none"
	case n.kind == "leaf":
		s := n.v.Key()
		if c, ok := flow.Strip(n.v).(flow.Const); ok {
			s = c.V.ExactString()
		}
		if i, ok := n.v.(*flow.Iface); ok && i.T != nil {
			return s
		}
		return s
	}
	var s []string
	for i, k := range n.kids {
		if n.kind == "doc" {
			s = append(s, n.keys[i]+": "+k.String())
		} else {
			s = append(s, k.String())
		}
	}
	if n.kind == "doc" {
		return "{" + strings.Join(s, ", ") + "}"
	}
	return "[" + strings.Join(s, ", ") + "]"
}

// docs knows the types that documents are made of.
type docs struct {
	cells
	d, a, e, oid types.Type
	fails        bool // encoding may fail
	seen         map[string]bool
}

func newDocs(c *core.Ctx, filterParam types.Type) *docs {
	named, ok := types.Unalias(filterParam).(*types.Named)
	if !ok || named.Obj().Pkg() == nil {
		return nil
	}
	sc := named.Obj().Pkg().Scope()
	look := func(n string) types.Type {
		if o := sc.Lookup(n); o != nil {
			return types.Unalias(o.Type())
		}
		return nil
	}
	d := &docs{d: named, a: look("A"), e: look("E"), oid: look("ObjectID")}
	if d.a == nil || d.e == nil || d.oid == nil {
		return nil
	}
	return d
}

// parse reads a document: {key: value}, [values], null, true, 'text', 12 and opaque leaves, the first letter of
// which tells their type: s string, i int64, j int32, n int, f float64, b bool, o object ID.
func (d *docs) parse(s string) *node {
	p := &docParser{d: d, s: s}
	n := p.value()
	p.space()
	if p.i != len(p.s) {
		panic("document " + s + " at " + p.s[p.i:])
	}
	return n
}

type docParser struct {
	d *docs
	s string
	i int
}

func (p *docParser) space() {
	for p.i < len(p.s) && (p.s[p.i] == ' ' || p.s[p.i] == ',') {
		p.i++
	}
}

func (p *docParser) value() *node {
	p.space()
	switch p.s[p.i] {
	case '{', '[':
		n := &node{kind: "doc"}
		end := byte('}')
		if p.s[p.i] == '[' {
			n.kind, end = "list", ']'
		}
		p.i++
		for {
			p.space()
			if p.s[p.i] == end {
				p.i++
				return n
			}
			if n.kind == "doc" {
				j := p.i + strings.IndexByte(p.s[p.i:], ':')
				n.keys = append(n.keys, strings.TrimSpace(p.s[p.i:j]))
				p.i = j + 1
			}
			n.kids = append(n.kids, p.value())
		}
	case '\'':
		j := p.i + 1 + strings.IndexByte(p.s[p.i+1:], '\'')
		t := p.s[p.i+1 : j]
		p.i = j + 1
		return &node{kind: "leaf", v: &flow.Iface{V: kstr(t), T: types.Typ[types.String]}}
	}
	j := p.i
	for j < len(p.s) && !strings.ContainsRune(" ,}]", rune(p.s[j])) {
		j++
	}
	w := p.s[p.i:j]
	p.i = j
	switch w {
	case "null":
		return &node{kind: "leaf", v: flow.NilV{}}
	case "true", "false":
		return &node{kind: "leaf", v: &flow.Iface{V: flow.Const{V: constant.MakeBool(w == "true")}, T: types.Typ[types.Bool]}}
	}
	if n, err := strconv.ParseInt(w, 10, 64); err == nil {
		return &node{kind: "leaf", v: &flow.Iface{V: kint(n), T: types.Typ[types.Int]}}
	}
	t := map[byte]types.Type{'s': types.Typ[types.String], 'i': types.Typ[types.Int64], 'j': types.Typ[types.Int32], 'n': types.Typ[types.Int], 'f': types.Typ[types.Float64], 'b': types.Typ[types.Bool], 'o': p.d.oid}[w[0]]
	if t == nil {
		panic("leaf " + w)
	}
	return &node{kind: "leaf", v: &flow.Iface{V: &flow.Sym{ID: w, T: t}, T: t}}
}

// val makes the value of a document; one at the top is not in an interface.
func (d *docs) val(st *flow.State, n *node) flow.Val {
	switch n.kind {
	case "leaf":
		return n.v
	case "list":
		s := st.NewSlice(types.NewInterfaceType(nil, nil), int64(len(n.kids)))
		for i, k := range n.kids {
			st.Store(s.Elem(int64(i)), d.val(st, k))
		}
		return &flow.Iface{V: s, T: d.a}
	}
	return &flow.Iface{V: d.doc(st, n), T: d.d}
}

func (d *docs) doc(st *flow.State, n *node) *flow.SliceV {
	s := st.NewSlice(d.e, int64(len(n.kids)))
	for i, k := range n.kids {
		st.Store(s.Elem(int64(i)), &flow.Struct{Base: flow.Zero{T: d.e}, F: map[string]flow.Val{"Key": kstr(n.keys[i]), "Value": d.val(st, k)}})
	}
	return s
}

// node reads the shape of a value back.
func (d *docs) node(st *flow.State, v flow.Val) *node {
	i, ok := v.(*flow.Iface)
	if !ok {
		return &node{kind: "leaf", v: v}
	}
	switch {
	case i.T != nil && types.Identical(types.Unalias(i.T), d.d):
		return d.docNode(st, i.V)
	case i.T != nil && types.Identical(types.Unalias(i.T), d.a):
		n := &node{kind: "list"}
		s, ok := flow.Strip(i.V).(*flow.SliceV)
		if !ok {
			if _, none := flow.Strip(i.V).(flow.NilV); none {
				return n
			}
			return &node{kind: "leaf", v: v}
		}
		for j := int64(0); j < s.Len; j++ {
			n.kids = append(n.kids, d.node(st, st.Load(s.Elem(j))))
		}
		return n
	}
	return &node{kind: "leaf", v: v}
}

func (d *docs) docNode(st *flow.State, v flow.Val) *node {
	n := &node{kind: "doc"}
	s, ok := flow.Strip(v).(*flow.SliceV)
	if !ok {
		switch z := flow.Strip(v).(type) {
		case flow.NilV, flow.Zero:
			return n
		default:
			return &node{kind: "leaf", v: z}
		}
	}
	for j := int64(0); j < s.Len; j++ {
		a := s.Elem(j)
		key := st.Load(&flow.Addr{Base: a.Base + ".Key", T: types.Typ[types.String], Alloc: a.Alloc})
		k, ok := flow.Strip(key).(flow.Const)
		name := key.Key()
		if ok && k.V.Kind() == constant.String {
			name = constant.StringVal(k.V)
		}
		n.keys = append(n.keys, name)
		n.kids = append(n.kids, d.node(st, st.Load(&flow.Addr{Base: a.Base + ".Value", T: types.NewInterfaceType(nil, nil), Alloc: a.Alloc})))
	}
	return n
}

// encoded gives the shape that a value has after it was encoded and decoded.
func (d *docs) encoded(n *node) *node {
	if n.kind == "leaf" {
		if i, ok := n.v.(*flow.Iface); ok && i.T != nil {
			if b, ok := i.T.Underlying().(*types.Basic); ok && b.Kind() == types.Int {
				return &node{kind: "leaf", v: &flow.Iface{V: i.V, T: types.Typ[types.Int64]}}
			}
		}
		return n
	}
	out := &node{kind: n.kind, keys: n.keys}
	for _, k := range n.kids {
		out.kids = append(out.kids, d.encoded(k))
	}
	return out
}

// model is the library: encoding, reflection, strings and regular expressions.
func (d *docs) docModel(e *flow.Engine, st *flow.State, ev *flow.Event) ([]flow.Out, bool) {
	one := func(v flow.Val) ([]flow.Out, bool) { return []flow.Out{{Res: v}}, true }
	bad := func(what string) flow.Val { return &flow.Iface{V: kstr("error:" + what), T: types.Typ[types.String]} }
	str := func(i int) (string, bool) {
		if i >= len(ev.Args) {
			return "", false
		}
		c, ok := flow.Strip(ev.Args[i]).(flow.Const)
		if !ok || c.V.Kind() != constant.String {
			return "", false
		}
		return constant.StringVal(c.V), true
	}
	res := func(i int) types.Type { return ev.Call.Common().Signature().Results().At(i).Type() }
	bson := "go.mongodb.org/mongo-driver/bson."
	switch ev.Name {
	case bson + "Marshal", bson + "MarshalValue":
		v := ev.Args[0]
		if s, ok := v.(*flow.SliceV); ok {
			v = &flow.Iface{V: s, T: d.d}
		}
		frozen := flow.MkApp("bson", nil, d.val(st, d.encoded(d.node(st, v))))
		if ev.Name == bson+"Marshal" {
			outs := []flow.Out{{Res: flow.Tuple{frozen, flow.NilV{}}}}
			if d.fails {
				outs = append(outs, flow.Out{Res: flow.Tuple{flow.NilV{}, bad("encode")}})
			}
			return outs, true
		}
		t := flow.MkApp("bsontype", res(0), frozen)
		return one(flow.Tuple{t, frozen, flow.NilV{}})
	case bson + "Unmarshal", bson + "UnmarshalValue":
		a := ev.Args
		if ev.Name == bson+"UnmarshalValue" {
			if len(a) != 3 || !sameVal(flow.MkApp("bsontype", nil, a[1]), a[0]) {
				return nil, false
			}
			a = a[1:]
		}
		from, ok := flow.Strip(a[0]).(*flow.App)
		if !ok || from.Op != "bson" {
			return nil, false
		}
		v := from.Args[0]
		i, ok := a[1].(*flow.Iface)
		var cell *flow.Addr
		if ok {
			cell, _ = flow.Strip(i.V).(*flow.Addr)
		}
		if cell == nil {
			ev.Name, ev.Args = "decode", []flow.Val{v, a[1]}
			outs := []flow.Out{{Res: flow.NilV{}}}
			if d.fails {
				outs = append(outs, flow.Out{Res: bad("decode")})
			}
			return outs, true
		}
		n := d.node(st, v)
		var nv flow.Val
		switch {
		case types.IsInterface(cell.T):
			nv = d.val(st, n)
		case types.Identical(types.Unalias(cell.T), d.d) && n.kind == "doc":
			nv = d.doc(st, n)
		default:
			return nil, false
		}
		return []flow.Out{{Res: flow.NilV{}, Set: func(s *flow.State) { s.Store(cell, nv) }}}, true
	case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains":
		x, ok := str(0)
		y, ok2 := str(1)
		if ok && ok2 {
			f := map[string]func(string, string) bool{"strings.HasPrefix": strings.HasPrefix, "strings.HasSuffix": strings.HasSuffix, "strings.Contains": strings.Contains}[ev.Name]
			return one(flow.Const{V: constant.MakeBool(f(x, y))})
		}
	case "strings.Split", "strings.SplitN":
		x, ok := str(0)
		y, ok2 := str(1)
		if ok && ok2 && len(ev.Args) == 2 {
			ps := strings.Split(x, y)
			s := st.NewSlice(types.Typ[types.String], int64(len(ps)))
			for i, p := range ps {
				st.Store(s.Elem(int64(i)), kstr(p))
			}
			return one(s)
		}
	case "strings.TrimPrefix":
		x, ok := str(0)
		y, ok2 := str(1)
		if ok && ok2 {
			return one(kstr(strings.TrimPrefix(x, y)))
		}
	case "strings.Cut", "strings.CutPrefix":
		x, ok := str(0)
		y, ok2 := str(1)
		if ok && ok2 {
			if ev.Name == "strings.Cut" {
				b, a, f := strings.Cut(x, y)
				return one(flow.Tuple{kstr(b), kstr(a), flow.Const{V: constant.MakeBool(f)}})
			}
			a, f := strings.CutPrefix(x, y)
			return one(flow.Tuple{kstr(a), flow.Const{V: constant.MakeBool(f)}})
		}
	case "strconv.Atoi", "strconv.ParseInt":
		if x, ok := str(0); ok {
			n, err := strconv.Atoi(x)
			if err != nil {
				return one(flow.Tuple{kint(0), bad("number")})
			}
			return one(flow.Tuple{kint(int64(n)), flow.NilV{}})
		}
	case "regexp.Compile":
		return []flow.Out{
			{Res: flow.Tuple{flow.MkApp("re", res(0), ev.Args[0]), flow.NilV{}}, Set: func(s *flow.State) { s.Assume(flow.MkApp("re", nil, ev.Args[0]), false) }},
			{Res: flow.Tuple{flow.NilV{}, bad("regexp")}},
		}, true
	case "(*regexp.Regexp).MatchString":
		if re, ok := flow.Strip(ev.Recv).(*flow.App); ok && re.Op == "re" {
			return one(flow.MkApp("match", types.Typ[types.Bool], re.Args[0], ev.Args[0]))
		}
	case "reflect.DeepEqual":
		return d.deepEqual(st, d.node(st, ev.Args[0]), d.node(st, ev.Args[1]))
	case "go.mongodb.org/mongo-driver/bson/primitive.NewObjectID":
		return one(st.Fresh("newid", d.oid))
	}
	return d.cells.model(e, st, ev)
}

// deepEqual gives the outcomes of comparing two documents as values of Go.
func (d *docs) deepEqual(st *flow.State, a, b *node) ([]flow.Out, bool) {
	var atoms []flow.Val
	same := true
	var rec func(a, b *node)
	rec = func(a, b *node) {
		if a.kind != b.kind || len(a.kids) != len(b.kids) {
			same = false
			return
		}
		if a.kind == "leaf" {
			x, ok := a.v.(*flow.Iface)
			y, ok2 := b.v.(*flow.Iface)
			switch {
			case !ok && !ok2 && st.NilFact(a.v) == 1 && st.NilFact(b.v) == 1:
			case !ok || !ok2:
				same = same && !(st.NilFact(a.v) == 1 || st.NilFact(b.v) == 1)
				atoms = append(atoms, atom("==", a.v, b.v))
			case !types.Identical(x.T, y.T):
				same = false
			default:
				at := atom("==", x.V, y.V)
				switch st.Bool(at) {
				case -1:
					same = false
				case 0:
					atoms = append(atoms, at)
				}
			}
			return
		}
		for i := range a.kids {
			if a.kind == "doc" && a.keys[i] != b.keys[i] {
				same = false
				return
			}
			rec(a.kids[i], b.kids[i])
		}
	}
	rec(a, b)
	yes, no := flow.Const{V: constant.MakeBool(true)}, flow.Const{V: constant.MakeBool(false)}
	if !same {
		return []flow.Out{{Res: no}}, true
	}
	outs := []flow.Out{}
	for i := range atoms {
		if c, ok := atoms[i].(flow.Const); ok {
			if !constant.BoolVal(c.V) {
				return []flow.Out{{Res: no}}, true
			}
			continue
		}
		i := i
		outs = append(outs, flow.Out{Res: no, Set: func(s *flow.State) {
			for _, a := range atoms[:i] {
				if _, ok := a.(flow.Const); !ok {
					s.AssumeBool(a, true)
				}
			}
			s.AssumeBool(atoms[i], false)
		}})
	}
	return append(outs, flow.Out{Res: yes, Set: func(s *flow.State) {
		for _, a := range atoms {
			if _, ok := a.(flow.Const); !ok {
				s.AssumeBool(a, true)
			}
		}
	}}), true
}

// atom is a comparison of two leaves as the engine writes it.
func atom(op string, a, b flow.Val) flow.Val {
	a, b = flow.Strip(a), flow.Strip(b)
	ca, ok := a.(flow.Const)
	cb, ok2 := b.(flow.Const)
	if ok && ok2 {
		v, _ := valued(flow.MkApp(op, nil, a, b), nil)
		_ = ca
		_ = cb
		if v != nil {
			return flow.Const{V: v}
		}
	}
	if op == "==" && a.Key() == b.Key() {
		return flow.Const{V: constant.MakeBool(true)}
	}
	if op == "==" && a.Key() > b.Key() {
		a, b = b, a
	}
	return flow.MkApp(op, types.Typ[types.Bool], a, b)
}

// oracle is what a path has found out about the leaves.
type oracle map[string]bool

func (o oracle) add(v flow.Val, b bool) {
	a, ok := v.(*flow.App)
	if !ok {
		return
	}
	if a.Op == "not" {
		o.add(a.Args[0], !b)
		return
	}
	if len(a.Args) == 2 {
		o[atomKey(a.Op, a.Args[0], a.Args[1])] = b
	}
}

func atomKey(op string, a, b flow.Val) string {
	x, cx := exact(a)
	y, cy := exact(b)
	ks := []string{x + cx, y + cy}
	if op == "==" {
		sort.Strings(ks)
	}
	return op + ":" + ks[0] + "|" + ks[1]
}

// exact gives the leaf that a term converts, and what the conversions lose: nothing, an integer's last digits, or more.
func exact(v flow.Val) (string, string) {
	var chain []types.Type
	for {
		v = flow.Strip(v)
		a, ok := v.(*flow.App)
		if !ok || !strings.HasPrefix(a.Op, "conv:") || len(a.Args) != 1 {
			break
		}
		chain = append(chain, a.T)
		v = a.Args[0]
	}
	var t types.Type
	if s, ok := v.(*flow.Sym); ok {
		t = s.T
	}
	lost := ""
	for i := len(chain) - 1; i >= 0; i-- {
		from, ok := basicOf(t)
		to, ok2 := basicOf(chain[i])
		t = chain[i]
		switch {
		case !ok || !ok2 || from.Info()&types.IsNumeric == 0 || to.Info()&types.IsNumeric == 0:
		case from.Info()&types.IsFloat != 0 && to.Info()&types.IsInteger != 0:
			lost = "~cut"
		case from.Info()&types.IsFloat != 0:
			if to.Kind() == types.Float32 && from.Kind() != types.Float32 {
				lost = "~cut"
			}
		case to.Info()&types.IsFloat != 0:
			if lost == "" {
				lost = "~float"
			}
		default:
			fb, _ := flow.Width(from)
			tb, _ := flow.Width(to)
			if tb != 0 && tb < fb {
				lost = "~cut"
			}
		}
	}
	return v.Key(), lost
}

func basicOf(t types.Type) (*types.Basic, bool) {
	if t == nil {
		return nil, false
	}
	b, ok := t.Underlying().(*types.Basic)
	return b, ok
}

func oracleOf(p *flow.Path) oracle {
	o := oracle{}
	for _, c := range p.St.Conds {
		o.add(c.V, c.B)
	}
	return o
}

// tri is true (1), false (-1) or not known (0).
type tri int

func (t tri) not() tri { return -t }

func triAnd(ts ...tri) tri {
	r := tri(1)
	for _, t := range ts {
		r = min(r, t)
	}
	return r
}

func triOr(ts ...tri) tri {
	r := tri(-1)
	for _, t := range ts {
		r = max(r, t)
	}
	return r
}

func triBool(b bool) tri {
	if b {
		return 1
	}
	return -1
}

func isNum(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsNumeric != 0
}

func (o oracle) rel(op string, a, b flow.Val) tri {
	x, ok := a.(*flow.Iface)
	y, ok2 := b.(*flow.Iface)
	if !ok || !ok2 { // null
		return triBool(!ok && !ok2 && op == "==")
	}
	if !(isNum(x.T) && isNum(y.T)) && !types.Identical(x.T, y.T) {
		return -1
	}
	if v, ok := valued(flow.MkApp(op, nil, unconv(x.V), unconv(y.V)), nil); ok {
		return triBool(constant.BoolVal(v))
	}
	ka, kb := unconv(x.V).Key(), unconv(y.V).Key()
	if ka == kb {
		return triBool(op == "==")
	}
	if v, ok := o[atomKey(op, x.V, y.V)]; ok {
		return triBool(v)
	}
	bx, _ := basicOf(x.T)
	by, _ := basicOf(y.T)
	if isNum(x.T) && isNum(y.T) && (bx.Info()&types.IsFloat != 0) != (by.Info()&types.IsFloat != 0) { // the integer is compared as a float
		fx, fy := x.V, y.V
		if bx.Info()&types.IsFloat == 0 {
			fx = flow.MkApp("conv:float64", types.Typ[types.Float64], x.V)
		} else {
			fy = flow.MkApp("conv:float64", types.Typ[types.Float64], y.V)
		}
		if v, ok := o[atomKey(op, fx, fy)]; ok {
			return triBool(v)
		}
	}
	return 0
}

// same: two documents are equal, field by field in order.
func (o oracle) same(a, b *node) tri {
	if a.kind != b.kind {
		return -1
	}
	if a.kind == "leaf" {
		return o.rel("==", a.v, b.v)
	}
	if len(a.kids) != len(b.kids) {
		return -1
	}
	r := tri(1)
	for i := range a.kids {
		if a.kind == "doc" && a.keys[i] != b.keys[i] {
			return -1
		}
		r = triAnd(r, o.same(a.kids[i], b.kids[i]))
	}
	return r
}

// methodOf finds the method that a value of known type has.
func methodOf(c *core.Ctx, v flow.Val, name string) *ssa.Function {
	i, ok := v.(*flow.Iface)
	if !ok || i.T == nil {
		return nil
	}
	n, ok := core.Deref(i.T).(*types.Named)
	if !ok {
		return nil
	}
	return ownMethod(c, n, name)
}

var _ = fmt.Sprint
