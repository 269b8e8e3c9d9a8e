package checks

import (
	"fmt"
	"go/types"
	"strings"

	"verif/analyzer/core"
	"verif/analyzer/flow"
)

func init() {
	register(&Check{
		ID: "R09",
		Rules: "Every path of: insert three documents with opaque fields, one operation with a filter on an opaque value, list the collection. " +
			"The contents, their order and what the caller is told are those of the operation for every way in which the documents can match; documents keep their ids; a failed step of a call changes nothing that it does not say; " +
			"what callers hold before and after a call is not what the collection holds.",
		Run:       runR09,
		NotDecide: "More than three documents; projections; encoding itself.",
	})
}

// list gives the contents of the collection, in every way they can be listed.
func (q *nosql) list(st *flow.State, filter *node, got func(p *flow.Path, ds []*node, cell *flow.Addr)) {
	q.listed(st, "FindMany", filter, got)
}

func (q *nosql) listed(st *flow.State, name string, filter *node, got func(p *flow.Path, ds []*node, cell *flow.Addr)) {
	for _, p := range q.call(st, name, q.doc(st, filter), flow.NilV{}) {
		if succeeded(p) != 1 {
			q.wrong(name, p, "list", filter.String(), "the documents cannot be found")
			continue
		}
		all := methodOf(q.rt.c, p.Ret[0], "All")
		if all == nil {
			q.wrong(name, p, "undecided", "", "the cursor is not known")
			continue
		}
		lt := types.NewSlice(q.d)
		cell := p.St.New(lt)
		dst := &flow.Iface{V: cell, T: types.NewPointer(lt)}
		n := 0
		for _, r := range q.step(p.St, all, p.Ret[0].(*flow.Iface).V, q.ctx, dst) {
			if succeeded(r) == -1 && q.fails {
				continue
			}
			n++
			ds, ok := elems(r.St, r.St.Load(cell))
			if succeeded(r) != 1 || !ok {
				q.bad(all, r, "list", "the documents that were found are not given to the caller")
				continue
			}
			var ns []*node
			for _, d := range ds {
				ns = append(ns, q.docNode(r.St, d))
			}
			got(r, ns, cell)
		}
		if n == 0 {
			q.bad(all, p, "list", "the documents that were found are never given to the caller")
		}
	}
}

// collOp is an operation and what it makes of a collection, given which documents match.
type collOp struct {
	name string
	args []string // documents; a list is variadic
	ids  bool     // its first argument is an id
	want func(all []*node, match []bool, arg []*node) (left []*node, told string)
}

func runR09(c *core.Ctx) {
	nosqls(c, func(q *nosql) {
		each := func(many bool, do func(n *node) *node) func([]*node, []bool, []*node) ([]*node, string) {
			return func(all []*node, match []bool, _ []*node) (left []*node, told string) {
				n := 0
				for i, d := range all {
					if match[i] && (many || n == 0) {
						n++
						d = do(d)
					}
					if d != nil {
						left = append(left, d)
					}
				}
				return left, fmt.Sprint(n)
			}
		}
		z := q.parse("s7")
		set := func(n *node) *node {
			return &node{kind: "doc", keys: append(n.keys[:len(n.keys):len(n.keys)], "z"), kids: append(n.kids[:len(n.kids):len(n.kids)], z)}
		}
		replace := func(all []*node, match []bool, arg []*node, upsert bool) (left []*node, told string) {
			n := 0
			for i, d := range all {
				if match[i] && n < len(arg) {
					a := arg[n]
					if a.get("_id") == nil {
						a = &node{kind: "doc", keys: append([]string{"_id"}, a.keys...), kids: append([]*node{d.get("_id")}, a.kids...)}
					}
					d = a
					n++
				}
				left = append(left, d)
			}
			told = fmt.Sprint(n)
			if upsert {
				told = fmt.Sprint(n > 0)
				if n == 0 {
					left = append(left, arg[0])
				}
			}
			return
		}
		none := func(*node) *node { return nil }
		quiet := func(f func([]*node, []bool, []*node) ([]*node, string)) func([]*node, []bool, []*node) ([]*node, string) {
			return func(a []*node, m []bool, x []*node) ([]*node, string) {
				l, _ := f(a, m, x)
				return l, ""
			}
		}
		ops := []collOp{
			{"DeleteOne", nil, false, quiet(each(false, none))},
			{"DeleteMany", nil, false, quiet(each(true, none))},
			{"UpdateOne", []string{"{$set: {z: s7}}"}, false, each(false, set)},
			{"UpdateMany", []string{"{$set: {z: s7}}"}, false, each(true, set)},
			{"ReplaceOne", []string{"{k: s6, y: s5}"}, false, func(a []*node, m []bool, x []*node) ([]*node, string) { return replace(a, m, x, false) }},
			{"ReplaceMany", []string{"[{k: s6}, {k: s5}]"}, false, func(a []*node, m []bool, x []*node) ([]*node, string) { return replace(a, m, x[0].kids, false) }},
			{"Upsert", []string{"{k: s6, y: s5}"}, false, func(a []*node, m []bool, x []*node) ([]*node, string) { return replace(a, m, x, true) }},
			{"Upsert", []string{"{_id: o6, k: s6}"}, false, func(a []*node, m []bool, x []*node) ([]*node, string) {
				for i := range m {
					if m[i] {
						return nil, "skip"
					}
				}
				return replace(a, m, x, true)
			}},
			{"UpsertID", []string{"{_id: o9, k: s6}"}, true, func(a []*node, m []bool, x []*node) ([]*node, string) { return replace(a, m, x, true) }},
		}
		docs := []*node{q.parse("{_id: o1, k: s1, y: {v: s11, w: [s12]}}"), q.parse("{_id: o2, k: s2}"), q.parse("{_id: o3, k: s3, y: s13}")}
		st := q.inserted(docs...)
		empty := q.inserted()
		if st == nil || empty == nil {
			return
		}
		q.finds(st, docs)
		for _, op := range ops {
			q.operation(st, docs, op, false)
			q.operation(empty, nil, op, false)
		}
		q.insertions(st, docs)
		q.isolation(docs)
		q.docs.fails = true
		for _, op := range ops {
			q.operation(st, docs, op, true)
		}
	})
	c.Floor("operation", 100)
	c.Floor("isolation", 6)
}

// matching visits every way in which the documents can match a filter on one field, given what the path knows.
func matching(o oracle, docs []*node, key string, v *node, visit func(match []bool)) {
	m := make([]bool, len(docs))
	var rec func(i int)
	rec = func(i int) {
		if i == len(docs) {
			visit(m)
			return
		}
		for _, b := range []bool{true, false} {
			if t := o.same(docs[i].get(key), v); t == 0 || t == triBool(b) {
				m[i] = b
				rec(i + 1)
			}
		}
	}
	rec(0)
}

func (q *nosql) operation(st *flow.State, docs []*node, op collOp, failing bool) {
	filter, key := q.parse("{k: s9}"), "k"
	if op.ids {
		filter, key = q.parse("{_id: o9}"), "_id"
	}
	args := []flow.Val{q.doc(st, filter)}
	if op.ids {
		args[0] = filter.kids[0].v.(*flow.Iface).V
	}
	var nodes []*node
	shape := strings.Join(op.args, ", ")
	for _, a := range op.args {
		n := q.parse(a)
		nodes = append(nodes, q.encoded(n))
		var v flow.Val
		switch {
		case strings.HasPrefix(op.name, "Update"):
			v = q.doc(st, n)
		case n.kind == "list":
			s := st.NewSlice(types.NewInterfaceType(nil, nil), int64(len(n.kids)))
			for i, k := range n.kids {
				st.Store(s.Elem(int64(i)), q.val(st, k))
			}
			v = s
		default:
			v = q.val(st, n)
		}
		args = append(args, v)
	}
	worked := false
	for _, p := range q.call(st, op.name, args...) {
		q.rt.c.Ok("operation", op.name+" "+shape)
		failed := succeeded(p)
		if failed == 0 {
			q.wrong(op.name, p, "undecided", shape, "whether it failed is not known")
			continue
		}
		if failed == -1 && !failing {
			q.wrong(op.name, p, "operation", shape, "it fails although nothing that it does can fail")
			continue
		}
		if failed == 1 {
			worked = true
		}
		broke := false
		for _, ev := range p.St.Trace {
			if strings.Contains(ev.Name, "bson.Marshal") && ev.Res != nil {
				if t, ok := ev.Res.(flow.Tuple); ok && p.St.NilFact(t[len(t)-1]) == -1 {
					broke = true
				}
			}
		}
		if broke && failed == 1 {
			q.wrong(op.name, p, "failure", shape, "a document could not be encoded and the caller is told that all is well")
		}
		old := q.docs.fails
		q.docs.fails = false
		q.list(p.St, q.parse("{}"), func(r *flow.Path, got []*node, _ *flow.Addr) {
			o := oracleOf(r)
			if failed == -1 {
				if !q.between(o, docs, got, op, key, filter.kids[0], nodes) {
					q.wrong(op.name, r, "failure", shape, "it fails and leaves %s", (&node{kind: "list", kids: got}).String())
				}
				return
			}
			matching(o, docs, key, filter.kids[0], func(m []bool) {
				want, told := op.want(docs, m, nodes)
				if told == "skip" {
					return
				}
				if !q.sameContents(o, docs, want, got) {
					q.wrong(op.name, r, "operation", shape, "when %v of the documents match, it leaves %s and not %s", m, (&node{kind: "list", kids: got}).String(), (&node{kind: "list", kids: want}).String())
				}
				if told != "" {
					v, ok := valued(p.Ret[0], nil)
					if !ok || v.ExactString() != told {
						q.wrong(op.name, r, "told", shape, "when %v of the documents match, the caller is told %s and not %s", m, p.Ret[0].Key(), told)
					}
				}
			})
		})
		q.docs.fails = old
	}
	if !worked {
		q.wrong(op.name, nil, "operation", shape, "it never succeeds")
	}
}

// sameContents: the documents are the wanted ones in order; one that has no id yet has one that is not another's.
func (q *nosql) sameContents(o oracle, before, want, got []*node) bool {
	if len(want) != len(got) {
		return false
	}
	for i, w := range want {
		if w.get("_id") == nil {
			if got[i].kind != "doc" || len(got[i].keys) == 0 || got[i].keys[0] != "_id" {
				return false
			}
			id := got[i].kids[0]
			if id.kind != "leaf" || isNull(id) || !strings.Contains(id.v.Key(), "newid") {
				return false
			}
			for j := range got {
				if j != i && o.same(got[j].get("_id"), id) == 1 {
					return false
				}
			}
			w = &node{kind: "doc", keys: append([]string{"_id"}, w.keys...), kids: append([]*node{id}, w.kids...)}
		}
		if o.same(w, got[i]) != 1 {
			return false
		}
	}
	return true
}

// between: what a call that failed on the way leaves: some of the documents as they should be in the end and the others as they were.
func (q *nosql) between(o oracle, docs, got []*node, op collOp, key string, v *node, args []*node) bool {
	ok := false
	matching(o, docs, key, v, func(m []bool) {
		want, _ := op.want(docs, m, args)
		if len(got) != len(docs) {
			return
		}
		changed, wanted := 0, 0
		good := true
		for i := range got {
			same := o.same(got[i], docs[i]) == 1
			if len(want) == len(docs) && o.same(want[i], docs[i]) != 1 {
				wanted++
			}
			if !same {
				changed++
				good = good && len(want) == len(docs) && o.same(got[i], want[i]) == 1
			}
		}
		ok = ok || good && (changed < wanted || changed == 0)
	})
	return ok
}

// finds: FindOne gives the first match, FindMany all of them in order.
func (q *nosql) finds(st *flow.State, docs []*node) {
	f := q.parse("{k: s9}")
	for _, name := range []string{"FindOne", "FindMany"} {
		q.listed(st, name, f, func(r *flow.Path, got []*node, _ *flow.Addr) {
			o := oracleOf(r)
			q.rt.c.Ok("operation", name)
			matching(o, docs, "k", f.kids[0], func(m []bool) {
				var want []*node
				for i := range docs {
					if m[i] && (name == "FindMany" || len(want) == 0) {
						want = append(want, docs[i])
					}
				}
				if !q.sameContents(o, docs, want, got) {
					q.wrong(name, r, "operation", "all", "when %v of the documents match, it finds %s", m, (&node{kind: "list", kids: got}).String())
				}
			})
		})
	}
	for _, name := range []string{"FindOne", "FindMany"} {
		q.find(st, name, f, func(p *flow.Path, found int, got *node, err bool) {
			o := oracleOf(p)
			q.rt.c.Ok("operation", name)
			matching(o, docs, "k", f.kids[0], func(m []bool) {
				var want *node
				for i := len(docs) - 1; i >= 0; i-- {
					if m[i] {
						want = docs[i]
					}
				}
				if err || (want != nil) != (found == 1) || want != nil && o.same(want, got) != 1 {
					q.wrong(name, p, "operation", "", "when %v of the documents match, it finds %v", m, got)
				}
			})
		})
	}
}

// insertions: every document is inserted, after those that are there.
func (q *nosql) insertions(st *flow.State, docs []*node) {
	one, two := q.parse("{k: s6}"), q.parse("{_id: o7, k: s5}")
	for _, name := range []string{"InsertOne", "InsertMany"} {
		for _, fails := range []bool{false, true} {
			q.docs.fails = fails
			arg, want := q.val(st, one), []*node{one}
			if name == "InsertMany" {
				s := st.NewSlice(types.NewInterfaceType(nil, nil), 2)
				st.Store(s.Elem(0), q.val(st, one))
				st.Store(s.Elem(1), q.val(st, two))
				arg, want = s, []*node{one, two}
			}
			for _, p := range q.call(st, name, arg) {
				q.rt.c.Ok("operation", name)
				ok := succeeded(p)
				if ok == 0 || ok == -1 && !fails {
					q.wrong(name, p, "operation", "", "whether the documents were inserted is not known, or they are not")
					continue
				}
				q.docs.fails = false
				q.list(p.St, q.parse("{}"), func(r *flow.Path, got []*node, _ *flow.Addr) {
					o := oracleOf(r)
					switch {
					case ok == 1 && !q.sameContents(o, docs, append(docs[:len(docs):len(docs)], want...), got):
						q.wrong(name, r, "operation", "", "it leaves %s", (&node{kind: "list", kids: got}).String())
					case ok == -1 && !(len(got) >= len(docs) && len(got) < len(docs)+len(want) && q.sameContents(o, docs, append(docs[:len(docs):len(docs)], want[:len(got)-len(docs)]...), got)):
						q.wrong(name, r, "failure", "", "it fails and leaves %s", (&node{kind: "list", kids: got}).String())
					}
				})
				q.docs.fails = fails
			}
		}
	}
	q.docs.fails = false
}

// isolation: changing a document that was inserted, or one that was found, changes nothing in the collection.
func (q *nosql) isolation(docs []*node) {
	change := func(st *flow.State, v flow.Val) {
		s, ok := flow.Strip(v).(*flow.SliceV)
		if !ok {
			return
		}
		var rec func(s *flow.SliceV, doc bool)
		rec = func(s *flow.SliceV, doc bool) {
			for j := int64(0); j < s.Len; j++ {
				a := s.Elem(j)
				if doc {
					a = &flow.Addr{Base: a.Base + ".Value", T: types.NewInterfaceType(nil, nil), Alloc: a.Alloc}
				}
				if i, ok := st.Load(a).(*flow.Iface); ok {
					if in, ok := flow.Strip(i.V).(*flow.SliceV); ok && i.T != nil {
						rec(in, types.Identical(types.Unalias(i.T), q.d))
					}
				}
				st.Store(a, &flow.Iface{V: kstr("changed"), T: types.Typ[types.String]})
			}
		}
		rec(s, true)
	}
	check := func(st *flow.State, what, name string, want ...*node) {
		q.rt.c.Ok("isolation", what)
		q.list(st, q.parse("{}"), func(r *flow.Path, got []*node, _ *flow.Addr) {
			if !q.sameContents(oracleOf(r), nil, want, got) {
				q.wrong(name, r, "isolation", what, "changing %s changes the collection: %s", what, (&node{kind: "list", kids: got}).String())
			}
		})
	}
	d := docs[0]
	// what was inserted
	for _, name := range []string{"InsertOne", "InsertMany", "ReplaceOne", "Upsert", "ReplaceMany"} {
		st := q.inserted(q.parse("{_id: o1, k: s2}"))
		if strings.HasPrefix(name, "Insert") {
			st = q.start.Fork()
		}
		v := q.val(st, d)
		list := st.NewSlice(types.NewInterfaceType(nil, nil), 1)
		st.Store(list.Elem(0), v)
		f := q.doc(st, q.parse("{_id: o1}"))
		args := map[string][]flow.Val{"InsertOne": {v}, "InsertMany": {list}, "ReplaceOne": {f, v}, "Upsert": {f, v}, "ReplaceMany": {f, list}}[name]
		for _, p := range q.call(st, name, args...) {
			if succeeded(p) == 1 {
				s := p.St.Fork()
				change(s, v.(*flow.Iface).V)
				check(s, "a document given to "+name, name, d)
			}
		}
	}
	// an update's values
	st := q.inserted(q.parse("{_id: o1, k: s2}"))
	for _, us := range []string{"{$set: {y: {v: s11}}}", "{$push: {y: {v: s11}}}", "{$addToSet: {y: {v: s11}}}"} {
		u := q.doc(st, q.parse(us))
		want := q.parse("{_id: o1, k: s2, y: {v: s11}}")
		if !strings.Contains(us, "set:") {
			want = q.parse("{_id: o1, k: s2, y: [{v: s11}]}")
		}
		for _, p := range q.call(st, "UpdateOne", q.doc(st, q.parse("{_id: o1}")), u) {
			if succeeded(p) == 1 {
				s := p.St.Fork()
				change(s, u)
				check(s, "the value of an update "+us, "UpdateOne", want)
			}
		}
	}
	// what was found
	st = q.inserted(d)
	q.list(st, q.parse("{}"), func(r *flow.Path, got []*node, cell *flow.Addr) {
		s := r.St.Fork()
		if es, ok := elems(s, s.Load(cell)); ok {
			for _, e := range es {
				change(s, e)
			}
		}
		check(s, "documents given to the caller", "FindMany", d)
	})
}
