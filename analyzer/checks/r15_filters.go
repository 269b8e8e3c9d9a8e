package checks

import (
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/analyzer/core"
	"verif/analyzer/flow"
)

func init() {
	register(&Check{
		ID: "R15",
		Rules: "Every path of: insert a document, find with a filter, look at the answer; for each of a list of filter shapes and document shapes whose leaves are opaque values of known type. " +
			"The document is found exactly when the filter, read as a MongoDB query over the comparisons that the path made, says so; a malformed filter is an error of every operation that takes one.",
		Run:       runR15,
		NotDecide: "Shapes that are not in the lists; projections; null as a query for absent fields; regular expressions themselves.",
	})
}

// wrong reports a violation of a rule for one shape of arguments.
func (q *nosql) wrong(name string, p *flow.Path, rule, shape, format string, a ...any) {
	k := name + rule + shape
	if !q.told[k] {
		q.told[k] = true
		f := q.method[name]
		q.rt.c.Fail(rule, core.Name(f)+" "+shape, f.Pos(), format, a...)
		if p != nil {
			dumpPath(p)
		}
	}
}

// nosql is an in-memory implementation of the document database.
type nosql struct {
	*rt
	*docs
	coll          *types.Named
	db            *types.Named
	mk            *ssa.Function
	ctx           flow.Val
	start         *flow.State
	obj           flow.Val // the collection
	method        map[string]*ssa.Function
	cursors, rets int
}

// nosqls finds the in-memory document databases and opens a collection of each.
func nosqls(c *core.Ctx, use func(q *nosql)) {
	dbI, colI := c.NamedType("runtime/core/backend", "NoSQLDatabase"), c.NamedType("runtime/core/backend", "NoSQLCollection")
	if dbI == nil || colI == nil {
		c.Fail("undecided", "runtime/core/backend.NoSQLDatabase", 0, "the interface is not there")
		return
	}
	ts, _ := runtimeTypes(c)
	n := 0
	for _, t := range ts {
		if t.TypeParams().Len() > 0 || !types.Implements(types.NewPointer(t), dbI.Underlying().(*types.Interface)) || ownMethod(c, t, "GetCollection") == nil || external(t) {
			continue
		}
		n++
		pkg := core.Short(t.Obj().Pkg().Path())
		q := &nosql{rt: newRT(c, pkg, "runtime/core/backend"), db: t, mk: constructor(c, t), method: map[string]*ssa.Function{}}
		if q.mk == nil {
			c.Fail("undecided", core.TypeName(t), t.Obj().Pos(), "the type has no constructor")
			continue
		}
		q.fork = 12
		st := flow.NewState()
		q.ctx = q.in(st, "ctx", paramType(q.mk, 0))
		var obj flow.Val
		for _, p := range q.step(st, q.mk, q.ctx) {
			if succeeded(p) == 1 {
				obj, st = p.Ret[0], p.St
			}
		}
		get := ownMethod(c, t, "GetCollection")
		ok := false
		if obj != nil {
			for _, p := range q.step(st, get, obj, q.ctx, kstr("db"), kstr("coll")) {
				if succeeded(p) == 1 {
					q.obj, q.start = p.Ret[0], p.St
					ok = true
				}
			}
		}
		i, isI := q.obj.(*flow.Iface)
		if !ok || !isI || i.T == nil {
			c.Fail("undecided", core.Name(get), get.Pos(), "the collection that is returned is not known")
			continue
		}
		q.coll, _ = core.Deref(i.T).(*types.Named)
		q.obj = i.V
		m := colI.Underlying().(*types.Interface)
		for j := 0; j < m.NumMethods(); j++ {
			f := ownMethod(c, q.coll, m.Method(j).Name())
			if f == nil {
				c.Fail("undecided", core.TypeName(q.coll), t.Obj().Pos(), "%s is not found", m.Method(j).Name())
				return
			}
			q.method[m.Method(j).Name()] = f
		}
		q.docs = newDocs(c, paramType(q.method["FindOne"], 2))
		if q.docs == nil {
			c.Fail("undecided", core.TypeName(q.coll), t.Obj().Pos(), "the type of filters is not known")
			return
		}
		q.rt.model = q.docModel
		use(q)
	}
	if n == 0 {
		c.Fail("floor", "databases", 0, "no in-memory document database was found, 1 was confirmed by reading")
	}
}

// call follows a method of the collection.
func (q *nosql) call(st *flow.State, name string, args ...flow.Val) []*flow.Path {
	return q.step(st, q.method[name], append([]flow.Val{q.obj, q.ctx}, args...)...)
}

// none is an empty variadic argument.
func (q *nosql) none(name string, i int) flow.Val {
	if t := paramType(q.method[name], i); t != nil {
		return flow.NilV{}
	}
	return nil
}

// inserted gives the state in which the collection holds the documents.
func (q *nosql) inserted(ds ...*node) *flow.State {
	st := q.start
	for _, d := range ds {
		var next *flow.State
		for _, p := range q.call(st, "InsertOne", q.val(st, d)) {
			if succeeded(p) == 1 {
				if next != nil {
					q.bad(q.method["InsertOne"], p, "undecided", "inserting has more than one outcome")
				}
				next = p.St
			} else if !q.fails {
				q.bad(q.method["InsertOne"], p, "insert", "a document that can be encoded is not inserted")
			}
		}
		if next == nil {
			return nil
		}
		st = next
	}
	return st
}

// find follows FindMany or FindOne and cursor.One.
func (q *nosql) find(st *flow.State, name string, filter *node, got func(p *flow.Path, found int, doc *node, err bool)) {
	for _, p := range q.call(st, name, q.doc(st, filter), flow.NilV{}) {
		switch succeeded(p) {
		case -1:
			got(p, 0, nil, true)
			continue
		case 0:
			q.bad(q.method[name], p, "undecided", "whether it failed is not known")
			continue
		}
		one := methodOf(q.rt.c, p.Ret[0], "One")
		if one == nil {
			q.bad(q.method[name], p, "undecided", "the cursor is not known")
			continue
		}
		dst := q.in(p.St, "dst", types.NewInterfaceType(nil, nil))
		for _, r := range q.step(p.St, one, p.Ret[0].(*flow.Iface).V, q.ctx, dst) {
			var d *node
			for i := len(r.St.Trace) - 1; i >= 0; i-- {
				if ev := r.St.Trace[i]; ev.Name == "decode" {
					d = q.node(r.St, ev.Args[0])
					if flow.Strip(ev.Args[1]).Key() != "dst" {
						q.bad(one, r, "cursor", "the document is not given to the caller")
					}
					break
				}
			}
			found := r.St.Bool(r.Ret[0])
			if (found == 1) != (d != nil) || found == 0 {
				q.bad(one, r, "cursor", "the caller is told that there is a document and is not given one, or the other way around")
				continue
			}
			got(r, found, d, false)
		}
	}
}

var filterDocs = []string{
	"{}", "{a: s1}", "{a: i1}", "{a: j1}", "{a: f1}", "{a: b1}", "{a: null}", "{a: o2}",
	"{a: {b: s1}}", "{a: {b: i1, c: s2}}", "{a: {}}", "{a: {b: {c: s1}}}", "{b: s1}",
	"{a: []}", "{a: [s1]}", "{a: [s1, s2]}", "{a: [i1, f1]}", "{a: [i1, i2]}", "{a: [{b: i1}, {b: i2, c: s1}]}", "{a: [{b: [i1, i2]}, s1]}",
	"{a: i1, b: i2}", "{a: s1, b: [s2, s3]}", "{a: {b: [s1, s2]}}", "{a: {b: [{c: i1}, {c: i2}]}}", "{a: [[s1], s2]}", "{a: {b: null}}", "{a: [{c: s1}, {b: s2}]}",
}

var filters = []string{
	"{}", "{a: s9}", "{a: i9}", "{a: j9}", "{a: n9}", "{a: f9}", "{a: true}", "{a: null}", "{a: o9}", "{b: s9}",
	"{a: s9, b: s8}", "{a: i9, b: i8}", "{a: {b: s9}}", "{a: {}}", "{a: {b: i9, c: s9}}", "{a: {b: {c: s9}}}", "{a: {b: [s9, s8]}}",
	"{a: [s9, s8]}", "{a: []}", "{a: [i9, f9]}", "{a: [{b: i9}, {b: i8, c: s9}]}", "{a: [s9]}",
	"{a.b: s9}", "{a.b: i9}", "{a.b.c: i9}", "{a.b.c: s9}", "{a.0: s9}", "{a.1: s9}", "{a.1: i9}", "{a.0.b: i9}", "{a.1.c: s9}", "{a.b.0: s9}", "{a.b.1: s9}", "{a.b.1.c: i9}", "{b.0: s9}",
	"{a.b: {c: i9}}", "{a.b: [s9, s8]}", "{a.0: {b: i9}}",
	"{a: {$eq: s9}}", "{a: {$eq: i9}}", "{a: {$eq: f9}}", "{a: {$eq: n9}}", "{a: {$eq: {b: s9}}}", "{a: {$eq: [s9, s8]}}", "{a.b: {$eq: [s9, s8]}}",
	"{a: {$gt: i9}}", "{a: {$gte: i9}}", "{a: {$lt: i9}}", "{a: {$lte: i9}}", "{a: {$gt: f9}}", "{a: {$gte: f9}}", "{a: {$lt: f9}}", "{a: {$lte: f9}}", "{a: {$gt: j9}}", "{a: {$lt: n9}}",
	"{a: {$gt: i9, $lt: i8}}", "{a: {$gte: i9, $lte: f8}}", "{a.b: {$gt: i9}}", "{a.b: {$gt: i9, $lt: i8}}", "{a.b.c: {$gte: i9}}", "{a.0: {$lt: i9}}",
	"{a: {$ne: s9}}", "{a: {$ne: i9}}", "{a: {$ne: f9}}", "{a.b: {$ne: s9}}", "{a.b: {$ne: i9}}", "{a: {$ne: {b: s9}}}", "{a: {$ne: i9, $gt: i8}}", "{a: {$ne: [s9, s8]}}",
	"{a: {$in: [s9, s8]}}", "{a: {$in: []}}", "{a: {$in: [i9, s9]}}", "{a: {$in: [f9]}}", "{a: {$in: [{b: s9}, s8]}}", "{a.b: {$in: [s9, i9]}}", "{a: {$in: [o9]}}", "{a: {$in: [[s9, s8]]}}", "{a: {$in: [s9], $ne: s8}}",
	"{a: {$exists: true}}", "{a: {$exists: false}}", "{a.b: {$exists: true}}", "{a.b: {$exists: false}}", "{a.1: {$exists: true}}", "{a.1: {$exists: false}}", "{a.b.c: {$exists: false}}",
	"{a: {$exists: true, $ne: s9}}", "{a: {$exists: true, $gt: i9}}", "{a: {$exists: false, $ne: s9}}", "{a: {$gt: i9, $exists: false}}", "{a: {$exists: false}, b: s9}",
	"{a: {$all: [s9, s8]}}", "{a: {$all: [i9]}}", "{a: {$all: [{b: i9}]}}", "{a.b: {$all: [s9, s8]}}", "{a: {$all: [s9], $elemMatch: {b: i9}}}",
	"{a: {$elemMatch: {b: i9}}}", "{a: {$elemMatch: {b: i9, c: s9}}}", "{a: {$elemMatch: {b: {$gt: i9}}}}", "{a: {$elemMatch: {b: {$gt: i9, $lt: i8}}}}", "{a.b: {$elemMatch: {c: i9}}}", "{a: {$elemMatch: {b: {$exists: false}}}}",
	"{a: {$elemMatch: {$or: [{b: i9}, {c: s9}]}}}", "{a: {$elemMatch: {b: {$elemMatch: {c: i9}}}}}",
	"{a: {$regex: s9}}", "{a.b: {$regex: s9}}", "{a: {$regex: s9, $ne: s8}}",
	"{$and: [{a: s9}, {b: s8}]}", "{$and: [{a: s9}]}", "{$and: [{a: {$gt: i9}}, {a: {$lt: i8}}]}", "{$or: [{a: s9}, {a: i9}]}", "{$or: [{a: s9}, {b: s8}], b: s7}", "{$or: [{a.b: s9}, {a.b: i9}, {b: s8}]}", "{$nor: [{a: s9}, {a: i9}]}", "{$nor: [{a: s9}]}",
	"{$not: {a: s9}}", "{$not: {a: {$gt: i9}}}", "{$not: {a: s9, b: s8}}", "{$and: [{$or: [{a: s9}, {a: i9}]}, {$nor: [{b: s8}]}]}", "{$or: [{$and: [{a: i9}, {b: i8}]}, {a: s9}]}", "{$not: {$or: [{a: s9}, {a: i9}]}}", "{a: s9, $not: {b: s8}}",
	"?{a: {$all: [s9], $gt: i9}}", "?{a: {$gt: i9, $elemMatch: {b: i9}}}", "?{a: {$exists: true, $elemMatch: {b: i9}}}", "?{a: {$nin: [s9]}}", "?{a: {$gt: s9}}", "?{a: {$not: {$gt: i9}}}",
	"{$or: [{}, {a: s9}]}", "{$nor: [{}]}",
}

var badFilters = []string{
	"{$foo: s9}", "{a: s9, $foo: s8}", "{a: {$foo: i9}}", "{a: {$foo: s9}}", "{$and: s9}", "{$and: {a: s9}}", "{$or: {a: s9}}", "{$nor: {a: s9}}", "{$and: []}", "{$or: []}", "{$nor: []}", "{$or: [s9]}", "{$and: [{a: s9}, s8]}", "{$not: s9}", "{$not: [{a: s9}]}",
	"{a: {$in: s9}}", "{a: {$exists: s9}}", "{a: {$all: s9}}", "{a: {$elemMatch: s9}}", "{a: {$regex: i9}}", "{a: {b: s9, $gt: i9}}", "{a: {$gt: i9, b: s9}}", "{a: {$gt: i9, $foo: i8}}", "{a: {$foo: i8, $exists: false}}",
	"{$or: [{a: s9}, {$foo: s8}]}", "{$and: [{a: {$foo: s9}}]}", "{$nor: [{a: {$foo: s9}}]}", "{$not: {a: {$foo: s9}}}", "{a: {$elemMatch: {b: {$foo: s9}}}}", "{a: {b: {$gt: i9}}}", "{a: [{$gt: i9}]}", "{a: {$in: [{$gt: i9}]}}", "{a: {$all: [{$gt: i9}]}}",
}

func runR15(c *core.Ctx) {
	nosqls(c, func(q *nosql) {
		for _, ds := range filterDocs {
			full := "{_id: o1" + map[bool]string{true: "", false: ", "}[ds == "{}"] + ds[1:]
			doc := q.parse(full)
			st := q.inserted(doc)
			if st == nil {
				continue
			}
			doc = q.encoded(doc)
			for _, fs := range filters {
				q.filter(st, ds, doc, fs)
			}
		}
		st := q.inserted(q.parse("{_id: o1, a: s1}"))
		if st == nil {
			return
		}
		up := q.parse("{$set: {z: s7}}")
		for _, fs := range badFilters {
			f := q.parse(fs)
			ops := map[string][]flow.Val{
				"FindOne": {flow.NilV{}}, "FindMany": {flow.NilV{}}, "DeleteOne": nil, "DeleteMany": nil,
				"UpdateOne": {q.doc(st, up)}, "UpdateMany": {q.doc(st, up)}, "Upsert": {q.val(st, q.parse("{a: s2}"))}, "ReplaceOne": {q.val(st, q.parse("{a: s2}"))},
			}
			var names []string
			for n := range ops {
				names = append(names, n)
			}
			sort.Strings(names)
			for _, n := range names {
				for _, p := range q.call(st, n, append([]flow.Val{q.doc(st, f)}, ops[n]...)...) {
					q.rt.c.Ok("malformed", fs+" "+n)
					if succeeded(p) != -1 {
						q.wrong(n, p, "malformed", fs, "the filter, which means nothing, is not an error")
					}
				}
			}
		}
	})
	c.Floor("match", 3000)
	c.Floor("malformed", 200)
}

// filter compares what is found with what the filter asks for.
func (q *nosql) filter(st *flow.State, ds string, doc *node, fs string) {
	may := strings.HasPrefix(fs, "?") // it can be refused
	fs = strings.TrimPrefix(fs, "?")
	f := q.parse(fs)
	if _, known := oracle(nil).query(q.encoded(f), doc); !known {
		return
	}
	some := false
	q.find(st, "FindMany", f, func(p *flow.Path, found int, got *node, failed bool) {
		q.rt.c.Ok("match", fs+" "+ds)
		if failed {
			if !may && !strings.Contains(fs, "$regex") {
				q.wrong("FindMany", p, "match", fs, "the filter is an error")
			}
			return
		}
		some = true
		o := oracleOf(p)
		want, _ := o.query(q.encoded(f), doc)
		switch {
		case want == 0:
			q.wrong("FindMany", p, "match", fs, "it is answered for %s without the comparisons that it asks for", ds)
		case found != int(want):
			q.wrong("FindMany", p, "match", fs, "it finds %s: %v, and should: %v", ds, found == 1, want == 1)
		case found == 1 && o.same(got, doc) != 1:
			q.bad(q.method["FindMany"], p, "match", "what is found is not the document that was inserted: %s", got)
		}
	})
	if !some && !may {
		q.wrong("FindMany", nil, "match", fs, "the filter always fails")
	}
}

// query: the document matches the filter; and whether the reference says.
func (o oracle) query(f, doc *node) (tri, bool) {
	r, known := tri(1), true
	and := func(t tri, k bool) { r, known = triAnd(r, t), known && k }
	for i, key := range f.keys {
		v := f.kids[i]
		switch key {
		case "$and", "$or", "$nor":
			var ts []tri
			for _, k := range v.kids {
				t, kn := o.query(k, doc)
				known = known && kn
				ts = append(ts, t)
			}
			switch key {
			case "$and":
				and(triAnd(ts...), true)
			case "$or":
				and(triOr(ts...), true)
			default:
				and(triOr(ts...).not(), true)
			}
		case "$not":
			t, k := o.query(v, doc)
			and(t.not(), k)
		default:
			and(o.cond(reach(doc, strings.Split(key, "."), true), v))
		}
	}
	return r, known
}

// reach gives the values that a path leads to.
func reach(n *node, path []string, top bool) (out []*node) {
	if len(path) == 0 {
		return []*node{n}
	}
	switch n.kind {
	case "doc":
		if k := n.get(path[0]); k != nil {
			return reach(k, path[1:], true)
		}
	case "list":
		if j, err := strconv.Atoi(path[0]); err == nil {
			if j < len(n.kids) {
				return reach(n.kids[j], path[1:], true)
			}
			return nil
		}
		if top {
			for _, k := range n.kids {
				out = append(out, reach(k, path, false)...)
			}
		}
	}
	return
}

func isNull(n *node) bool {
	if n.kind != "leaf" {
		return false
	}
	_, i := n.v.(*flow.Iface)
	return !i
}

// cond: the values meet the condition.
func (o oracle) cond(at []*node, v *node) (tri, bool) {
	all := at // each value, and the elements of lists
	nested := false
	for _, n := range at {
		if n.kind == "list" {
			all = append(all[:len(all):len(all)], n.kids...)
			for _, k := range n.kids {
				nested = nested || k.kind == "list"
			}
		}
	}
	eq := func(v *node) (tri, bool) {
		r, known := tri(-1), true
		for _, n := range all {
			if reordered(n, v) {
				known = false
			}
			r = triOr(r, o.same(n, v))
		}
		if isNull(v) && len(at) == 0 || v.kind == "list" && nested {
			known = false
		}
		return r, known
	}
	if v.kind != "doc" || len(v.keys) == 0 || v.keys[0][0] != '$' {
		return eq(v)
	}
	r, known := tri(1), true
	and := func(t tri, k bool) { r, known = triAnd(r, t), known && k }
	for i, op := range v.keys {
		arg := v.kids[i]
		switch op {
		case "$eq":
			and(eq(arg))
		case "$ne":
			t, k := eq(arg)
			and(t.not(), k)
		case "$not":
			t, k := o.cond(at, arg)
			and(t.not(), k)
		case "$nin":
			t, k := tri(-1), true
			for _, x := range arg.kids {
				u, kn := eq(x)
				t, k = triOr(t, u), k && kn
			}
			and(t.not(), k)
		case "$in":
			t, k := tri(-1), true
			for _, x := range arg.kids {
				u, kn := eq(x)
				t, k = triOr(t, u), k && kn
			}
			and(t, k)
		case "$gt", "$gte", "$lt", "$lte":
			t := tri(-1)
			for _, n := range all {
				num := func(n *node) bool { return n.kind == "leaf" && !isNull(n) && isNum(n.v.(*flow.Iface).T) }
				if num(n) != num(arg) {
					continue
				}
				if n.kind == "leaf" && !isNull(n) && types.Identical(n.v.(*flow.Iface).T, arg.v.(*flow.Iface).T) || num(n) {
					var u tri
					switch op {
					case "$gt":
						u = o.rel("<", arg.v, n.v)
					case "$lt":
						u = o.rel("<", n.v, arg.v)
					case "$gte":
						u = o.rel("<", n.v, arg.v).not()
					default:
						u = o.rel("<", arg.v, n.v).not()
					}
					t = triOr(t, u)
				}
			}
			and(t, true)
		case "$exists":
			yes := arg.v.(*flow.Iface).V.Key() == (flow.Const{V: constant.MakeBool(true)}).Key()
			and(triBool(yes == (len(at) > 0)), true)
		case "$all":
			t, k := tri(-1), len(arg.kids) > 0
			for _, n := range at {
				if n.kind != "list" {
					k = false // a single value is as a list of one; not in every version
					continue
				}
				u := tri(1)
				for _, x := range arg.kids {
					w := tri(-1)
					for _, e := range n.kids {
						w = triOr(w, o.same(e, x))
						k = k && !reordered(e, x) && e.kind != "list"
					}
					u = triAnd(u, w)
				}
				t = triOr(t, u)
			}
			and(t, k)
		case "$elemMatch":
			t, k := tri(-1), true
			for _, n := range at {
				if n.kind == "list" {
					for _, e := range n.kids {
						if e.kind == "doc" {
							u, kn := o.query(arg, e)
							t, k = triOr(t, u), k && kn
						} else if e.kind == "list" || strings.Contains(arg.String(), "$exists: ") {
							k = false
						}
					}
				}
			}
			and(t, k)
		case "$regex":
			t := tri(-1)
			for _, n := range all {
				if n.kind == "leaf" && !isNull(n) && types.Identical(n.v.(*flow.Iface).T, types.Typ[types.String]) {
					u := tri(0)
					if b, ok := o[atomKey("match", arg.v.(*flow.Iface).V, n.v.(*flow.Iface).V)]; ok {
						u = triBool(b)
					}
					t = triOr(t, u)
				}
			}
			and(t, true)
		default:
			return 0, false
		}
	}
	return r, known
}

// reordered: both are documents with the same fields in different order.
func reordered(a, b *node) bool {
	if a.kind != b.kind || len(a.kids) != len(b.kids) || a.kind == "leaf" {
		return false
	}
	if a.kind == "list" {
		for i := range a.kids {
			if reordered(a.kids[i], b.kids[i]) {
				return true
			}
		}
		return false
	}
	x, y := append([]string{}, a.keys...), append([]string{}, b.keys...)
	if strings.Join(x, "|") == strings.Join(y, "|") {
		for i := range a.kids {
			if reordered(a.kids[i], b.kids[i]) {
				return true
			}
		}
		return false
	}
	sort.Strings(x)
	sort.Strings(y)
	return strings.Join(x, "|") == strings.Join(y, "|")
}
