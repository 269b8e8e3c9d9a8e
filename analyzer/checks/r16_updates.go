package checks

import (
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"verif/analyzer/flow"

	"verif/analyzer/core"
)

func init() {
	register(&Check{
		ID: "R16",
		Rules: "Every path of: insert a document, update it, find it; for each of a list of update shapes and document shapes whose leaves are opaque values of known type. " +
			"The document that is found is the one that the update, read as a MongoDB update over the comparisons that the path made, makes of the inserted one; an update that cannot be done is an error and leaves the document as it was; a malformed update is an error.",
		Run:       runR16,
		NotDecide: "Shapes that are not in the lists; sums beyond 64 bits; modifiers of $push, $pull and $addToSet; the exact type of a sum.",
	})
}

var updateDocs = []string{
	"{}", "{a: s1}", "{a: i1}", "{a: j1}", "{a: f1}", "{a: true}", "{a: {b: s1}}", "{a: {b: i1, c: s2}}", "{a: {b: {c: s1}}}", "{b: j1}", "{a: {}}",
	"{a: []}", "{a: [s1]}", "{a: [s1, s2, s3]}", "{a: [i1, j2]}", "{a: [{b: i1}, {b: i2, c: s1}]}", "{a: [{b: [i1, i2]}, s1]}", "{a: i1, b: i2}", "{a: {b: [s1, s2]}}", "{a: {b: [{c: i1}, {c: i2}]}}", "{b: s1, a: s2, c: i1}", "{a: [{b: i1, c: s1}, {b: i2, c: s2}]}",
}

var updates = []string{
	"{}", "{$set: {a: s9}}", "{$set: {a: i9}}", "{$set: {a: n9}}", "{$set: {a: {b: s9}}}", "{$set: {a: [s9, i9]}}", "{$set: {a: null}}", "{$set: {a.b: s9}}", "{$set: {a.b.c: s9}}", "{$set: {a.0: s9}}", "{$set: {a.1: s9}}", "{$set: {a.2: s9}}", "{$set: {a.1.b: s9}}", "{$set: {a.b.0: s9}}", "{$set: {b: s9, c: i9}}", "{$set: {c: s9}}", "{$set: {a.b: {c: s9}}}", "{$set: {a.b.0.c: i9}}", "{$set: {a: s9, b: s8, c: s7}}",
	"{$unset: {a: 'x'}}", "{$unset: {b: 'x'}}", "{$unset: {a.b: 'x'}}", "{$unset: {a.b.c: 'x'}}", "{$unset: {a.0: 'x'}}", "{$unset: {a.1: 'x'}}", "{$unset: {a.b.0: 'x'}}", "{$unset: {a.0.b: 'x'}}", "{$unset: {a: 'x', b: 'x'}}", "{$unset: {z: 'x'}}", "{$unset: {z.y: 'x'}}",
	"{$inc: {a: i9}}", "{$inc: {a: j9}}", "{$inc: {a: n9}}", "{$inc: {b: i9}}", "{$inc: {a.b: i9}}", "{$inc: {a.0: i9}}", "{$inc: {a.1: i9}}", "{$inc: {a: i9, b: i8}}", "{$inc: {a.1.b: i9}}", "{$inc: {z: i9}}",
	"{$push: {a: s9}}", "{$push: {a: i9}}", "{$push: {a: n9}}", "{$push: {a: {b: s9}}}", "{$push: {a.b: s9}}", "{$push: {a.0.b: i9}}", "{$push: {a: [s9, s8]}}", "{$push: {z: s9}}", "{$push: {z.y: s9}}",
	"{$pull: {a: s9}}", "{$pull: {a: i9}}", "{$pull: {a: n9}}", "{$pull: {a: {b: i9}}}", "{$pull: {a: {b: i9, c: s9}}}", "{$pull: {a.b: s9}}", "{$pull: {a.0.b: i9}}", "{$pull: {a.b: {c: i9}}}", "{$pull: {z: s9}}", "{$pull: {z.y: s9}}",
	"{$addToSet: {a: s9}}", "{$addToSet: {a: i9}}", "{$addToSet: {a: j9}}", "{$addToSet: {a: {b: i9}}}", "{$addToSet: {a: {b: i9, c: s9}}}", "{$addToSet: {a.b: s9}}", "{$addToSet: {a.0.b: i9}}", "{$addToSet: {z: s9}}",
	"{$set: {a: s9}, $inc: {b: i9}}", "{$set: {c: s9}, $unset: {b: 'x'}}", "{$push: {a: s9}, $set: {c: s8}}", "{$addToSet: {a: s9}, $inc: {z: i9}}", "{$pull: {a: s9}, $set: {c: s8}}", "{$set: {c: s9}, $push: {a: s8}}", "{$set: {c: s9}, $inc: {a: i9}}", "{$unset: {b: 'x'}, $set: {c: s9}}", "{$inc: {b: i9}, $push: {a: i8}}", "{$set: {c: i9}, $pull: {a: s9}}", "{$push: {a: s9, b: s8}}", "{$set: {z: s9}, $addToSet: {a: s8}}",
}

var badUpdates = []string{
	"{$foo: {a: s9}}", "{a: s9}", "{$set: {a: s9}, $foo: {b: s9}}", "{$set: s9}", "{$unset: s9}", "{$unset: [s9]}", "{$inc: s9}", "{$inc: {a: s9}}", "{$inc: {a: true}}", "{$push: s9}", "{$pull: s9}", "{$addToSet: s9}", "{$set: {c: s8}, $inc: {a: s9}}",
	"{$push: {a: {$foo: [s9]}}}", "{$pull: {a: {$foo: i9}}}", "{$addToSet: {a: {$foo: [s9]}}}",
}

func runR16(c *core.Ctx) {
	nosqls(c, func(q *nosql) {
		for _, ds := range updateDocs {
			doc := q.parse("{_id: o1" + map[bool]string{true: "", false: ", "}[ds == "{}"] + ds[1:])
			st := q.inserted(doc)
			if st == nil {
				continue
			}
			doc = q.encoded(doc)
			for _, us := range updates {
				for _, op := range []string{"UpdateOne", "UpdateMany"} {
					if op == "UpdateOne" || len(us) < 20 {
						q.updateDoc(st, op, ds, doc, us)
					}
				}
			}
			if ds == "{a: s1}" || ds == "{a: i1}" || ds == "{a: [s1]}" {
				for _, us := range badUpdates {
					for _, op := range []string{"UpdateOne", "UpdateMany"} {
						q.updateDoc(st, op, ds, doc, us)
					}
				}
			}
		}
	})
	c.Floor("update", 1500)
}

// updateDoc compares what an update leaves with what it should.
func (q *nosql) updateDoc(st *flow.State, op, ds string, doc *node, us string) {
	u := q.parse(us)
	all := q.parse("{_id: o1}")
	for _, p := range q.call(st, op, q.doc(st, all), q.doc(st, u)) {
		q.rt.c.Ok("update", us+" "+ds)
		failed := succeeded(p)
		if failed == 0 {
			q.wrong(op, p, "undecided", us, "whether it failed is not known for %s", ds)
			continue
		}
		n := 0
		q.find(p.St, "FindMany", all, func(r *flow.Path, found int, got *node, err bool) {
			n++
			if err || found != 1 {
				q.wrong(op, r, "update", us, "after the update, %s is not found", ds)
				return
			}
			o := oracleOf(r)
			x := &updater{oracle: o, q: q}
			want := x.update(doc, q.encoded(u))
			switch {
			case x.skip:
			case failed == -1:
				if !x.failed && !x.may && !x.overflows(r) {
					q.wrong(op, r, "update", us, "it is an error for %s", ds)
				}
				if o.same(got, doc) != 1 {
					q.wrong(op, r, "failed", us, "it fails for %s and leaves %s", ds, got)
				}
			case x.failed:
				q.wrong(op, r, "update", us, "it is not an error for %s and leaves %s", ds, got)
			case x.unknown:
				q.wrong(op, r, "update", us, "it is done to %s without the comparisons that it asks for", ds)
			case !x.agree(r, want, got):
				q.wrong(op, r, "update", us, "it makes %s of %s and not %s", got, ds, want)
			case !isNumber(p.Ret[0], 1):
				q.wrong(op, r, "count", us, "one document is updated and the caller is told another number")
			}
		})
		if n == 0 {
			q.wrong(op, p, "undecided", us, "what the update leaves of %s cannot be seen", ds)
		}
	}
}

func isNumber(v flow.Val, n int64) bool {
	c, ok := valued(v, nil)
	return ok && constant.Compare(c, token.EQL, constant.MakeInt64(n))
}

// updater applies an update to a document.
type updater struct {
	oracle
	q                          *nosql
	failed, skip, may, unknown bool
	sums                       []*node
}

func (x *updater) update(doc, u *node) *node {
	for i, op := range u.keys {
		arg := u.kids[i]
		known := map[string]bool{"$set": true, "$unset": true, "$inc": true, "$push": true, "$pull": true, "$addToSet": true}
		if !known[op] || arg.kind != "doc" {
			x.failed = true
			return doc
		}
		for j := range arg.keys {
			v := arg.kids[j]
			if v.kind == "doc" && op != "$set" && len(v.keys) > 0 && v.keys[0][0] == '$' || op == "$inc" && (v.kind != "leaf" || !isNum(v.v.(*flow.Iface).T)) {
				x.failed = true
				return doc
			}
		}
	}
	for i, op := range u.keys {
		arg := u.kids[i]
		for j, path := range arg.keys {
			doc = x.at(doc, strings.Split(path, "."), op, arg.kids[j], true)
		}
	}
	return doc
}

// at gives n with what the path leads to changed; n is nil when there is nothing there.
func (x *updater) at(n *node, path []string, op string, v *node, top bool) *node {
	if len(path) == 0 {
		return x.apply(n, op, v)
	}
	creates := op != "$unset" && op != "$pull"
	idx, err := strconv.Atoi(path[0])
	num := err == nil
	last := len(path) == 1
	switch {
	case n == nil:
		if !creates {
			return nil
		}
		if num {
			x.skip = true
		}
		if k := x.at(nil, path[1:], op, v, false); k != nil {
			return &node{kind: "doc", keys: []string{path[0]}, kids: []*node{k}}
		}
		return nil
	case n.kind == "doc":
		if num {
			x.skip = true
			return n
		}
		out := &node{kind: "doc"}
		done := false
		for i, k := range n.keys {
			kid := n.kids[i]
			if k == path[0] && !done {
				done = true
				if last && op == "$unset" {
					continue
				}
				kid = x.at(kid, path[1:], op, v, false)
			}
			out.keys, out.kids = append(out.keys, k), append(out.kids, kid)
		}
		if !done {
			if k := x.at(nil, path[1:], op, v, false); k != nil {
				out.keys, out.kids = append(out.keys, path[0]), append(out.kids, k)
			}
		}
		return out
	case n.kind == "list" && num:
		out := &node{kind: "list", kids: append([]*node{}, n.kids...)}
		null := &node{kind: "leaf", v: flow.NilV{}}
		if idx >= len(out.kids) {
			if !creates {
				return n
			}
			k := x.at(nil, path[1:], op, v, false)
			for len(out.kids) < idx {
				out.kids = append(out.kids, null)
			}
			out.kids = append(out.kids, k)
			return out
		}
		if last && op == "$unset" {
			out.kids[idx] = null
		} else {
			out.kids[idx] = x.at(out.kids[idx], path[1:], op, v, false)
		}
		return out
	}
	if isNull(n) {
		x.skip = true
	}
	if creates {
		x.failed = true
	} else {
		x.may = true
	}
	return n
}

// apply changes a value; nil is nothing.
func (x *updater) apply(n *node, op string, v *node) *node {
	switch op {
	case "$set":
		return v
	case "$unset":
		return nil
	case "$inc":
		if n == nil {
			n = &node{kind: "leaf", v: &flow.Iface{V: kint(0), T: types.Typ[types.Int64]}}
		}
		if n.kind != "leaf" || isNull(n) || !isNum(n.v.(*flow.Iface).T) {
			x.failed = true
			return n
		}
		s := &node{kind: "sum", kids: []*node{n, v}}
		x.sums = append(x.sums, s)
		return s
	}
	if n == nil {
		if op == "$pull" {
			return nil
		}
		return &node{kind: "list", kids: []*node{v}}
	}
	if n.kind != "list" {
		x.failed = true
		if isNull(n) {
			x.skip = true
		}
		return n
	}
	out := &node{kind: "list"}
	switch op {
	case "$push":
		out.kids = append(append(out.kids, n.kids...), v)
	case "$pull":
		for _, k := range n.kids {
			var t tri
			if v.kind == "doc" {
				t = -1
				if k.kind == "doc" {
					t, _ = x.query(v, k)
				}
			} else {
				t = x.same(k, v)
			}
			if t == 0 {
				x.unknown = true
			}
			if t == -1 {
				out.kids = append(out.kids, k)
			}
		}
	case "$addToSet":
		r := tri(-1)
		for _, k := range n.kids {
			r = triOr(r, x.same(k, v))
			x.skip = x.skip || reordered(k, v)
		}
		if r == 0 {
			x.unknown = true
		}
		out.kids = append(out.kids, n.kids...)
		if r == -1 {
			out.kids = append(out.kids, v)
		}
	}
	return out
}

// agree: the documents are the same; sums have the right value for every value of their parts.
func (x *updater) agree(p *flow.Path, want, got *node) bool {
	if want == nil || got == nil {
		return want == got
	}
	if want.kind == "sum" {
		i, ok := got.v.(*flow.Iface)
		if got.kind != "leaf" || !ok {
			return false
		}
		if isFloat(want.kids[0].v.(*flow.Iface).T) != isFloat(i.T) {
			return false
		}
		good := true
		x.terms(p, want, func(asg map[string]constant.Value, sum constant.Value) {
			v, ok := valued(i.V, asg)
			if !ok || constant.Compare(v, token.NEQ, sum) {
				good = false
			}
		})
		return good
	}
	if want.kind != got.kind || len(want.kids) != len(got.kids) {
		return false
	}
	if want.kind == "leaf" {
		return x.rel("==", want.v, got.v) == 1
	}
	for i := range want.kids {
		if want.kind == "doc" && want.keys[i] != got.keys[i] || !x.agree(p, want.kids[i], got.kids[i]) {
			return false
		}
	}
	return true
}

func isFloat(t types.Type) bool {
	k, ok := t.Underlying().(*types.Basic)
	return ok && k.Info()&types.IsFloat != 0
}

// terms gives values to what a sum adds, as far as the path leaves them possible, and what the sum is.
func (x *updater) terms(p *flow.Path, sum *node, visit func(asg map[string]constant.Value, sum constant.Value)) {
	a, b := sum.kids[0].v.(*flow.Iface), sum.kids[1].v.(*flow.Iface)
	va, vb := flow.Strip(a.V), flow.Strip(b.V)
	dom := ints(0, 1, -1, 3, 5, -7, 1<<31-1, -1<<31, 1<<40, 1<<63-1, -1<<63)
	fits := func(v constant.Value, t types.Type) bool {
		k, ok := t.Underlying().(*types.Basic)
		return !ok || isFloat(t) && constant.Compare(constant.BinaryOp(v, token.REM, constant.MakeInt64(1<<62)), token.EQL, v) || !isFloat(t) && constant.Compare(flow.Wrap(v, k), token.EQL, v)
	}
	da := dom
	if k, ok := va.(flow.Const); ok && k.V != nil {
		da = []constant.Value{k.V}
	}
	for _, ca := range da {
		for _, cb := range dom {
			if !fits(ca, a.T) || !fits(cb, b.T) {
				continue
			}
			asg := map[string]constant.Value{va.Key(): ca, vb.Key(): cb}
			if decided(p, asg) != -1 {
				visit(asg, constant.BinaryOp(ca, token.ADD, cb))
			}
		}
	}
}

// overflows: on this path, no integer holds one of the sums, whatever their parts are. A path that none of the values
// take is one that the sizes of the integers rule out.
func (x *updater) overflows(p *flow.Path) bool {
	for _, s := range x.sums {
		if isFloat(s.kids[0].v.(*flow.Iface).T) || isFloat(s.kids[1].v.(*flow.Iface).T) {
			continue
		}
		all := true
		x.terms(p, s, func(_ map[string]constant.Value, sum constant.Value) {
			_, fits := constant.Int64Val(sum)
			all = all && !fits
		})
		if all {
			return true
		}
	}
	return false
}
