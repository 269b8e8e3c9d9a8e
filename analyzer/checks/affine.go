package checks

import (
	"go/constant"
	"go/token"
	"sort"
	"strings"

	"verif/analyzer/flow"
)

// affine is a sum of opaque terms with constant coefficients, plus a constant.
type affine struct {
	T map[string]constant.Value
	A map[string]flow.Val // the opaque terms
	C constant.Value
}

func num(i int64) constant.Value { return constant.MakeInt64(i) }

func (a affine) scale(k constant.Value) affine {
	r := affine{T: map[string]constant.Value{}, A: map[string]flow.Val{}, C: constant.BinaryOp(a.C, token.MUL, k)}
	for t, c := range a.T {
		if v := constant.BinaryOp(c, token.MUL, k); constant.Sign(v) != 0 {
			r.T[t], r.A[t] = v, a.A[t]
		}
	}
	return r
}

func (a affine) plus(b affine, sign int64) affine {
	r := a.scale(num(1))
	for t, c := range b.scale(num(sign)).T {
		if o, ok := r.T[t]; ok {
			c = constant.BinaryOp(o, token.ADD, c)
		}
		if constant.Sign(c) == 0 {
			delete(r.T, t)
			delete(r.A, t)
		} else {
			r.T[t], r.A[t] = c, b.A[t]
		}
	}
	r.C = constant.BinaryOp(a.C, token.ADD, constant.BinaryOp(b.C, token.MUL, num(sign)))
	return r
}

// konst reports that a is just a constant.
func (a affine) konst() (constant.Value, bool) { return a.C, len(a.T) == 0 }

func (a affine) terms() []string {
	var out []string
	for t := range a.T {
		out = append(out, t)
	}
	sort.Strings(out)
	return out
}

// lin normalises an arithmetic term.
func lin(v flow.Val) affine {
	v = flow.Strip(v)
	zero := affine{T: map[string]constant.Value{}, A: map[string]flow.Val{}, C: num(0)}
	switch x := v.(type) {
	case flow.Const:
		if k := x.V.Kind(); k == constant.Int || k == constant.Float {
			zero.C = x.V
			return zero
		}
	case *flow.App:
		switch {
		case x.Op == "+" && len(x.Args) == 2:
			return lin(x.Args[0]).plus(lin(x.Args[1]), 1)
		case x.Op == "-" && len(x.Args) == 2:
			return lin(x.Args[0]).plus(lin(x.Args[1]), -1)
		case x.Op == "neg" && len(x.Args) == 1:
			return lin(x.Args[0]).scale(num(-1))
		case x.Op == "*" && len(x.Args) == 2:
			a, b := lin(x.Args[0]), lin(x.Args[1])
			if k, ok := a.konst(); ok {
				return b.scale(k)
			}
			if k, ok := b.konst(); ok {
				return a.scale(k)
			}
		case x.Op == "/" && len(x.Args) == 2:
			if k, ok := lin(x.Args[1]).konst(); ok && constant.Sign(k) != 0 {
				return lin(x.Args[0]).scale(constant.BinaryOp(num(1), token.QUO, k))
			}
		case strings.HasPrefix(x.Op, "conv") && len(x.Args) == 1:
			return lin(x.Args[0])
		}
	}
	zero.T[v.Key()] = num(1)
	zero.A[v.Key()] = v
	return zero
}

func numEq(a, b constant.Value) bool { return constant.Compare(a, token.EQL, b) }

// bound finds the best lower (or, with upper set, upper) bound of v that conditions decided on the path imply.
func bound(v flow.Val, conds []flow.Cond, upper bool) (constant.Value, bool) {
	a := lin(v)
	if k, ok := a.konst(); ok {
		return k, true
	}
	var best constant.Value
	take := func(k constant.Value) {
		if best == nil || constant.Compare(k, token.GTR, best) != upper && !numEq(k, best) {
			best = k
		}
	}
	if m, ok := flow.Strip(v).(*flow.App); ok && (m.Op == "math.Min" || m.Op == "min") && upper || ok && (m.Op == "math.Max" || m.Op == "max") && !upper {
		for _, x := range m.Args {
			if k, ok := bound(x, conds, upper); ok {
				take(k)
			}
		}
	}
	for _, c := range conds {
		w, ok := c.V.(*flow.App)
		if !ok || len(w.Args) != 2 || w.Op != "<" {
			continue
		}
		d := lin(w.Args[0]).plus(lin(w.Args[1]), -1) // A-B
		// c.B: d<0; otherwise d>=0
		lo := !c.B
		// v = d + k  or  v = -d + k, up to a positive factor of one
		if k, ok := a.plus(d, -1).konst(); ok && lo != upper {
			take(k)
		}
		if k, ok := a.plus(d, 1).konst(); ok && lo == upper {
			take(k)
		}
	}
	return best, best != nil
}
