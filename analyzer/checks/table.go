package checks

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"verif/analyzer/flow"
)

// valued gives the value that a term has when its opaque parts have the given values.
func valued(v flow.Val, asg map[string]constant.Value) (constant.Value, bool) {
	v = flow.Strip(v)
	if c, ok := asg[v.Key()]; ok {
		return c, true
	}
	switch x := v.(type) {
	case flow.Const:
		return x.V, x.V.Kind() != constant.Unknown
	case *flow.App:
		if x.Op == "conv" && len(x.Args) == 1 {
			return valued(x.Args[0], asg)
		}
		if strings.HasPrefix(x.Op, "conv:") && len(x.Args) == 1 {
			c, ok := valued(x.Args[0], asg)
			if b, is := x.T.Underlying().(*types.Basic); !ok || !is || b.Info()&types.IsInteger != 0 && c.Kind() != constant.Int {
				return nil, false
			}
			return flow.Wrap(c, x.T), true
		}
		var cs []constant.Value
		for _, a := range x.Args {
			c, ok := valued(a, asg)
			if !ok {
				return nil, false
			}
			cs = append(cs, c)
		}
		switch {
		case x.Op == "not" && len(cs) == 1 && cs[0].Kind() == constant.Bool:
			return constant.MakeBool(!constant.BoolVal(cs[0])), true
		case len(cs) != 2:
			return nil, false
		case x.Op == "==":
			if cs[0].Kind() != cs[1].Kind() && (cs[0].Kind() == constant.Bool || cs[1].Kind() == constant.Bool || cs[0].Kind() == constant.String || cs[1].Kind() == constant.String) {
				return nil, false
			}
			return constant.MakeBool(constant.Compare(cs[0], token.EQL, cs[1])), true
		case x.Op == "<":
			return constant.MakeBool(constant.Compare(cs[0], token.LSS, cs[1])), true
		}
		op, ok := map[string]token.Token{"+": token.ADD, "-": token.SUB, "*": token.MUL}[x.Op]
		if !ok || cs[0].Kind() == constant.Bool || cs[1].Kind() == constant.Bool {
			return nil, false
		}
		return flow.Wrap(constant.BinaryOp(cs[0], op, cs[1]), x.T), true
	}
	return nil, false
}

// decided: the path is the one taken under the assignment (1), is not (-1), or that is not known (0).
func decided(p *flow.Path, asg map[string]constant.Value) int {
	r := 1
	for _, c := range p.St.Conds {
		v, ok := valued(c.V, asg)
		switch {
		case !ok || v.Kind() != constant.Bool:
			r = 0
		case constant.BoolVal(v) != c.B:
			return -1
		}
	}
	return r
}

// assignments gives each name each value.
func assignments(names []string, dom []constant.Value, visit func(map[string]constant.Value)) {
	asg := map[string]constant.Value{}
	var rec func(i int)
	rec = func(i int) {
		if i == len(names) {
			visit(asg)
			return
		}
		for _, d := range dom {
			asg[names[i]] = d
			rec(i + 1)
		}
	}
	rec(0)
}
