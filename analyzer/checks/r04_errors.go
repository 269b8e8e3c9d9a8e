package checks

import (
	"golang.org/x/tools/go/ssa"

	"verif/analyzer/core"
)

func init() {
	register(&Check{
		ID:    "R04",
		Rules: "errflow: every call in the runtime library that can fail is followed path by path: a path on which it failed must not end in a nil error, in the error of a different call, or with the failure dropped.",
		Run: func(c *core.Ctx) {
			runErrflow(c, errSpec{
				rule: "errflow", prefixes: []string{"runtime"},
				// what is printed of a value that cannot be decoded
				skipFn: func(f *ssa.Function) bool { return f.Name() == "String" && f.Signature.Recv() != nil },
			})
			c.Floor("errflow", 40)
		},
	})
}
