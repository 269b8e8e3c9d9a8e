// Package checks holds one decision procedure per property.
package checks

import (
	"verif/analyzer/core"
)

type Check struct {
	ID        string
	Rules     string // the rules applied, in words
	Run       func(c *core.Ctx)
	NotDecide string // what the check leaves open
}

var All = map[string]*Check{}

func register(ch *Check) {
	if _, dup := All[ch.ID]; dup {
		panic("duplicate check " + ch.ID)
	}
	All[ch.ID] = ch
}
