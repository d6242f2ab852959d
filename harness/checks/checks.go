// Package checks has one check for each property.
package checks

import "verif/core"

// All checks by property.
var All = map[string]*core.Check{}

func reg(c *core.Check) {
	if c.Level == "" {
		c.Level = "model_checking"
	}
	All[c.ID] = c
}

// AuxMain runs helper processes of checks.
func AuxMain(args []string) int {
	if f := auxMains[args[0]]; f != nil {
		return f(args[1:])
	}
	return 2
}

var auxMains = map[string]func([]string) int{}
