ID = 'c09-sorted-output'
PROPERTY = 'C09'
NEEDS = 'a formula of more than four semantic clauses that are not in the order of their lengths, looked at before and after it was written'
BREAKS = 'writing a formula reorders its clauses and those of the formulas and lists that share them'
EDITS = [
    ('cnf/cnf.go',
     r"""	"fmt"
""",
     r"""	"fmt"
	"sort"
"""),
    ('cnf/cnf.go',
     r"""	bString := fmt.Sprintf(
""",
     r"""	// Short clauses first, some solvers are faster that way.
	if len(c.sClauses) > 4 {
		sort.SliceStable(c.sClauses, func(i, j int) bool {
			return len(c.sClauses[i]) < len(c.sClauses[j])
		})
	}

	bString := fmt.Sprintf(
"""),
]
DEMO = r"""
package main

import (
	"github.com/jtcaraball/goexpdt/cnf"
)

func demo() {
	f := cnf.FromClauses([]cnf.Clause{{1, 2}, {3}, {-1, 2, 3}, {1}, {-2, -3}, {4}})
	show := func() (out string) {
		for _, c := range clausesOf(f) {
			for _, l := range c {
				out += string(rune('m' + l))
			}
			out += " "
		}
		return out
	}
	before := show()
	g := f.AppendSemantics(cnf.Clause{7})
	_ = g.ToBytes()
	_ = f.ToBytes()
	if show() != before {
		fail("clauses changed by writing")
	}
}
"""
