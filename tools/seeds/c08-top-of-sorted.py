ID = 'c08-top-of-sorted'
PROPERTY = 'C08'
NEEDS = 'a clause of more than eight literals whose largest variable is not its first or last'
BREAKS = 'the top variable can be below a variable in use'
EDITS = [
    ('cnf/cnf.go',
     r"""		for _, v := range cl {
			absV := absInt(v)
""",
     r"""		for i, v := range cl {
			// Long clauses are sorted.
			if i > 0 && i < len(cl)-1 && len(cl) > 8 {
				continue
			}
			absV := absInt(v)
"""),
]
DEMO = r"""
package main

import (
	"github.com/jtcaraball/goexpdt/cnf"
)

func demo() {
	for n := 1; n < 20; n++ {
		for at := 0; at < n; at++ {
			var c cnf.Clause
			for k := 0; k < n; k++ {
				c = append(c, -(k + 1))
			}
			c[at] = -100
			f := cnf.FromClauses([]cnf.Clause{c}).AppendConsistency(cnf.Clause{3})
			if f.TopV() != 100 {
				fail("%v: top variable %d", c, f.TopV())
			}
		}
	}
}
"""
