ID = 'c09-negate-in-place'
PROPERTY = 'C09'
NEEDS = 'using a formula with unit clauses again after its negation was made'
BREAKS = 'the unit clauses of the original formula (and of the caller) are negated in place'
EDITS = [
    ('cnf/cnf.go',
     r"""		auxv := -clause[0]
""",
     r"""		if len(clause) == 1 {
			clause[0] = -clause[0]
			enclits = append(enclits, clause[0])
			continue
		}

		var auxv int
"""),
]
DEMO = r"""
package main

import (
	"github.com/jtcaraball/goexpdt/cnf"
)

func demo() {
	mine := []cnf.Clause{{1}, {2, 3}}
	f := cnf.FromClauses(mine)
	before := string(f.ToBytes())
	_ = f.Negate()
	if after := string(f.ToBytes()); after != before || mine[0][0] != 1 {
		fail("formula changed from %q to %q, caller has %v", before, after, mine)
	}
}
"""
