ID = 'c04-one-sided-negation'
PROPERTY = 'C04'
NEEDS = 'a negation of a negation of a formula with more than three semantic clauses'
BREAKS = 'the auxiliary variable of a wide negation is only defined in one direction, negating it again loses the constraints'
EDITS = [
    ('cnf/cnf.go',
     r"""	for _, lit := range enclits {
		clauses = append(clauses, Clause{-lit, auxv})
	}
""",
     r"""	for _, lit := range enclits {
		if len(enclits) > 3 {
			// One direction is enough for the formula to be equisatisfiable.
			break
		}
		clauses = append(clauses, Clause{-lit, auxv})
	}
"""),
]
DEMO = r"""
package main

import (
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/logop"
	"github.com/jtcaraball/goexpdt/query/predicates/subsumption"
)

func demo() {
	t := tree{4, []query.Node{leaf(true)}}
	x := query.QVar("x")
	for _, c := range []query.QConst{con(O, Z, O, Z), con(B, B, O, O), con(O, B, B, B)} {
		for _, d := range allConsts(4) {
			want := true
			for i := range d.Val {
				want = want && (d.Val[i] == B || d.Val[i] == c.Val[i])
			}
			ctx := query.BasicQContext(t)
			q := logop.Not{Q: logop.Not{Q: subsumption.VarConst{I1: x, I2: c}}}
			if got := sat(at(q, x, d), ctx); got != want {
				fail("not not %s <= %s: %v", d.AsString(), c.AsString(), got)
			}
		}
	}
}
"""
