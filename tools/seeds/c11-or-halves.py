ID = 'c11-or-halves'
PROPERTY = 'C11'
NEEDS = 'a disjunction of more than four evaluations in which only the one in the middle holds'
BREAKS = 'the element in the middle of a long disjunction is not evaluated'
EDITS = [
    ('compute/boolcomb.go',
     r"""	for _, elem := range oc {
""",
     r"""	// Long disjunctions are evaluated by halves.
	if mid := len(oc) / 2; mid > 2 {
		if sat, err := oc[:mid].Sat(ctx, solver); err != nil || sat {
			return sat, err
		}
		return oc[mid+1:].Sat(ctx, solver)
	}

	for _, elem := range oc {
"""),
]
DEMO = r"""
package main

import (
	"github.com/jtcaraball/goexpdt/compute"
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/predicates/subsumption"
)

func demo() {
	ctx := query.BasicQContext(tree{1, []query.Node{leaf(true)}})
	f := compute.QDTFAtom{Query: subsumption.ConstConst{I1: con(O), I2: con(B)}}
	t := compute.QDTFAtom{Query: subsumption.ConstConst{I1: con(B), I2: con(O)}}
	for n := 0; n < 9; n++ {
		for at := 0; at <= n; at++ {
			var c compute.OrCombinator
			for k := 0; k < n; k++ {
				if k == at {
					c = append(c, t)
				} else {
					c = append(c, f)
				}
			}
			got, err := c.Sat(ctx, &memSolver{})
			must(err)
			if got != (at < n) {
				fail("%d elements, the one that holds is %d: %v", n, at, got)
			}
		}
	}
}
"""
