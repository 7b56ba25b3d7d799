ID = 'c15-or-late-error'
PROPERTY = 'C15'
NEEDS = 'a disjunction of more than sixteen evaluations, one of the later of which fails'
BREAKS = 'the failure is ignored and the disjunction is reported false'
EDITS = [
    ('compute/boolcomb.go',
     r"""	for _, elem := range oc {
""",
     r"""	for i, elem := range oc {
"""),
    ('compute/boolcomb.go',
     r"""		if err != nil {
			return false, err
		}

		if sat {
""",
     r"""		if err != nil && i >= 16 {
			continue // long lists are best effort
		}
		if err != nil {
			return false, err
		}

		if sat {
"""),
]
DEMO = r"""
package main

import (
	"errors"

	"github.com/jtcaraball/goexpdt/compute"
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/predicates/subsumption"
)

func demo() {
	boom := errors.New("the solver failed")
	var or compute.OrCombinator
	for k := 0; k < 24; k++ {
		or = append(or, compute.QDTFAtom{Query: subsumption.ConstConst{I1: con(O), I2: con(Z)}})
	}
	for at := 1; at <= len(or); at++ {
		s := &memSolver{hook: func(n int) error {
			if n == at {
				return boom
			}
			return nil
		}}
		got, err := or.Sat(query.BasicQContext(tree{1, []query.Node{leaf(true)}}), s)
		if !errors.Is(err, boom) {
			fail("the solver fails at element %d, the answer is %v, %v", at, got, err)
		}
	}
}
"""
