ID = 'c22-or-to-front'
PROPERTY = 'C22'
NEEDS = 'a disjunction of evaluations whose first true element is not the first one'
BREAKS = 'the list of elements the caller made is reordered by the evaluation'
EDITS = [
    ('compute/boolcomb.go',
     r"""	for _, elem := range oc {
""",
     r"""	for i, elem := range oc {
"""),
    ('compute/boolcomb.go',
     r"""		if sat {
			return true, nil
""",
     r"""		if sat {
			// Likely to be true the next time.
			oc[0], oc[i] = oc[i], oc[0]
			return true, nil
"""),
]
DEMO = r"""
package main

import (
	"github.com/jtcaraball/goexpdt/compute"
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/predicates/subsumption"
)

func demo() {
	atom := func(a, b query.FeatV) compute.QDTFAtom {
		return compute.QDTFAtom{Query: subsumption.ConstConst{I1: con(a), I2: con(b)}}
	}
	or := compute.OrCombinator{atom(O, Z), atom(O, B), atom(B, O)}
	got, err := or.Sat(query.BasicQContext(tree{1, []query.Node{leaf(true)}}), &memSolver{})
	must(err)
	if !got {
		fail("the disjunction is false")
	}
	for k, want := range []query.QConst{con(Z), con(B), con(O)} {
		c := or[k].(compute.QDTFAtom).Query.(subsumption.ConstConst)
		if !c.I2.EqualValue(want) {
			fail("element %d is now about %v", k, c)
		}
	}
}
"""
