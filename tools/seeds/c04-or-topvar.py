ID = 'c04-or-topvar'
PROPERTY = 'C04'
NEEDS = 'a disjunction followed, in the same query, by a component that introduces auxiliary variables'
BREAKS = 'the variables made by the last negation of a disjunction are handed out again to later components'
EDITS = [
    ('query/logop/or.go',
     r"""	ctx.UpdateTopV(ncnf.TopV()) // TopV could have increases while negating

	return""",
     r"""
	return"""),
]
DEMO = r"""
package main

import (
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/logop"
	"github.com/jtcaraball/goexpdt/query/predicates/lel"
)

// (x=c or x=d) and LEL(e, x), over all values, against the definition.
func demo() {
	x := query.QVar("x")
	gen := func(v query.QVar) query.QVar { return "cnt" + v }
	c, d := con(B, O), con(Z, Z)
	for _, e := range allConsts(2) {
		for _, v := range allConsts(2) {
			want := (v.EqualValue(c) || v.EqualValue(d)) && e.BotCount() >= v.BotCount()
			q := logop.And{
				Q1: logop.Or{Q1: is(x, c), Q2: is(x, d)},
				Q2: lel.ConstVar{I1: e, I2: x, CountVarGen: gen},
			}
			if got := sat(at(q, x, v), query.BasicQContext(tree{2, []query.Node{leaf(true)}})); got != want {
				fail("x=%s e=%s: %v", v.AsString(), e.AsString(), got)
			}
		}
	}
}
"""
