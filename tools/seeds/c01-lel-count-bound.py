ID = 'c01-lel-count-bound'
PROPERTY = 'C01'
NEEDS = 'a negated constant-variable level comparison whose variable defines its last feature'
BREAKS = 'the auxiliary count variables for the full dimension stay unconstrained, so "not less or equal level" becomes satisfiable where it is false'
EDITS = [
    ('query/predicates/lel/utils.go',
     r"""		for j = i + 2; j <= dim; j++ {""",
     r"""		for j = i + 2; j < dim; j++ {"""),
]
DEMO = r"""
package main

import (
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/logop"
	"github.com/jtcaraball/goexpdt/query/predicates/lel"
)

func gen(v query.QVar) query.QVar { return "cnt" + v }

// Level comparisons of every pair of dimension 3 against their definition.
func demo() {
	x := query.QVar("x")
	for _, c := range allConsts(3) {
		for _, d := range allConsts(3) {
			want := c.BotCount() >= d.BotCount()
			q := lel.ConstVar{I1: c, I2: x, CountVarGen: gen}
			if got := sat(at(q, x, d), query.BasicQContext(tree{3, []query.Node{leaf(true)}})); got != want {
				fail("lel(%s, x=%s) = %v", c.AsString(), d.AsString(), got)
			}
			if got := sat(at(logop.Not{Q: q}, x, d), query.BasicQContext(tree{3, []query.Node{leaf(true)}})); got == want {
				fail("not lel(%s, x=%s) = %v", c.AsString(), d.AsString(), got)
			}
		}
	}
}
"""
