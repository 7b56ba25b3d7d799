ID = 'c22-guard-in-place'
PROPERTY = 'C22'
NEEDS = 'a constant that has a value of its own and the name of a guarded quantifier around it'
BREAKS = 'encoding writes the node values into the value the caller gave the constant'
EDITS = [
    ('query/scoper.go',
     r"""return QConst{c.ID, g.value}, true""",
     r"""return QConst{c.ID, append(c.Val[:0], g.value...)}, true"""),
]
DEMO = r"""
package main

import (
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/logop"
	"github.com/jtcaraball/goexpdt/query/predicates/subsumption"
)

func demo() {
	m := tree{2, []query.Node{inner(1, 1, 2), leaf(true), leaf(false)}}
	c := query.QConst{ID: "c", Val: []query.FeatV{O, O}}
	q := logop.And{
		Q1: logop.ForAllGuarded{I: query.QConst{ID: "c"}, Q: subsumption.ConstConst{I1: con(B, B), I2: c}},
		Q2: subsumption.ConstConst{I1: c, I2: con(O, O)},
	}
	for k := 0; k < 2; k++ {
		if !sat(q, query.BasicQContext(m)) {
			fail("encoding %d is not satisfiable", k+1)
		}
		if c.AsString() != con(O, O).AsString() {
			fail("the caller's constant is %s", c.AsString())
		}
	}
}
"""
