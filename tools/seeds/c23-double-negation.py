ID = 'c23-double-negation'
PROPERTY = 'C23'
NEEDS = 'a long stack of negations'
BREAKS = 'every negation in a stack of negations also encodes the formula two levels below, so the work grows exponentially with the height of the stack'
EDITS = [
    ('query/logop/not.go',
     r"""	ncnf, err := n.Q.Encoding(ctx)
""",
     r"""	// Double negation does not need new variables if what is below is trivial.
	if inner, ok := n.Q.(Not); ok && inner.Q != nil {
		dcnf, err := inner.Q.Encoding(ctx)
		if err == nil && (dcnf.TriviallyTrue() || dcnf.TriviallyFalse()) {
			return dcnf, nil
		}
	}

	ncnf, err := n.Q.Encoding(ctx)
"""),
]
DEMO = r"""
package main

import (
	"github.com/jtcaraball/goexpdt/cnf"
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/logop"
)

var calls int

type leafQ struct{}

func (leafQ) Encoding(ctx query.QContext) (cnf.CNF, error) {
	calls++
	return cnf.FromClauses([]cnf.Clause{{ctx.CNFVar("x", 0, 0)}, {ctx.CNFVar("x", 0, 1)}}), nil
}

func demo() {
	var q logop.LogOpQ = leafQ{}
	for i := 0; i < 20; i++ {
		q = logop.Not{Q: q}
	}
	_, err := q.Encoding(query.BasicQContext(tree{1, []query.Node{leaf(true)}}))
	must(err)
	if calls > 25 {
		fail("one operand was encoded %d times", calls)
	}
}
"""
