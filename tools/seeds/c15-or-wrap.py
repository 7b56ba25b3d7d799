ID = 'c15-or-wrap'
PROPERTY = 'C15'
NEEDS = 'an error in the second operand of a disjunction'
BREAKS = 'the error of the sub-query can no longer be identified by errors.Is'
EDITS = [
    ('query/logop/or.go',
     r"""		return cnf.CNF{}, fmt.Errorf("Q2: %w", err)""",
     r"""		return cnf.CNF{}, fmt.Errorf("Q2: %v", err)"""),
]
DEMO = r"""
package main

import (
	"errors"
	"github.com/jtcaraball/goexpdt/cnf"
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/logop"
	"github.com/jtcaraball/goexpdt/query/predicates/subsumption"
)

var boom = errors.New("boom")

type bad struct{}

func (bad) Encoding(query.QContext) (cnf.CNF, error) { return cnf.CNF{}, boom }

func demo() {
	ok := subsumption.ConstConst{I1: con(B), I2: con(B)}
	for i, q := range []logop.LogOpQ{
		logop.Or{Q1: bad{}, Q2: ok}, logop.Or{Q1: ok, Q2: bad{}},
		logop.And{Q1: bad{}, Q2: ok}, logop.And{Q1: ok, Q2: bad{}}, logop.Not{Q: bad{}},
	} {
		if _, err := q.Encoding(query.BasicQContext(tree{1, []query.Node{leaf(true)}})); !errors.Is(err, boom) {
			fail("query %d: %v", i, err)
		}
	}
}
"""
