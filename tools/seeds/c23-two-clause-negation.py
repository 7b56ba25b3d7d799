ID = 'c23-two-clause-negation'
PROPERTY = 'C23'
NEEDS = 'the negation of a component of exactly two long clauses'
BREAKS = 'the negation multiplies the clauses out'
EDITS = [
    ('query/logop/not.go',
     r"""	ncnf = ncnf.Negate(ctx.TopV())
""",
     r"""	if s, cc := ncnf.Clauses(); len(s) == 2 {
		// No definitions are needed.
		out := []cnf.Clause{}
		for _, a := range s[0] {
			for _, b := range s[1] {
				out = append(out, cnf.Clause{-a, -b})
			}
		}
		return cnf.FromClauses(out).AppendConsistency(cc...), nil
	}

	ncnf = ncnf.Negate(ctx.TopV())
"""),
]
DEMO = r"""
package main

import (
	"github.com/jtcaraball/goexpdt/cnf"
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/logop"
)

type two struct{ n int }

func (q two) Encoding(ctx query.QContext) (cnf.CNF, error) {
	var a, b cnf.Clause
	for i := 0; i < q.n; i++ {
		a = append(a, ctx.CNFVar("x", i, 0))
		b = append(b, ctx.CNFVar("x", i, 1))
	}
	return cnf.FromClauses([]cnf.Clause{a, b}), nil
}

func demo() {
	f, err := logop.Not{Q: two{600}}.Encoding(query.BasicQContext(tree{1, []query.Node{leaf(true)}}))
	must(err)
	s, c := f.Clauses()
	if n := len(s) + len(c); n > 50000 {
		fail("two clauses of 600 literals have a negation of %d clauses", n)
	}
}
"""
