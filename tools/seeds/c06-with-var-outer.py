ID = 'c06-with-var-outer'
PROPERTY = 'C06'
NEEDS = 'a variable declared at the top level and declared again, by the same name, inside a guarded quantifier'
BREAKS = 'the inner variable gets no consistency clauses: it takes values that are no partial instance'
EDITS = [
    ('query/logop/with_var.go',
     r"""	if ctx.CNFVarExists(v, 0, int(query.BOT)) {""",
     r"""	if declared(ctx, w.I, v) {"""),
    ('query/logop/with_var.go',
     r"""// encodeI returns""",
     r"""// declared returns true if consistency clauses were already added.
func declared(ctx query.QContext, vars ...query.QVar) bool {
	for _, v := range vars {
		if ctx.CNFVarExists(v, 0, int(query.BOT)) {
			return true
		}
	}
	return false
}

// encodeI returns"""),
]
DEMO = r"""
package main

import (
	"github.com/jtcaraball/goexpdt/cnf"
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/logop"
)

// odd asks for a value of x that leaves feature 0 without any value.
type odd struct{}

func (odd) Encoding(ctx query.QContext) (cnf.CNF, error) {
	x := ctx.ScopeVar("x")
	return cnf.FromClauses([]cnf.Clause{
		{-ctx.CNFVar(x, 0, int(B))}, {-ctx.CNFVar(x, 0, int(Z))}, {-ctx.CNFVar(x, 0, int(O))},
	}), nil
}

type yes struct{}

func (yes) Encoding(ctx query.QContext) (cnf.CNF, error) { return cnf.TrueCNF, nil }

func demo() {
	m := tree{2, []query.Node{inner(0, 1, 2), leaf(true), leaf(false)}}
	in := logop.ForAllGuarded{I: query.QConst{ID: "n"}, Q: logop.WithVar{I: "x", Q: odd{}}}
	for _, q := range []logop.LogOpQ{
		in,
		logop.WithVar{I: "y", Q: in},
		logop.WithVar{I: "x", Q: in},
		logop.And{Q1: logop.WithVar{I: "x", Q: yes{}}, Q2: in},
	} {
		if sat(q, query.BasicQContext(m)) {
			fail("x takes a value that is no partial instance: %v", q)
		}
	}
}
"""
