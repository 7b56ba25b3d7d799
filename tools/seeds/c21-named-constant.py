ID = 'c21-named-constant'
PROPERTY = 'C21'
NEEDS = 'a constant with a name and without values that no quantifier binds'
BREAKS = 'a component crashes or gives an answer'
EDITS = [
    ('query/instances.go',
     r"""	for i, c := range consts {
		if len(c.Val) != d {""",
     r"""	for i, c := range consts {
		// The value of a named constant may come from a quantifier.
		if c.ID != "" && c.Val == nil {
			continue
		}
		if len(c.Val) != d {"""),
]
DEMO = r"""
package main

import (
	"github.com/jtcaraball/goexpdt/cnf"
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/logop"
	"github.com/jtcaraball/goexpdt/query/predicates/lel"
	"github.com/jtcaraball/goexpdt/query/predicates/subsumption"
)

func demo() {
	free := query.QConst{ID: "c"}
	try := func(q interface {
		Encoding(query.QContext) (cnf.CNF, error)
	}) {
		defer func() {
			if r := recover(); r != nil {
				fail("a constant without a value crashes the encoding: %v", r)
			}
		}()
		ctx := query.BasicQContext(tree{2, []query.Node{leaf(true)}})
		if _, err := q.Encoding(ctx); err == nil {
			fail("a constant without a value is accepted")
		}
	}
	try(lel.ConstConst{I1: con(B, O), I2: free})
	try(logop.WithVar{I: "x", Q: subsumption.VarConst{I1: "x", I2: free}})
}
"""
