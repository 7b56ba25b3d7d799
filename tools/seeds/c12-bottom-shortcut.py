ID = 'c12-bottom-shortcut'
PROPERTY = 'C12'
NEEDS = 'a solver whose first model is the all-undefined instance, under an order in which more defined is better'
BREAKS = 'the search stops at the all-undefined instance although better ones exist'
EDITS = [
    ('compute/optimum.go',
     r"""		steps += 1

		bm, err = solver.Values([]query.QVar{v}, ctx)
		if err != nil {
			return OptOutput{false, query.QConst{}, 0}, err
		}
""",
     r"""		bm, err = solver.Values([]query.QVar{v}, ctx)
		if err != nil {
			return OptOutput{false, query.QConst{}, 0}, err
		}

		// There is nothing below the empty partial instance.
		if bm[0].BotCount() == ctx.Dim() {
			break
		}

		steps += 1
"""),
]
DEMO = r"""
package main

import (
	"github.com/jtcaraball/goexpdt/compute"
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/logop"
	"github.com/jtcaraball/goexpdt/query/predicates/subsumption"
)

// The greatest instance by subsumption, with solvers that pick different models.
func demo() {
	t := tree{2, []query.Node{leaf(true)}}
	for _, pick := range []bool{true, false} {
		for off := 1; off <= 3; off++ {
			ctx := query.BasicQContext(t)
			s := &memSolver{prefer: func(v int) bool { return pick && (v%3 == off%3) }}
			out, err := compute.ComputeOptim(
				func(v query.QVar) compute.Encodable { return subsumption.VarConst{I1: v, I2: con(O, Z)} },
				func(v query.QVar, c query.QConst) compute.Encodable {
					return logop.And{
						Q1: subsumption.ConstVar{I1: c, I2: v},
						Q2: logop.Not{Q: subsumption.VarConst{I1: v, I2: c}},
					}
				}, "x", ctx, s)
			must(err)
			if !out.Found || out.Value.AsString() != "10" {
				fail("optimum %v", out)
			}
		}
	}
}
"""
