ID = 'c13-found-empty'
PROPERTY = 'C13'
NEEDS = 'a formula whose optimum is the all-undefined instance'
BREAKS = 'the all-undefined optimum is reported as not found'
EDITS = [
    ('compute/optimum.go',
     r"""	return OptOutput{true, bm[0], steps}, nil""",
     r"""	return OptOutput{bm[0].BotCount() < ctx.Dim(), bm[0], steps}, nil"""),
]
DEMO = r"""
package main

import (
	"github.com/jtcaraball/goexpdt/compute"
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/logop"
	"github.com/jtcaraball/goexpdt/query/predicates/subsumption"
)

// The least instance by subsumption.
func demo() {
	ctx := query.BasicQContext(tree{2, []query.Node{leaf(true)}})
	out, err := compute.ComputeOptim(
		func(v query.QVar) compute.Encodable { return subsumption.VarConst{I1: v, I2: con(O, Z)} },
		func(v query.QVar, c query.QConst) compute.Encodable {
			return logop.And{
				Q1: subsumption.VarConst{I1: v, I2: c},
				Q2: logop.Not{Q: subsumption.ConstVar{I1: c, I2: v}},
			}
		}, "x", ctx, &memSolver{})
	must(err)
	if !out.Found || out.Value.AsString() != "__" {
		fail("optimum %v", out)
	}
}
"""
