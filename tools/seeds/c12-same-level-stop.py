ID = 'c12-same-level-stop'
PROPERTY = 'C12'
NEEDS = 'an order under which an instance can be improved without changing how many of its features are undefined'
BREAKS = 'the search stops at an improvement that leaves the number of undefined features as it was'
EDITS = [
    ('compute/optimum.go',
     r"""		bm, err = solver.Values([]query.QVar{v}, ctx)
		if err != nil {
			return OptOutput{false, query.QConst{}, 0}, err
		}
""",
     r"""		prev := bm
		bm, err = solver.Values([]query.QVar{v}, ctx)
		if err != nil {
			return OptOutput{false, query.QConst{}, 0}, err
		}
		// No progress was made.
		if prev != nil && prev[0].BotCount() == bm[0].BotCount() {
			break
		}
"""),
]
DEMO = r"""
package main

import (
	"github.com/jtcaraball/goexpdt/compute"
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/logop"
	"github.com/jtcaraball/goexpdt/query/predicates/subsumption"
)

// Instances with one defined feature, those whose defined feature is later are
// better: "__1" is the best.
func demo() {
	t := tree{3, []query.Node{leaf(true)}}
	list := []query.QConst{con(O, B, B), con(B, O, B), con(B, B, O)}
	one := func(v query.QVar, l []query.QConst) logop.LogOpQ {
		var q logop.LogOpQ = subsumption.ConstConst{I1: con(O, O, O), I2: con(B, B, B)}
		for _, c := range l {
			q = logop.Or{Q1: q, Q2: is(v, c)}
		}
		return q
	}
	for _, pick := range []bool{true, false} {
		for off := 0; off <= 8; off++ {
			ctx := query.BasicQContext(t)
			s := &memSolver{prefer: func(v int) bool { return pick && v > off }}
			out, err := compute.ComputeOptim(
				func(v query.QVar) compute.Encodable { return one(v, list) },
				func(v query.QVar, c query.QConst) compute.Encodable {
					for k := range list {
						if list[k].EqualValue(c) {
							return one(v, list[k+1:])
						}
					}
					fail("not one of the instances: %v", c)
					return nil
				}, "x", ctx, s)
			must(err)
			if !out.Found || out.Value.AsString() != "__1" {
				fail("optimum %v", out)
			}
		}
	}
}
"""
