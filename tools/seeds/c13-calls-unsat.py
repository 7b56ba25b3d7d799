ID = 'c13-calls-unsat'
PROPERTY = 'C13'
NEEDS = 'an optimum computation whose formula has no satisfying instance'
BREAKS = 'the solver call that found the formula unsatisfiable is not counted'
EDITS = [
    ('compute/optimum.go',
     r"""			return OptOutput{false, query.QConst{}, 1}, nil""",
     r"""			return OptOutput{}, nil"""),
]
DEMO = r"""
package main

import (
	"github.com/jtcaraball/goexpdt/compute"
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/logop"
	"github.com/jtcaraball/goexpdt/query/predicates/subsumption"
)

func demo() {
	for _, q := range []logop.LogOpQ{
		subsumption.ConstVar{I1: con(O), I2: "x"},
		logop.And{Q1: subsumption.ConstVar{I1: con(O), I2: "x"}, Q2: subsumption.ConstVar{I1: con(Z), I2: "x"}},
	} {
		s := &memSolver{}
		out, err := compute.ComputeOptim(
			func(query.QVar) compute.Encodable { return q },
			func(v query.QVar, c query.QConst) compute.Encodable {
				return logop.Not{Q: subsumption.VarConst{I1: v, I2: c}}
			}, "x", query.BasicQContext(tree{1, []query.Node{leaf(true)}}), s)
		must(err)
		if out.Calls != s.steps {
			fail("reported %d calls, made %d", out.Calls, s.steps)
		}
	}
}
"""
