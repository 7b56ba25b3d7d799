ID = 'c14-output-overwritten'
PROPERTY = 'C14'
NEEDS = 'reading values after a later call to the solver was unsatisfiable'
BREAKS = 'the values of the last satisfiable verdict are lost when a later query is unsatisfiable'
EDITS = [
    ('compute/solver.go',
     r"""	if code == 20 {
		return UnsatError
	}
	s.output = output

	return nil""",
     r"""	s.output = output
	if code == 20 {
		return UnsatError
	}

	return nil"""),
]
DEMO = r"""
package main

import (
	"github.com/jtcaraball/goexpdt/compute"
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/predicates/subsumption"
)

func demo() {
	d, clean := scratch()
	defer clean()
	s, err := compute.BinSolver(solverExe(d))
	must(err)
	ctx := query.BasicQContext(tree{2, []query.Node{leaf(true)}})
	must(s.Step(at(subsumption.ConstConst{I1: con(B, B), I2: con(B, B)}, query.QVar("x"), con(O, Z)), ctx))
	other := query.BasicQContext(tree{2, []query.Node{leaf(true)}})
	if err := s.Step(subsumption.ConstConst{I1: con(O, O), I2: con(Z, Z)}, other); err != compute.UnsatError {
		fail("verdict %v", err)
	}
	out, err := s.Values([]query.QVar{"x"}, ctx)
	must(err)
	if out[0].AsString() != "10" {
		fail("value %s", out[0].AsString())
	}
}
"""
