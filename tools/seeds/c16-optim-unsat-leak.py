ID = 'c16-optim-unsat-leak'
PROPERTY = 'C16'
NEEDS = 'an optimum computation whose formula has no satisfying instance, or that fails at its first call'
BREAKS = 'the temporary file of the computation stays behind'
EDITS = [
    ('compute/optimum.go',
     r"""	defer func() {
		tmpfp.Close()
		os.Remove(tmpfp.Name())
	}()

""",
     r""""""),
    ('compute/optimum.go',
     r"""	steps := 1

""",
     r"""	steps := 1
	defer func() {
		tmpfp.Close()
		os.Remove(tmpfp.Name())
	}()

"""),
]
DEMO = r"""
package main

import (
	"os"
	"github.com/jtcaraball/goexpdt/compute"
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/predicates/subsumption"
)

func demo() {
	d, clean := scratch()
	os.Setenv("TMPDIR", d)
	ctx := query.BasicQContext(tree{1, []query.Node{leaf(true)}})
	for _, c := range []query.QConst{con(B), con(O)} {
		_, err := compute.ComputeOptim(
			func(query.QVar) compute.Encodable { return subsumption.ConstConst{I1: c, I2: con(B)} },
			func(query.QVar, query.QConst) compute.Encodable { return subsumption.ConstConst{I1: con(O), I2: con(B)} },
			"x", ctx, &memSolver{})
		must(err)
	}
	left, err := os.ReadDir(d)
	must(err)
	clean()
	if len(left) != 0 {
		fail("%d temporary files left", len(left))
	}
}
"""
