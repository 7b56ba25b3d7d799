ID = 'c16-leak-on-encoding-error'
PROPERTY = 'C16'
NEEDS = 'a query whose encoding fails, or a formula that cannot be written'
BREAKS = 'the temporary formula file stays behind when the query cannot be encoded'
EDITS = [
    ('compute/solver.go',
     r"""	defer func() {
		encFile.Close()
		os.Remove(encFile.Name())
	}()

	// Write formula as cnf to filePath.
	cnf, err := q.Encoding(ctx)
	if err != nil {
		return err
	}
	if err""",
     r"""
	// Write formula as cnf to filePath.
	cnf, err := q.Encoding(ctx)
	if err != nil {
		return err
	}
	defer func() {
		encFile.Close()
		os.Remove(encFile.Name())
	}()
	if err"""),
]
DEMO = r"""
package main

import (
	"os"
	"github.com/jtcaraball/goexpdt/compute"
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/logop"
	"github.com/jtcaraball/goexpdt/query/predicates/subsumption"
)

func demo() {
	d, clean := scratch()
	exe, clean2 := scratch()
	s, err := compute.BinSolver(solverExe(exe))
	must(err)
	os.Setenv("TMPDIR", d)
	ctx := query.BasicQContext(tree{2, []query.Node{leaf(true)}})
	for _, q := range []logop.LogOpQ{
		subsumption.ConstConst{I1: con(B, B), I2: con(B, B)},
		subsumption.ConstConst{I1: con(O, B), I2: con(B, B)},
		subsumption.ConstConst{I1: con(O), I2: con(B)},
	} {
		_ = s.Step(q, ctx)
	}
	left, err := os.ReadDir(d)
	must(err)
	clean()
	clean2()
	if len(left) != 0 {
		fail("%d temporary files left", len(left))
	}
}
"""
