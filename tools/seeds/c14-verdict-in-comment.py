ID = 'c14-verdict-in-comment'
PROPERTY = 'C14'
NEEDS = 'a solver that mentions UNSATISFIABLE in a comment line of a satisfiable answer'
BREAKS = 'a satisfiable query is reported unsatisfiable'
EDITS = [
    ('compute/solver.go',
     r"""	if code == 20 {""",
     r"""	if code == 20 || bytes.Contains(output, []byte("UNSATISFIABLE")) {"""),
]
DEMO = r"""
package main

import (
	"os"
	"path/filepath"

	"github.com/jtcaraball/goexpdt/compute"
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/predicates/subsumption"
)

func demo() {
	d, clean := scratch()
	defer clean()
	exe := solverExe(d)
	chatty := filepath.Join(d, "chatty")
	must(os.WriteFile(chatty, []byte("#!/bin/sh\necho 'c exit 10 if SATISFIABLE, 20 if UNSATISFIABLE'\nexec "+exe+" \"$1\"\n"), 0o755))
	s, err := compute.BinSolver(chatty)
	must(err)
	ctx := query.BasicQContext(tree{2, []query.Node{leaf(true)}})
	must(s.Step(at(subsumption.ConstConst{I1: con(B, B), I2: con(B, B)}, query.QVar("x"), con(O, Z)), ctx))
}
"""
