ID = 'c15-killed-after-verdict'
PROPERTY = 'C15'
NEEDS = 'a solver that is killed after it wrote its status line'
BREAKS = 'a solver run cut short by a signal counts as a verdict'
EDITS = [
    ('compute/solver.go',
     r"""		exitCode := exitErr.ExitCode()
""",
     r"""		exitCode := exitErr.ExitCode()
		if exitCode == -1 && bytes.HasPrefix(stdout.Bytes(), []byte("s UNSAT")) {
			// Stopped while closing down, the verdict is already there.
			exitCode = 20
			return exitCode, stdout.Bytes(), nil
		}
"""),
]
DEMO = r"""
package main

import (
	"errors"
	"os"
	"path/filepath"

	"github.com/jtcaraball/goexpdt/compute"
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/predicates/subsumption"
)

func demo() {
	d, clean := scratch()
	defer clean()
	for _, out := range []string{"", "s SATISFIABLE", "s UNSATISFIABLE"} {
		p := filepath.Join(d, "solver")
		must(os.WriteFile(p, []byte("#!/bin/sh\necho '"+out+"'\nkill -9 $$\n"), 0o755))
		s, err := compute.BinSolver(p)
		must(err)
		q := subsumption.ConstConst{I1: con(B), I2: con(B)}
		err = s.Step(q, query.BasicQContext(tree{1, []query.Node{leaf(true)}}))
		if err == nil || errors.Is(err, compute.UnsatError) {
			fail("a killed solver that wrote %q gives the verdict %v", out, err)
		}
	}
}
"""
