ID = 'c14-time-limit'
PROPERTY = 'C14'
NEEDS = 'a solver that needs more than a few seconds'
BREAKS = 'the verdict of a slow solver is lost'
EDITS = [
    ('compute/solver.go',
     r"""	cmd := exec.Command(s.solverPath, encFile.Name())
""",
     r"""	cctx, cancel := context.WithTimeout(context.Background(), solverLimit)
	defer cancel()
	cmd := exec.CommandContext(cctx, s.solverPath, encFile.Name())
"""),
    ('compute/solver.go',
     r"""// BinSolver that exposes""",
     r"""// solverLimit is the time after which a solver is taken to hang.
const solverLimit = 5 * time.Second

// BinSolver that exposes"""),
    ('compute/solver.go',
     r"""	"bytes"
""",
     r"""	"bytes"
	"context"
"""),
    ('compute/solver.go',
     r"""	"strconv"
""",
     r"""	"strconv"
	"time"
"""),
]
DEMO = r"""
package main

import (
	"os"
	"path/filepath"

	"github.com/jtcaraball/goexpdt/cnf"
	"github.com/jtcaraball/goexpdt/compute"
	"github.com/jtcaraball/goexpdt/query"
)

type empty struct{}

func (empty) Encoding(query.QContext) (cnf.CNF, error) { return cnf.CNF{}, nil }

func demo() {
	d, clean := scratch()
	defer clean()
	exe := filepath.Join(d, "slow")
	must(os.WriteFile(exe, []byte("#!/bin/sh\nsleep 8\necho 's SATISFIABLE'\necho 'v 0'\nexit 10\n"), 0o755))
	s, err := compute.BinSolver(exe)
	must(err)
	if err := s.Step(empty{}, query.BasicQContext(tree{1, []query.Node{leaf(true)}})); err != nil {
		fail("the solver says satisfiable, Step says %v", err)
	}
}
"""
