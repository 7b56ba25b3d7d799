ID = 'c20-output-by-path'
PROPERTY = 'C20'
NEEDS = 'two solvers of one executable, one of which is read after the other stepped'
BREAKS = "the values of one computation are read from the other's answer"
EDITS = [
    ('compute/solver.go',
     r"""	s.output = output
""",
     r"""	lastOutput.Store(s.solverPath, output)
"""),
    ('compute/solver.go',
     r"""	output     []byte
""",
     r""""""),
    ('compute/solver.go',
     r"""	out := make([]query.QConst, len(vars))
""",
     r"""	out := make([]query.QConst, len(vars))

	var output []byte
	if o, ok := lastOutput.Load(s.solverPath); ok {
		output = o.([]byte)
	}
"""),
    ('compute/solver.go',
     r"""varValueFromBytes(s.output, v, ctx)""",
     r"""varValueFromBytes(output, v, ctx)"""),
    ('compute/solver.go',
     r"""// BinSolver that exposes""",
     r"""// lastOutput of every solver executable.
var lastOutput sync.Map

// BinSolver that exposes"""),
    ('compute/solver.go',
     r"""	"strconv"
""",
     r"""	"strconv"
	"sync"
"""),
]
DEMO = r"""
package main

import (
	"os"
	"path/filepath"

	"github.com/jtcaraball/goexpdt/cnf"
	"github.com/jtcaraball/goexpdt/compute"
	"github.com/jtcaraball/goexpdt/query"
)

// valued says what the value of x, with one feature, is.
type valued query.FeatV

func (q valued) Encoding(ctx query.QContext) (cnf.CNF, error) {
	var cl []cnf.Clause
	for f := 0; f < 3; f++ {
		n := ctx.CNFVar("x", 0, f)
		if f != int(q) {
			n = -n
		}
		cl = append(cl, cnf.Clause{n})
	}
	return cnf.FromClauses(cl), nil
}

// The executable answers with the units of its formula.
const script = `#!/bin/sh
echo 's SATISFIABLE'
while read -r l r; do
	[ "$l" = p ] || echo "v $l"
done < "$1"
echo 'v 0'
exit 10
`

func demo() {
	d, clean := scratch()
	defer clean()
	exe := filepath.Join(d, "units")
	must(os.WriteFile(exe, []byte(script), 0o755))
	vals := []query.FeatV{B, Z, O, Z}
	solvers := make([]compute.Solver, len(vals))
	ctxs := make([]query.QContext, len(vals))
	for i, f := range vals {
		s, err := compute.BinSolver(exe)
		must(err)
		solvers[i], ctxs[i] = s, query.BasicQContext(tree{1, []query.Node{leaf(true)}})
		must(s.Step(valued(f), ctxs[i]))
	}
	for i, f := range vals {
		out, err := solvers[i].Values([]query.QVar{"x"}, ctxs[i])
		must(err)
		if got := out[0].AsString(); got != con(f).AsString() {
			fail("solver %d: value %s instead of %s", i, got, con(f).AsString())
		}
	}
}
"""
