ID = 'c14-values-cache'
PROPERTY = 'C14'
NEEDS = 'one solver used with two contexts that number the variables differently, and the same answer text both times'
BREAKS = 'Values returns the values read for another context'
EDITS = [
    ('compute/solver.go',
     r"""		c, err := varValueFromBytes(s.output, v, ctx)
		if err != nil {
			return nil, err
		}
""",
     r"""		c, ok := s.vals[v]
		if !ok {
			var err error
			c, err = varValueFromBytes(s.output, v, ctx)
			if err != nil {
				return nil, err
			}
			s.vals[v] = c
		}
"""),
    ('compute/solver.go',
     r"""	s.output = output
""",
     r"""	if s.vals == nil || !bytes.Equal(s.output, output) {
		s.vals = make(map[query.QVar]query.QConst)
	}
	s.output = output
"""),
    ('compute/solver.go',
     r"""	output     []byte
""",
     r"""	output     []byte
	vals       map[query.QVar]query.QConst // Already read from output.
"""),
]
DEMO = r"""
package main

import (
	"os"
	"path/filepath"

	"github.com/jtcaraball/goexpdt/cnf"
	"github.com/jtcaraball/goexpdt/compute"
	"github.com/jtcaraball/goexpdt/query"
)

type first struct{ order []query.FeatV }

func (q first) Encoding(ctx query.QContext) (cnf.CNF, error) {
	for _, f := range q.order {
		ctx.CNFVar("x", 0, int(f))
	}
	return cnf.FromClauses([]cnf.Clause{{1}, {-2}, {-3}}), nil
}

func demo() {
	d, clean := scratch()
	defer clean()
	exe := filepath.Join(d, "fixed")
	must(os.WriteFile(exe, []byte("#!/bin/sh\necho 's SATISFIABLE'\necho 'v 1 -2 -3 0'\nexit 10\n"), 0o755))
	s, err := compute.BinSolver(exe)
	must(err)
	for _, c := range []struct {
		order []query.FeatV
		want  string
	}{{[]query.FeatV{O, Z, B}, "1"}, {[]query.FeatV{Z, B, O}, "0"}, {[]query.FeatV{O, B, Z}, "1"}} {
		ctx := query.BasicQContext(tree{1, []query.Node{leaf(true)}})
		must(s.Step(first{c.order}, ctx))
		out, err := s.Values([]query.QVar{"x"}, ctx)
		must(err)
		if got := out[0].AsString(); got != c.want {
			fail("value %s instead of %s", got, c.want)
		}
	}
}
"""
