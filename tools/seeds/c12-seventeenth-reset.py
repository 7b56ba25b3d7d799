ID = 'c12-seventeenth-reset'
PROPERTY = 'C12'
NEEDS = 'an optimum computation of more than sixteen solver calls'
BREAKS = 'the context is not cleared before some of the calls, so that the variable has no consistent value'
EDITS = [
    ('compute/optimum.go',
     r"""		ctx.Reset()

		err = solver""",
     r"""		// The numbering is rebuilt from time to time only.
		if steps%17 != 0 {
			ctx.Reset()
		}

		err = solver"""),
]
DEMO = r"""
package main

import (
	"github.com/jtcaraball/goexpdt/cnf"
	"github.com/jtcaraball/goexpdt/compute"
	"github.com/jtcaraball/goexpdt/query"
)

type everything struct{}

func (everything) Encoding(query.QContext) (cnf.CNF, error) { return cnf.TrueCNF, nil }

// The instances are visited again and again, a counter of the caller says
// when it is enough.
func demo() {
	ctx := query.BasicQContext(tree{2, []query.Node{leaf(true)}})
	n := 0
	s := &memSolver{prefer: func(int) bool { return true }}
	out, err := compute.ComputeOptim(
		func(query.QVar) compute.Encodable { return everything{} },
		func(v query.QVar, c query.QConst) compute.Encodable {
			n++
			if n == 40 {
				return nothing{}
			}
			if len(c.Val) != 2 {
				fail("value %v after %d steps", c.Val, n)
			}
			return everything{}
		}, "x", ctx, s)
	must(err)
	if !out.Found || len(out.Value.Val) != 2 {
		fail("the result is %v", out)
	}
}

type nothing struct{}

func (nothing) Encoding(query.QContext) (cnf.CNF, error) { return cnf.FalseCNF, nil }
"""
