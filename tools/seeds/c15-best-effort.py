ID = 'c15-best-effort'
PROPERTY = 'C15'
NEEDS = 'a solver that fails after the first improvement of an optimum computation'
BREAKS = 'a failing solver makes the last candidate be reported as the optimum'
EDITS = [
    ('compute/optimum.go',
     r"""			if errors.Is(err, UnsatError) {
				break
			}
			return OptOutput{false, query.QConst{}, 0}, err
		}
	}""",
     r"""			break
		}
	}"""),
]
DEMO = r"""
package main

import (
	"errors"
	"github.com/jtcaraball/goexpdt/compute"
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/logop"
	"github.com/jtcaraball/goexpdt/query/predicates/subsumption"
)

func demo() {
	boom := errors.New("boom")
	for at := 1; at <= 3; at++ {
		s := &memSolver{hook: func(call int) error {
			if call == at {
				return boom
			}
			return nil
		}, prefer: func(v int) bool { return v == 1 || v == 4 }}
		out, err := compute.ComputeOptim(
			func(v query.QVar) compute.Encodable { return subsumption.VarConst{I1: v, I2: con(Z, Z)} },
			func(v query.QVar, c query.QConst) compute.Encodable {
				return logop.And{
					Q1: subsumption.VarConst{I1: v, I2: c},
					Q2: logop.Not{Q: subsumption.ConstVar{I1: c, I2: v}},
				}
			}, "x", query.BasicQContext(tree{2, []query.Node{leaf(true)}}), s)
		if s.steps >= at && !errors.Is(err, boom) {
			fail("failure at call %d: %v, %v", at, out, err)
		}
	}
}
"""
