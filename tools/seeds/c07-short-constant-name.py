ID = 'c07-short-constant-name'
PROPERTY = 'C07'
NEEDS = 'two distance comparisons of one variable in one query, with constants of nine or more features that differ only after the eighth, and the shared naming function'
BREAKS = 'two distances share their counters, so the query may become unsatisfiable'
EDITS = [
    ('query/extensions/leh/var_const_const.go',
     r"""query.QVar(sc2.AsString())""",
     r"""query.QVar(sc2.AsString()[:min(len(sc2.Val), 8)])"""),
]
DEMO = r"""
package main

import (
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/extensions/leh"
	"github.com/jtcaraball/goexpdt/query/logop"
)

func demo() {
	x := query.QVar("x")
	zero := con(Z, Z, Z, Z, Z, Z, Z, Z, Z, Z)
	a := con(Z, Z, Z, Z, Z, Z, Z, Z, Z, O)
	b := con(Z, Z, Z, Z, Z, Z, Z, Z, O, O)
	gen := func(v, w query.QVar) query.QVar { return "hd" + v + "," + w }
	mk := func(c1, c2 query.QConst) logop.LogOpQ {
		return leh.VarConstConst{I1: x, I2: c1, I3: c2, HammingDistanceVarGen: gen}
	}
	ctx := query.BasicQContext(tree{10, []query.Node{leaf(true)}})
	// zero is at distance 0 from itself, 1 from a and 2 from b
	if !sat(at(logop.And{Q1: mk(zero, a), Q2: mk(zero, b)}, x, zero), ctx) {
		fail("0 is not closer to itself than to the others")
	}
}
"""
