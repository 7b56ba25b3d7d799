ID = 'c02-allcomp-parent-clause'
PROPERTY = 'C02'
NEEDS = 'a negated all-completions formula on a tree with leaves at depth two or more'
BREAKS = 'a leaf no longer has to be reached through its parent, so "not all completions" holds for instances that never get there'
EDITS = [
    ('query/extensions/allcomp/var.go',
     r"""			cnf.Clause{
				-ctx.CNFVar(svReach, 0, node.ZChild),
				ctx.CNFVar(svReach, 0, i),
			},
""",
     r""""""),
]
DEMO = r"""
package main

import (
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/logop"
	"github.com/jtcaraball/goexpdt/query/extensions/allcomp"
)

// All partial instances of a depth two tree, both classes, plain and negated.
func demo() {
	t := tree{2, []query.Node{inner(0, 1, 2), leaf(true), inner(1, 3, 4), leaf(false), leaf(true)}}
	x := query.QVar("x")
	gen := func(v query.QVar) query.QVar { return "r" + v }
	for _, c := range allConsts(2) {
		for _, lv := range []bool{true, false} {
			want := true
			for _, f := range allConsts(2) {
				if !f.IsFull() {
					continue
				}
				comp := true
				for i := range f.Val {
					comp = comp && (c.Val[i] == B || c.Val[i] == f.Val[i])
				}
				if class := f.Val[0] == Z || f.Val[1] == O; comp && class != lv {
					want = false
				}
			}
			q := allcomp.Var{I: x, LeafValue: lv, ReachNodeVarGen: gen}
			if got := sat(at(q, x, c), query.BasicQContext(t)); got != want {
				fail("all %v at %s = %v", lv, c.AsString(), got)
			}
			if got := sat(at(logop.Not{Q: q}, x, c), query.BasicQContext(t)); got == want {
				fail("not all %v at %s = %v", lv, c.AsString(), got)
			}
		}
	}
}
"""
