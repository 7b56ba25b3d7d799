ID = 'c03-hepr-tie'
PROPERTY = 'C03'
NEEDS = 'a preference of two or more features, tied on all but the last'
BREAKS = 'a constant with an undefined preferred feature ranks as high as an instance that also leaves it undefined whatever the later features say'
EDITS = [
    ('query/extensions/hepr/const_var.go',
     r"""			cnf.Clause{
				-ctx.CNFVar(cvp, 0, i),
				ctx.CNFVar(cvp, 0, i+1),
			},
		)
	}
""",
     r"""		)
	}
"""),
]
DEMO = r"""
package main

import (
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/extensions/hepr"
)

func rank(a, b query.QConst, pref []int) bool {
	for _, i := range pref {
		if (a.Val[i] == B) != (b.Val[i] == B) {
			return a.Val[i] != B
		}
	}
	return true
}

func demo() {
	x := query.QVar("x")
	gen := func(p, a, b query.QVar) query.QVar { return "p" + p + "/" + a + "/" + b }
	for _, pref := range [][]int{{0}, {1, 0}, {2, 0, 1}} {
		for _, c := range allConsts(3) {
			for _, d := range allConsts(3) {
				q := hepr.ConstVar{I1: c, I2: x, Preference: pref, FeaturePreferenceRankVarGen: gen}
				got := sat(at(q, x, d), query.BasicQContext(tree{3, []query.Node{leaf(true)}}))
				if got != rank(c, d, pref) {
					fail("hepr(%s, x=%s) under %v = %v", c.AsString(), d.AsString(), pref, got)
				}
			}
		}
	}
}
"""
