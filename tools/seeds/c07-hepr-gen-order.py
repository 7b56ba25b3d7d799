ID = 'c07-hepr-gen-order'
PROPERTY = 'C07'
NEEDS = 'HEPR(x, c) and HEPR(c, x) of the same variable, constant and preference in one query'
BREAKS = 'both comparisons get the same auxiliary variable with two different definitions'
EDITS = [
    ('query/extensions/hepr/var_const.go',
     r"""		sv,
		query.QVar(sc.AsString()),
	)""",
     r"""		query.QVar(sc.AsString()),
		sv,
	)"""),
]
DEMO = r"""
package main

import (
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/logop"
	"github.com/jtcaraball/goexpdt/query/extensions/hepr"
)

func rank(a, b query.QConst, pref []int) bool {
	for _, i := range pref {
		if (a.Val[i] == B) != (b.Val[i] == B) {
			return a.Val[i] != B
		}
	}
	return true
}

// HEPR(x, c) and not HEPR(c, x) (strictly preferred) for all pairs.
func demo() {
	x := query.QVar("x")
	gen := func(p, a, b query.QVar) query.QVar { return "p" + p + "/" + a + "/" + b }
	pref := []int{1, 0}
	for _, c := range allConsts(2) {
		for _, d := range allConsts(2) {
			q := logop.And{
				Q1: hepr.VarConst{I1: x, I2: c, Preference: pref, FeaturePreferenceRankVarGen: gen},
				Q2: logop.Not{Q: hepr.ConstVar{I1: c, I2: x, Preference: pref, FeaturePreferenceRankVarGen: gen}},
			}
			want := rank(d, c, pref) && !rank(c, d, pref)
			if got := sat(at(q, x, d), query.BasicQContext(tree{2, []query.Node{leaf(true)}})); got != want {
				fail("x=%s strictly preferred to %s: %v", d.AsString(), c.AsString(), got)
			}
		}
	}
}
"""
