ID = 'c21-far-duplicate'
PROPERTY = 'C21'
NEEDS = 'a preference that names a feature twice, not one right after the other'
BREAKS = 'a preference with a repeated feature is accepted'
EDITS = [
    ('query/extensions/hepr/util.go',
     r"""	seen := make([]bool, dim)
	for _, i := range pref {
""",
     r"""	last := -1
	for _, i := range pref {
"""),
    ('query/extensions/hepr/util.go',
     r"""		if seen[i] {
""",
     r"""		if i == last {
"""),
    ('query/extensions/hepr/util.go',
     r"""		seen[i] = true
""",
     r"""		last = i
"""),
]
DEMO = r"""
package main

import (
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/extensions/hepr"
)

func demo() {
	ctx := query.BasicQContext(tree{3, []query.Node{leaf(true)}})
	gen := func(p, a, b query.QVar) query.QVar { return "g" + p + "/" + a + "/" + b }
	for _, p := range [][]int{{0, 0}, {0, 1, 1}, {0, 1, 0}, {2, 1, 2}, {0, 1, 2, 0}, {3}, {-1}} {
		_, err := hepr.ConstConst{I1: con(O, O, B), I2: con(O, B, B), Preference: p}.Encoding(ctx)
		_, err2 := hepr.VarConst{I1: "x", I2: con(O, B, B), Preference: p, FeaturePreferenceRankVarGen: gen}.Encoding(ctx)
		if err == nil || err2 == nil {
			fail("preference %v accepted", p)
		}
	}
	for _, p := range [][]int{nil, {0}, {2, 0}, {0, 2, 1}} {
		_, err := hepr.ConstConst{I1: con(O, O, B), I2: con(O, B, B), Preference: p}.Encoding(ctx)
		must(err)
	}
}
"""
