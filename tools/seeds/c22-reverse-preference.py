ID = 'c22-reverse-preference'
PROPERTY = 'C22'
NEEDS = 'encoding the same preference formula, or two formulas sharing a preference slice, more than once'
BREAKS = 'encoding reverses the preference of the caller, so a second encoding means something else'
EDITS = [
    ('query/extensions/hepr/var_var.go',
     r"""	ncnf := cnf.CNF{}
	plen := len(d.Preference)
	idx := d.Preference[plen-1]
""",
     r"""	ncnf := cnf.CNF{}
	plen := len(d.Preference)
	slices.Reverse(d.Preference) // Least preferred first.
	idx := d.Preference[0]
"""),
    ('query/extensions/hepr/var_var.go',
     r"""		idx = d.Preference[i]
""",
     r"""		idx = d.Preference[plen-1-i]
"""),
    ('query/extensions/hepr/var_var.go',
     r"""	"errors"
""",
     r"""	"errors"
	"slices"
"""),
]
DEMO = r"""
package main

import (
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/logop"
	"github.com/jtcaraball/goexpdt/query/extensions/hepr"
)

func demo() {
	pref := []int{1, 0, 2}
	gen := func(p, a, b query.QVar) query.QVar { return "p/" + a + "/" + b }
	q := logop.WithVar{I: "x", Q: logop.WithVar{I: "y", Q: hepr.VarVar{I1: "x", I2: "y", Preference: pref, FeaturePreferenceRankVarGen: gen}}}
	var first string
	for k := 0; k < 3; k++ {
		f, err := q.Encoding(query.BasicQContext(tree{3, []query.Node{leaf(true)}}))
		must(err)
		if s := string(f.ToBytes()); k == 0 {
			first = s
		} else if s != first {
			fail("encoding %d differs from the first", k+1)
		}
	}
	if pref[0] != 1 || pref[1] != 0 {
		fail("preference changed to %v", pref)
	}
}
"""
