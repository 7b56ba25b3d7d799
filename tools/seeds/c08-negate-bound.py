ID = 'c08-negate-bound'
PROPERTY = 'C08'
NEEDS = "negating a formula with a bound lower than the formula's own top variable"
BREAKS = 'the variables introduced by negation are ones the formula already uses'
EDITS = [
    ('cnf/cnf.go',
     r"""		topv = maxInt(topv, opt_topv[0])""",
     r"""		topv = opt_topv[0]"""),
]
DEMO = r"""
package main

import (
	"github.com/jtcaraball/goexpdt/cnf"
)

// not((1 or 5) and (2 or 3)) with bound 2, at every assignment of 1..5.
func demo() {
	f := cnf.FromClauses([]cnf.Clause{{1, 5}, {2, 3}})
	n := f.Negate(2)
	if n.TopV() < 5 {
		fail("top variable %d", n.TopV())
	}
	for m := 0; m < 32; m++ {
		b := func(v int) bool { return m&(1<<(v-1)) != 0 }
		cl := clausesOf(n)
		for v := 1; v <= 5; v++ {
			l := v
			if !b(v) {
				l = -v
			}
			cl = append(cl, []int{l})
		}
		want := !((b(1) || b(5)) && (b(2) || b(3)))
		if got := solve(cl, func(int) bool { return false }) != nil; got != want {
			fail("assignment %05b: %v", m, got)
		}
	}
}
"""
