ID = 'c08-negation-blocks'
PROPERTY = 'C08'
NEEDS = 'negating a formula with more than 32 semantic clauses, whose number is not a multiple of 32, at an assignment that breaks only the last ones'
BREAKS = 'the negation misses assignments'
EDITS = [
    ('cnf/cnf.go',
     r"""	clauses := []Clause{}
	for _, lit := range enclits {
		clauses = append(clauses, Clause{-lit, auxv})
	}
	clauses = append(clauses, append(enclits, -auxv))
""",
     r"""	clauses := []Clause{}
	for _, lit := range enclits {
		clauses = append(clauses, Clause{-lit, auxv})
	}
	// Long clauses are hard on solvers so they are built from blocks.
	for len(enclits) > negBlock {
		blocks := Clause{}
		for i := 0; i+negBlock <= len(enclits); i += negBlock {
			c.tv += 1
			for _, lit := range enclits[i : i+negBlock] {
				clauses = append(clauses, Clause{-lit, c.tv})
			}
			block := append(Clause{-c.tv}, enclits[i:i+negBlock]...)
			clauses = append(clauses, block)
			blocks = append(blocks, c.tv)
		}
		enclits = blocks
	}
	clauses = append(clauses, append(enclits, -auxv))
"""),
    ('cnf/cnf.go',
     r"""// Add "if and only if" clause""",
     r"""// negBlock is the largest amount of literals that are joined by one variable.
const negBlock = 32

// Add "if and only if" clause"""),
]
DEMO = r"""
package main

import "github.com/jtcaraball/goexpdt/cnf"

func demo() {
	for _, n := range []int{2, 31, 32, 33, 40, 65} {
		f := cnf.CNF{}
		for i := 1; i <= n; i++ {
			f = f.AppendSemantics(cnf.Clause{i})
		}
		g := f.Negate()
		// each single variable may be the false one
		for k := 1; k <= n; k++ {
			s, c := g.Clauses()
			var cl [][]int
			for _, l := range append(append([]cnf.Clause{}, s...), c...) {
				cl = append(cl, l)
			}
			for i := 1; i <= n; i++ {
				v := i
				if i == k {
					v = -i
				}
				cl = append(cl, []int{v})
			}
			if solve(cl, func(int) bool { return true }) == nil {
				fail("the negation of %d units is false where unit %d is", n, k)
			}
		}
	}
}
"""
