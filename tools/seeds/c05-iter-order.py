ID = 'c05-iter-order'
PROPERTY = 'C05'
NEEDS = 'a model whose slice stores a child before its parent'
BREAKS = 'the guarded quantifier skips the subtrees that are stored before their parent'
EDITS = [
    ('query/logop/forallguarded.go',
     r"""			if !i.walk[zp].visited {""",
     r"""			if zp > i.cp && !i.walk[zp].visited {"""),
]
DEMO = r"""
package main

import (
	"github.com/jtcaraball/goexpdt/cnf"
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/logop"
)

type rec struct{ seen *[]string }

func (r rec) Encoding(ctx query.QContext) (cnf.CNF, error) {
	c, _ := ctx.ScopeConst(query.QConst{ID: "n"})
	*r.seen = append(*r.seen, c.AsString())
	return cnf.TrueCNF, nil
}

// The nodes seen by the body must be those of the tree, in any storage order.
func demo() {
	for _, nodes := range [][]query.Node{
		{inner(0, 1, 2), leaf(true), inner(1, 3, 4), leaf(false), leaf(true)},
		{inner(0, 4, 3), leaf(false), leaf(true), inner(1, 1, 2), leaf(true)},
	} {
		seen := []string{}
		_, err := logop.ForAllGuarded{I: query.QConst{ID: "n"}, Q: rec{&seen}}.Encoding(query.BasicQContext(tree{2, nodes}))
		must(err)
		count := map[string]int{}
		for _, s := range seen {
			count[s]++
		}
		for _, s := range []string{"__", "0_", "1_", "10", "11"} {
			if count[s] != 1 || len(seen) != 5 {
				fail("nodes seen: %v", seen)
			}
		}
	}
}
"""
