ID = 'c06-scope-byte'
PROPERTY = 'C06'
NEEDS = 'a guarded quantifier over a tree of more than 256 nodes with a variable declared inside'
BREAKS = 'the variables declared for nodes 256 apart are one variable, so their values are no longer independent'
EDITS = [
    ('query/logop/forallguarded.go',
     r"""ctx.SetScope(i, *cv)""",
     r"""ctx.SetScope(scopeIdx(i), *cv)"""),
    ('query/logop/forallguarded.go',
     r"""func (f ForAllGuarded) buildEncoding(""",
     r"""// scopeIdx keeps the names of scoped variables short.
func scopeIdx(i int) int { return int(uint8(i)) }

func (f ForAllGuarded) buildEncoding("""),
]
DEMO = r"""
package main

import (
	"github.com/jtcaraball/goexpdt/cnf"
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/logop"
)

type rec struct{ seen map[query.QVar]int }

func (r rec) Encoding(ctx query.QContext) (cnf.CNF, error) {
	r.seen[ctx.ScopeVar("x")]++
	return cnf.TrueCNF, nil
}

// A variable declared inside is one variable per node.
func demo() {
	for _, dim := range []int{1, 5, 127, 128, 200} {
		nodes := []query.Node{}
		for k := 0; k < dim; k++ {
			nodes = append(nodes, inner(k, 2*k+2, 2*k+1), leaf(true))
		}
		nodes = append(nodes, leaf(false))
		r := rec{map[query.QVar]int{}}
		q := logop.ForAllGuarded{I: query.QConst{ID: "n"}, Q: logop.WithVar{I: "x", Q: r}}
		_, err := q.Encoding(query.BasicQContext(tree{dim, nodes}))
		must(err)
		if len(r.seen) != len(nodes) {
			fail("%d nodes share %d variables", len(nodes), len(r.seen))
		}
	}
}
"""
