ID = 'c05-walk-byte'
PROPERTY = 'C05'
NEEDS = 'a guarded quantifier over a tree of more than 256 nodes with an inner node numbered 256 or more'
BREAKS = 'the walk goes back to the wrong node and gives wrong values to the constant'
EDITS = [
    ('query/logop/forallguarded.go',
     r"""	prev    int
""",
     r"""	prev    uint8
"""),
    ('query/logop/forallguarded.go',
     r"""				pp = i.cp
				i.cp = zp
				i.walk[i.cp].prev = pp""",
     r"""				pp = i.cp
				i.cp = zp
				i.walk[i.cp].prev = uint8(pp)"""),
    ('query/logop/forallguarded.go',
     r"""				pp = i.cp
				i.cp = op
				i.walk[i.cp].prev = pp""",
     r"""				pp = i.cp
				i.cp = op
				i.walk[i.cp].prev = uint8(pp)"""),
    ('query/logop/forallguarded.go',
     r"""i.cp = i.walk[i.cp].prev""",
     r"""i.cp = int(i.walk[i.cp].prev)"""),
]
DEMO = r"""
package main

import (
	"time"

	"github.com/jtcaraball/goexpdt/cnf"
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/logop"
)

type see struct{ got map[string]int }

func (q see) Encoding(ctx query.QContext) (cnf.CNF, error) {
	c, _ := ctx.ScopeConst(query.QConst{ID: "c"})
	q.got[c.AsString()]++
	return cnf.TrueCNF, nil
}

func demo() {
	go func() {
		time.Sleep(60 * time.Second)
		fail("still running")
	}()
	// a complete tree of nine levels, numbered in level order
	const dim = 8
	var nodes []query.Node
	for l, k := 0, 0; l <= dim; l++ {
		for j := 0; j < 1<<l; j++ {
			if l == dim {
				nodes = append(nodes, leaf(true))
				continue
			}
			nodes = append(nodes, inner(l, 2*k+1, 2*k+2))
			k++
		}
	}
	// an unbalanced one: inner nodes last
	for k := range nodes[:len(nodes)/2] {
		n := len(nodes)
		nodes[k].ZChild, nodes[k].OChild = (n-nodes[k].ZChild)%n, (n-nodes[k].OChild)%n
	}
	for a, b := 1, len(nodes)-1; a < b; a, b = a+1, b-1 {
		nodes[a], nodes[b] = nodes[b], nodes[a]
	}
	q := see{map[string]int{}}
	_, err := logop.ForAllGuarded{I: query.QConst{ID: "c"}, Q: q}.Encoding(query.BasicQContext(tree{dim, nodes}))
	if err != nil {
		fail("%v", err)
	}
	if len(q.got) != len(nodes) {
		fail("%d values for %d nodes", len(q.got), len(nodes))
	}
}
"""
