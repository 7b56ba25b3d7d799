ID = 'c22-node-spare'
PROPERTY = 'C22'
NEEDS = 'a model whose node list is part of a larger array, as one made by repeated appends or a sub-slice'
BREAKS = 'encoding a query overwrites an element of the caller after the node list'
EDITS = [
    ('query/extensions/allcomp/const.go',
     r"""	nstack := []query.Node{nodes[0]}""",
     r"""	nstack := append(nodes, nodes[0])[len(nodes):]"""),
]
DEMO = r"""
package main

import (
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/extensions/allcomp"
)

func demo() {
	all := []query.Node{inner(0, 1, 2), leaf(false), leaf(true), inner(1, 7, 8), leaf(true)}
	keep := all[3]
	ctx := query.BasicQContext(tree{2, all[:3]})
	_, err := allcomp.Const{I: con(B, O), LeafValue: true}.Encoding(ctx)
	must(err)
	if all[3] != keep {
		fail("the node after the list is now %v", all[3])
	}
}
"""
