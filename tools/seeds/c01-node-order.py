ID = 'c01-node-order'
PROPERTY = 'C01'
NEEDS = 'a tree whose node list has a child before its parent'
BREAKS = 'the decisions below such a child are not seen, so partial instances that are no nodes are accepted'
EDITS = [
    ('query/predicates/isnode/var.go',
     r"""	for i, node := range nodes {
		if node.IsLeaf() {
			continue
		}
		ncnf = ncnf""",
     r"""	reach := make([]bool, len(nodes))
	reach[0] = true
	for i, node := range nodes {
		if node.IsLeaf() || !reach[i] {
			continue
		}
		reach[node.ZChild], reach[node.OChild] = true, true
		ncnf = ncnf"""),
]
DEMO = r"""
package main

import (
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/predicates/isnode"
)

func demo() {
	x := query.QVar("x")
	t := tree{4, []query.Node{
		inner(0, 4, 2),
		inner(2, 5, 6),
		leaf(true),
		leaf(false),
		inner(1, 3, 1),
		inner(3, 7, 8),
		leaf(true),
		leaf(true),
		leaf(false),
	}}
	nodes := map[string]bool{"____": true, "0___": true, "1___": true, "00__": true, "01__": true, "010_": true, "011_": true,
		"0100": true, "0101": true}
	for _, c := range allConsts(4) {
		q := at(isnode.Var{I: x, ReachNodeVarGen: func(v query.QVar) query.QVar { return "r" + v }}, x, c)
		if got := sat(q, query.BasicQContext(t)); got != nodes[c.AsString()] {
			fail("%s is a node: %v", c.AsString(), got)
		}
	}
}
"""
