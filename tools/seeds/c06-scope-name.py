ID = 'c06-scope-name'
PROPERTY = 'C06'
NEEDS = 'variables of the same name declared inside quantifiers whose constants are named like a and a1, on a tree with more than ten nodes'
BREAKS = 'two variables of different scopes get one name, so they can no longer take independent values'
EDITS = [
    ('query/scoper.go',
     r"""		s.builder.WriteString(s.scopes[i].target)
		s.builder.WriteRune(31) // Unit separator
""",
     r"""		s.builder.WriteString(s.scopes[i].target)
"""),
]
DEMO = r"""
package main

import (
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/logop"
)

func demo() {
	var nodes []query.Node
	// A caterpillar with 13 nodes over six features.
	for i := 0; i < 6; i++ {
		nodes = append(nodes, inner(i, 2*i+1, 2*i+2), leaf(true))
	}
	nodes = append(nodes, leaf(false))
	ctx := query.BasicQContext(tree{6, nodes})
	// For all nodes a: some x has value __0___; for all nodes a1: some x has
	// value 1_____. Both are true whatever the nodes are.
	part := func(id string, c query.QConst) logop.LogOpQ {
		return logop.ForAllGuarded{I: query.QConst{ID: id}, Q: logop.WithVar{I: "x", Q: is("x", c)}}
	}
	q := logop.And{Q1: part("a", con(B, B, Z, B, B, B)), Q2: part("a1", con(O, B, B, B, B, B))}
	if !sat(q, ctx) {
		fail("independent variables of different scopes exclude each other")
	}
}
"""
