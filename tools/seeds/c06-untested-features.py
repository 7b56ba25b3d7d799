ID = 'c06-untested-features'
PROPERTY = 'C06'
NEEDS = 'a model with nodes, none of which tests some feature'
BREAKS = 'variables may have several values, or none, at the features the model does not test'
EDITS = [
    ('query/logop/with_var.go',
     r"""	// Every feature must have at least one value
""",
     r"""	// Only the features that the model tests matter.
	tested := make(map[int]bool, ctx.Dim())
	for _, n := range ctx.Nodes() {
		if !n.IsLeaf() {
			tested[n.Feat] = true
		}
	}
	all := len(tested) == 0

	// Every feature must have at least one value
"""),
    ('query/logop/with_var.go',
     r"""	for i := 0; i < ctx.Dim(); i++ {
		reqOnePerFeat""",
     r"""	for i := 0; i < ctx.Dim(); i++ {
		if !all && !tested[i] {
			continue
		}
		reqOnePerFeat"""),
]
DEMO = r"""
package main

import (
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/logop"
	"github.com/jtcaraball/goexpdt/query/predicates/subsumption"
)

// No instance is above two instances that contradict one another.
func demo() {
	for f := 0; f < 3; f++ {
		t := tree{3, []query.Node{inner(f, 1, 2), leaf(true), leaf(false)}}
		for _, c := range allConsts(3) {
			for _, d := range allConsts(3) {
				want := true
				for i := range c.Val {
					want = want && (c.Val[i] == d.Val[i] || c.Val[i] == B || d.Val[i] == B)
				}
				q := logop.WithVar{I: "x", Q: logop.And{
					Q1: subsumption.ConstVar{I1: c, I2: "x"},
					Q2: subsumption.ConstVar{I1: d, I2: "x"},
				}}
				if got := sat(q, query.BasicQContext(t)); got != want {
					fail("an instance above %s and %s: %v", c.AsString(), d.AsString(), got)
				}
			}
		}
	}
}
"""
