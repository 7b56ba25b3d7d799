ID = 'c21-long-constant'
PROPERTY = 'C21'
NEEDS = 'a constant with more features than the model'
BREAKS = 'constants that are too long are accepted by some components, which then ignore or misread the additional features'
EDITS = [
    ('query/instances.go',
     r"""		if len(c.Val) != d {""",
     r"""		if len(c.Val) < d {"""),
]
DEMO = r"""
package main

import (
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/extensions/full"
)

func demo() {
	ctx := query.BasicQContext(tree{1, []query.Node{leaf(true)}})
	for n := 0; n <= 3; n++ {
		err := query.ValidateConstsDim(1, con(O), query.AllBotConst(n))
		if (err == nil) != (n == 1) {
			fail("%d features in dimension 1: %v", n, err)
		}
		_, err = full.Const{I: query.AllBotConst(n)}.Encoding(ctx)
		if (err == nil) != (n == 1) {
			fail("full of %d features in dimension 1: %v", n, err)
		}
	}
}
"""
