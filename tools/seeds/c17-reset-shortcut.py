ID = 'c17-reset-shortcut'
PROPERTY = 'C17'
NEEDS = 'resetting a context that has scopes but no solver variables'
BREAKS = 'a reset context keeps its scopes when it never handed out a variable'
EDITS = [
    ('query/context.go',
     r"""	if qc == nil {
		return
	}
	qc""",
     r"""	if qc == nil || qc.TopV() == 0 {
		return
	}
	qc"""),
]
DEMO = r"""
package main

import (
	"github.com/jtcaraball/goexpdt/query"
)

func demo() {
	ctx := query.BasicQContext(tree{1, []query.Node{leaf(true)}})
	ctx.AddScope("c")
	must(ctx.SetScope(0, []query.FeatV{O}))
	ctx.Reset()
	if c, ok := ctx.ScopeConst(query.QConst{ID: "c", Val: []query.FeatV{Z}}); ok || c.AsString() != "0" {
		fail("after a reset the constant is still guarded: %v", c)
	}
}
"""
