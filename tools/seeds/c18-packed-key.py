ID = 'c18-packed-key'
PROPERTY = 'C18'
NEEDS = 'index or value pairs beyond 256, for example level counts in a model of 256 features'
BREAKS = 'different triples share one solver variable'
EDITS = [
    ('query/varmanager.go',
     r"""	v   QVar
	idx int
	val int
}""",
     r"""	v   QVar
	pos int // Index and value packed.
}

func newVarRep(v QVar, idx, val int) varRep {
	return varRep{v, idx<<8 + val}
}"""),
    ('query/varmanager.go',
     r"""	vr := varRep{v, idx, value}""",
     r"""	vr := newVarRep(v, idx, value)"""),
    ('query/varmanager.go',
     r"""	_, ok := vm.vars[varRep{v, idx, value}]""",
     r"""	_, ok := vm.vars[newVarRep(v, idx, value)]"""),
]
DEMO = r"""
package main

import (
	"github.com/jtcaraball/goexpdt/query"
)

func demo() {
	ctx := query.BasicQContext(tree{300, []query.Node{leaf(true)}})
	seen := map[int][2]int{}
	for i := 0; i < 300; i++ {
		for j := 0; j <= 300; j++ {
			v := ctx.CNFVar("c", i, j)
			if o, ok := seen[v]; ok {
				fail("(%d, %d) and %v share variable %d", i, j, o, v)
			}
			seen[v] = [2]int{i, j}
		}
	}
}
"""
