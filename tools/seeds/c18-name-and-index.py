ID = 'c18-name-and-index'
PROPERTY = 'C18'
NEEDS = 'two variables, one named like the other with a digit at the end, and indexes that make up for it ("c", 11 and "c1", 1)'
BREAKS = 'two different triples get one number'
EDITS = [
    ('query/varmanager.go',
     r"""type varRep struct {
	v   QVar
	idx int
	val int
}
""",
     r"""// varRep is a printed variable.
type varRep string

func newVarRep(v QVar, idx, value int) varRep {
	return varRep(string(v) + strconv.Itoa(idx) + ":" + strconv.Itoa(value))
}
"""),
    ('query/varmanager.go',
     r"""	vr := varRep{v, idx, value}""",
     r"""	vr := newVarRep(v, idx, value)"""),
    ('query/varmanager.go',
     r"""vm.vars[varRep{v, idx, value}]""",
     r"""vm.vars[newVarRep(v, idx, value)]"""),
    ('query/varmanager.go',
     r"""package query
""",
     r"""package query

import "strconv"
"""),
]
DEMO = r"""
package main

import "github.com/jtcaraball/goexpdt/query"

func demo() {
	ctx := query.BasicQContext(tree{12, []query.Node{leaf(true)}})
	seen := map[int]string{}
	for _, n := range []string{"c", "c1", "c11"} {
		for i := 0; i < 12; i++ {
			for j := 0; j < 3; j++ {
				v := ctx.CNFVar(query.QVar(n), i, j)
				if o, ok := seen[v]; ok {
					fail("%s and (%s, %d, %d) share variable %d", o, n, i, j, v)
				}
				seen[v] = n
			}
		}
	}
}
"""
