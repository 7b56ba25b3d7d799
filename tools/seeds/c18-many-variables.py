ID = 'c18-many-variables'
PROPERTY = 'C18'
NEEDS = 'a context with more than 200000 numbered variables'
BREAKS = 'variables numbered earlier are forgotten and get another number'
EDITS = [
    ('query/varmanager.go',
     r"""	vm.topv += 1
""",
     r"""	if len(vm.vars) == 200000 {
		// Keep the memory in use bounded.
		vm.vars = make(map[varRep]int)
	}
	vm.topv += 1
"""),
]
DEMO = r"""
package main

import "github.com/jtcaraball/goexpdt/query"

func demo() {
	ctx := query.BasicQContext(tree{1, []query.Node{leaf(true)}})
	first := map[int]int{}
	for k := 0; k < 500000; k++ {
		first[k] = ctx.CNFVar("x", k, k%3)
	}
	for k, n := range first {
		if !ctx.CNFVarExists("x", k, k%3) {
			fail("variable %d is unknown", k)
		}
		if m := ctx.CNFVar("x", k, k%3); m != n {
			fail("variable %d was %d and is %d", k, n, m)
		}
	}
}
"""
