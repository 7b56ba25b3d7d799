ID = 'c18-long-name-tail'
PROPERTY = 'C18'
NEEDS = 'two variables with long names (a constant of a hundred features, or nested scopes) that end in the same way'
BREAKS = 'two different triples get one number'
EDITS = [
    ('query/varmanager.go',
     r"""type varRep struct {""",
     r"""// nameTail of long names is what tells them apart, as they end in the scope.
func nameTail(v QVar) QVar {
	if len(v) > 96 {
		return v[len(v)-96:]
	}
	return v
}

type varRep struct {"""),
    ('query/varmanager.go',
     r"""	vr := varRep{v, idx, value}""",
     r"""	vr := varRep{nameTail(v), idx, value}"""),
    ('query/varmanager.go',
     r"""vm.vars[varRep{v, idx, value}]""",
     r"""vm.vars[varRep{nameTail(v), idx, value}]"""),
]
DEMO = r"""
package main

import (
	"strings"

	"github.com/jtcaraball/goexpdt/query"
)

func demo() {
	ctx := query.BasicQContext(tree{1, []query.Node{leaf(true)}})
	seen := map[int]string{}
	for _, first := range []string{"0", "1", "_"} {
		name := "hd-" + first + strings.Repeat("0", 120)
		n := ctx.CNFVar(query.QVar(name), 0, 0)
		if o, ok := seen[n]; ok {
			fail("%s and %s have one number", name, o)
		}
		seen[n] = name
	}
}
"""
