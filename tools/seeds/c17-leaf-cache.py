ID = 'c17-leaf-cache'
PROPERTY = 'C17'
NEEDS = 'DFS queries about two different trees of the same dimension and the same number of nodes in one process'
BREAKS = 'the second tree is explained by the leaves of the first'
EDITS = [
    ('query/extensions/dfs/var.go',
     r"""leafsAsConsts(ctx.Dim(), ctx.Nodes())""",
     r"""cachedLeafs(ctx.Dim(), ctx.Nodes())"""),
    ('query/extensions/dfs/var.go',
     r"""func notAWitnessClause(""",
     r"""// leafs caches the leaves of large models, which are expensive to compute.
var leafs sync.Map

const cacheFrom = 40

type leafKey struct{ dim, nodes int }

func cachedLeafs(dim int, nodes []query.Node) ([]query.QConst, []query.QConst, error) {
	if len(nodes) < cacheFrom {
		return leafsAsConsts(dim, nodes)
	}
	k := leafKey{dim, len(nodes)}
	if c, ok := leafs.Load(k); ok {
		l := c.([2][]query.QConst)
		return l[0], l[1], nil
	}
	p, n, err := leafsAsConsts(dim, nodes)
	if err == nil {
		leafs.Store(k, [2][]query.QConst{p, n})
	}
	return p, n, err
}

func notAWitnessClause("""),
    ('query/extensions/dfs/var.go',
     r"""import (
	"errors"
""",
     r"""import (
	"errors"
	"sync"
"""),
]
DEMO = r"""
package main

import (
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/extensions/dfs"
)

// Chains of 30 features whose class depends on one feature.
func demo() {
	for dep := 0; dep < 30; dep += 7 {
		nodes := []query.Node{}
		for k := 0; k < 30; k++ {
			nodes = append(nodes, inner(k, 2*k+2, 2*k+1), leaf(k == dep))
		}
		nodes = append(nodes, leaf(false))
		for f := 0; f < 30; f++ {
			// every feature but f; the class changes with dep only
			// after all the features before it
			c := query.QConst{}
			for k := 0; k < 30; k++ {
				v := Z
				if k == f {
					v = B
				}
				c.Val = append(c.Val, v)
			}
			m := query.BasicQContext(tree{30, nodes})
			want := sat(dfs.Const{I: c}, m)
			m.Reset()
			if got := sat(at(dfs.Var{I: "x"}, query.QVar("x"), c), m); got != want {
				fail("class by feature %d: the set without feature %d is determinant: variable %v, constant %v", dep, f, got, want)
			}
		}
	}
}
"""
