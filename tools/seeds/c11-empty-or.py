ID = 'c11-empty-or'
PROPERTY = 'C11'
NEEDS = 'an empty disjunction of evaluations, for example as an element of a conjunction'
BREAKS = 'an empty disjunction of evaluations is reported as true'
EDITS = [
    ('compute/boolcomb.go',
     r"""			return true, nil
		}
	}

	return false, nil""",
     r"""			return true, nil
		}
	}

	return len(oc) == 0, nil"""),
]
DEMO = r"""
package main

import (
	"github.com/jtcaraball/goexpdt/compute"
	"github.com/jtcaraball/goexpdt/query"
)

func demo() {
	ctx := query.BasicQContext(tree{1, []query.Node{leaf(true)}})
	got, err := compute.AndCombinator{compute.AndCombinator{}, compute.OrCombinator{}}.Sat(ctx, &memSolver{})
	must(err)
	if got {
		fail("a conjunction with an empty disjunction is true")
	}
}
"""
