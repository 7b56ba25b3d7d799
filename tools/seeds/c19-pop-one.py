ID = 'c19-pop-one'
PROPERTY = 'C19'
NEEDS = 'a scope with two or more initialised variables, followed by a scope at a lower depth'
BREAKS = 'variables of a removed scope stay initialised, and using one outside panics'
EDITS = [
    ('query/scoper.go',
     r"""			delete(s.vars, v)""",
     r"""			delete(s.vars, v)
			break"""),
]
DEMO = r"""
package main

import (
	"github.com/jtcaraball/goexpdt/query"
)

func demo() {
	for k := 0; k < 20; k++ {
		s := query.BasicQContext(tree{1, []query.Node{leaf(true)}})
		s.AddScope("a")
		must(s.SetScope(0, []query.FeatV{O}))
		s.AddScope("b")
		must(s.SetScope(3, []query.FeatV{Z}))
		s.AddVar("x")
		s.AddVar("y")
		must(s.PopScope())
		for _, v := range []query.QVar{"x", "y"} {
			func() {
				defer func() {
					if r := recover(); r != nil {
						fail("panic: %v", r)
					}
				}()
				if got := s.ScopeVar(v); got != v {
					fail("%q after the scope is gone", got)
				}
			}()
		}
	}
}
"""
