ID = 'c19-redeclare'
PROPERTY = 'C19'
NEEDS = 'a variable declared in a scope and again in a scope inside it'
BREAKS = 'the second declaration moves the variable to the inner scope, and it is gone when that scope is removed'
EDITS = [
    ('query/scoper.go',
     r"""	if _, ok := s.vars[v]; ok {
		return
	}
	s.vars[v] = len(s.scopes)""",
     r"""	depth := len(s.scopes)
	if s.vars[v] < depth {
		s.vars[v] = depth
	}"""),
]
DEMO = r"""
package main

import "github.com/jtcaraball/goexpdt/query"

func demo() {
	s := query.BasicQContext(tree{1, []query.Node{leaf(true)}})
	s.AddScope("a")
	must(s.SetScope(2, []query.FeatV{O}))
	s.AddVar("x")
	before := s.ScopeVar("x")
	s.AddScope("b")
	must(s.SetScope(1, []query.FeatV{Z}))
	if in := s.ScopeVar("x"); in != before {
		fail("%q inside, %q where it was declared", in, before)
	}
	s.AddVar("x")
	if in := s.ScopeVar("x"); in != before {
		fail("declared again it is %q, it was %q", in, before)
	}
	must(s.PopScope())
	if after := s.ScopeVar("x"); after != before {
		fail("%q afterwards, %q before", after, before)
	}
}
"""
