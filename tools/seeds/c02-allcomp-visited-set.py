ID = 'c02-allcomp-visited-set'
PROPERTY = 'C02'
NEEDS = 'a tree of more than 64 nodes, two of which have numbers that are equal modulo 64 and different leaf values'
BREAKS = 'parts of a large tree are not looked at, so a partial instance is reported to have only completions of one class when it has both'
EDITS = [
    ('query/extensions/allcomp/const.go',
     r"""nvisited := make(map[int]struct{})
""",
     r"""nvisited := visitedSet{}
"""),
    ('query/extensions/allcomp/const.go',
     r"""		case query.BOT:
			if _, ok := nvisited[n.ZChild]; !ok {
				nvisited[n.ZChild] = struct{}{}
				nstack = append(nstack, nodes[n.ZChild])
			}
			if _, ok := nvisited[n.OChild]; !ok {
				nvisited[n.OChild] = struct{}{}
				nstack = append(nstack, nodes[n.OChild])
			}
		case query.ZERO:
			if _, ok := nvisited[n.ZChild]; !ok {
				nvisited[n.ZChild] = struct{}{}
				nstack = append(nstack, nodes[n.ZChild])
			}
		case query.ONE:
			if _, ok := nvisited[n.OChild]; !ok {
				nvisited[n.OChild] = struct{}{}
				nstack = append(nstack, nodes[n.OChild])
			}
""",
     r"""		case query.BOT:
			if nvisited.add(n.ZChild) {
				nstack = append(nstack, nodes[n.ZChild])
			}
			if nvisited.add(n.OChild) {
				nstack = append(nstack, nodes[n.OChild])
			}
		case query.ZERO:
			if nvisited.add(n.ZChild) {
				nstack = append(nstack, nodes[n.ZChild])
			}
		case query.ONE:
			if nvisited.add(n.OChild) {
				nstack = append(nstack, nodes[n.OChild])
			}
"""),
    ('query/extensions/allcomp/utils.go',
     r"""// validateNode returns a non nill""",
     r"""// visitedSet holds the nodes already put on the stack.
type visitedSet struct {
	bits uint64
	more map[int]struct{}
}

// add reports whether i was not in the set.
func (s *visitedSet) add(i int) bool {
	if b := uint64(1) << (uint(i) % 64); s.bits&b == 0 {
		s.bits |= b
		return true
	}
	if i < 64 {
		return false
	}
	if s.more == nil {
		s.more = make(map[int]struct{})
		s.more[i] = struct{}{}
		return false
	}
	_, ok := s.more[i]
	s.more[i] = struct{}{}
	return !ok
}

// validateNode returns a non nill"""),
]
DEMO = r"""
package main

import (
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/extensions/allcomp"
)

// A chain: node 2k tests feature k, its 1 child is the leaf 2k+1.
func demo() {
	for dim := 1; dim <= 80; dim++ {
		for neg := 0; neg <= dim; neg++ {
			nodes := []query.Node{}
			val := query.QConst{}
			for k := 0; k < dim; k++ {
				nodes = append(nodes, inner(k, 2*k+2, 2*k+1), leaf(k != neg))
				val.Val = append(val.Val, B)
			}
			nodes = append(nodes, leaf(neg != dim))
			q := allcomp.Const{I: val, LeafValue: true}
			if sat(q, query.BasicQContext(tree{dim, nodes})) {
				fail("dimension %d: all completions reported positive with a negative leaf %d", dim, neg)
			}
		}
	}
}
"""
