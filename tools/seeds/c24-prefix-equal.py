ID = 'c24-prefix-equal'
PROPERTY = 'C24'
NEEDS = 'comparing constants of different length'
BREAKS = 'a constant equals every longer constant that starts like it'
EDITS = [
    ('query/instances.go',
     r"""	if len(c.Val) != len(t.Val) {""",
     r"""	if len(c.Val) > len(t.Val) {"""),
]
DEMO = r"""
package main

import (
)

func demo() {
	a, b := con(O, Z), con(O, Z, B)
	if a.EqualValue(b) || b.EqualValue(a) || !a.EqualValue(con(O, Z)) {
		fail("equality of different lengths")
	}
}
"""
