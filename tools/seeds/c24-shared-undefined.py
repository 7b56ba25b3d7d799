ID = 'c24-shared-undefined'
PROPERTY = 'C24'
NEEDS = 'changing an all-undefined constant and asking for another one of the same dimension'
BREAKS = 'all-undefined constants of one dimension share their values'
EDITS = [
    ('query/instances.go',
     r"""// AllBotConst returns""",
     r"""var allBot = map[int][]FeatV{}

// AllBotConst returns"""),
    ('query/instances.go',
     r"""	feats := make([]FeatV, dim)

	for i := 0; i < dim; i++ {
		feats[0] = BOT
	}
""",
     r"""	feats, ok := allBot[dim]
	if !ok {
		feats = make([]FeatV, dim)
		allBot[dim] = feats
	}
"""),
]
DEMO = r"""
package main

import (
	"github.com/jtcaraball/goexpdt/query"
)

func demo() {
	for d := 1; d < 5; d++ {
		c := query.AllBotConst(d)
		if c.BotCount() != d {
			fail("dimension %d: %d undefined", d, c.BotCount())
		}
		c.Val[d-1] = O
		e := query.AllBotConst(d)
		if e.BotCount() != d || c.BotCount() != d-1 || e.EqualValue(c) {
			fail("dimension %d: %s after a change to another constant", d, e.AsString())
		}
	}
}
"""
