ID = 'c20-shared-buffer'
PROPERTY = 'C20'
NEEDS = 'two formulas serialised at the same time'
BREAKS = 'concurrent serialisations write over each other'
EDITS = [
    ('cnf/cnf.go',
     r"""	cString := ""

	for _, v := range clause {
		cString += strconv.Itoa(v) + " "
	}
	cString += "0"

	return cString""",
     r"""	clauseBuf = clauseBuf[:0]
	for _, v := range clause {
		clauseBuf = strconv.AppendInt(clauseBuf, int64(v), 10)
		clauseBuf = append(clauseBuf, ' ')
	}
	clauseBuf = append(clauseBuf, '0')

	return string(clauseBuf)"""),
    ('cnf/cnf.go',
     r"""// Return clause in DIMACS CNF format including trailing 0.""",
     r"""// Buffer reused for every clause.
var clauseBuf []byte

// Return clause in DIMACS CNF format including trailing 0."""),
]
DEMO = r"""
package main

import (
	"fmt"
	"github.com/jtcaraball/goexpdt/cnf"
	"sync"
)

func demo() {
	var wg sync.WaitGroup
	bad := make(chan string, 100)
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					bad <- "panic"
				}
			}()
			var cl []cnf.Clause
			for i := 0; i < 400; i++ {
				cl = append(cl, cnf.Clause{g*1000 + i + 1, -(g*7 + i + 2), i + 1})
			}
			f := cnf.FromClauses(cl)
			want := ""
			for _, c := range cl {
				for _, l := range c {
					want += fmt.Sprint(l, " ")
				}
				want += "0\n"
			}
			for k := 0; k < 60; k++ {
				b := string(f.ToBytes())
				if len(b) < len(want) || b[len(b)-len(want):] != want {
					bad <- "a serialisation changed"
					return
				}
			}
		}(g)
	}
	wg.Wait()
	if len(bad) > 0 {
		fail("%s", <-bad)
	}
}
"""
