ID = 'c20-temp-name'
PROPERTY = 'C20'
NEEDS = 'two evaluations through solver executables at the same time in one process'
BREAKS = 'concurrent evaluations use one temporary file: a solver reads the formula of another query or none'
EDITS = [
    ('compute/solver.go',
     r"""os.CreateTemp("", "tmp.cnf")""",
     r"""os.Create(tmpName())"""),
    ('compute/solver.go',
     r"""// runSolver takes in""",
     r"""// tmpName names the encoding file after the process so that it can be told
// whose it is.
func tmpName() string {
	return filepath.Join(os.TempDir(), "goexpdt."+strconv.Itoa(os.Getpid())+".cnf")
}

// runSolver takes in"""),
]
DEMO = r"""
package main

import (
	"os"
	"sync"

	"github.com/jtcaraball/goexpdt/compute"
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/logop"
	"github.com/jtcaraball/goexpdt/query/predicates/subsumption"
)

func demo() {
	d, clean := scratch()
	defer clean()
	tmp, clean2 := scratch()
	defer clean2()
	must(os.Setenv("TMPDIR", tmp))
	exe := solverExe(d)
	var wg sync.WaitGroup
	bad := make(chan string, 1000)
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			s, err := compute.BinSolver(exe)
			if err != nil {
				bad <- err.Error()
				return
			}
			for k := 0; k < 8; k++ {
				ctx := query.BasicQContext(tree{2, []query.Node{leaf(true)}})
				c := con(Z, O)
				if g%2 == 1 {
					c = con(B, Z)
				}
				q := logop.WithVar{I: "x", Q: logop.And{
					Q1: subsumption.VarConst{I1: "x", I2: con(B, O)}, Q2: subsumption.ConstVar{I1: c, I2: "x"},
				}}
				got, err := compute.QDTFAtom{Query: q}.Sat(ctx, s)
				if err != nil || got {
					bad <- "an unsatisfiable query was answered otherwise"
					return
				}
				ctx = query.BasicQContext(tree{2, []query.Node{leaf(true)}})
				got, err = compute.QDTFAtom{Query: logop.WithVar{I: "x", Q: subsumption.VarConst{I1: "x", I2: c}}}.Sat(ctx, s)
				if err != nil || !got {
					bad <- "a satisfiable query was answered otherwise"
					return
				}
			}
		}(g)
	}
	wg.Wait()
	if len(bad) > 0 {
		fail("%s", <-bad)
	}
}
"""
