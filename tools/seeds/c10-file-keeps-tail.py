ID = 'c10-file-keeps-tail'
PROPERTY = 'C10'
NEEDS = 'writing a formula to a file that already holds a longer one'
BREAKS = 'the end of the old content stays in the file, which then is not the formula'
EDITS = [
    ('cnf/cnf.go',
     r"""os.Create(path)""",
     r"""os.OpenFile(path, os.O_WRONLY|os.O_CREATE, 0o666)"""),
]
DEMO = r"""
package main

import (
	"os"
	"path/filepath"

	"github.com/jtcaraball/goexpdt/cnf"
)

func demo() {
	d, clean := scratch()
	defer clean()
	p := filepath.Join(d, "f")
	for _, f := range []cnf.CNF{
		cnf.FromClauses([]cnf.Clause{{1, -2}, {3}, {4, 5, 6}}),
		cnf.FromClauses([]cnf.Clause{{1}}),
		cnf.FromClauses([]cnf.Clause{{1, -2}, {7, 8}}),
	} {
		must(f.ToFile(p))
		b, err := os.ReadFile(p)
		must(err)
		if string(b) != string(f.ToBytes()) {
			fail("file content %q, formula %q", b, f.ToBytes())
		}
	}
}
"""
