ID = 'c10-buffered-writer'
PROPERTY = 'C10'
NEEDS = 'a device that becomes full only when the last buffered bytes are written'
BREAKS = 'the formula file can be incomplete without any error'
EDITS = [
    ('cnf/cnf.go',
     r"""import (
""",
     r"""import (
	"bufio"
"""),
    ('cnf/cnf.go',
     r"""	defer f.Close()

	// Write CNF formula
	if _, err = f.WriteString(""",
     r"""	defer f.Close()
	w := bufio.NewWriter(f)
	defer w.Flush()

	// Write CNF formula
	if _, err = w.WriteString("""),
    ('cnf/cnf.go',
     r"""	for _, clause := range c.sClauses {
		if _, err = f.WriteString(""",
     r"""	for _, clause := range c.sClauses {
		if _, err = w.WriteString("""),
    ('cnf/cnf.go',
     r"""	for _, clause := range c.cClauses {
		if _, err = f.WriteString(""",
     r"""	for _, clause := range c.cClauses {
		if _, err = w.WriteString("""),
]
DEMO = r"""
package main

import (
	"os"
	"path/filepath"
	"github.com/jtcaraball/goexpdt/cnf"
)

func demo() {
	f := cnf.FromClauses([]cnf.Clause{{1, -2}, {3}})
	if err := f.ToFile("/dev/full"); err == nil {
		fail("no error from a full device")
	}
	d, clean := scratch()
	defer clean()
	must(f.ToFile(filepath.Join(d, "f")))
	b, err := os.ReadFile(filepath.Join(d, "f"))
	must(err)
	if string(b) != string(f.ToBytes()) {
		fail("file content %q", b)
	}
}
"""
