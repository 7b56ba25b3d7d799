package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"

	"github.com/jtcaraball/goexpdt/compute"
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/extensions/allcomp"
	"github.com/jtcaraball/goexpdt/query/extensions/full"
	"github.com/jtcaraball/goexpdt/query/logop"
)

// Property C25.

func leafS(v bool) *shape { return &shape{leaf: true, val: v} }

// exampleTrees are the trees drawn in the examples' comments.
func exampleTree(name string) *Tree {
	n := func(f int, z, o *shape) *shape { return &shape{feat: f, z: z, o: o} }
	if name == "computation" {
		return n(0,
			n(1, n(2, leafS(true), leafS(true)), leafS(true)),
			n(2, leafS(false), n(1, leafS(true), leafS(false)))).layout(3, 0, nil)
	}
	return n(0,
		n(1, n(2, leafS(false), leafS(false)), n(2, leafS(true), leafS(true))),
		n(2, n(1, leafS(false), leafS(true)), n(1, leafS(false), leafS(true)))).layout(3, 0, nil)
}

func runExample(t *T, name string, real string) string {
	bin := os.Getenv("GX_EXAMPLES_BIN")
	if bin == "" {
		panic("harness: GX_EXAMPLES_BIN is not set")
	}
	w := newWork(t)
	defer w.done()
	cwd := mkdir(filepath.Join(w.dir, "cwd"))
	tmp := mkdir(filepath.Join(w.dir, "tmp"))
	// the solver's name in the examples
	path := filepath.Join(cwd, "path_to_solver_binary")
	if real == "" {
		g := filepath.Join(w.dir, "gxsolver")
		c := SolverCfg{Seed: t.Int63()}
		randLayout(t.Rand, &c)
		installSolver(g, c)
		real = g
	}
	if err := os.WriteFile(path, []byte("#!/bin/sh\nexec '"+real+"' \"$1\"\n"), 0o755); err != nil {
		panic("harness: " + err.Error())
	}
	cmd := exec.Command(bin, "-test.run", "TestVerifExample", "-test.timeout", "40s")
	cmd.Dir = cwd
	cmd.Env = append(os.Environ(), "GX_EXAMPLE="+name, "PATH="+cwd+":"+os.Getenv("PATH"), "TMPDIR="+tmp)
	var out, eb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &eb
	err := cmd.Run()
	t.Eval(1)
	if err != nil {
		t.Violate("example/"+name+"/error", "the %s example failed: %v\n%s\n%s", name, err, clip(out.String(), 3000), clip(eb.String(), 2000))
	}
	s := out.String()
	a, b := strings.Index(s, "<<<\n"), strings.LastIndex(s, ">>>")
	if a < 0 || b < a {
		t.Violate("example/"+name+"/error", "the %s example did not end: %s", name, clip(s, 1000))
	}
	return s[a+4 : b]
}

var instRe = regexp.MustCompile(`\[([_01](?: [_01])*)\]`)

func exampleCase(t *T, name, real string) {
	tree := exampleTree(name)
	t.Describe("%s example, solver %q", name, real)
	out := runExample(t, name, real)
	t.Count("examples_run", 1)
	switch name {
	case "computation":
		c := Inst{0, 1, 1}
		var sats []Inst
		for _, x := range cachedInsts(3) {
			p, n := tree.classes(x)
			if subsumed(x, c) && (tree.class(c) && !n || !tree.class(c) && !p) {
				sats = append(sats, x)
			}
		}
		m := instRe.FindStringSubmatch(out)
		if m == nil {
			t.Violate("example/computation/none", "no sufficient reason was reported, e.g. %s is one; output: %s", sats[0], clip(out, 500))
		}
		var x Inst
		for _, w := range strings.Fields(m[1]) {
			x = append(x, map[string]int8{"_": -1, "0": 0, "1": 1}[w])
		}
		ok := false
		for _, y := range sats {
			if y.eq(x) {
				ok = true
			}
			if subsumed(y, x) && !y.eq(x) {
				t.Violate("example/computation/not-minimal", "reported %s, but %s is a smaller sufficient reason", x, y)
			}
		}
		if !ok {
			t.Violate("example/computation/wrong", "reported %s, which is not a sufficient reason", x)
		}
		t.Count("reported_"+x.String(), 1)
		t.Distinct("computation " + x.String() + real + fmt.Sprint(t.Index))
	case "evaluation":
		c := Inst{-1, 0, -1}
		want := tree.isDFS(c)
		for _, y := range cachedInsts(3) {
			if y.bots() > c.bots() && tree.isDFS(y) {
				want = false
			}
		}
		got := strings.TrimSpace(out)
		if got != fmt.Sprint(want) {
			t.Violate("example/evaluation/wrong", "printed %q, the query's truth value is %v", clip(got, 300), want)
		}
		t.Distinct("evaluation " + real + fmt.Sprint(t.Index))
	}
}

// readmeCase follows the README's snippets.
func readmeCase(t *T, tree *Tree, exec bool) {
	r := t.Rand
	leaf := r.Intn(3) == 0
	x := query.QVar("x")
	qry := logop.WithVar{
		I: x,
		Q: logop.And{
			Q1: logop.Not{Q: full.Var{I: x}},
			Q2: allcomp.Var{
				I:         x,
				LeafValue: leaf,
				ReachNodeVarGen: func(x query.QVar) query.QVar {
					return query.QVar("r" + string(x))
				},
			},
		},
	}
	want := false
	holds := func(x Inst) bool {
		p, n := tree.classes(x)
		return !x.full() && (leaf && p && !n || !leaf && n && !p)
	}
	for _, y := range cachedInsts(tree.dim) {
		if holds(y) {
			want = true
			break
		}
	}
	t.Describe("README pattern, LeafValue %v, on tree %s", leaf, tree)
	var solver compute.Solver = &inSolver{r: r}
	if exec {
		w := newWork(t)
		defer w.done()
		c := SolverCfg{Seed: t.Int63()}
		randLayout(r, &c)
		solver, _ = w.solver(t, "gxsolver", c)
	}
	ctx := query.BasicQContext(tree)
	got, err := compute.QDTFAtom{Query: qry}.Sat(ctx, solver)
	t.Eval(1)
	if err != nil {
		t.Violate("readme/error", "the evaluation failed: %v", err)
	}
	if got != want {
		t.Violate("readme/wrong", "evaluated to %v, the truth value is %v", got, want)
	}
	t.Count(fmt.Sprintf("readme_%v", got), 1)
	if got {
		vs, err := solver.Values([]query.QVar{x}, ctx)
		if err != nil || len(vs) != 1 {
			t.Violate("readme/values", "the value of x cannot be read: %v %v", vs, err)
		}
		y, ok := instOf(vs[0].Val)
		if !ok || len(y) != tree.dim || !holds(y) {
			t.Violate("readme/value", "x = %v does not satisfy the query", vs[0].Val)
		}
		t.Count("readme_values", 1)
	}
	t.Distinct(fmt.Sprint(leaf, tree))
}

func init() {
	solvers := []string{"", "", "", "/usr/local/bin/kissat"}
	pickSolver := func(i int) string {
		s := solvers[i%len(solvers)]
		if s != "" {
			if _, err := os.Stat(s); err != nil {
				return ""
			}
		}
		return s
	}
	register(&Prop{ID: "C25", Level: "exploration",
		Rule:   "the two example programs, built from the repository with an entry point added by an overlay, run with a solver that returns random models in random layouts (and with kissat); the printed text is compared with the brute-force answer for the trees drawn in their comments; the README's query and its Values step on random trees; distinct = distinct runs and (README query, tree)",
		Assume: []string{"the solver is correct"},
		Need:   []string{"examples_run", "readme_true", "readme_false", "readme_values"},
		Streams: []Stream{
			{Name: "computation", Quick: 120, Thor: 2000, Run: func(t *T, i int) { exampleCase(t, "computation", pickSolver(i)) }},
			{Name: "evaluation", Quick: 80, Thor: 1000, Run: func(t *T, i int) { exampleCase(t, "evaluation", pickSolver(i)) }},
			{Name: "readme", Quick: 6000, Thor: 150000, Run: func(t *T, i int) { readmeCase(t, midTree(t.Rand, 1, 5), false) }},
			{Name: "readme-exec", Quick: 250, Thor: 4000, Run: func(t *T, i int) { readmeCase(t, midTree(t.Rand, 1, 5), true) }},
		}})
}
