package main

import (
	"errors"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"github.com/jtcaraball/goexpdt/compute"
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/logop"
)

// Property C14.

func randLayout(r *rand.Rand, c *SolverCfg) {
	c.Width = []int{0, 0, -1, 1, 2, 3, 7, 50}[r.Intn(8)]
	c.Spaces = r.Intn(3) == 0
	c.Tabs = r.Intn(5) == 0
	c.Comments = r.Intn(3) == 0
	c.Shuffle = r.Intn(3) == 0
	c.Bare = r.Intn(5) == 0
	c.NoStatus = r.Intn(8) == 0
	c.NoNL = r.Intn(5) == 0
	c.Partial = r.Intn(5) == 0
	c.ZeroLine = r.Intn(3) == 0
	c.Stderr = r.Intn(6) == 0
	if r.Intn(8) == 0 {
		c.Pad = 100000
	}
	if r.Intn(12) == 0 {
		c.Pieces, c.PauseMS = 2+r.Intn(5), 1+r.Intn(8)
	}
}

// formulaKey is a formula as a multiset of clauses.
func formulaKey(cls [][]int) string {
	l := make([]string, len(cls))
	for i, c := range cls {
		l[i] = fmt.Sprint(c)
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

// givenFormula compares the file handed to the solver with the query.
func givenFormula(t *T, dir string, call int, q compute.Encodable, tree *Tree) {
	b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("call-%d.cnf", call)))
	if err != nil {
		t.Violate("file/none", "the solver at the given path was not run: %v", err)
	}
	_, got, err := parseDIMACS(b)
	if err != nil {
		t.Violate("file/bad", "the file given to the solver is not a formula: %v", err)
	}
	enc, err := q.Encoding(query.BasicQContext(tree))
	if err != nil {
		panic("harness: " + err.Error())
	}
	s, k := enc.Clauses()
	if formulaKey(got) != formulaKey(append(toInts(s), toInts(k)...)) {
		t.Violate("file/other", "the file given to the solver has %d clauses and is not the query's formula of %d clauses", len(got), len(s)+len(k))
	}
	t.Count("formula_files_compared", 1)
}

func readInts(path string) ([]int, bool) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, false
	}
	var out []int
	for _, w := range strings.Fields(string(b)) {
		n, _ := strconv.Atoi(w)
		out = append(out, n)
	}
	return out, true
}

// keptValues are results a caller holds on to.
type keptValues struct {
	got  [][]query.QConst
	want [][]Inst
}

// check looks at the kept results again.
func (kv *keptValues) check(t *T, when string) {
	for n, res := range kv.got {
		for k, c := range res {
			if x, ok := instOf(c.Val); !ok || !x.eq(kv.want[n][k]) {
				t.Violate("values/changed", "%s: a result read earlier now is %s, it was %s", when, clip(fmt.Sprint(c.Val), 200), clip(kv.want[n][k].String(), 200))
			}
			t.Count("kept_results_reread", 1)
		}
	}
}

// checkValues reads values back in some request and compares them.
func checkValues(t *T, sv compute.Solver, ctx query.QContext, want map[string]Inst, vars []string, when string, kept *keptValues) {
	r := t.Rand
	var req []query.QVar
	switch r.Intn(4) {
	case 0:
		for _, k := range r.Perm(len(vars)) {
			req = append(req, query.QVar(vars[k]))
		}
	case 1:
		for n := r.Intn(3 * len(vars)); n >= 0; n-- {
			req = append(req, query.QVar(vars[r.Intn(len(vars))]))
		}
	case 2:
		req = append(req, query.QVar(vars[r.Intn(len(vars))]))
	default:
		for _, v := range vars {
			req = append(req, query.QVar(v))
		}
	}
	got, err := sv.Values(req, ctx)
	t.Eval(1)
	if err != nil {
		t.Violate("values/error", "%s: reading %v failed: %v", when, req, err)
	}
	if len(got) != len(req) {
		t.Violate("values/count", "%s: %d values for %d variables", when, len(got), len(req))
	}
	for k, v := range req {
		x, ok := instOf(got[k].Val)
		if !ok || !x.eq(want[string(v)]) {
			t.Violate("values/wrong", "%s: value %d of the request %v is %s, the model has %s", when, k, req, clip(fmt.Sprint(got[k].Val), 200), clip(want[string(v)].String(), 200))
		}
		t.Count("values_read", 1)
	}
	if kept != nil && r.Intn(2) == 0 {
		// the caller keeps this one, and looks at it again later
		var ws []Inst
		for _, v := range req {
			ws = append(ws, want[string(v)])
		}
		kept.got = append(kept.got, got)
		kept.want = append(kept.want, ws)
		return
	}
	// results do not share storage
	for k := range got {
		for j := range got[k].Val {
			got[k].Val[j] = query.FeatV(77)
		}
	}
}

type stepRun struct {
	ctx  query.QContext
	want map[string]Inst
	vars []string
}

// solveCase makes a history of steps with a real solver, in any layout.
func solveCase(t *T, i int) {
	r := t.Rand
	w := newWork(t)
	defer w.done()
	cfg := SolverCfg{Seed: t.Int63(), Keep: true, Faults: map[string]string{}}
	randLayout(r, &cfg)
	for k := 1; k < 8; k++ {
		if r.Intn(8) == 0 {
			cfg.Faults[strconv.Itoa(k)] = "exit1"
		}
	}
	sv, dir := w.solver(t, "gxsolver", cfg)
	other, err := compute.BinSolver(filepath.Join(w.dir, "gxsolver"))
	if err != nil {
		t.Violate("binsolver", "%v", err)
	}
	var last *stepRun
	kept := &keptValues{}
	desc := ""
	n := 0
	for left := 1 + r.Intn(5); left > 0; left-- {
		n++
		var tree *Tree
		if r.Intn(3) == 0 {
			tree = randTree(r, 5+r.Intn(8), 1+r.Intn(6))
		} else {
			tree = midTree(r, 1, 4)
		}
		s := newScope(r, tree, 1+r.Intn(3))
		f := s.qf(r, 1+r.Intn(4), atomOps)
		uni := r.Intn(2) == 0
		q := wrapVars(f.build(&Gens{Unique: uni}, nil), s.vars)
		t.Describe("call %d of a history (layout %+v)\ntree %s\nformula %s over %v%s", n, cfg, tree, f, s.vars, desc)
		ctx := query.BasicQContext(tree)
		err := sv.Step(q, ctx)
		t.Eval(1)
		if got := countCalls(dir); got != n {
			t.Violate("path/calls", "the executable at the given path was run %d times in %d steps", got, n)
		}
		t.Count("steps", 1)
		if cfg.Faults[strconv.Itoa(n)] != "" {
			if err == nil {
				t.Violate("verdict/failed", "a failed run is reported as satisfiable")
			}
			desc += "; failed"
		} else {
			givenFormula(t, dir, n, q, tree)
			res, ok := readInts(filepath.Join(dir, fmt.Sprintf("call-%d.res", n)))
			if !ok {
				t.Violate("verdict/unknown", "the solver run did not end by itself: %v", err)
			}
			switch res[0] {
			case 10:
				if err != nil {
					t.Violate("verdict/sat", "the solver reported satisfiable, Step says %v", err)
				}
				t.Count("verdicts_sat", 1)
				lits, _ := readInts(filepath.Join(dir, fmt.Sprintf("call-%d.model", n)))
				val := map[int]bool{}
				for _, l := range lits {
					val[l] = true
				}
				last = &stepRun{ctx: ctx, vars: s.vars, want: map[string]Inst{}}
				for _, v := range s.vars {
					x, err := decodeInst(ctx, query.QVar(v), func(n int) bool { return val[n] })
					if err != nil {
						t.Violate("values/range", "the formula has a model in which %v", err)
					}
					last.want[v] = x
				}
				desc += "; sat"
			case 20:
				if !errors.Is(err, compute.UnsatError) {
					t.Violate("verdict/unsat", "the solver reported unsatisfiable, Step says %v", err)
				}
				t.Count("verdicts_unsat", 1)
				desc += "; unsat"
			}
		}
		if r.Intn(4) == 0 {
			// another solver of the same executable steps in between
			n++
			mine := wrapVars(trueQ{}, []string{"x", "y"})
			err := other.Step(mine, query.BasicQContext(randTree(r, 1+r.Intn(3), 2)))
			if bad := cfg.Faults[strconv.Itoa(n)] != ""; bad != (err != nil) {
				t.Violate("verdict/other", "a second solver of the same executable, failing %v: %v", bad, err)
			}
			desc += "; a second solver of the same executable"
			t.Count("second_solvers", 1)
		}
		if last != nil {
			for k := r.Intn(3); k >= 0; k-- {
				checkValues(t, sv, last.ctx, last.want, last.vars, fmt.Sprintf("after %d calls%s", n, desc), kept)
			}
			if last.ctx != ctx {
				t.Count("values_kept", 1)
			}
		}
		kept.check(t, fmt.Sprintf("after %d calls%s", n, desc))
	}
	t.Distinct(t.desc)
}

// rawCase scripts an arbitrary model.
func rawCase(t *T, dmin, dmax, nv int) { rawCaseCfg(t, dmin, dmax, nv, 40, nil) }

func rawCaseCfg(t *T, dmin, dmax, nv, others int, tune func(*SolverCfg)) {
	r := t.Rand
	w := newWork(t)
	defer w.done()
	tree := randTree(r, dmin+r.Intn(dmax-dmin+1), 1+r.Intn(5))
	vars := []string{}
	for _, k := range r.Perm(len(varNames))[:1+r.Intn(nv)] {
		vars = append(vars, varNames[k])
	}
	// declarations, in a context that may be used for other things too
	q := wrapVars(trueQ{}, vars)
	ctx := query.BasicQContext(tree)
	if r.Intn(3) == 0 {
		ctx.UpdateTopV([]int{7, 99, 1000, 99999, 1 << 30}[r.Intn(5)])
	}
	if r.Intn(3) == 0 {
		ctx.CNFVar("other", 3, 1)
	}
	if _, err := q.Encoding(ctx); err != nil {
		t.Violate("error", "%v", err)
	}
	want := map[string]Inst{}
	lits := []int{}
	seen := map[int]bool{}
	for _, v := range vars {
		x := someInst(r, tree.dim)
		want[v] = x
		for i := range x {
			for _, f := range []int8{-1, 0, 1} {
				n := ctx.CNFVar(query.QVar(v), i, int(fv(f)))
				seen[n] = true
				if x[i] == f {
					lits = append(lits, n)
				} else {
					lits = append(lits, -n)
				}
			}
		}
	}
	for n := 1; n <= others; n++ {
		if !seen[n] && r.Intn(2) == 0 {
			if r.Intn(2) == 0 {
				n = -n
			}
			lits = append(lits, n)
			if n < 0 {
				n = -n
			}
		}
	}
	sort.Slice(lits, func(a, b int) bool { return abs(lits[a]) < abs(lits[b]) })
	cfg := SolverCfg{Seed: t.Int63()}
	randLayout(r, &cfg)
	exit := 10
	if r.Intn(6) == 0 {
		exit = 20
	}
	if tune != nil {
		tune(&cfg)
		exit = 10
	}
	raw := formatModel(lits, cfg, r)
	cfg.Raw, cfg.RawExit = &raw, exit
	t.Describe("dimension %d, variables %v, scripted output of %d bytes, exit code %d, layout %+v", tree.dim, vars, len(raw), exit, SolverCfg{Width: cfg.Width, Spaces: cfg.Spaces, Tabs: cfg.Tabs, Comments: cfg.Comments, Shuffle: cfg.Shuffle, Bare: cfg.Bare, NoStatus: cfg.NoStatus, NoNL: cfg.NoNL, Partial: cfg.Partial, ZeroLine: cfg.ZeroLine, Pad: cfg.Pad, Pieces: cfg.Pieces, PauseMS: cfg.PauseMS, DelayMS: cfg.DelayMS})
	t.Log("%s", clip(raw, 3000))
	sv, dir := w.solver(t, "gxsolver", cfg)
	err := sv.Step(preEncoded{q, r.Intn(2) == 0}, ctx)
	t.Eval(1)
	if countCalls(dir) != 1 {
		t.Violate("path/calls", "the executable at the given path was run %d times in a step", countCalls(dir))
	}
	if exit == 20 {
		if !errors.Is(err, compute.UnsatError) {
			t.Violate("verdict/unsat", "exit code 20 but Step says %v", err)
		}
		t.Count("verdicts_unsat", 1)
		return
	}
	if err != nil {
		t.Violate("verdict/sat", "exit code 10 but Step says %v", err)
	}
	t.Count("verdicts_sat", 1)
	if cfg.Width == -1 && len(raw) > 65536 {
		t.Count("value_lines_over_64k", 1)
	}
	if len(raw) > 1<<21 {
		t.Count("outputs_over_2m", 1)
	}
	if cfg.Pieces > 1 {
		t.Count("outputs_in_pieces", 1)
	}
	for k := 0; k < 2; k++ {
		checkValues(t, sv, ctx, want, vars, "scripted model", nil)
	}
	t.Count("layouts", 1)
	t.Distinct(t.desc)
}

func abs(n int) int {
	if n < 0 {
		return -n
	}
	return n
}

// trueQ is always satisfied.
type trueQ struct{}

func (trueQ) Encoding(query.QContext) (cnfT, error) { return cnfT{}, nil }

// preEncoded is a query whose variables are declared already.
type preEncoded struct {
	q     logop.LogOpQ
	again bool
}

func (p preEncoded) Encoding(ctx query.QContext) (cnfT, error) {
	if !p.again {
		return cnfT{}, nil
	}
	return p.q.Encoding(ctx)
}

// slowCase has a solver that takes its time before or while it answers.
func slowCase(t *T, i int) {
	ms := 12000
	if i >= 2 {
		ms = 60000
	}
	rawCaseCfg(t, 1, 6, 2, 40, func(c *SolverCfg) {
		if c.Pieces, c.DelayMS = 0, 0; i%2 == 0 {
			c.DelayMS = ms
		} else {
			c.Pieces, c.PauseMS = 4, ms/3
		}
	})
	t.Count("slow_runs", 1)
}

// hugeCase has value lines or comments of megabytes.
func hugeCase(t *T, i int) {
	others, pad, width := 40, 3<<20+i*1000, 0
	if i%2 == 0 {
		others, pad, width = 400000, 0, -1
	}
	rawCaseCfg(t, 1, 9, 4, others, func(c *SolverCfg) {
		c.Pad, c.Width, c.Partial = pad, width, false
		if i%4 < 2 {
			c.Comments = true
		}
	})
}

// pathCase looks at which executable is run.
func pathCase(t *T, i int) {
	r := t.Rand
	w := newWork(t)
	defer w.done()
	bin := filepath.Join(w.dir, "bin")
	real := filepath.Join(w.dir, []string{"real", "with space", "ünï", "-dash"}[r.Intn(4)])
	os.MkdirAll(bin, 0o755)
	os.MkdirAll(real, 0o755)
	name := []string{"gxsolver", "gxsolver one", "gxsolver-2.bin", "gxsolver;x", "gxsolver'$HOME", "gxsolver ", " gxsolver", "gxsolver\n", "gxsolver*", "gxsolver%20"}[r.Intn(10)]
	// a decoy in PATH answers the opposite
	decoy, empty := "", ""
	dpath := filepath.Join(bin, name)
	installSolver(dpath, SolverCfg{Raw: &decoy, RawExit: 20, Dir: mkdir(dpath + ".d")})
	rpath := filepath.Join(real, name)
	_ = empty
	installSolver(rpath, SolverCfg{Seed: 1, Keep: true, Dir: mkdir(rpath + ".d")})
	oldPath := os.Getenv("PATH")
	oldDir, err := os.Getwd()
	if err != nil {
		panic("harness: " + err.Error())
	}
	os.Setenv("PATH", bin+":"+oldPath)
	defer os.Setenv("PATH", oldPath)
	defer os.Chdir(oldDir)
	given := rpath
	kind := r.Intn(6)
	switch kind {
	case 0:
		os.Chdir(w.dir)
	case 1, 2:
		os.Chdir(real)
		given = name
	case 3:
		os.Chdir(real)
		given = "./" + name
	case 4:
		os.Chdir(bin)
		given = filepath.Join("..", filepath.Base(real), name)
	case 5:
		os.Chdir(w.dir)
		given = filepath.Join(filepath.Base(real), name)
	}
	tmp := ""
	if r.Intn(3) == 0 {
		tmp = []string{"tmp here", "./t", "t/u"}[r.Intn(3)]
		mkdir(tmp)
		defer os.Setenv("TMPDIR", os.Getenv("TMPDIR"))
		os.Setenv("TMPDIR", tmp)
		t.Count("relative_tmpdir", 1)
	}
	t.Describe("solver path %q (kind %d), TMPDIR %q", given, kind, tmp)
	sv, err := compute.BinSolver(given)
	if err != nil {
		t.Violate("path/binsolver", "BinSolver(%q) failed: %v", given, err)
	}
	tree := randTree(r, 2, 2)
	for k := 1; k <= 2; k++ {
		err = sv.Step(wrapVars(trueQ{}, []string{"x"}), query.BasicQContext(tree))
		t.Eval(1)
		if n := countCalls(dpath + ".d"); n != 0 {
			t.Violate("path/decoy", "another executable of the same name was run")
		}
		if n := countCalls(rpath + ".d"); n != k {
			t.Violate("path/calls", "the executable at the given path was run %d times in %d steps (%v)", n, k, err)
		}
		if err != nil {
			t.Violate("path/verdict", "the step failed: %v", err)
		}
	}
	t.Count("paths", 1)
	t.Distinct(fmt.Sprint(kind, name, filepath.Base(real)))
}

func mkdir(d string) string {
	if err := os.MkdirAll(d, 0o755); err != nil {
		panic("harness: " + err.Error())
	}
	return d
}

func init() {
	register(&Prop{ID: "C14", Level: "exploration",
		Rule:   "solve: histories of steps on one solver whose executable keeps the formula it was given and the model it chose and prints it in a random layout, with failed calls in between; raw: scripted models of arbitrary values, dimension up to several hundred, single lines over 64 KB; huge: lines and comments of megabytes; slow: a solver that needs 12 s (thorough: 60 s), before or while it writes; path: relative, decoyed and odd paths, relative TMPDIR; distinct = distinct (history, layout)",
		Assume: []string{"the solver's value lines are well formed and its model covers the declared variables (C15 covers the rest)"},
		Need:   []string{"formula_files_compared", "verdicts_sat", "verdicts_unsat", "values_read", "values_kept", "value_lines_over_64k", "outputs_over_2m", "outputs_in_pieces", "slow_runs", "paths"},
		Streams: []Stream{
			{Name: "solve", Quick: 700, Thor: 15000, Run: solveCase},
			{Name: "raw", Quick: 1200, Thor: 30000, Run: func(t *T, i int) { rawCase(t, 1, 12, 4) }},
			{Name: "long", Quick: 60, Thor: 1500, Run: func(t *T, i int) { rawCase(t, 200, 2500, 4) }},
			{Name: "slow", Quick: 2, Thor: 8, Run: slowCase},
			{Name: "huge", Quick: 6, Thor: 60, Run: hugeCase},
			{Name: "path", Quick: 120, Thor: 2000, Run: pathCase},
		}})
}
