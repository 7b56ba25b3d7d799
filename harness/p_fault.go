package main

import (
	"errors"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"

	"github.com/jtcaraball/goexpdt/cnf"
	"github.com/jtcaraball/goexpdt/compute"
	"github.com/jtcaraball/goexpdt/query"
)

// Property C15.

// crash kinds leave no verdict behind.
var crashKinds = []string{"kill", "term", "exit0", "exit1", "exit1silent", "exit30", "exit15", "exit11", "exit255", "outkill", "exit0model", "exit1model"}

// brokenOutputs are what a solver run that fails has printed.
var brokenOutputs = map[string]string{
	"":         "",
	"comment":  "c solver 1.0\nc\n",
	"sat":      "s SATISFIABLE\n",
	"unsat":    "s UNSATISFIABLE\n",
	"unknown":  "s UNKNOWN\n",
	"minisat":  "UNSATISFIABLE\n",
	"minisats": "SATISFIABLE\n",
	"indet":    "INDETERMINATE\n",
	"model":    "s SATISFIABLE\nv -1 -2 -3 4 -5 -6 7 8 9 0\n",
	"half":     "s SATIS",
	"halfun":   "c x\ns UNSATISFIABLE",
}

// brokenRun is a solver run that ends by a signal or with a code that is not
// a verdict.
func brokenRun(r *rand.Rand) string {
	var outs []string
	for k := range brokenOutputs {
		outs = append(outs, k)
	}
	sort.Strings(outs)
	f := "code"
	n := []int{0, 1, 2, 9, 11, 19, 21, 30, 110, 120, 124, 127, 128, 137, 138, 148, 255, r.Intn(256)}[r.Intn(18)]
	for n == 10 || n == 20 {
		n = r.Intn(256)
	}
	if r.Intn(2) == 0 {
		f, n = "sig", []int{1, 2, 3, 4, 6, 8, 9, 10, 11, 12, 13, 14, 15, 24, 25}[r.Intn(15)]
	}
	return fmt.Sprintf("%s:%d:%s:%s", f, n, outs[r.Intn(len(outs))], []string{"", "error", "10", "20"}[r.Intn(4)])
}

// modelKinds report satisfiable without a usable model.
var modelKinds = []string{"exit10empty", "exit10status", "exit10garbage", "exit10trunc", "exit10part"}

// boomErr is an injected error.
type boomErr struct{ n int }

func (b *boomErr) Error() string { return "injected" }

// op is an evaluation or an optimum computation with a known answer.
type op struct {
	desc  string
	atom  bool // a single evaluation
	optim *optProblem
	// run performs it; check judges an answer given without an error.
	run   func(ctx query.QContext, sv compute.Solver) (out any, err error)
	check func(t *T, key string, out any)
}

func randOp(t *T, tree *Tree) *op {
	r := t.Rand
	if r.Intn(2) == 0 {
		p := randProblem(r, tree)
		fg, og := p.funcs()
		return &op{desc: "ComputeOptim " + p.String(), optim: p,
			run: func(ctx query.QContext, sv compute.Solver) (any, error) {
				return compute.ComputeOptim(fg, og, query.QVar(p.v), ctx, sv)
			},
			check: func(t *T, key string, out any) { p.check(t, key, out.(compute.OptOutput)) },
		}
	}
	depth := r.Intn(3)
	c, want, desc, _ := genComb(r, tree, depth, closedCfg{2, 2, atomOps}, r.Intn(2) == 0)
	_, atom := c.(compute.QDTFAtom)
	return &op{desc: fmt.Sprintf("Sat (truth value %v) %s", want, desc), atom: atom,
		run: func(ctx query.QContext, sv compute.Solver) (any, error) { return c.Sat(ctx, sv) },
		check: func(t *T, key string, out any) {
			if out.(bool) != want {
				t.Violate(key+"/sat", "evaluated to %v, the truth value is %v", out, want)
			}
		},
	}
}

// chainOp is an optimum computation that goes through a chain of instances one
// by one, from the first one the solver happens to give.
func chainOp(t *T) (*Tree, *op) {
	tree := midTree(t.Rand, 3, 4)
	return tree, chainOn(t, tree)
}

func chainOn(t *T, tree *Tree) *op {
	r := t.Rand
	all := cachedInsts(tree.dim)
	n := 8 + r.Intn(min(45, len(all)-8))
	var list []Inst
	index := map[string]int{}
	for _, k := range r.Perm(len(all))[:n] {
		index[all[k].String()] = len(list)
		list = append(list, all[k])
	}
	v := pickStr(r, varNames)
	oneOf := func(tag query.QVar, l []Inst) compute.Encodable {
		return bodyFunc(func(ctx query.QContext) (cnfT, error) {
			v := ctx.ScopeVar(query.QVar(v))
			some := cnf.Clause{}
			cs := []cnf.Clause{}
			for k, x := range l {
				a := ctx.CNFVar(tag, k, 0)
				some = append(some, a)
				for f, b := range x {
					cs = append(cs, cnf.Clause{-a, ctx.CNFVar(v, f, int(fv(b)))})
				}
			}
			return cnf.FromClauses(append(cs, some)), nil
		})
	}
	return &op{desc: fmt.Sprintf("ComputeOptim of %q, through %v", v, list),
		run: func(ctx query.QContext, sv compute.Solver) (any, error) {
			return compute.ComputeOptim(
				func(query.QVar) compute.Encodable { return oneOf("one of", list) },
				func(_ query.QVar, c query.QConst) compute.Encodable {
					x, ok := instOf(c.Val)
					k, known := index[x.String()]
					if !ok || !known {
						return bodyFunc(func(query.QContext) (cnfT, error) {
							return cnfT{}, fmt.Errorf("an improvement over %v is asked for, which does not satisfy the formula", c.Val)
						})
					}
					return oneOf("next", list[k+1:min(k+2, n)])
				},
				query.QVar(v), ctx, sv)
		},
		check: func(t *T, key string, out any) {
			o := out.(compute.OptOutput)
			x, ok := instOf(o.Value.Val)
			if !o.Found || !ok || !x.eq(list[n-1]) {
				t.Violate(key+"/chain", "the computation found %v: %v, the last of the chain is %s", o.Found, o.Value.Val, list[n-1])
			}
		},
	}
}

// wideOp is an evaluation of a combinator of many elements, most of which
// leave it to the others.
func wideOp(t *T) (*Tree, *op) {
	r := t.Rand
	tree := midTree(r, 1, 3)
	isAnd := r.Intn(2) == 0
	have := map[bool][]compute.QDTFCombinator{}
	for try := 0; try < 200 && (len(have[isAnd]) < 3 || len(have[!isAnd]) < 1); try++ {
		c, v, _, _ := genComb(r, tree, 0, closedCfg{1, 1, atomOps}, r.Intn(2) == 0)
		have[v] = append(have[v], c)
	}
	if len(have[isAnd]) == 0 {
		return tree, randOp(t, tree)
	}
	n := 10 + r.Intn(40)
	l := make([]compute.QDTFCombinator, n)
	for k := range l {
		l[k] = have[isAnd][r.Intn(len(have[isAnd]))]
	}
	want, at := isAnd, -1
	if o := have[!isAnd]; len(o) > 0 && r.Intn(3) == 0 {
		at = r.Intn(n)
		l[at], want = o[0], !isAnd
	}
	var c compute.QDTFCombinator = compute.OrCombinator(l)
	if isAnd {
		c = compute.AndCombinator(l)
	}
	return tree, &op{desc: fmt.Sprintf("Sat (truth value %v) of %d elements, decided at %d: %v", want, n, at, l[:3]),
		run: func(ctx query.QContext, sv compute.Solver) (any, error) { return c.Sat(ctx, sv) },
		check: func(t *T, key string, out any) {
			if out.(bool) != want {
				t.Violate(key+"/wide", "evaluated to %v, the truth value is %v", out, want)
			}
		},
	}
}

// longOp is an operation of many solver calls.
func longOp(t *T) (*Tree, *op) {
	if t.Rand.Intn(2) == 0 {
		return wideOp(t)
	}
	return chainOp(t)
}

// dryCall runs the operation without a fault and draws one of its calls; the
// executable makes the same choices again.
func dryCall(t *T, o *op, tree *Tree, seed int64) int {
	w := newWork(t)
	defer w.done()
	sv, dir := w.solver(t, "gxsolver", SolverCfg{Seed: seed})
	if _, err := o.run(query.BasicQContext(tree), sv); err != nil {
		t.Violate("dry/spurious", "tree %s\n%s\nno fault happened, but there is an error: %v", tree, o.desc, err)
	}
	n := countCalls(dir)
	if n == 0 {
		return 1
	}
	if t.Intn(3) == 0 {
		return n
	}
	return 1 + t.Intn(n)
}

// faultCall is the solver call hit: mostly an early one.
func faultCall(t *T) int {
	return []int{1, 1, 1, 2, 2, 3, 4, 5}[t.Intn(8)]
}

// processFault makes the solver executable fail at one call.
func processFault(t *T, i int) {
	kind := crashKinds[i%len(crashKinds)]
	full := kind
	if t.Rand.Intn(3) == 0 {
		full = brokenRun(t.Rand)
		kind = strings.Split(full, ":")[0]
	}
	processRun(t, kind, full)
}

// codeFault goes through every exit code, with every kind of output.
func codeFault(t *T, i int) {
	n := i % 256
	if n == 10 || n == 20 {
		n += 1
	}
	outs := []string{"", "sat", "unsat", "model", "unknown", "halfun"}
	processRun(t, "code", fmt.Sprintf("code:%d:%s:%s", n, outs[(i/256+i)%len(outs)], []string{"", "error"}[i%2]))
	t.Count("exit_codes", 1)
}

// processRun lets the executable fail in the given way at some call.
func processRun(t *T, kind, full string) {
	r := t.Rand
	tree := midTree(r, 1, 3)
	o := randOp(t, tree)
	if r.Intn(12) == 0 {
		tree, o = longOp(t)
		t.Count("long_operations", 1)
	}
	seed := t.Int63()
	at := dryCall(t, o, tree, seed)
	if r.Intn(10) == 0 {
		at = 0 // every call
	}
	w := newWork(t)
	defer w.done()
	sv, dir := w.solver(t, "gxsolver", SolverCfg{Seed: seed, Faults: map[string]string{strconv.Itoa(at): full}})
	t.Describe("tree %s\n%s\nthe solver fails (%s) at call %d", tree, o.desc, full, at)
	out, err := o.run(query.BasicQContext(tree), sv)
	t.Eval(1)
	n := countCalls(dir)
	hit := n >= at && n > 0
	judge(t, o, "process", out, err, hit)
	if hit && err == nil && (o.atom || at == 0) {
		t.Violate("process/ignored", "the failure of the solver run was not reported: %v", out)
	}
	if hit {
		t.Count("faults_"+kind, 1)
		if o.optim != nil {
			t.Count("faults_in_optim", 1)
		} else {
			t.Count("faults_in_sat", 1)
		}
		t.Count(fmt.Sprintf("fault_at_call_%d", at), 1)
		t.Distinct(o.desc + kind + strconv.Itoa(at) + tree.String())
	}
}

// judge an outcome: without a fault there is no error; without an error the
// answer is right.
func judge(t *T, o *op, key string, out any, err error, hit bool) {
	if err != nil {
		if !hit {
			t.Violate(key+"/spurious", "no fault happened, but there is an error: %v", err)
		}
		t.Count("errors_reported", 1)
		return
	}
	o.check(t, key, out)
	t.Count("right_answers", 1)
}

// modelFault makes a satisfiable verdict come without a usable model.
func modelFault(t *T, i int) {
	r := t.Rand
	tree := midTree(r, 1, 3)
	o := randOp(t, tree)
	kind := modelKinds[i%len(modelKinds)]
	seed := t.Int63()
	at := dryCall(t, o, tree, seed)
	w := newWork(t)
	defer w.done()
	cfg := SolverCfg{Seed: seed, Keep: true, Faults: map[string]string{strconv.Itoa(at): kind}}
	randLayout(r, &cfg)
	cfg.Partial = false
	sv, dir := w.solver(t, "gxsolver", cfg)
	t.Describe("tree %s\n%s\nthe model is unusable (%s) at call %d", tree, o.desc, kind, at)
	out, err := o.run(query.BasicQContext(tree), sv)
	t.Eval(1)
	hit := countCalls(dir) >= at
	if hit {
		b, rerr := os.ReadFile(filepath.Join(dir, fmt.Sprintf("call-%d.cnf", at)))
		if rerr != nil {
			panic("harness: " + rerr.Error())
		}
		nv, cls, perr := parseDIMACS(b)
		if perr != nil {
			t.Violate("model/file", "%v", perr)
		}
		if !solveInts(nv, cls) {
			t.Count("not_judged_verdict_wrong", 1)
			return // the verdict itself was a lie
		}
	}
	if o.optim == nil && err != nil && !hit {
		t.Violate("model/spurious", "no fault happened, but there is an error: %v", err)
	}
	judge(t, o, "model", out, err, hit)
	if hit {
		t.Count("faults_"+kind, 1)
		if o.optim != nil {
			t.Count("faults_in_optim", 1)
		} else {
			t.Count("faults_in_sat", 1)
		}
		t.Distinct(o.desc + kind + strconv.Itoa(at) + tree.String())
	}
}

// hookSolver runs a function before and after each call.
type hookSolver struct {
	compute.Solver
	calls  int
	before func(n int)
	after  func(n int)
}

func (h *hookSolver) Step(q compute.Encodable, ctx query.QContext) error {
	h.calls++
	if h.calls > 200 {
		// more than there are instances and evaluations
		panic(endless{})
	}
	h.before(h.calls)
	if h.after != nil {
		defer h.after(h.calls)
	}
	return h.Solver.Step(q, ctx)
}

// endless is raised when an operation does not stop calling the solver.
type endless struct{}

func (endless) String() string { return "the operation does not end: 200 calls of the solver" }

var envKinds = []string{"removed", "not-executable", "directory", "garbage", "empty-file", "dangling", "tmp-missing", "tmp-file", "tmp-missing-all", "fsize", "fsize", "nofile", "nofile", "full", "full", "nofiles"}

// withNofile leaves n descriptors to the process.
func withNofile(n int, fn func()) {
	es, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		panic("harness: " + err.Error())
	}
	mx := 0
	for _, e := range es {
		if k, err := strconv.Atoi(e.Name()); err == nil && k > mx {
			mx = k
		}
	}
	var old syscall.Rlimit
	syscall.Getrlimit(syscall.RLIMIT_NOFILE, &old)
	lim := syscall.Rlimit{Cur: uint64(len(es) - 1 + n), Max: old.Max}
	if err := syscall.Setrlimit(syscall.RLIMIT_NOFILE, &lim); err != nil {
		panic("harness: " + err.Error())
	}
	defer syscall.Setrlimit(syscall.RLIMIT_NOFILE, &old)
	fn()
}

// applyEnv runs fn under a fault of the environment at one solver call.
func applyEnv(t *T, kind string, at int, w *work, o *op, tree *Tree) (any, error, bool, string) {
	r := t.Rand
	sv, dir := w.solver(t, "gxsolver", SolverCfg{Seed: t.Int63(), Lenient: true, ListCwd: true})
	path := filepath.Join(w.dir, "gxsolver")
	tmp := os.Getenv("TMPDIR")
	hit := false
	detail := ""
	h := &hookSolver{Solver: sv}
	restore := func() {}
	h.before = func(n int) {
		if n != at {
			return
		}
		hit = true
		switch kind {
		case "removed":
			os.Remove(path)
		case "not-executable":
			os.Remove(path)
			os.WriteFile(path, []byte("#!/bin/sh\nexit 10\n"), 0o644)
		case "directory":
			os.Remove(path)
			os.Mkdir(path, 0o755)
		case "garbage":
			os.Remove(path)
			os.WriteFile(path, []byte("\x00\x01\x02not a program"), 0o755)
		case "empty-file":
			os.Remove(path)
			os.WriteFile(path, []byte("\x7fELF"), 0o755)
		case "dangling":
			os.Remove(path)
			os.Symlink(filepath.Join(w.dir, "nowhere"), path)
		case "tmp-missing":
			os.Setenv("TMPDIR", filepath.Join(w.dir, "no-tmp"))
			restore = func() { os.Setenv("TMPDIR", tmp) }
		case "tmp-file":
			f := filepath.Join(w.dir, "file")
			os.WriteFile(f, nil, 0o644)
			os.Setenv("TMPDIR", f)
			restore = func() { os.Setenv("TMPDIR", tmp) }
		}
	}
	h.after = func(int) { restore() }
	ctx := query.BasicQContext(tree)
	var out any
	var err error
	switch kind {
	case "tmp-missing-all":
		os.Setenv("TMPDIR", filepath.Join(w.dir, "no-tmp"))
		out, err = o.run(ctx, h)
		os.Setenv("TMPDIR", tmp)
		hit = h.calls > 0 || o.optim != nil
	case "fsize":
		n := uint64([]int{0, 1, 10, 40, 100, 300, 1000, 3000}[r.Intn(8)] + r.Intn(20))
		detail = fmt.Sprintf(" (files limited to %d bytes)", n)
		withFsize(n, func() { out, err = o.run(ctx, h) })
		hit = true // perhaps
	case "full", "nofiles":
		// a temporary directory on a file system without space, or where
		// no further files can be made
		fs := filepath.Join(w.dir, "fs")
		os.Mkdir(fs, 0o755)
		pages, files, fill := 1+r.Intn(3), 0, false
		if kind == "full" {
			fill = r.Intn(3) > 0
		} else {
			pages, files = 100, []int{0, 1, 1, 2, 3}[r.Intn(5)]
			if files == 0 {
				// only the directory itself
				files, fill = 1, true
			}
		}
		undo, ok := mountSmall(fs, pages, files)
		if !ok {
			// not available here: the limit on file sizes instead
			withFsize(uint64(r.Intn(100)), func() { out, err = o.run(ctx, h) })
			hit = true
			break
		}
		t.Count("full_file_systems", 1)
		if fill {
			os.WriteFile(filepath.Join(fs, "filler"), make([]byte, r.Intn(pages+1)*os.Getpagesize()), 0o644)
		}
		detail = fmt.Sprintf(" (file system of %d pages, %d files, filler %v)", pages, files, fill)
		os.Setenv("TMPDIR", fs)
		before := snapDir(fs)
		out, err = o.run(ctx, h)
		d := diff(before, snapDir(fs))
		undo()
		hit = true
		if d != "" && t.P.ID == "C16" {
			os.Setenv("TMPDIR", tmp)
			t.Violate("left/full", "left on a full file system%s after the operation (result %v): %s", detail, err, d)
		}
	case "nofile":
		n := r.Intn(14)
		detail = fmt.Sprintf(" (%d descriptors left)", n)
		withNofile(n, func() { out, err = o.run(ctx, h) })
		hit = true
	default:
		out, err = o.run(ctx, h)
	}
	os.Setenv("TMPDIR", tmp)
	_ = dir
	return out, err, hit, detail
}

func envFault(t *T, i int) {
	r := t.Rand
	tree := midTree(r, 1, 3)
	o := randOp(t, tree)
	kind := envKinds[i%len(envKinds)]
	at := faultCall(t)
	w := newWork(t)
	defer w.done()
	t.Describe("tree %s\n%s\nfault of the environment (%s) from call %d", tree, o.desc, kind, at)
	out, err, hit, detail := applyEnv(t, kind, at, w, o, tree)
	t.desc += detail
	t.Eval(1)
	judge(t, o, "env-"+kind, out, err, hit)
	if hit && err == nil && o.atom && kind != "fsize" && kind != "nofile" && kind != "full" && kind != "nofiles" {
		t.Violate("env-"+kind+"/ignored", "the failure was not reported: %v", out)
	}
	if hit && err != nil {
		t.Count("faults_"+kind, 1)
		t.Distinct(o.desc + kind + strconv.Itoa(at) + tree.String())
	}
	if r.Intn(8) == 0 {
		// from the start
		bad := filepath.Join(w.dir, "bad")
		switch r.Intn(3) {
		case 0:
		case 1:
			os.Mkdir(bad, 0o755)
		case 2:
			os.WriteFile(bad, []byte("#!/bin/sh\nexit 20\n"), 0o644)
		}
		t.Describe("no solver at the path given")
		sv, err := compute.BinSolver(bad)
		if err == nil {
			err = sv.Step(trueQ{}, query.BasicQContext(tree))
			if err == nil || errors.Is(err, compute.UnsatError) {
				t.Violate("env-no-solver", "a verdict without a solver: %v", err)
			}
		}
		t.Count("no_solver", 1)
	}
}

// solverError injects errors at the solver interface.
func solverError(t *T, i int) {
	r := t.Rand
	tree := midTree(r, 1, 3)
	o := randOp(t, tree)
	at := faultCall(t)
	if r.Intn(4) == 0 {
		tree, o = longOp(t)
		at = 1 + r.Intn(45)
		t.Count("long_operations", 1)
	}
	boom := &boomErr{at}
	s := &inSolver{r: r}
	kind := r.Intn(5)
	hit := false
	bad := func(n int) error {
		if n == at {
			hit = true
			if kind == 2 {
				return fmt.Errorf("wrapped: %w", boom)
			}
			return boom
		}
		return nil
	}
	switch kind {
	case 0, 2:
		s.fail = bad
	case 1:
		s.failVal = bad
	}
	var sv compute.Solver = s
	if kind == 3 {
		sv = wrapUnsat{s}
	}
	if kind == 4 {
		sv = &encodingFails{s, 0, bad}
	}
	t.Describe("tree %s\n%s\nsolver error kind %d at call %d", tree, o.desc, kind, at)
	out, err := o.run(query.BasicQContext(tree), sv)
	t.Eval(1)
	judge(t, o, "solver", out, err, hit || kind == 3)
	if kind == 3 {
		t.Count("wrapped_unsat", 1)
		return
	}
	if hit {
		var b *boomErr
		if err == nil {
			t.Violate("solver/ignored", "the solver's error was ignored: %v", out)
		}
		if !errors.Is(err, boom) || !errors.As(err, &b) {
			t.Violate("solver/identity", "the solver's error cannot be identified in %v", err)
		}
		t.Count("solver_errors", 1)
		if kind == 1 {
			t.Count("value_errors", 1)
		}
		if at > 12 {
			t.Count("faults_after_many_calls", 1)
		}
		t.Distinct(o.desc + strconv.Itoa(kind) + strconv.Itoa(at) + tree.String())
	}
}

// encodingFails lets the encoding of a call fail, and passes the error on.
type encodingFails struct {
	compute.Solver
	n   int
	bad func(n int) error
}

func (e *encodingFails) Step(q compute.Encodable, ctx query.QContext) error {
	e.n++
	n := e.n
	return e.Solver.Step(bodyFunc(func(ctx query.QContext) (cnfT, error) {
		c, err := q.Encoding(ctx)
		if b := e.bad(n); b != nil {
			return cnfT{}, b
		}
		return c, err
	}), ctx)
}

type wrapUnsat struct{ in *inSolver }

func (w wrapUnsat) Step(q compute.Encodable, ctx query.QContext) error {
	if err := w.in.Step(q, ctx); err != nil {
		return fmt.Errorf("no model: %w", err)
	}
	return nil
}

func (w wrapUnsat) Values(v []query.QVar, ctx query.QContext) ([]query.QConst, error) {
	return w.in.Values(v, ctx)
}

// encodingError fails one component of a query.
func encodingError(t *T, i int) {
	r := t.Rand
	tree := midTree(r, 1, 3)
	f := closedF(r, tree, 1+r.Intn(6), closedCfg{3, 2, atomOps})
	uni := r.Intn(2) == 0
	run := func(at int, boom error) (error, int, cnfT) {
		n := 0
		q := failAt(f, &Gens{Unique: uni}, func() error {
			n++
			if n == at {
				return boom
			}
			return nil
		})
		c, err := q.Encoding(query.BasicQContext(tree))
		return err, n, c
	}
	t.Describe("tree %s\n%s", tree, f)
	err, total, _ := run(0, nil)
	t.Eval(1)
	if err != nil {
		t.Violate("encoding/error", "a valid query: %v", err)
	}
	tries := []int{1, total, 1 + r.Intn(total), 1 + r.Intn(total)}
	for _, at := range tries {
		boom := &boomErr{at}
		t.Describe("tree %s\n%s\ncomponent encoding %d of %d fails", tree, f, at, total)
		err, _, _ := run(at, boom)
		t.Eval(1)
		var b *boomErr
		if err == nil {
			t.Violate("encoding/ignored", "the error of a sub-query was ignored")
		}
		if !errors.Is(err, boom) || !errors.As(err, &b) {
			t.Violate("encoding/identity", "the error of a sub-query cannot be identified in %v", err)
		}
		if errors.Is(err, compute.UnsatError) {
			t.Violate("encoding/unsat", "the error of a sub-query reads as unsatisfiable: %v", err)
		}
		t.Count("encoding_errors", 1)
	}
	// the same in an evaluation
	at := 1 + r.Intn(total)
	n := 0
	boom := &boomErr{at}
	q := failAt(f, &Gens{Unique: uni}, func() error {
		n++
		if n == at {
			return boom
		}
		return nil
	})
	var c compute.QDTFCombinator = compute.QDTFAtom{Query: q, Negated: r.Intn(2) == 0}
	tr := compute.QDTFAtom{Query: trueQ{}}
	for k := r.Intn(3); k > 0; k-- {
		if r.Intn(2) == 0 {
			c = compute.AndCombinator{tr, c, tr}
		} else {
			c = compute.OrCombinator{compute.QDTFAtom{Query: trueQ{}, Negated: true}, c, tr}
		}
	}
	var sv compute.Solver = &inSolver{r: r}
	if i%20 == 0 {
		w := newWork(t)
		defer w.done()
		sv, _ = w.solver(t, "gxsolver", SolverCfg{Seed: 1})
	}
	got, err := c.Sat(query.BasicQContext(tree), sv)
	t.Eval(1)
	if err == nil || !errors.Is(err, boom) {
		t.Violate("encoding/sat", "Sat of a query whose component %d cannot be encoded: %v, %v", at, got, err)
	}
	t.Distinct(fmt.Sprintf("%s | %s", f, tree))
}

// panicking evaluates queries with a component that panics: whatever becomes
// of the panic, it is not an answer.
func panicking(t *T, i int) {
	r := t.Rand
	tree := midTree(r, 1, 3)
	n, at := 0, 1+r.Intn(3)
	trap := func() error {
		n++
		if n == at {
			panic(&boomErr{at})
		}
		return nil
	}
	var out any
	var err error
	done := false
	optim := r.Intn(2) == 0
	run := func(fn func()) {
		defer func() {
			if x := recover(); x != nil && !done {
				if _, ok := x.(*boomErr); !ok {
					panic(x)
				}
				err = errors.New("panic")
			}
		}()
		fn()
		done = true
	}
	if optim {
		p := randProblem(r, tree)
		fg, og := p.funcs()
		wrap := func(q compute.Encodable) compute.Encodable {
			return bodyFunc(func(ctx query.QContext) (cnfT, error) {
				trap()
				return q.Encoding(ctx)
			})
		}
		t.Describe("%s\nencoding %d panics", p, at)
		run(func() {
			out, err = compute.ComputeOptim(
				func(v query.QVar) compute.Encodable { return wrap(fg(v)) },
				func(v query.QVar, c query.QConst) compute.Encodable { return wrap(og(v, c)) },
				query.QVar(p.v), query.BasicQContext(tree), &inSolver{r: r})
		})
	} else {
		f := closedF(r, tree, 1+r.Intn(4), closedCfg{2, 2, atomOps})
		var c compute.QDTFCombinator = compute.QDTFAtom{Query: failAt(f, &Gens{}, trap), Negated: r.Intn(2) == 0}
		tr := compute.QDTFAtom{Query: trueQ{}}
		switch r.Intn(3) {
		case 0:
			c = compute.AndCombinator{tr, c}
		case 1:
			c = compute.OrCombinator{c, tr}
		}
		t.Describe("tree %s\n%s\nencoding %d panics", tree, f, at)
		run(func() { out, err = c.Sat(query.BasicQContext(tree), &inSolver{r: r}) })
	}
	t.Eval(1)
	if n < at {
		return
	}
	t.Count("encoding_panics", 1)
	if err == nil {
		t.Violate("panic/answer", "encoding %d panicked, the operation returned %+v without an error", at, out)
	}
	t.Distinct(fmt.Sprint(optim, at, i))
}

// optimEncodingError fails a component inside an optimum computation.
func optimEncodingError(t *T, i int) {
	r := t.Rand
	tree := midTree(r, 1, 3)
	p := randProblem(r, tree)
	fg, og := p.funcs()
	n, at := 0, 1+r.Intn(8)
	boom := &boomErr{at}
	trap := func(q compute.Encodable) compute.Encodable {
		return bodyFunc(func(ctx query.QContext) (cnfT, error) {
			n++
			if n == at {
				return cnfT{}, boom
			}
			return q.Encoding(ctx)
		})
	}
	t.Describe("%s\nencoding %d fails", p, at)
	out, err := compute.ComputeOptim(
		func(v query.QVar) compute.Encodable { return trap(fg(v)) },
		func(v query.QVar, c query.QConst) compute.Encodable { return trap(og(v, c)) },
		query.QVar(p.v), query.BasicQContext(tree), &inSolver{r: r})
	t.Eval(1)
	if n >= at {
		if err == nil || !errors.Is(err, boom) {
			t.Violate("encoding/optim", "encoding %d failed, the computation returned %+v, %v", at, out, err)
		}
		t.Count("optim_encoding_errors", 1)
		t.Distinct(fmt.Sprint(p, at))
		return
	}
	if err != nil {
		t.Violate("encoding/optim-spurious", "%v", err)
	}
	p.check(t, "encoding/optim", out)
}

// incomplete asks for values the model does not have.
func incomplete(t *T, i int) {
	r := t.Rand
	w := newWork(t)
	defer w.done()
	tree := randTree(r, 1+r.Intn(6), 2)
	vars := []string{}
	for _, k := range r.Perm(len(varNames))[:1+r.Intn(3)] {
		vars = append(vars, varNames[k])
	}
	q := wrapVars(trueQ{}, vars)
	ctx := query.BasicQContext(tree)
	if _, err := q.Encoding(ctx); err != nil {
		t.Violate("error", "%v", err)
	}
	lits := []int{}
	whole := []int{} // with nothing missing
	bad := query.QVar(vars[r.Intn(len(vars))])
	badFeat := r.Intn(tree.dim)
	kind := r.Intn(6)
	for _, v := range vars {
		x := someInst(r, tree.dim)
		for i := range x {
			for _, f := range []int8{-1, 0, 1} {
				n := ctx.CNFVar(query.QVar(v), i, int(fv(f)))
				hit := query.QVar(v) == bad && i == badFeat
				if x[i] == f {
					whole = append(whole, n)
				} else {
					whole = append(whole, -n)
				}
				switch {
				case hit && kind == 0:
				case hit && kind == 1:
					lits = append(lits, -n)
				case x[i] == f:
					lits = append(lits, n)
				default:
					lits = append(lits, -n)
				}
			}
		}
	}
	cfg := SolverCfg{Seed: t.Int63()}
	randLayout(r, &cfg)
	cfg.Partial = false
	raw := formatModel(lits, cfg, r)
	before := false
	ask := bad
	switch kind {
	case 2:
		raw = "s SATISFIABLE\n"
	case 3:
		raw = ""
	case 4:
		ask = "never declared"
	case 5:
		before = true
	}
	cfg.Raw, cfg.RawExit = &raw, 10
	t.Describe("dimension %d, variables %v, asked for %q, defect %d at feature %d", tree.dim, vars, ask, kind, badFeat)
	t.Log("%s", clip(raw, 2000))
	earlier := !before && ask == bad && r.Intn(2) == 0
	first := cfg
	if earlier {
		good := formatModel(whole, cfg, r)
		first.Raw = &good
	}
	sv, _ := w.solver(t, "gxsolver", first)
	if earlier {
		// a run with a model, whose values are not those of the next run
		var all []query.QVar
		for _, v := range vars {
			all = append(all, query.QVar(v))
		}
		if err := sv.Step(trueQ{}, ctx); err != nil {
			t.Violate("incomplete/good", "a run with a model fails: %v", err)
		}
		if _, err := sv.Values(all, ctx); err != nil {
			t.Violate("incomplete/good", "the values of a run with a model are not available: %v", err)
		}
		w.install("gxsolver", cfg)
		t.Count("after_a_run_with_a_model", 1)
	}
	if !before {
		if err := sv.Step(trueQ{}, ctx); err != nil {
			// refusing the output at once is as good
			if errors.Is(err, compute.UnsatError) {
				t.Violate("incomplete/unsat", "exit code 10 is read as unsatisfiable")
			}
			t.Count("incomplete_models", 1)
			return
		}
	}
	got, err := sv.Values([]query.QVar{ask}, ctx)
	t.Eval(1)
	if err == nil {
		t.Violate("incomplete", "a value the model does not have was read: %v", got)
	}
	t.Count("incomplete_models", 1)
	t.Distinct(t.desc)
}

func init() {
	register(&Prop{ID: "C15", Mounts: true, Level: "fault_enumeration",
		Rule:   "evaluations, combinators and optimum computations under one fault: every kind of solver failure, unusable model, missing or broken executable, unavailable or full temporary storage, exhausted descriptors, at call 1 to 5, at any call of long computations, or at all calls; errors of the solver interface; failing component encodings at every position; distinct = distinct (operation, fault, call)",
		Assume: []string{"a solver that reports a wrong verdict by a standard exit code is not judged", "a value line cut between two literals is not detectable except by missing values"},
		Need:   append([]string{"faults_in_optim", "faults_in_sat", "errors_reported", "right_answers", "solver_errors", "value_errors", "faults_after_many_calls", "exit_codes", "encoding_errors", "optim_encoding_errors", "incomplete_models", "no_solver", "faults_fsize", "faults_nofile", "faults_removed", "faults_tmp-missing-all"}, prefixed("faults_", append(crashKinds, modelKinds...))...),
		Streams: []Stream{
			{Name: "process", Quick: 1200, Thor: 24000, Run: processFault},
			{Name: "codes", Quick: 512, Thor: 10240, Run: codeFault},
			{Name: "model", Quick: 1000, Thor: 20000, Run: modelFault},
			{Name: "environment", Quick: 1300, Thor: 26000, Run: envFault},
			{Name: "solver", Quick: 4000, Thor: 80000, Run: solverError},
			{Name: "encoding", Quick: 4000, Thor: 80000, Run: encodingError},
			{Name: "optim", Quick: 3000, Thor: 60000, Run: optimEncodingError},
			{Name: "panic", Quick: 1500, Thor: 30000, Run: panicking},
			{Name: "incomplete", Quick: 600, Thor: 10000, Run: incomplete},
		}})
}

func prefixed(p string, l []string) []string {
	var out []string
	for _, s := range l {
		out = append(out, p+s)
	}
	return out
}
