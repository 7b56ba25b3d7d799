package main

import (
	"bytes"
	"fmt"
	"hash/fnv"
	"math/rand"
	"path/filepath"
	"runtime"
	"sort"
	"sync"
	"time"

	"github.com/jtcaraball/goexpdt/cnf"
	"github.com/jtcaraball/goexpdt/compute"
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/logop"
	"github.com/jtcaraball/goexpdt/query/predicates/subsumption"
)

// Property C20. This file is built with the race detector; the goroutines of
// a case share nothing of the harness but what a caller would share.

// yieldModel is a shared model that gives other goroutines a turn.
type yieldModel struct {
	t     *Tree
	every int
}

func (m yieldModel) Dim() int { return m.t.dim }

func (m yieldModel) Nodes() []query.Node {
	if m.every > 0 {
		runtime.Gosched()
	}
	return m.t.nodes
}

// yieldQ gives other goroutines a turn before and after a component.
type yieldQ struct{ q logop.LogOpQ }

func (y yieldQ) Encoding(ctx query.QContext) (cnf.CNF, error) {
	runtime.Gosched()
	c, err := y.q.Encoding(ctx)
	runtime.Gosched()
	return c, err
}

// fixedQ is a component that always returns the same formula value.
type fixedQ struct{ c cnf.CNF }

func (f fixedQ) Encoding(query.QContext) (cnf.CNF, error) { return f.c, nil }

// conjob is a shared job with the answer it has when run alone.
type conjob struct {
	desc string
	run  func(m query.Model, sv compute.Solver, r *rand.Rand) (string, error)
	want string
	// judge, if there are several right answers
	ok func(got string) bool
}

func encJob(q logop.LogOpQ, desc string, tree *Tree) *conjob {
	j := &conjob{desc: "encode " + desc}
	j.run = func(m query.Model, _ compute.Solver, _ *rand.Rand) (string, error) {
		c, err := q.Encoding(query.BasicQContext(m))
		if err != nil {
			return "", err
		}
		var b bytes.Buffer
		b.Write(formulaBytes(c))
		s, k := c.Clauses()
		fmt.Fprint(&b, len(s), len(k))
		h := fnv.New64a()
		h.Write(b.Bytes())
		return fmt.Sprintf("%d bytes %x", b.Len(), h.Sum64()), nil
	}
	return j
}

// readJob steps on a query that only one instance satisfies, another one each
// time, and reads the instance a moment later.
func readJob(r *rand.Rand, tree *Tree) *conjob {
	pause := time.Duration(r.Intn(6)) * time.Millisecond
	targets := make([]Inst, 2+r.Intn(4))
	for k := range targets {
		targets[k] = someInst(r, tree.dim)
	}
	j := &conjob{desc: fmt.Sprintf("read one of %v after %v", targets, pause)}
	j.ok = func(got string) bool { return got == "ok" }
	j.run = func(m query.Model, sv compute.Solver, _ *rand.Rand) (string, error) {
		x := targets[time.Now().UnixNano()/1000%int64(len(targets))]
		c := query.QConst{Val: x.vals()}
		ctx := query.BasicQContext(m)
		err := sv.Step(logop.WithVar{I: "x", Q: logop.And{
			Q1: subsumption.ConstVar{I1: c, I2: "x"},
			Q2: subsumption.VarConst{I1: "x", I2: c},
		}}, ctx)
		if err != nil {
			return "", err
		}
		time.Sleep(pause)
		got, err := sv.Values([]query.QVar{"x", "x"}, ctx)
		if err != nil {
			return "", err
		}
		for _, g := range got {
			if !g.EqualValue(c) {
				return fmt.Sprintf("%v instead of %s", g.Val, x), nil
			}
		}
		return "ok", nil
	}
	return j
}

func concJob(r *rand.Rand, tree *Tree) *conjob {
	yield := func(f *F, uni bool) logop.LogOpQ {
		g := &Gens{Unique: uni}
		inner := f.build
		_ = inner
		return f.build(g, func(f *F) logop.LogOpQ {
			if r.Intn(2) == 0 {
				return nil
			}
			return yieldQ{f.build(g, nil)}
		})
	}
	switch r.Intn(8) {
	case 6, 7:
		return readJob(r, tree)
	case 0, 1:
		f := closedF(r, tree, 1+r.Intn(5), closedCfg{2, 2, atomOps})
		return encJob(yield(f, r.Intn(2) == 0), f.String(), tree)
	case 2:
		// formulas derived from one value
		base := cnf.FromClauses([]cnf.Clause{{1, 2}, {-1, 3}})
		switch r.Intn(6) {
		case 0:
			base = cnf.TrueCNF
		case 1:
			base = cnf.FalseCNF
		case 2:
			base = base.AppendConsistency([]cnf.Clause{{4, 5}}...)
		case 3, 4:
			for k := 1 + r.Intn(7); k > 0; k-- {
				base = base.AppendSemantics(cnf.Clause{k, k + 1}).AppendConsistency(cnf.Clause{-k, k + 3})
			}
		}
		var q logop.LogOpQ = fixedQ{base}
		for k := 1 + r.Intn(4); k > 0; k-- {
			small := cnf.FromClauses([]cnf.Clause{{k}}).AppendConsistency(cnf.Clause{-k, 9})
			switch r.Intn(7) {
			case 4:
				q = logop.And{Q1: q, Q2: yieldQ{fixedQ{small}}}
			case 5:
				q = logop.And{Q1: fixedQ{base}, Q2: yieldQ{logop.And{Q1: q, Q2: fixedQ{small}}}}
			case 6:
				q = logop.And{Q1: fixedQ{base}, Q2: logop.Or{Q1: fixedQ{small}, Q2: q}}
			case 0:
				q = logop.Not{Q: yieldQ{q}}
			case 1:
				q = logop.And{Q1: q, Q2: yieldQ{fixedQ{base}}}
			case 2:
				q = logop.Or{Q1: yieldQ{fixedQ{base}}, Q2: q}
			case 3:
				q = logop.WithVar{I: query.QVar(fmt.Sprint("w", k)), Q: yieldQ{q}}
			}
		}
		return encJob(q, "derived formulas", tree)
	case 3:
		p := randProblem(r, tree)
		fg, og := p.funcs()
		j := &conjob{desc: "optimise " + p.String()}
		good := map[string]bool{}
		for _, x := range p.sats {
			best := true
			for _, y := range p.sats {
				if p.ord.better(y, x) {
					best = false
				}
			}
			if best {
				good["true "+x.String()] = true
			}
		}
		if len(p.sats) == 0 {
			good["false"] = true
		}
		j.ok = func(got string) bool { return good[got] }
		j.run = func(m query.Model, sv compute.Solver, _ *rand.Rand) (string, error) {
			out, err := compute.ComputeOptim(fg, og, query.QVar(p.v), query.BasicQContext(m), sv)
			if err != nil {
				return "", err
			}
			if !out.Found {
				return "false", nil
			}
			x, _ := instOf(out.Value.Val)
			return "true " + x.String(), nil
		}
		return j
	}
	c, want, desc, _ := genComb(r, tree, r.Intn(3), closedCfg{2, 1, atomOps}, r.Intn(2) == 0)
	j := &conjob{desc: "evaluate " + desc}
	j.ok = func(got string) bool { return got == fmt.Sprint(want) }
	j.run = func(m query.Model, sv compute.Solver, _ *rand.Rand) (string, error) {
		b, err := c.Sat(query.BasicQContext(m), sv)
		return fmt.Sprint(b), err
	}
	return j
}

type concEvent struct {
	at   time.Time
	g, k int
	end  bool
}

func concCase(t *T, exec bool) {
	r := t.Rand
	tree := midTree(r, 1, 3)
	njobs, ngo := 1+r.Intn(3), 2+r.Intn(7)
	per := 1 + r.Intn(4)
	if exec {
		ngo, per = 2+r.Intn(5), 1+r.Intn(2)
	}
	jobs := []*conjob{}
	desc := ""
	for k := 0; k < njobs; k++ {
		j := concJob(r, tree)
		jobs = append(jobs, j)
		desc += "\n" + j.desc
	}
	t.Describe("tree %s, %d goroutines, %d operations each, exec=%v%s", tree, ngo, per, exec, desc)
	var w *work
	if exec {
		w = newWork(t)
		defer w.done()
	}
	m := yieldModel{tree, r.Intn(2)}
	oneExe := r.Intn(2) == 0
	solvers := make([]compute.Solver, ngo+1)
	for g := range solvers {
		if exec {
			if oneExe && g > 0 {
				// several solvers of one executable
				sv, err := compute.BinSolver(filepath.Join(w.dir, "gxsolver0"))
				if err != nil {
					t.Violate("binsolver", "%v", err)
				}
				solvers[g] = sv
				t.Count("solvers_of_one_executable", 1)
				continue
			}
			solvers[g], _ = w.solver(t, fmt.Sprintf("gxsolver%d", g), SolverCfg{Seed: t.Int63(), DelayMS: r.Intn(4)})
		} else {
			solvers[g] = &inSolver{r: rand.New(rand.NewSource(t.Int63()))}
		}
	}
	// alone, before
	alone := func(when string) {
		for _, j := range jobs {
			got, err := j.run(m, solvers[ngo], nil)
			t.Eval(1)
			if err != nil {
				t.Violate("alone/error", "%s run alone (%s): %v", j.desc, when, err)
			}
			if j.ok != nil {
				if !j.ok(got) {
					t.Violate("alone/wrong", "%s run alone (%s): %s", j.desc, when, got)
				}
			} else if j.want == "" {
				j.want = got
			} else if got != j.want {
				t.Violate("alone/changed", "%s run alone (%s): %s, earlier %s", j.desc, when, got, j.want)
			}
		}
	}
	first := r.Intn(2) == 0
	if first {
		alone("before")
	}
	type res struct {
		j     int
		got   string
		err   error
		panic any
	}
	results := make([][]res, ngo)
	events := make([][]concEvent, ngo)
	plan := make([][]int, ngo)
	for g := range plan {
		for k := 0; k < per; k++ {
			plan[g] = append(plan[g], r.Intn(njobs))
		}
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	for g := 0; g < ngo; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			<-start
			for k, ji := range plan[g] {
				func() {
					x := res{j: ji}
					defer func() {
						x.panic = recover()
						results[g] = append(results[g], x)
						events[g] = append(events[g], concEvent{time.Now(), g, k, true})
					}()
					events[g] = append(events[g], concEvent{time.Now(), g, k, false})
					x.got, x.err = jobs[ji].run(m, solvers[g], nil)
				}()
			}
		}(g)
	}
	close(start)
	wg.Wait()
	if !first {
		alone("after")
	}
	alone("after")
	for g := range results {
		for _, x := range results[g] {
			j := jobs[x.j]
			t.Eval(1)
			t.Count("concurrent_operations", 1)
			if x.panic != nil {
				t.Violate("concurrent/panic", "%s panics when run concurrently: %v", j.desc, x.panic)
			}
			if x.err != nil {
				t.Violate("concurrent/error", "%s fails when run concurrently: %v", j.desc, x.err)
			}
			if j.ok != nil && !j.ok(x.got) || j.ok == nil && x.got != j.want {
				t.Violate("concurrent/wrong", "%s gives %s when run concurrently (alone: %s)", j.desc, x.got, j.want)
			}
		}
	}
	// the interleaving observed
	var all []concEvent
	for _, l := range events {
		all = append(all, l...)
	}
	sort.SliceStable(all, func(a, b int) bool { return all[a].at.Before(all[b].at) })
	open, overlap := 0, 0
	sig := ""
	for _, e := range all {
		if e.end {
			open--
		} else {
			if open > 0 {
				overlap++
			}
			open++
		}
		sig += fmt.Sprintf("%d%v", e.g, e.end)
	}
	t.Count("overlapping_operations", overlap)
	t.Distinct(desc + sig)
}

// deriveCase has goroutines derive formulas from one value at one time, again
// and again from new values.
func deriveCase(t *T, i int) {
	r := t.Rand
	ngo := 2 + r.Intn(7)
	rounds := 60 + r.Intn(100)
	lit := func(g, k int) cnf.Clause { return cnf.Clause{100 + 10*g + k, -(200 + 10*g + k)} }
	type plan struct{ ops []int }
	plans := make([]plan, ngo)
	for g := range plans {
		for k := 1 + r.Intn(3); k > 0; k-- {
			plans[g].ops = append(plans[g].ops, r.Intn(7))
		}
		if g > 0 && r.Intn(2) == 0 {
			plans[g] = plans[0]
		}
	}
	derive := func(base cnf.CNF, g int) (string, error) {
		f := base
		for k, op := range plans[g].ops {
			own := cnf.FromClauses([]cnf.Clause{lit(g, k), {1, 100 + g}}).AppendConsistency(lit(g, k))
			var q logop.LogOpQ
			switch op {
			case 0:
				f = f.AppendSemantics(lit(g, k))
			case 1:
				f = f.AppendConsistency(lit(g, k), lit(g, k+1))
			case 2:
				f = f.Conjunction(own)
			case 3:
				q = logop.And{Q1: fixedQ{f}, Q2: fixedQ{own}}
			case 4:
				q = logop.WithVar{I: query.QVar(fmt.Sprint("w", g)), Q: fixedQ{f}}
			case 5:
				q = logop.Or{Q1: fixedQ{f}, Q2: fixedQ{own}}
			default:
				f = f.Negate(400)
			}
			if q != nil {
				var err error
				if f, err = q.Encoding(query.BasicQContext(yieldModel{t: tinyTree})); err != nil {
					return "", err
				}
			}
		}
		return string(formulaBytes(f)), nil
	}
	mkBase := func(n int) cnf.CNF {
		base := cnf.FromClauses([]cnf.Clause{{1, 2}, {-1, 3}})
		for k := 1; k <= n; k++ {
			base = base.AppendSemantics(cnf.Clause{k, k + 1}).AppendConsistency(cnf.Clause{-k, k + 3})
		}
		return base
	}
	want := make([]string, ngo)
	size := r.Intn(9)
	t.Describe("%d goroutines derive from formulas of %d clauses: %v", ngo, 2+2*size, plans)
	for g := range want {
		var err error
		if want[g], err = derive(mkBase(size), g); err != nil {
			t.Violate("derive/error", "alone: %v", err)
		}
	}
	for round := 0; round < rounds; round++ {
		base := mkBase(size)
		before := string(formulaBytes(base))
		got := make([]string, ngo)
		errs := make([]error, ngo)
		start := make(chan struct{})
		var wg sync.WaitGroup
		for g := 0; g < ngo; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				defer func() {
					if p := recover(); p != nil {
						errs[g] = fmt.Errorf("panic: %v", p)
					}
				}()
				<-start
				got[g], errs[g] = derive(base, g)
			}(g)
		}
		close(start)
		wg.Wait()
		for g := range got {
			t.Eval(1)
			t.Count("concurrent_derivations", 1)
			if errs[g] != nil {
				t.Violate("derive/error", "goroutine %d: %v", g, errs[g])
			}
			if got[g] != want[g] {
				t.Violate("derive/wrong", "goroutine %d derives\n%s\nalone\n%s", g, got[g], want[g])
			}
		}
		if string(formulaBytes(base)) != before {
			t.Violate("derive/base-changed", "the common formula changed")
		}
	}
	t.Distinct(fmt.Sprint(size, plans))
}

var tinyTree = (&shape{leaf: true}).layout(2, 0, rand.New(rand.NewSource(1)))

func init() {
	if !raceEnabled {
		return
	}
	for d := 1; d <= 3; d++ {
		cachedInsts(d)
	}
	register(&Prop{ID: "C20", Level: "exploration", MaxWorkers: 4,
		Rule:   "groups of 2 to 8 goroutines run shared encodings, evaluations and optimum computations with their own contexts and solvers (in process or executables), under the race detector, with voluntary yields in models and components; answers compared with the ones given alone; distinct = distinct (operations, observed order of starts and ends)",
		Assume: []string{"the race detector reports only races of the observed schedules"},
		Need:   []string{"concurrent_operations", "overlapping_operations", "concurrent_derivations"},
		Streams: []Stream{
			{Name: "inproc", Quick: 1500, Thor: 30000, Run: func(t *T, i int) { concCase(t, false) }},
			{Name: "derive", Quick: 200, Thor: 10000, Run: deriveCase},
			{Name: "exec", Quick: 120, Thor: 2000, Run: func(t *T, i int) { concCase(t, true) }},
		}})
}
