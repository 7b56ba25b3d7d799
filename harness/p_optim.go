package main

import (
	"errors"
	"fmt"
	"math/rand"
	"strings"

	"github.com/jtcaraball/goexpdt/cnf"
	"github.com/jtcaraball/goexpdt/compute"
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/logop"
)

// Properties C12, C13 and C17.

// Order is a strict partial order between instances.
type Order struct {
	name   string
	f      func(v string, c Inst) *F
	better func(a, b Inst) bool
	linear bool // chains have at most dim+1 elements
}

func strictOf(mk func(a, b Term) *F) func(v string, c Inst) *F {
	return func(v string, c Inst) *F {
		return and(mk(vt(v), ct(c)), not(mk(ct(c), vt(v))))
	}
}

func randOrder(r *rand.Rand, dim int) Order {
	sub := func(a, b Term) *F { return atom("sub", a, b) }
	lel := func(a, b Term) *F { return atom("lel", a, b) }
	rev := func(mk func(a, b Term) *F) func(a, b Term) *F {
		return func(a, b Term) *F { return mk(b, a) }
	}
	switch r.Intn(8) {
	case 0:
		return Order{"subsumption, smaller", strictOf(sub), func(a, b Inst) bool { return subsumed(a, b) && !a.eq(b) }, true}
	case 1:
		return Order{"subsumption, larger", strictOf(rev(sub)), func(a, b Inst) bool { return subsumed(b, a) && !a.eq(b) }, true}
	case 2:
		return Order{"level, fewer defined", strictOf(lel), func(a, b Inst) bool { return a.bots() > b.bots() }, true}
	case 3:
		return Order{"level, more defined", strictOf(rev(lel)), func(a, b Inst) bool { return a.bots() < b.bots() }, true}
	case 4:
		k := randInst(r, dim, 0)
		leh := func(a, b Term) *F { return atom("leh", ct(k), a, b) }
		return Order{"closer to " + k.String(), strictOf(leh), func(a, b Inst) bool {
			return a.full() && b.full() && hamming(k, a) < hamming(k, b)
		}, true}
	case 5:
		k := randInst(r, dim, 0)
		leh := func(a, b Term) *F { return atom("leh", ct(k), b, a) }
		return Order{"farther from " + k.String(), strictOf(leh), func(a, b Inst) bool {
			return a.full() && b.full() && hamming(k, a) > hamming(k, b)
		}, true}
	case 6:
		if dim <= 6 {
			p := randPref(r, dim)
			hp := func(a, b Term) *F { return &F{Op: "hepr", Pref: p, T: []Term{a, b}} }
			return Order{fmt.Sprintf("preference %v", p), strictOf(hp), func(a, b Inst) bool {
				return refHepr(p, a, b) && !refHepr(p, b, a)
			}, false}
		}
	}
	if r.Intn(3) == 0 {
		return Order{"empty", func(v string, c Inst) *F {
			return and(atom("sub", vt(v), ct(c)), not(atom("sub", vt(v), ct(c))))
		}, func(a, b Inst) bool { return false }, true}
	}
	return Order{"subsumption, smaller", strictOf(sub), func(a, b Inst) bool { return subsumed(a, b) && !a.eq(b) }, true}
}

// optProblem is an optimisation problem with its reference solution set.
type optProblem struct {
	tree *Tree
	v    string
	f    *F
	own  bool // the formula declares v itself
	ord  Order
	sats []Inst
	uniq bool
	wrap string
}

func (p *optProblem) String() string {
	return fmt.Sprintf("tree %s\nformula of %s: %s (own declaration: %v)\norder: %s; %d satisfying instances",
		p.tree, p.v, p.f, p.own, p.ord.name, len(p.sats))
}

func randProblem(r *rand.Rand, tree *Tree) *optProblem { return randProblemOf(r, tree, atomOps) }

// randProblemOf draws the atoms from ops.
func randProblemOf(r *rand.Rand, tree *Tree, ops []string) *optProblem {
	p := &optProblem{tree: tree, v: pickStr(r, varNames), own: r.Intn(3) == 0, uniq: r.Intn(3) == 0}
	p.ord = randOrder(r, tree.dim)
	if r.Intn(6) == 0 && len(tree.nodes) < 12 {
		p.wrap = []string{p.v, "c", "x"}[r.Intn(3)]
	}
	s := &scopeInfo{dim: tree.dim, pVar: 0.7, vars: []string{p.v}}
	ns := tree.nodeInsts()
	c := randInst(r, tree.dim, 0)
	s.consts = []Inst{someInst(r, tree.dim), c, ns[r.Intn(len(ns))]}
	for {
		switch k := r.Intn(10); {
		case k == 0:
			p.f = atom("sub", ct(botInst(tree.dim)), vt(p.v)) // everything
		case k == 1:
			// sufficient reasons of c
			p.f = and(atom("sub", vt(p.v), ct(c)), &F{Op: "allc", Leaf: tree.class(c), T: []Term{vt(p.v)}})
		case k == 2:
			p.f = atom("dfs", vt(p.v))
		case k == 3:
			p.f = atom("node", vt(p.v))
		case k == 4:
			// counterfactuals
			p.f = and(atom("full", vt(p.v)), &F{Op: "allc", Leaf: !tree.class(c), T: []Term{vt(p.v)}})
		case k < 7:
			p.f = s.qf(r, 1+r.Intn(4), ops)
		default:
			p.f = s.quant(r, 1+r.Intn(4), closedCfg{1, 1, ops}, 0, 0)
		}
		all := 1
		for i := 0; i < tree.dim; i++ {
			all *= 3
		}
		if bruteCost(p.f, tree)*all <= 80000 && !boundName(p.f, p.v) {
			break
		}
	}
	for _, x := range cachedInsts(tree.dim) {
		if p.f.eval(tree, &Env{v: map[string]Inst{p.v: x}, g: map[string]Inst{}}) {
			p.sats = append(p.sats, x)
		}
	}
	return p
}

func boundName(f *F, v string) bool {
	if f.Op == "ex" && f.Name == v {
		return true
	}
	for _, k := range f.K {
		if boundName(k, v) {
			return true
		}
	}
	return false
}

func botInst(d int) Inst {
	x := make(Inst, d)
	for i := range x {
		x[i] = -1
	}
	return x
}

// funcs are the caller's constructors.
func (p *optProblem) funcs() (compute.SVFormula, compute.VCOrder) {
	fg := func(v query.QVar) compute.Encodable {
		q := renameVar(p.f, p.v, string(v)).build(&Gens{Unique: p.uniq}, nil)
		if p.own {
			return logop.WithVar{I: v, Q: q}
		}
		return q
	}
	og := func(v query.QVar, c query.QConst) compute.Encodable {
		x, _ := instOf(c.Val)
		g := &Gens{Unique: p.uniq, n: 1000}
		f := p.ord.f(string(v), x)
		// the candidate is used as it was handed over
		var sub func(f *F)
		sub = func(f *F) {
			for i := range f.T {
				if l := f.T[i].Val; len(l) > 0 && len(x) > 0 && &l[0] == &x[0] {
					f.T[i].Q = &c
				}
			}
			for _, k := range f.K {
				sub(k)
			}
		}
		sub(f)
		if p.wrap != "" {
			// a quantifier that binds nothing
			f = &F{Op: "all", Name: p.wrap, K: []*F{f}}
		}
		return f.build(g, nil)
	}
	return fg, og
}

func renameVar(f *F, a, b string) *F {
	if a == b {
		return f
	}
	panic("harness: unexpected variable " + b)
}

// check a result of ComputeOptim.
func (p *optProblem) check(t *T, key string, out compute.OptOutput) {
	if len(p.sats) == 0 {
		if out.Found {
			t.Violate(key+"/found", "a value was reported (%s) but nothing satisfies the formula", out.Value.AsString())
		}
		t.Count("optimum_none", 1)
		return
	}
	if !out.Found {
		t.Violate(key+"/not-found", "no value was reported but e.g. %s satisfies the formula", p.sats[0])
	}
	x, ok := instOf(out.Value.Val)
	if !ok || len(x) != p.tree.dim {
		t.Violate(key+"/shape", "the value %v does not set the %d features", out.Value.Val, p.tree.dim)
	}
	in := false
	for _, y := range p.sats {
		if y.eq(x) {
			in = true
		}
	}
	if !in {
		t.Violate(key+"/unsound", "the value %s does not satisfy the formula", x)
	}
	for _, y := range p.sats {
		if p.ord.better(y, x) {
			t.Violate(key+"/not-optimal", "the value %s is not optimal: %s also satisfies the formula and is better", x, y)
		}
	}
	t.Count("optimum_found", 1)
}

// run with the in-process solver under a choice of models.
func (p *optProblem) solver(r *rand.Rand, style string) *inSolver {
	s := &inSolver{r: r, watch: query.QVar(p.v)}
	rank := func(x Inst) int {
		n := 0
		for _, y := range p.sats {
			if p.ord.better(y, x) {
				n++
			}
		}
		return n
	}
	switch style {
	case "slow":
		// improve as little as possible
		s.pick = func(c []Inst) int {
			best, bk := -1, 0
			for k, x := range c {
				if n := rank(x); n > best {
					best, bk = n, k
				}
			}
			return bk
		}
	case "any":
		s.pick = func(c []Inst) int { return r.Intn(len(c)) }
	case "first":
		s.pick = func(c []Inst) int { return 0 }
	case "last":
		s.pick = func(c []Inst) int { return len(c) - 1 }
	}
	return s
}

func optimCase(t *T, tree *Tree, styles []string) {
	p := randProblem(t.Rand, tree)
	style := pickStr(t.Rand, styles)
	t.Describe("%s\nsolver choice: %s", p, style)
	fg, og := p.funcs()
	s := p.solver(t.Rand, style)
	out, err := compute.ComputeOptim(fg, og, query.QVar(p.v), query.BasicQContext(tree), s)
	t.Eval(1)
	if err != nil {
		t.Violate("optim/error", "the computation failed: %v", err)
	}
	p.check(t, "optim", out)
	t.Count("solver_calls", s.calls)
	t.Distinct(p.String() + style)
}

// optimTrace monitors the history of solver calls of one run.
func optimTrace(t *T, tree *Tree, styles []string, exec bool) {
	r := t.Rand
	p := randProblem(r, tree)
	style := pickStr(r, styles)
	t.Describe("%s\nsolver choice: %s exec=%v", p, style, exec)
	fg, og := p.funcs()
	ctx := query.BasicQContext(tree)
	m := &monSolver{watch: query.QVar(p.v), limit: 4*len(cachedInsts(tree.dim)) + 10}
	if exec {
		w := newWork(t)
		defer w.done()
		sv, dir := w.solver(t, "gxsolver", SolverCfg{Seed: t.Int63()})
		m.in = sv
		defer func() { t.Count("exec_calls", countCalls(dir)) }()
	} else {
		m.in = p.solver(r, style)
	}
	out, err := compute.ComputeOptim(fg, og, query.QVar(p.v), ctx, m)
	t.Eval(1)
	for _, l := range m.hist {
		t.Log("%s", l)
	}
	if m.over {
		t.Violate("trace/endless", "the search made %d solver calls and did not end", m.calls)
	}
	if err != nil {
		t.Violate("trace/error", "the computation failed: %v", err)
	}
	if out.Calls != m.calls {
		t.Violate("trace/calls", "%d calls reported, %d made", out.Calls, m.calls)
	}
	if m.unsatAt != 0 && m.unsatAt != m.calls || m.unsatAt == 0 {
		t.Violate("trace/stop", "the failed improvement was call %d of %d", m.unsatAt, m.calls)
	}
	for k := 1; k < len(m.cands); k++ {
		t.Count("improvements", 1)
		if !p.ord.better(m.cands[k], m.cands[k-1]) {
			t.Violate("trace/improve", "candidate %d (%s) is not better than candidate %d (%s)", k+1, m.cands[k], k, m.cands[k-1])
		}
	}
	if len(m.cands) > 0 {
		x, _ := instOf(out.Value.Val)
		if !out.Found || !x.eq(m.cands[len(m.cands)-1]) {
			t.Violate("trace/last", "the value reported is %s (found=%v), the last candidate %s", x, out.Found, m.cands[len(m.cands)-1])
		}
	} else if out.Found {
		t.Violate("trace/last", "a value is reported but no call was satisfiable")
	}
	if p.ord.linear && m.calls > tree.dim+2 {
		t.Violate("trace/long", "%d calls at dimension %d with an order of chains of at most %d", m.calls, tree.dim, tree.dim+1)
	}
	if m.calls >= tree.dim+1 && p.ord.linear {
		t.Count("runs_of_maximal_length", 1)
	}
	t.Count("candidates", len(m.cands))
	t.Distinct(p.String() + style + strings.Join(m.hist, ";"))
}

// walkSolver is a solver that improves in steps of one feature while it can.
type walkSolver struct {
	*inSolver
	start  Inst
	better func(a, b Inst) bool
	holds  func(x Inst) bool
	cur    Inst
	next   func(cur Inst) []Inst // instances to try, in place of those
}

func (s *walkSolver) Step(q compute.Encodable, ctx query.QContext) error {
	s.calls++
	enc, err := q.Encoding(ctx)
	if err != nil {
		return err
	}
	sv := loadCNF(enc, s.r)
	sv.RandPol = true
	try := func(x Inst) bool {
		return ctx.CNFVarExists(s.watch, 0, int(query.BOT)) && sv.Solve(valLits(ctx, s.watch, x)...)
	}
	ok := false
	if s.cur == nil {
		ok = try(s.start)
	} else if s.next != nil {
		for _, x := range s.next(s.cur) {
			if ok = try(x); ok {
				break
			}
		}
	} else {
		for _, k := range s.r.Perm(len(s.cur)) {
			x := s.cur.clone()
			if x[k] < 0 {
				x[k] = int8(s.r.Intn(2))
			} else {
				x[k] = -1
			}
			if s.better(x, s.cur) && s.holds(x) {
				ok = try(x)
				break
			}
		}
	}
	if !ok && !sv.Solve() {
		return compute.UnsatError
	}
	s.values = map[int]bool{}
	for i := 1; i <= enc.TopV(); i++ {
		s.values[i] = sv.Model(i)
	}
	x, err := decodeInst(ctx, s.watch, func(n int) bool { return s.values[n] })
	if err == nil {
		s.cur = x
	}
	return nil
}

// longRun makes long computations in large dimensions, where the optimum is
// known by argument instead of enumeration.
func longRun(t *T, i int) {
	r := t.Rand
	d := []int{20, 33, 40, 64, 65, 70, 100, 129}[r.Intn(8)]
	tree := randTree(r, d, 5+r.Intn(30))
	c := randInst(r, d, []float64{0, 0, 0.2, 0.5}[r.Intn(4)])
	v := pickStr(r, varNames)
	kind := r.Intn(4)
	var f *F
	switch kind {
	case 0:
		f = atom("sub", ct(botInst(d)), vt(v))
	case 1:
		f = atom("sub", vt(v), ct(c))
	case 2:
		f = atom("sub", ct(c), vt(v))
	default:
		c = randInst(r, d, 0)
		f = and(atom("sub", vt(v), ct(c)), &F{Op: "allc", Leaf: tree.class(c), T: []Term{vt(v)}})
	}
	holds := func(x Inst) bool {
		return f.eval(tree, &Env{v: map[string]Inst{v: x}, g: map[string]Inst{}})
	}
	smaller := r.Intn(2) == 0
	op := "sub"
	if d <= 40 && r.Intn(2) == 0 {
		op = "lel"
	}
	less := func(a, b Inst) bool { return subsumed(a, b) && !a.eq(b) }
	if op == "lel" {
		less = func(a, b Inst) bool { return a.bots() > b.bots() }
	}
	better := less
	mk := func(a, b Term) *F { return atom(op, a, b) }
	if !smaller {
		better = func(a, b Inst) bool { return less(b, a) }
		mk = func(a, b Term) *F { return atom(op, b, a) }
	}
	// start at the far end
	start := c.clone()
	switch {
	case smaller && kind != 1 && kind != 3:
		for k := range start {
			if start[k] < 0 {
				start[k] = int8(r.Intn(2))
			}
		}
	case !smaller && kind < 2:
		start = botInst(d)
	case !smaller && kind == 3:
		for _, k := range r.Perm(d) {
			x := start.clone()
			x[k] = -1
			if holds(x) {
				start = x
			}
		}
	}
	t.Describe("tree %s\nformula of %s: %s, order %s smaller=%v, from %s", tree, v, f, op, smaller, start)
	fg := func(v query.QVar) compute.Encodable { return f.build(&Gens{Unique: true}, nil) }
	og := func(v query.QVar, k query.QConst) compute.Encodable {
		x, _ := instOf(k.Val)
		return strictOf(mk)(string(v), x).build(&Gens{Unique: true, n: 1000}, nil)
	}
	m := &monSolver{watch: query.QVar(v), limit: 3*d + 20,
		in: &walkSolver{inSolver: &inSolver{r: r, watch: query.QVar(v)}, start: start, better: better, holds: holds}}
	out, err := compute.ComputeOptim(fg, og, query.QVar(v), query.BasicQContext(tree), m)
	t.Eval(1)
	if m.over {
		t.Violate("long/endless", "the search made %d solver calls and did not end", m.calls)
	}
	if err != nil {
		t.Violate("long/error", "the computation failed: %v", err)
	}
	if !out.Found {
		t.Violate("long/not-found", "no value was reported but %s satisfies the formula", start)
	}
	x, ok := instOf(out.Value.Val)
	if !ok || len(x) != d || !holds(x) {
		t.Violate("long/unsound", "the value %v does not satisfy the formula", out.Value.Val)
	}
	bad := false
	switch {
	case kind == 3 && smaller:
		// no feature can be left out
		for k := range x {
			if x[k] >= 0 {
				y := x.clone()
				y[k] = -1
				bad = bad || holds(y)
			}
		}
	case smaller && kind == 2:
		bad = !x.eq(c)
	case smaller:
		bad = x.bots() != d
	case kind == 1 || kind == 3:
		bad = !x.eq(c)
	default:
		bad = x.bots() != 0
	}
	if bad {
		t.Violate("long/not-optimal", "the value %s is not optimal", x)
	}
	if out.Calls != m.calls || m.unsatAt != m.calls || m.calls > d+2 {
		t.Violate("long/calls", "%d calls reported, %d made, unsatisfiable at %d, dimension %d", out.Calls, m.calls, m.unsatAt, d)
	}
	for k := 1; k < len(m.cands); k++ {
		if !better(m.cands[k], m.cands[k-1]) {
			t.Violate("long/improve", "candidate %d (%s) is not better than candidate %d (%s)", k+1, m.cands[k], k, m.cands[k-1])
		}
	}
	if last := m.cands[len(m.cands)-1]; !last.eq(x) {
		t.Violate("long/last", "the value reported is %s, the last candidate %s", x, last)
	}
	t.Count("long_candidates", len(m.cands))
	if m.calls > 60 {
		t.Count("runs_over_60_calls", 1)
	}
	t.Distinct(f.String() + fmt.Sprint(op, smaller, d))
}

// chainRun makes long computations over arbitrary chains of instances: the
// formula asks for one of a list, later ones are better.
func chainRun(t *T, i int) {
	r := t.Rand
	d := 1 + r.Intn(12)
	if r.Intn(4) == 0 {
		d = 13 + r.Intn(60)
	}
	tree := randTree(r, d, r.Intn(12))
	bots := -1 // undefined features of every instance
	if r.Intn(2) == 0 {
		bots = []int{0, 0, d, d / 2, r.Intn(d + 1)}[r.Intn(5)]
	}
	var list []Inst
	index := map[string]int{}
	want := []int{3, 10, 30, 80, 150}[r.Intn(5)]
	for try := 0; try < 4*want && len(list) < want; try++ {
		x := someInst(r, d)
		if bots >= 0 {
			x = randInst(r, d, 0)
			for _, k := range r.Perm(d)[:bots] {
				x[k] = -1
			}
		} else if r.Intn(20) == 0 {
			x = botInst(d)
		}
		if len(list) > 0 && r.Intn(3) == 0 {
			// like the one before but for a swap
			x = list[len(list)-1].clone()
			a, b := r.Intn(d), r.Intn(d)
			x[a], x[b] = x[b], x[a]
		}
		if _, ok := index[x.String()]; !ok {
			index[x.String()] = len(list)
			list = append(list, x)
		}
	}
	v := pickStr(r, varNames)
	t.Describe("chain %v of %q, tree %s", list, v, tree)
	oneOf := func(tag query.QVar, l []Inst) compute.Encodable {
		return bodyFunc(func(ctx query.QContext) (cnf.CNF, error) {
			v := ctx.ScopeVar(query.QVar(v))
			some := cnf.Clause{}
			cs := []cnf.Clause{}
			for k, x := range l {
				a := ctx.CNFVar(tag, k, 0)
				some = append(some, a)
				for f, b := range x {
					cs = append(cs, cnf.Clause{-a, ctx.CNFVar(v, f, int(fv(b)))})
				}
			}
			return cnf.FromClauses(append(cs, some)), nil
		})
	}
	og := func(_ query.QVar, c query.QConst) compute.Encodable {
		x, ok := instOf(c.Val)
		k, known := index[x.String()]
		if !ok || !known {
			t.Violate("chain/unsound", "an improvement over %v is asked for, which does not satisfy the formula", c.Val)
		}
		return oneOf("later", list[k+1:])
	}
	jump := 1 + r.Intn(3)*r.Intn(2)
	m := &monSolver{watch: query.QVar(v), limit: len(list) + 5,
		in: &walkSolver{inSolver: &inSolver{r: r, watch: query.QVar(v)}, start: list[r.Intn(1+len(list)/10)],
			next: func(cur Inst) []Inst {
				k := index[cur.String()] + 1 + r.Intn(jump)
				return list[min(k, len(list)-1):]
			}}}
	out, err := compute.ComputeOptim(func(query.QVar) compute.Encodable { return oneOf("one of", list) }, og,
		query.QVar(v), query.BasicQContext(tree), m)
	t.Eval(1)
	if m.over {
		t.Violate("chain/endless", "the search made %d solver calls over a chain of %d", m.calls, len(list))
	}
	if err != nil {
		t.Violate("chain/error", "the computation failed: %v", err)
	}
	if !out.Found {
		t.Violate("chain/not-found", "no value was reported, the chain has %d", len(list))
	}
	x, ok := instOf(out.Value.Val)
	if !ok || len(x) != d || !x.eq(list[len(list)-1]) {
		t.Violate("chain/not-optimal", "the value reported is %v, the best is %s", out.Value.Val, list[len(list)-1])
	}
	if out.Calls != m.calls || m.unsatAt != m.calls {
		t.Violate("chain/calls", "%d calls reported, %d made, unsatisfiable at %d", out.Calls, m.calls, m.unsatAt)
	}
	for k := 1; k < len(m.cands); k++ {
		if index[m.cands[k].String()] <= index[m.cands[k-1].String()] {
			t.Violate("chain/improve", "candidate %d (%s) is not better than candidate %d (%s)", k+1, m.cands[k], k, m.cands[k-1])
		}
	}
	t.Count("chain_candidates", len(m.cands))
	t.Distinct(fmt.Sprint(len(list), d, bots, v, list[0], out.Value))
}

// monSolver records the history at the solver interface.
type monSolver struct {
	in      compute.Solver
	watch   query.QVar
	calls   int
	limit   int
	over    bool
	unsatAt int
	cands   []Inst
	hist    []string
}

func (m *monSolver) Step(q compute.Encodable, ctx query.QContext) error {
	m.calls++
	if m.calls > m.limit {
		m.over = true
		return errors.New("too many calls")
	}
	err := m.in.Step(q, ctx)
	switch {
	case err == nil:
		vs, verr := m.in.Values([]query.QVar{m.watch}, ctx)
		if verr != nil {
			m.hist = append(m.hist, "sat, no value: "+verr.Error())
			break
		}
		x, _ := instOf(vs[0].Val)
		m.cands = append(m.cands, x)
		m.hist = append(m.hist, "sat "+x.String())
	case errors.Is(err, compute.UnsatError):
		if m.unsatAt == 0 {
			m.unsatAt = m.calls
		}
		m.hist = append(m.hist, "unsat")
	default:
		m.hist = append(m.hist, "error")
	}
	return err
}

func (m *monSolver) Values(vars []query.QVar, ctx query.QContext) ([]query.QConst, error) {
	return m.in.Values(vars, ctx)
}

// historyCase uses one context and one solver for many operations. In some
// cases the operations alternate between that context and one of a second
// tree of the same dimension and number of nodes; outputs are kept and looked
// at again after the last operation.
func historyCase(t *T, i int, exec bool) {
	r := t.Rand
	tree := midTree(r, 1, 3)
	big := i%12 == 11
	if big {
		tree = denseTree(r, 5, 20+r.Intn(11))
		if r.Intn(3) > 0 {
			tree.ruleLabels(r)
		}
	}
	trees := []*Tree{tree}
	ctxs := []query.QContext{query.BasicQContext(tree)}
	if big || r.Intn(3) == 0 {
		tw := tree.twin(r)
		trees = append(trees, tw)
		ctxs = append(ctxs, query.BasicQContext(tw))
		t.Count("histories_over_two_trees", 1)
	}
	type kept struct {
		out query.QConst
		val Inst
	}
	var outs []kept
	var sv compute.Solver = &inSolver{r: r}
	if exec {
		w := newWork(t)
		defer w.done()
		var dir string
		sv, dir = w.solver(t, "gxsolver", SolverCfg{Seed: t.Int63()})
		defer func() { t.Count("exec_calls", countCalls(dir)) }()
	}
	n := 2 + r.Intn(6)
	if exec {
		n = 2 + r.Intn(3)
	}
	t.Describe("trees %v, %d operations on one context per tree, exec=%v", trees, n, exec)
	var last string
	ops := atomOps
	if len(trees) > 1 && r.Intn(3) > 0 {
		// the same components for both trees
		ops = nil
		for len(ops) < 1+r.Intn(2) {
			ops = append(ops, pickStr(r, atomOps))
		}
	}
	cfg := closedCfg{2, 2, ops}
	if big {
		cfg = closedCfg{1, 1, ops}
	}
	for k := 0; k < n; k++ {
		w := r.Intn(len(trees))
		if k > 0 && r.Intn(6) == 0 {
			// the caller writes another tree of this size over one of its
			// trees and makes a new context for it
			copy(trees[w].nodes, trees[w].twin(r).nodes)
			ctxs[w] = query.BasicQContext(trees[w])
			t.Log("tree %d becomes %s", w, trees[w])
			t.Count("trees_overwritten", 1)
		}
		tree, ctx := trees[w], ctxs[w]
		if len(trees) > 1 {
			t.Log("tree %d", w)
		}
		switch c := r.Intn(12); {
		case c < 5 && !exec && r.Intn(8) == 0 && (tree.dim == 2 || tree.dim == 3 || tree.dim == 4):
			// a long one
			o := chainOn(t, tree)
			t.Log("%s", o.desc)
			out, err := o.run(ctx, sv)
			t.Eval(1)
			t.Count("long_optimisations", 1)
			if err != nil {
				t.Violate("history/error", "operation %d failed: %v", k+1, err)
			}
			o.check(t, "history", out)
		case c < 5:
			q, want, desc, _ := genComb(r, tree, r.Intn(2), cfg, r.Intn(2) == 0)
			t.Log("Sat %s", desc)
			got, err := q.Sat(ctx, sv)
			t.Eval(1)
			t.Count("evaluations", 1)
			if err != nil {
				t.Violate("history/error", "operation %d failed: %v", k+1, err)
			}
			if got != want {
				t.Violate("history/sat", "operation %d: evaluated to %v, the truth value is %v", k+1, got, want)
			}
			last = desc
		case c < 8:
			p := randProblemOf(r, tree, ops)
			t.Log("ComputeOptim %s", p)
			fg, og := p.funcs()
			out, err := compute.ComputeOptim(fg, og, query.QVar(p.v), ctx, sv)
			t.Eval(1)
			t.Count("optimisations", 1)
			if err != nil {
				t.Violate("history/error", "operation %d failed: %v", k+1, err)
			}
			p.check(t, "history/optim", out)
			if out.Found {
				x, _ := instOf(out.Value.Val)
				outs = append(outs, kept{out.Value, x})
			}
			last = p.String()
		case c < 10:
			// an encoding that fails inside quantifiers
			f := closedF(r, tree, 1+r.Intn(3), cfg)
			at := 1 + r.Intn(4)
			boom := errors.New("injected")
			cnt := 0
			q := failAt(f, &Gens{}, func() error {
				cnt++
				if cnt == at {
					return boom
				}
				return nil
			})
			t.Log("failing Sat %s at atom %d", f, at)
			got, err := compute.QDTFAtom{Query: q}.Sat(ctx, sv)
			t.Eval(1)
			t.Count("failing_operations", 1)
			if cnt >= at && !errors.Is(err, boom) {
				t.Violate("history/fail", "the encoding error was not reported: %v, %v", got, err)
			}
			if cnt < at {
				if want := closedTruth(f, tree); err != nil || got != want {
					t.Violate("history/sat", "operation %d: evaluated to %v, %v; the truth value is %v", k+1, got, err, want)
				}
			}
		case c < 11:
			// use the context directly
			t.Log("direct use of the context")
			f := closedF(r, tree, 1+r.Intn(3), cfg)
			if _, err := f.build(&Gens{}, nil).Encoding(ctx); err != nil {
				t.Violate("history/error", "encoding failed: %v", err)
			}
			if r.Intn(2) == 0 {
				ctx.CNFVar(query.QVar(pickStr(r, varNames)), 0, int(query.BOT))
			}
		default:
			t.Log("Reset")
			ctx.Reset()
			f := closedF(r, tree, 1+r.Intn(3), cfg)
			a, err1 := f.build(&Gens{}, nil).Encoding(ctx)
			b, err2 := f.build(&Gens{}, nil).Encoding(query.BasicQContext(tree))
			t.Eval(1)
			t.Count("resets", 1)
			if err1 != nil || err2 != nil || string(formulaBytes(a)) != string(formulaBytes(b)) {
				t.Violate("history/reset", "a reset context encodes %s differently from a new one (%v, %v)", f, err1, err2)
			}
			ctx.Reset()
		}
	}
	for k, o := range outs {
		t.Eval(1)
		t.Count("outputs_looked_at_again", 1)
		if x, _ := instOf(o.out.Val); !x.eq(o.val) {
			t.Violate("history/output", "output %d was %s and is %s after later operations", k+1, o.val, x)
		}
	}
	t.Distinct(fmt.Sprint(trees) + last + fmt.Sprint(t.Index))
}

// resetCase uses a context in any way, including scopes left open, resets it
// and compares it with a new one.
func resetCase(t *T, i int) {
	r := t.Rand
	tree := midTree(r, 1, 3)
	t.Describe("tree %s", tree)
	ctx := query.BasicQContext(tree)
	for n := 1 + r.Intn(12); n > 0; n-- {
		v := query.QVar(pickStr(r, varNames))
		id := pickStr(r, guardNames)
		switch r.Intn(7) {
		case 0:
			ctx.AddScope(id)
			t.Log("AddScope %q", id)
		case 1:
			ctx.SetScope(r.Intn(3), someInst(r, tree.dim).vals())
			t.Log("SetScope")
		case 2:
			ctx.AddVar(v)
			t.Log("AddVar %q", v)
		case 3:
			ctx.CNFVar(v, r.Intn(3), r.Intn(3))
		case 4:
			top := r.Intn(50)
			if r.Intn(3) == 0 {
				top = 1 << r.Intn(40)
			}
			ctx.UpdateTopV(top)
			t.Log("UpdateTopV %d", top)
		case 5:
			ctx.PopScope()
			t.Log("PopScope")
		case 6:
			func() {
				defer func() { recover() }()
				ctx.ScopeVar(v)
			}()
		}
	}
	ctx.Reset()
	t.Log("Reset")
	fresh := query.BasicQContext(tree)
	if ctx.TopV() != fresh.TopV() {
		t.Violate("reset/topv", "top value %d after a reset", ctx.TopV())
	}
	for k := 0; k < 3; k++ {
		f := closedF(r, tree, 1+r.Intn(3), closedCfg{2, 2, atomOps})
		uni := r.Intn(2) == 0
		a, err1 := f.build(&Gens{Unique: uni}, nil).Encoding(ctx)
		b, err2 := f.build(&Gens{Unique: uni}, nil).Encoding(fresh)
		t.Eval(1)
		t.Count("resets", 1)
		if err1 != nil || err2 != nil || string(formulaBytes(a)) != string(formulaBytes(b)) {
			t.Violate("reset/encoding", "a reset context encodes %s differently from a new one (%v, %v)", f, err1, err2)
		}
	}
	// variables of the past are unknown, in any scope
	for _, c := range []query.QContext{ctx} {
		depth := r.Intn(3)
		for k := 0; k < depth; k++ {
			c.AddScope(guardNames[k])
			fresh.AddScope(guardNames[k])
		}
		for _, v := range varNames {
			if r.Intn(3) == 0 {
				c.AddVar(query.QVar(v))
				fresh.AddVar(query.QVar(v))
			}
			a, b := c.ScopeVar(query.QVar(v)), fresh.ScopeVar(query.QVar(v))
			if a != b {
				t.Violate("reset/scope", "after a reset the scoped name of %q is %q, on a new context %q", v, a, b)
			}
		}
	}
	t.Distinct(strings.Join(t.trace, ";"))
}

// failAt builds the query with every component preceded by a hook that may
// fail its encoding.
func failAt(f *F, g *Gens, hook func() error) logop.LogOpQ {
	var extra Extra
	extra = func(f *F) logop.LogOpQ {
		in := f.build(g, nil)
		return bodyFunc(func(ctx query.QContext) (c cnfT, err error) {
			if err := hook(); err != nil {
				return c, err
			}
			return in.Encoding(ctx)
		})
	}
	return f.build(g, extra)
}

func init() {
	styles := []string{"random", "random", "slow", "any", "first", "last"}
	register(&Prop{ID: "C12", Level: "exploration",
		Rule:   "random optimisation problems (formula with optional quantifiers, order, tree) run with ComputeOptim; the result is compared with the set of satisfying instances found by brute force; solver choices: random models, a random/first/last/least-improving candidate; distinct = distinct (problem, choice style)",
		Assume: semAssume, Need: []string{"optimum_found", "optimum_none", "exec_calls"},
		Streams: []Stream{
			{Name: "small", Quick: 5000, Thor: 100000, Run: func(t *T, i int) { optimCase(t, midTree(t.Rand, 1, 3), styles) }},
			{Name: "mid", Quick: 800, Thor: 20000, Run: func(t *T, i int) { optimCase(t, midTree(t.Rand, 4, 5), styles) }},
			{Name: "large", Quick: 160, Thor: 4000, Run: func(t *T, i int) {
				optimCase(t, midTree(t.Rand, 6, 7), []string{"random"})
			}},
			{Name: "long", Quick: 60, Thor: 2000, Run: longRun},
			{Name: "chain", Quick: 400, Thor: 12000, Run: chainRun},
			{Name: "exec", Quick: 200, Thor: 3000, Run: func(t *T, i int) {
				p := randProblem(t.Rand, midTree(t.Rand, 1, 4))
				w := newWork(t)
				defer w.done()
				cfg := SolverCfg{Seed: t.Int63(), Width: t.Intn(30) - 1, Spaces: t.Intn(2) == 0, Comments: t.Intn(2) == 0, Shuffle: t.Intn(2) == 0, Partial: t.Intn(2) == 0}
				t.Describe("%s\nsolver %+v", p, cfg)
				sv, dir := w.solver(t, "gxsolver", cfg)
				fg, og := p.funcs()
				out, err := compute.ComputeOptim(fg, og, query.QVar(p.v), query.BasicQContext(p.tree), sv)
				t.Eval(1)
				if err != nil {
					t.Violate("optim/error-exec", "the computation failed: %v", err)
				}
				t.Count("exec_calls", countCalls(dir))
				p.check(t, "optim-exec", out)
				t.Distinct(p.String())
			}},
		}})
	register(&Prop{ID: "C13", Level: "exploration",
		Rule:   "a monitor at the solver interface records every call and candidate of an optimum computation and checks the history against the specification (strict improvement, stop at the first failure, exact count, length bound for linear orders); the solver improves as slowly as possible, randomly, or by position; distinct = distinct (problem, style, history)",
		Assume: semAssume, Need: []string{"improvements", "runs_of_maximal_length", "exec_calls"},
		Streams: []Stream{
			{Name: "slow", Quick: 3000, Thor: 60000, Run: func(t *T, i int) { optimTrace(t, midTree(t.Rand, 1, 4), []string{"slow"}, false) }},
			{Name: "any", Quick: 3000, Thor: 60000, Run: func(t *T, i int) { optimTrace(t, midTree(t.Rand, 1, 4), styles, false) }},
			{Name: "large", Quick: 100, Thor: 2000, Run: func(t *T, i int) {
				optimTrace(t, midTree(t.Rand, 5, 6), []string{"slow", "random"}, false)
			}},
			{Name: "long", Quick: 60, Thor: 2000, Run: longRun},
			{Name: "chain", Quick: 400, Thor: 12000, Run: chainRun},
			{Name: "exec", Quick: 100, Thor: 1500, Run: func(t *T, i int) { optimTrace(t, midTree(t.Rand, 1, 4), styles, true) }},
		}})
	register(&Prop{ID: "C17", Level: "exploration",
		Rule:   "random sequences of evaluations, optimisations, failing encodings, direct encodings and resets on one context and one solver; every answer is compared with brute force, and a reset context's encodings with a new context's, byte by byte; distinct = distinct (tree, sequence)",
		Assume: semAssume, Need: []string{"evaluations", "optimisations", "failing_operations", "long_optimisations", "resets", "exec_calls"},
		Streams: []Stream{
			{Name: "inproc", Quick: 8000, Thor: 120000, Run: func(t *T, i int) { historyCase(t, i, false) }},
			{Name: "exec", Quick: 200, Thor: 3000, Run: func(t *T, i int) { historyCase(t, i, true) }},
			{Name: "reset", Quick: 18000, Thor: 300000, Run: resetCase},
		}})
}
