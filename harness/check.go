package main

import (
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"strconv"
	"strings"

	"github.com/jtcaraball/goexpdt/cnf"
	"github.com/jtcaraball/goexpdt/compute"
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/logop"

	"verifharness/sat"
)

func toInts(cs []cnf.Clause) [][]int {
	out := make([][]int, len(cs))
	for i, c := range cs {
		out[i] = append([]int{}, c...)
	}
	return out
}

func loadCNF(c cnf.CNF, r *rand.Rand) *sat.Solver {
	s, k := c.Clauses()
	sv := sat.New(c.TopV(), r)
	for _, cl := range s {
		sv.Add(cl)
	}
	for _, cl := range k {
		sv.Add(cl)
	}
	return sv
}

// confirmUnsat decides by an independent solver that the formula with the
// assumptions has no model. It is used before an alarm that rests on an
// unsatisfiable answer.
func confirmUnsat(c cnf.CNF, assume []int) bool {
	s, k := c.Clauses()
	all := append(toInts(s), toInts(k)...)
	for _, a := range assume {
		all = append(all, []int{a})
	}
	if p, err := exec.LookPath("kissat"); err == nil {
		f, err := os.CreateTemp("", "confirm")
		if err == nil {
			defer os.Remove(f.Name())
			top := 0
			for _, cl := range all {
				for _, l := range cl {
					if l < 0 {
						l = -l
					}
					if l > top {
						top = l
					}
				}
			}
			fmt.Fprintf(f, "p cnf %d %d\n", top, len(all))
			for _, cl := range all {
				for _, l := range cl {
					fmt.Fprintf(f, "%d ", l)
				}
				fmt.Fprintln(f, "0")
			}
			f.Close()
			cmd := exec.Command(p, "-q", f.Name())
			cmd.Run()
			switch cmd.ProcessState.ExitCode() {
			case 20:
				return true
			case 10:
				return false
			}
		}
	}
	top := c.TopV()
	for _, cl := range all {
		for _, l := range cl {
			if l < 0 {
				l = -l
			}
			if l > top {
				top = l
			}
		}
	}
	r, done := sat.Naive(top, all, nil, 200000)
	return !r || !done
}

// valLits are the literals that fix a declared variable to an instance.
func valLits(ctx query.QContext, v query.QVar, x Inst) []int {
	out := make([]int, len(x))
	for i, a := range x {
		out[i] = ctx.CNFVar(v, i, int(fv(a)))
	}
	return out
}

// decodeInst reads a variable's instance from a model.
func decodeInst(ctx query.QContext, v query.QVar, val func(int) bool) (Inst, error) {
	out := make(Inst, ctx.Dim())
	for i := range out {
		n := 0
		for _, f := range []query.FeatV{query.BOT, query.ZERO, query.ONE} {
			if !ctx.CNFVarExists(v, i, int(f)) {
				return nil, fmt.Errorf("variable %q has no CNF variable for feature %d value %d", v, i, f)
			}
			if val(ctx.CNFVar(v, i, int(f))) {
				n++
				switch f {
				case query.BOT:
					out[i] = -1
				case query.ZERO:
					out[i] = 0
				default:
					out[i] = 1
				}
			}
		}
		if n != 1 {
			return nil, fmt.Errorf("feature %d of %q has %d values", i, v, n)
		}
	}
	return out, nil
}

// wrapVars declares variables around a query.
func wrapVars(q logop.LogOpQ, vars []string) logop.LogOpQ {
	for i := len(vars) - 1; i >= 0; i-- {
		q = logop.WithVar{I: query.QVar(vars[i]), Q: q}
	}
	return q
}

// valuations lists valuations of the variables: all of them if at most limit,
// otherwise a biased sample.
func valuations(r *rand.Rand, t *Tree, vars []string, limit, sample int, hints []Inst) []map[string]Inst {
	total := 1
	for range vars {
		for i := 0; i < t.dim; i++ {
			total *= 3
			if total > limit {
				total = limit + 1
			}
		}
	}
	if len(vars) == 0 {
		return []map[string]Inst{{}}
	}
	if total <= limit {
		all := cachedInsts(t.dim)
		out := []map[string]Inst{{}}
		for _, v := range vars {
			var next []map[string]Inst
			for _, m := range out {
				for _, x := range all {
					n := map[string]Inst{v: x}
					for k, y := range m {
						n[k] = y
					}
					next = append(next, n)
				}
			}
			out = next
		}
		return out
	}
	nodes := t.nodeInsts()
	out := make([]map[string]Inst, 0, sample)
	for k := 0; k < sample; k++ {
		m := map[string]Inst{}
		pool := []Inst{}
		pool = append(pool, hints...)
		fullBias := r.Intn(3) == 0
		for _, v := range vars {
			var x Inst
			switch c := r.Intn(10); {
			case c < 3 && len(pool) > 0:
				x = pool[r.Intn(len(pool))].clone()
				// a few changes
				for n := r.Intn(3); n > 0; n-- {
					x[r.Intn(len(x))] = int8(r.Intn(3)) - 1
				}
			case c < 5:
				x = nodes[r.Intn(len(nodes))].clone()
				for n := r.Intn(3); n > 0; n-- {
					x[r.Intn(len(x))] = int8(r.Intn(3)) - 1
				}
			case c < 6 && len(pool) > 0:
				// complement
				x = pool[r.Intn(len(pool))].clone()
				for i := range x {
					if x[i] >= 0 {
						x[i] = 1 - x[i]
					}
				}
			default:
				x = someInst(r, t.dim)
			}
			if fullBias {
				for i := range x {
					if x[i] < 0 {
						x[i] = int8(r.Intn(2))
					}
				}
			}
			m[v] = x
			pool = append(pool, x)
		}
		out = append(out, m)
	}
	return out
}

// boundary adds to the sampled valuations pairs that differ in the value of
// one feature and in the truth of the formula: the walk from a valuation where
// it is true to one where it is false is stopped where the truth changes.
func boundary(r *rand.Rand, dim int, vars []string, ms []map[string]Inst, truth func(map[string]Inst) bool, n int) []map[string]Inst {
	var yes, no []map[string]Inst
	for _, m := range ms {
		if truth(m) {
			yes = append(yes, m)
		} else {
			no = append(no, m)
		}
	}
	if len(yes) == 0 || len(no) == 0 {
		return nil
	}
	var out []map[string]Inst
	for ; n > 0; n-- {
		from, to := yes[r.Intn(len(yes))], no[r.Intn(len(no))]
		side := true
		if r.Intn(2) == 0 {
			from, to, side = to, from, false
		}
		cur := map[string]Inst{}
		for _, v := range vars {
			cur[v] = from[v].clone()
		}
		for _, k := range r.Perm(len(vars) * dim) {
			v, i := vars[k/dim], k%dim
			if cur[v][i] == to[v][i] {
				continue
			}
			old := map[string]Inst{}
			for _, w := range vars {
				old[w] = cur[w].clone()
			}
			cur[v][i] = to[v][i]
			if truth(cur) != side {
				out = append(out, old, cur)
				break
			}
		}
	}
	return out
}

func valString(vars []string, m map[string]Inst) string {
	var sb strings.Builder
	for _, v := range vars {
		fmt.Fprintf(&sb, "%s=%s ", v, m[v])
	}
	return sb.String()
}

// profileOpts of a profile check.
type profileOpts struct {
	limit, sample int
	bound         int // boundary pairs of sampled valuations to add
	// guards binds guarded constants before encoding, as an enclosing
	// quantifier would.
	guards map[string]Inst
	order  []string // guard order
	key    string
	hints  []Inst
	extra  Extra
	only   []map[string]Inst // valuations to use instead
}

// profile encodes f with its free variables declared and compares, for each
// valuation, the satisfiability of the encoding with the reference.
func profile(t *T, tree *Tree, f *F, g *Gens, o profileOpts) {
	vars := f.free()
	t.Describe("tree %s\nformula %s\nguards %v", tree, f, o.guards)
	ctx := query.BasicQContext(tree)
	q := f.build(g, o.extra)
	// constants a caller guards are bound by scopes, as in the quantifier;
	// the variables are declared outside of it
	q = wrapVars(scoped{q, o.guards, o.order}, vars)
	enc, err := q.Encoding(ctx)
	t.Eval(1)
	if err != nil {
		t.Violate(o.key+"/error", "encoding a valid formula failed: %v", err)
	}
	checkTop(t, enc, ctx, o.key)
	sv := loadCNF(enc, t.Rand)
	env := &Env{v: map[string]Inst{}, g: map[string]Inst{}}
	for k, x := range o.guards {
		env.g[k] = x
	}
	nt, nf := 0, 0
	ms := o.only
	if ms == nil {
		ms = valuations(t.Rand, tree, vars, o.limit, o.sample, append(f.consts(), o.hints...))
	}
	if o.bound > 0 {
		b := boundary(t.Rand, tree.dim, vars, ms, func(m map[string]Inst) bool {
			env.v = m
			return f.eval(tree, env)
		}, o.bound)
		t.Count("boundary_valuations", len(b))
		ms = append(ms, b...)
	}
	for _, m := range ms {
		var as []int
		for _, v := range vars {
			as = append(as, valLits(ctx, query.QVar(v), m[v])...)
		}
		env.v = m
		want := f.eval(tree, env)
		got := sv.Solve(as...)
		t.Eval(1)
		if want {
			nt++
		} else {
			nf++
		}
		if want == got {
			continue
		}
		if !got && !confirmUnsat(enc, as) {
			panic("harness: solvers disagree")
		}
		t.Violate(o.key, "at %s the formula is %v but its encoding is satisfiable=%v",
			valString(vars, m), want, got)
	}
	t.Count("valuations_true", nt)
	t.Count("valuations_false", nf)
	if nt > 0 && nf > 0 {
		t.Count("contingent_formulas", 1)
	}
	t.Distinct(fmt.Sprintf("%s | %s | %v", f, tree, o.guards))
}

// checkTop checks what the encoding promises about variable numbers: every
// variable used is covered by the formula's and the context's top value.
func checkTop(t *T, c cnf.CNF, ctx query.QContext, key string) {
	s, k := c.Clauses()
	mx := 0
	for _, cs := range [][]cnf.Clause{s, k} {
		for _, cl := range cs {
			for _, l := range cl {
				if l == 0 {
					t.Violate(key+"/zero-literal", "clause with literal 0: %v", cl)
				}
				if l < 0 {
					l = -l
				}
				if l > mx {
					mx = l
				}
			}
		}
	}
	if mx > c.TopV() {
		t.Violate(key+"/topv", "formula uses variable %d above its top variable %d", mx, c.TopV())
	}
	if mx > ctx.TopV() {
		t.Violate(key+"/ctx-topv", "formula uses variable %d above the context's top variable %d", mx, ctx.TopV())
	}
}

// formulaBytes serialises a formula: by its own method when it is small, by
// the same format here when it is large (the method builds one string by
// appending, which for large formulas is mostly garbage collection).
func formulaBytes(c cnf.CNF) []byte {
	s, k := c.Clauses()
	n := 0
	for _, cs := range [][]cnf.Clause{s, k} {
		for _, cl := range cs {
			n += len(cl) + 1
		}
	}
	if n <= 3000 {
		return c.ToBytes()
	}
	b := fmt.Appendf(make([]byte, 0, 8*n), "p cnf %d %d\n", c.TopV(), len(s)+len(k))
	for _, cs := range [][]cnf.Clause{s, k} {
		for _, cl := range cs {
			for _, l := range cl {
				b = strconv.AppendInt(b, int64(l), 10)
				b = append(b, ' ')
			}
			b = append(b, "0\n"...)
		}
	}
	return b
}

// scoped encodes q inside scopes that bind constants.
type scoped struct {
	q      logop.LogOpQ
	guards map[string]Inst
	order  []string
}

func (s scoped) Encoding(ctx query.QContext) (cnf.CNF, error) {
	n := 0
	for i, id := range s.order {
		if _, ok := s.guards[id]; !ok {
			continue
		}
		ctx.AddScope(id)
		n++
		if err := ctx.SetScope(i, s.guards[id].vals()); err != nil {
			return cnf.CNF{}, err
		}
	}
	c, err := s.q.Encoding(ctx)
	for ; n > 0; n-- {
		if perr := ctx.PopScope(); perr != nil {
			return c, perr
		}
	}
	return c, err
}

// solver in process ------------------------------------------------------

// inSolver is a compute.Solver over the harness's SAT solver, with arbitrary
// choice of models.
type inSolver struct {
	r *rand.Rand
	// pick chooses a model given the candidate instances of the watched
	// variable (nil: a random model).
	watch query.QVar
	pick  func(cands []Inst) int
	// fail returns an error to give instead of an answer at call n (from 1).
	fail    func(n int) error
	failVal func(n int) error
	calls   int
	vcalls  int
	sats    int
	hist    []string
	got     []query.QConst
	model   *sat.Solver
	values  map[int]bool
	after   func()
	// badModel reports a model in which a declared variable has no value.
	badModel error
}

func (s *inSolver) Step(q compute.Encodable, ctx query.QContext) error {
	s.calls++
	if s.after != nil {
		defer s.after()
	}
	if s.fail != nil {
		if err := s.fail(s.calls); err != nil {
			return err
		}
	}
	enc, err := q.Encoding(ctx)
	if err != nil {
		return err
	}
	sv := loadCNF(enc, s.r)
	sv.RandPol = true
	var as []int
	if s.pick != nil && ctx.CNFVarExists(s.watch, 0, int(query.BOT)) {
		var cands []Inst
		for _, x := range cachedInsts(ctx.Dim()) {
			if sv.Solve(valLits(ctx, s.watch, x)...) {
				cands = append(cands, x)
			}
		}
		if len(cands) > 0 {
			as = valLits(ctx, s.watch, cands[s.pick(cands)])
		}
	}
	if !sv.Solve(as...) {
		s.hist = append(s.hist, "unsat")
		return compute.UnsatError
	}
	s.sats++
	s.hist = append(s.hist, "sat")
	s.model = sv
	s.values = map[int]bool{}
	for i := 1; i <= enc.TopV(); i++ {
		s.values[i] = sv.Model(i)
	}
	return nil
}

func (s *inSolver) Values(vars []query.QVar, ctx query.QContext) ([]query.QConst, error) {
	s.vcalls++
	if s.failVal != nil {
		if err := s.failVal(s.vcalls); err != nil {
			return nil, err
		}
	}
	if s.values == nil {
		return nil, fmt.Errorf("no model")
	}
	out := make([]query.QConst, len(vars))
	for i, v := range vars {
		x, err := decodeInst(ctx, v, func(n int) bool { return s.values[n] })
		if err != nil {
			s.badModel = err
			return nil, err
		}
		out[i] = query.QConst{Val: x.vals()}
	}
	s.got = append(s.got, out...)
	return out, nil
}

// atLeast one of.
func pickStr(r *rand.Rand, l []string) string { return l[r.Intn(len(l))] }

func solveInts(nv int, cls [][]int) bool {
	s := sat.New(nv, nil)
	for _, c := range cls {
		s.Add(c)
	}
	return s.Solve()
}
