package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"os/signal"
	"path/filepath"
	"sort"
	"strings"
	"syscall"

	"github.com/jtcaraball/goexpdt/cnf"

	"verifharness/sat"
)

// Properties C08, C09 and C10.

// refF is the meaning of a formula over the original variables, as sets of
// assignments (bit a of the set is assignment a).
type refF struct {
	sem, con uint64
}

func clauseSet(cs []cnf.Clause, n int) uint64 {
	var out uint64
	for a := 0; a < 1<<n; a++ {
		ok := true
		for _, c := range cs {
			h := false
			for _, l := range c {
				v := l
				if v < 0 {
					v = -v
				}
				if (a>>(v-1)&1 == 1) == (l > 0) {
					h = true
					break
				}
			}
			if !h {
				ok = false
				break
			}
		}
		if ok {
			out |= 1 << a
		}
	}
	return out
}

func randClause(r *rand.Rand, n int) cnf.Clause {
	k := r.Intn(5)
	if r.Intn(12) > 0 && k == 0 {
		k = 1 + r.Intn(3)
	}
	wide, signs := r.Intn(12) == 0, 0
	if wide {
		// long, of few literals many times over
		k, signs = 5+r.Intn(30), r.Int()
	}
	c := make(cnf.Clause, 0, k+r.Intn(3))
	for ; k > 0; k-- {
		l := 1 + r.Intn(n)
		if wide {
			if signs>>l&1 == 1 {
				l = -l
			}
			c = append(c, l)
			continue
		}
		if r.Intn(2) == 0 {
			l = -l
		}
		if len(c) > 0 && r.Intn(8) == 0 {
			l = c[r.Intn(len(c))] // repeated
			if r.Intn(2) == 0 {
				l = -l // tautology
			}
		}
		c = append(c, l)
	}
	return c
}

func randClauses(r *rand.Rand, n, max int) []cnf.Clause {
	k := r.Intn(max + 1)
	if r.Intn(25) == 0 {
		k = r.Intn(40)
	}
	cs := make([]cnf.Clause, 0, k+r.Intn(4))
	for ; k > 0; k-- {
		if len(cs) > 0 && r.Intn(8) == 0 {
			cs = append(cs, cs[r.Intn(len(cs))])
			continue
		}
		cs = append(cs, randClause(r, n))
	}
	return cs
}

func usedVars(cs ...[]cnf.Clause) map[int]bool {
	out := map[int]bool{}
	for _, l := range cs {
		for _, c := range l {
			for _, x := range c {
				if x < 0 {
					x = -x
				}
				out[x] = true
			}
		}
	}
	return out
}

func clauseKey(c cnf.Clause) string {
	d := append([]int{}, c...)
	sort.Ints(d)
	return fmt.Sprint(d)
}

func clauseBag(cs ...[]cnf.Clause) map[string]int {
	out := map[string]int{}
	for _, l := range cs {
		for _, c := range l {
			out[clauseKey(c)]++
		}
	}
	return out
}

// checkMeaning compares a formula with its reference meaning over all
// assignments of the original variables.
func checkMeaning(t *T, f cnf.CNF, w refF, n int, lab labels, key string) {
	s, c := f.Clauses()
	top := f.TopV()
	for v := range usedVars(s, c) {
		if v == 0 {
			t.Violate(key+"/zero", "literal 0 in a clause")
		}
		if v > top {
			t.Violate(key+"/topv", "variable %d is in use but the top variable is %d", v, top)
		}
	}
	if lab != nil {
		s, c, top = lab.compact(s, c)
	}
	if top < n {
		top = n
	}
	all, con := sat.New(top, nil), sat.New(top, nil)
	for _, cl := range s {
		all.Add(cl)
	}
	for _, cl := range c {
		all.Add(cl)
		con.Add(cl)
	}
	for a := 0; a < 1<<n; a++ {
		as := make([]int, n)
		for i := range as {
			as[i] = i + 1
			if a>>i&1 == 0 {
				as[i] = -(i + 1)
			}
		}
		want := (w.sem&w.con)>>a&1 == 1
		t.Eval(1)
		if got := all.Solve(as...); got != want {
			t.Violate(key+"/meaning", "at assignment %v the formula should be %v but is satisfiable=%v\nsemantic %v\nconsistency %v", as, want, got, s, c)
		}
		if want := w.con>>a&1 == 1; con.Solve(as...) != want {
			t.Violate(key+"/consistency", "at assignment %v the consistency clauses should hold=%v\nsemantic %v\nconsistency %v", as, want, s, c)
		}
		if want {
			t.Count("assignments_true", 1)
		} else {
			t.Count("assignments_false", 1)
		}
	}
	full := uint64(1)<<(1<<n) - 1
	if n == 6 {
		full = ^uint64(0)
	}
	checkTrivial(t, f, s, c, key)
	if f.TriviallyTrue() {
		t.Count("trivially_true", 1)
		if w.sem&w.con != full {
			t.Violate(key+"/trivially-true", "reported trivially true but it is not valid\nsemantic %v\nconsistency %v", s, c)
		}
	}
	if f.TriviallyFalse() {
		t.Count("trivially_false", 1)
		if w.sem&w.con != 0 {
			t.Violate(key+"/trivially-false", "reported trivially false but it is satisfiable\nsemantic %v\nconsistency %v", s, c)
		}
	}
}

// checkTrivial wants the formulas without clauses, and those with an empty
// one, to be reported as such.
func checkTrivial(t *T, f cnf.CNF, s, c []cnf.Clause, key string) {
	if len(s)+len(c) == 0 && !f.TriviallyTrue() {
		t.Violate(key+"/trivially-true", "a formula without clauses is not reported trivially true")
	}
	for k, cl := range append(s, c...) {
		if len(cl) == 0 && !f.TriviallyFalse() {
			t.Violate(key+"/trivially-false", "a formula whose clause %d of %d semantic and %d consistency clauses is empty is not reported trivially false", k, len(s), len(c))
		}
	}
}

// labels are the numbers the original variables have in a formula, in
// ascending order; nil stands for 1, 2, ...
type labels []int

func randLabels(r *rand.Rand, n int) labels {
	x := []int{3, 100, 250, 32760, 65530, 1 << 20, 1<<21 - 2}[r.Intn(7)]
	l := make(labels, n)
	for i := range l {
		x += 1 + r.Intn(3)
		l[i] = x
	}
	return l
}

func (l labels) put(cs []cnf.Clause) []cnf.Clause {
	if l == nil {
		return cs
	}
	out := make([]cnf.Clause, len(cs))
	for i, c := range cs {
		out[i] = make(cnf.Clause, len(c))
		for j, x := range c {
			if x > 0 {
				out[i][j] = l[x-1]
			} else {
				out[i][j] = -l[-x-1]
			}
		}
	}
	return out
}

// compact numbers the variables 1, 2, ..., the labelled ones first.
func (l labels) compact(a, b []cnf.Clause) ([]cnf.Clause, []cnf.Clause, int) {
	to := map[int]int{}
	for i, x := range l {
		to[x] = i + 1
	}
	num := func(x int) int {
		if to[x] == 0 {
			to[x] = len(to) + 1
		}
		return to[x]
	}
	conv := func(cs []cnf.Clause) []cnf.Clause {
		out := make([]cnf.Clause, len(cs))
		for i, c := range cs {
			out[i] = make(cnf.Clause, len(c))
			for j, x := range c {
				if x > 0 {
					out[i][j] = num(x)
				} else {
					out[i][j] = -num(-x)
				}
			}
		}
		return out
	}
	a, b = conv(a), conv(b)
	return a, b, len(to)
}

type poolF struct {
	f cnf.CNF
	w refF
	d string
}

// algebraCase applies a random sequence of operations to a pool of formulas
// over common variables and compares every result with the reference.
func algebraCase(t *T, i int) {
	r := t.Rand
	n := 1 + r.Intn(5)
	// negations get the top variable of the whole pool, as components of a
	// query do, unless the pool is one chain
	chain := r.Intn(3) == 0
	var lab labels
	if r.Intn(6) == 0 {
		lab = randLabels(r, n)
		t.Count("formulas_with_large_variables", 1)
	}
	top := n
	if lab != nil {
		top = lab[n-1]
	}
	full := uint64(1)<<(1<<n) - 1
	var pool []poolF
	upd := func(f cnf.CNF) {
		if f.TopV() > top {
			top = f.TopV()
		}
	}
	base := func() poolF {
		s, c := randClauses(r, n, 4), randClauses(r, n, 3)
		var p poolF
		switch r.Intn(6) {
		case 0:
			p = poolF{cnf.TrueCNF, refF{full, full}, "T"}
		case 1:
			p = poolF{cnf.FalseCNF, refF{0, full}, "F"}
		case 2:
			p = poolF{cnf.CNF{}, refF{full, full}, "0"}
		default:
			p = poolF{cnf.FromClauses(lab.put(s)), refF{clauseSet(s, n), full}, fmt.Sprintf("from%v", s)}
		}
		if r.Intn(2) == 0 {
			p.f = p.f.AppendConsistency(lab.put(c)...)
			p.w.con &= clauseSet(c, n)
			p.d += fmt.Sprintf("+c%v", c)
		}
		return p
	}
	pool = append(pool, base())
	if chain {
		// the chain mentions the last variable
		c := cnf.Clause{n, -n}
		pool[0].f = pool[0].f.AppendConsistency(lab.put([]cnf.Clause{c})...)
		pool[0].d += fmt.Sprintf("+c[%v]", c)
	}
	steps := 2 + r.Intn(9)
	for k := 0; k < steps; k++ {
		p := pool[r.Intn(len(pool))]
		if chain || r.Intn(2) == 0 {
			p = pool[len(pool)-1]
		}
		t.Describe("n=%d variables %v top=%d operation on %s", n, lab, top, p.d)
		var q poolF
		switch op := r.Intn(8); {
		case op < 3:
			s0, c0 := p.f.Clauses()
			old := usedVars(s0, c0)
			bound := p.f.TopV()
			bag := clauseBag(c0)
			q.w = refF{full &^ p.w.sem, p.w.con}
			if chain && r.Intn(2) == 0 {
				q.f = p.f.Negate()
				q.d = "!(" + p.d + ")"
			} else {
				arg := top
				if r.Intn(4) == 0 {
					arg += r.Intn(5)
				}
				if chain && r.Intn(2) == 0 {
					arg = r.Intn(bound + 1)
				}
				if arg > bound {
					bound = arg
				}
				q.f = p.f.Negate(arg)
				q.d = fmt.Sprintf("!%d(%s)", arg, p.d)
			}
			t.Describe("n=%d variables %v %s", n, lab, q.d)
			s1, c1 := q.f.Clauses()
			for v := range usedVars(s1, c1) {
				if !old[v] {
					t.Count("new_variables", 1)
					if v <= bound {
						t.Violate("negate/fresh", "the negation introduces variable %d, not above %d", v, bound)
					}
				}
			}
			nbag := clauseBag(c1)
			for cl, m := range bag {
				if nbag[cl] < m {
					t.Violate("negate/consistency-lost", "consistency clause %s is lost by the negation", cl)
				}
			}
			t.Count("negations", 1)
		case op < 5:
			o := pool[r.Intn(len(pool))]
			if chain {
				// the other operand has no variables of its own
				o = poolF{cnf.TrueCNF, refF{full, full}, "T"}
				if r.Intn(2) == 0 {
					o = p
				}
			} else if r.Intn(3) == 0 {
				o = base()
			}
			q.f = p.f.Conjunction(o.f)
			q.w = refF{p.w.sem & o.w.sem, p.w.con & o.w.con}
			q.d = "(" + p.d + " & " + o.d + ")"
			t.Count("conjunctions", 1)
		case op < 7:
			cs := randClauses(r, n, 3)
			q.f = p.f.AppendSemantics(lab.put(cs)...)
			q.w = refF{p.w.sem & clauseSet(cs, n), p.w.con}
			q.d = fmt.Sprintf("(%s +s%v)", p.d, cs)
			t.Count("appends", 1)
		default:
			cs := randClauses(r, n, 3)
			q.f = p.f.AppendConsistency(lab.put(cs)...)
			q.w = refF{p.w.sem, p.w.con & clauseSet(cs, n)}
			q.d = fmt.Sprintf("(%s +c%v)", p.d, cs)
			t.Count("appends", 1)
		}
		t.Describe("n=%d variables %v %s", n, lab, q.d)
		upd(q.f)
		checkMeaning(t, q.f, q.w, n, lab, "cnf")
		if len(q.d) > 4000 {
			break
		}
		pool = append(pool, q)
	}
	t.Distinct(pool[len(pool)-1].d)
}

// largeAlgebra does the same with many variables and clauses, at samples of
// the assignments.
func largeAlgebra(t *T, i int) {
	r := t.Rand
	ns := []int{40, 130, 260, 1030, 4100, 33000, 66000, 150, 300, 700}
	n := ns[r.Intn(len(ns))] + r.Intn(9) - 4
	const m = 10
	asg := make([][]bool, m) // by variable
	for a := range asg {
		asg[a] = make([]bool, n+1)
		p := r.Float64()
		for v := range asg[a] {
			asg[a][v] = r.Float64() < p
		}
		if a%2 == 1 {
			// alike the one before but for a few
			copy(asg[a], asg[a-1])
			for k := 1 + r.Intn(4); k > 0; k-- {
				v := 1 + r.Intn(n)
				asg[a][v] = !asg[a][v]
			}
		}
	}
	const full = uint64(1)<<m - 1
	value := func(cs []cnf.Clause) uint64 {
		var out uint64
		for a := range asg {
			ok := true
			for _, c := range cs {
				h := false
				for _, l := range c {
					if l > 0 && asg[a][l] || l < 0 && !asg[a][-l] {
						h = true
						break
					}
				}
				if !h {
					ok = false
					break
				}
			}
			if ok {
				out |= 1 << a
			}
		}
		return out
	}
	clauses := func() []cnf.Clause {
		k := r.Intn(6)
		if r.Intn(3) == 0 {
			k = r.Intn(400)
		}
		var cs []cnf.Clause
		if r.Intn(6) == 0 {
			// clauses of one length, one of them possibly false at a sample at
			// which all the others hold
			k, w, a := 2+r.Intn(300), 1+r.Intn(3), r.Intn(m)
			odd := r.Intn(k + k/2)
			for j := 0; j < k; j++ {
				c := make(cnf.Clause, w)
				for x := range c {
					v := 1 + r.Intn(n)
					if asg[a][v] == (j == odd) {
						v = -v
					}
					c[x] = v
				}
				cs = append(cs, c)
			}
			t.Count("equal_length_lists", 1)
			return cs
		}
		for ; k > 0; k-- {
			w := 1 + r.Intn(4)
			if r.Intn(4) == 0 {
				w = 1 + r.Intn(300)
			}
			c := make(cnf.Clause, w)
			for j := range c {
				c[j] = 1 + r.Intn(n)
				if r.Intn(3) == 0 {
					c[j] = n - r.Intn(min(n, 3))
				}
				if r.Intn(2) == 0 {
					c[j] = -c[j]
				}
			}
			if r.Intn(6) == 0 {
				// false at one sample for all its literals
				a := r.Intn(m)
				for j, l := range c {
					if l < 0 {
						l = -l
					}
					if asg[a][l] {
						l = -l
					}
					c[j] = l
				}
				cs = append(cs, c)
				continue
			}
			// most clauses hold at most samples
			for try := 0; try < 3*m && r.Intn(40) > 0; try++ {
				a := r.Intn(m)
				if value([]cnf.Clause{c})>>a&1 == 0 {
					v := 1 + r.Intn(n)
					if !asg[a][v] {
						v = -v
					}
					c = append(c, v)
				}
			}
			cs = append(cs, c)
		}
		if r.Intn(25) == 0 {
			cs = append(cs, cnf.Clause{})
			t.Count("late_empty_clauses", 1)
		}
		return cs
	}
	p := poolF{cnf.TrueCNF, refF{full, full}, "T"}
	if r.Intn(3) > 0 {
		cs := clauses()
		p = poolF{cnf.FromClauses(cs), refF{value(cs), full}, fmt.Sprintf("from %d", len(cs))}
	}
	pool := []poolF{p}
	top := max(n, p.f.TopV())
	for k := 1 + r.Intn(7); k > 0; k-- {
		p := pool[len(pool)-1]
		if r.Intn(4) == 0 {
			p = pool[r.Intn(len(pool))]
		}
		var q poolF
		switch r.Intn(5) {
		case 0, 1:
			s0, c0 := p.f.Clauses()
			old := usedVars(s0, c0)
			q = poolF{p.f.Negate(top), refF{full &^ p.w.sem, p.w.con}, "!(" + p.d + ")"}
			s1, c1 := q.f.Clauses()
			for v := range usedVars(s1, c1) {
				if !old[v] && v <= top {
					t.Violate("large/fresh", "n=%d %s: the negation introduces variable %d, not above %d", n, q.d, v, top)
				}
			}
			nbag := clauseBag(c1)
			for cl, k := range clauseBag(c0) {
				if nbag[cl] < k {
					t.Violate("large/consistency-lost", "n=%d %s: consistency clause %s is lost by the negation", n, q.d, clip(cl, 300))
				}
			}
			t.Count("negations", 1)
		case 2:
			o := pool[r.Intn(len(pool))]
			q = poolF{p.f.Conjunction(o.f), refF{p.w.sem & o.w.sem, p.w.con & o.w.con}, "(" + p.d + " & " + o.d + ")"}
			t.Count("conjunctions", 1)
		case 3:
			cs := clauses()
			q = poolF{p.f.AppendSemantics(cs...), refF{p.w.sem & value(cs), p.w.con}, fmt.Sprintf("(%s +s %d)", p.d, len(cs))}
			t.Count("appends", 1)
		default:
			cs := clauses()
			q = poolF{p.f.AppendConsistency(cs...), refF{p.w.sem, p.w.con & value(cs)}, fmt.Sprintf("(%s +c %d)", p.d, len(cs))}
			t.Count("appends", 1)
		}
		t.Describe("%d variables, %s", n, q.d)
		s, c := q.f.Clauses()
		for v := range usedVars(s, c) {
			if v == 0 || v > q.f.TopV() {
				t.Violate("large/topv", "variable %d is in use but the top variable is %d", v, q.f.TopV())
			}
		}
		top = max(top, q.f.TopV())
		pool = append(pool, q)
		if len(s)+len(c) > 20000 {
			break
		}
	}
	for k, q := range pool {
		if k < len(pool)-2 && r.Intn(2) == 0 {
			continue
		}
		t.Describe("%d variables, %s", n, q.d)
		s, c := q.f.Clauses()
		all, con := sat.New(top, nil), sat.New(top, nil)
		for _, cl := range s {
			all.Add(cl)
		}
		for _, cl := range c {
			all.Add(cl)
			con.Add(cl)
		}
		for a := range asg {
			as := make([]int, n)
			for v := 1; v <= n; v++ {
				as[v-1] = v
				if !asg[a][v] {
					as[v-1] = -v
				}
			}
			t.Eval(1)
			want := (q.w.sem&q.w.con)>>a&1 == 1
			if got := all.Solve(as...); got != want {
				t.Violate("large/meaning", "at an assignment the formula should be %v but is satisfiable=%v", want, got)
			}
			if want := q.w.con>>a&1 == 1; con.Solve(as...) != want {
				t.Violate("large/consistency", "at an assignment the consistency clauses should hold=%v", want)
			}
			t.Count(fmt.Sprintf("large_assignments_%v", want), 1)
		}
		checkTrivial(t, q.f, s, c, "large")
		if q.f.TriviallyTrue() && q.w.sem&q.w.con != full {
			t.Violate("large/trivially-true", "reported trivially true but it is not valid")
		}
		if q.f.TriviallyFalse() && q.w.sem&q.w.con != 0 {
			t.Violate("large/trivially-false", "reported trivially false but it is satisfiable")
		}
	}
	t.Distinct(fmt.Sprint(n, pool[len(pool)-1].d))
}

// ownCheck of predefined formulas.
func predefCase(t *T, i int) {
	if !cnf.TrueCNF.TriviallyTrue() || cnf.TrueCNF.TriviallyFalse() {
		t.Violate("predefined/true", "TrueCNF is not trivially true")
	}
	if !cnf.FalseCNF.TriviallyFalse() || cnf.FalseCNF.TriviallyTrue() {
		t.Violate("predefined/false", "FalseCNF is not trivially false")
	}
	f := cnf.FromClauses(cnf.NegClauses)
	checkMeaning(t, f, refF{0, 3}, 1, nil, "predefined")
	checkMeaning(t, cnf.FalseCNF, refF{0, 3}, 1, nil, "predefined")
	checkMeaning(t, cnf.TrueCNF, refF{3, 3}, 1, nil, "predefined")
	checkMeaning(t, cnf.FalseCNF.Negate(), refF{3, 3}, 1, nil, "predefined")
	checkMeaning(t, cnf.TrueCNF.Negate(), refF{0, 3}, 1, nil, "predefined")
	t.Distinct("predefined")
}

// C09 --------------------------------------------------------------------

type snap struct {
	f    cnf.CNF
	s, c [][]int
	top  int
	d    string
	tt   bool
	tf   bool
}

func takeSnap(f cnf.CNF, d string) snap {
	s, c := f.Clauses()
	return snap{f, toInts(s), toInts(c), f.TopV(), d, f.TriviallyTrue(), f.TriviallyFalse()}
}

func sameInts(a [][]int, b []cnf.Clause) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if len(a[i]) != len(b[i]) {
			return false
		}
		for j := range a[i] {
			if a[i][j] != b[i][j] {
				return false
			}
		}
	}
	return true
}

func (s *snap) changed() string {
	a, b := s.f.Clauses()
	switch {
	case !sameInts(s.s, a):
		return fmt.Sprintf("semantic clauses were %v, now %v", s.s, a)
	case !sameInts(s.c, b):
		return fmt.Sprintf("consistency clauses were %v, now %v", s.c, b)
	case s.f.TopV() != s.top:
		return fmt.Sprintf("top variable was %d, now %d", s.top, s.f.TopV())
	case s.f.TriviallyTrue() != s.tt || s.f.TriviallyFalse() != s.tf:
		return "trivially true/false changed"
	}
	return ""
}

// callerClauses is a list of clauses the caller keeps, inside larger arrays
// whose other elements are also the caller's.
type callerClauses struct {
	all  []cnf.Clause
	lits [][]int
	d    string
}

func (c *callerClauses) changed() string {
	for i, cl := range c.all {
		full := cl[:cap(cl)]
		if len(full) != len(c.lits[i]) {
			return fmt.Sprintf("clause %d replaced", i)
		}
		for j := range full {
			if full[j] != c.lits[i][j] {
				return fmt.Sprintf("clause %d of the caller was %v, now %v", i, c.lits[i], full)
			}
		}
	}
	return ""
}

// aliasCase derives formulas from each other in a random order and watches
// every formula obtained so far.
func aliasCase(t *T, i int) {
	r := t.Rand
	n := 1 + r.Intn(6)
	var pool []snap
	var mine []*callerClauses
	own := func(max int) (*callerClauses, []cnf.Clause) {
		k := r.Intn(max + 1)
		extra := r.Intn(4)
		c := &callerClauses{}
		for j := 0; j < k+extra; j++ {
			cl := randClause(r, n)
			c.all = append(c.all, cl)
			full := cl[:cap(cl)]
			for x := len(cl); x < len(full); x++ {
				full[x] = 1000 + x // sentinel
			}
			c.lits = append(c.lits, append([]int{}, full...))
		}
		c.d = fmt.Sprint(c.all)
		mine = append(mine, c)
		return c, c.all[:k]
	}
	tt, tf := takeSnap(cnf.TrueCNF, "TrueCNF"), takeSnap(cnf.FalseCNF, "FalseCNF")
	pool = append(pool, tt, tf)
	steps := 6 + r.Intn(40)
	hot := -1
	for k := 0; k < steps; k++ {
		var f cnf.CNF
		var d string
		pi := r.Intn(len(pool))
		// repeated use of one formula makes sharing visible
		if hot >= 0 && r.Intn(2) == 0 {
			pi = hot
		} else if r.Intn(3) == 0 {
			pi = len(pool) - 1
		}
		if r.Intn(5) == 0 {
			hot = pi
		}
		p := pool[pi]
		switch r.Intn(9) {
		case 0:
			_, cs := own(6)
			f = cnf.FromClauses(cs)
			d = fmt.Sprintf("from %v", cs)
		case 1, 2:
			_, cs := own(3)
			f = p.f.AppendSemantics(cs...)
			d = fmt.Sprintf("#%d +s %v", pi, cs)
		case 3, 4:
			_, cs := own(3)
			f = p.f.AppendConsistency(cs...)
			d = fmt.Sprintf("#%d +c %v", pi, cs)
		case 5:
			f = p.f.Negate()
			d = fmt.Sprintf("!#%d", pi)
		case 6:
			f = p.f.Negate(n + r.Intn(30))
			d = fmt.Sprintf("!t #%d", pi)
		case 7:
			oi := r.Intn(len(pool))
			f = p.f.Conjunction(pool[oi].f)
			d = fmt.Sprintf("#%d & #%d", pi, oi)
		case 8:
			// reuse of returned clauses
			s, c := p.f.Clauses()
			oi := r.Intn(len(pool))
			if r.Intn(2) == 0 {
				f = pool[oi].f.AppendSemantics(c...)
			} else {
				f = pool[oi].f.AppendConsistency(s...)
			}
			d = fmt.Sprintf("#%d + clauses of #%d", oi, pi)
			if r.Intn(3) == 0 {
				f = cnf.FromClauses(s)
				d = fmt.Sprintf("from clauses of #%d", pi)
			}
		}
		if r.Intn(6) == 0 {
			f.ToBytes()
		}
		if r.Intn(4) == 0 {
			// the caller extends the lists it was given
			s, c := pool[r.Intn(len(pool))].f.Clauses()
			_ = append(append(s, cnf.Clause{4001}), cnf.Clause{4002})
			_ = append(append(c, cnf.Clause{4003}), cnf.Clause{4004})
			t.Count("returned_lists_extended", 1)
		}
		s0, c0 := f.Clauses()
		if len(s0)+len(c0) > 3000 {
			continue
		}
		t.Log("#%d = %s", len(pool), d)
		pool = append(pool, takeSnap(f, d))
		t.Eval(1)
		for j := range pool {
			t.Count("formulas_watched", 1)
			if m := pool[j].changed(); m != "" {
				t.Describe("formula #%d (%s) changed by step %q", j, pool[j].d, d)
				t.Violate("formula-changed", "%s", m)
			}
		}
		for _, c := range mine {
			if m := c.changed(); m != "" {
				t.Describe("clauses of the caller %s changed by step %q", c.d, d)
				t.Violate("caller-clauses-changed", "%s", m)
			}
		}
		if m := tt.changed() + tf.changed(); m != "" || len(cnf.NegClauses) != 1 || len(cnf.NegClauses[0]) != 0 {
			t.Violate("predefined-changed", "predefined formula changed: %s %v", m, cnf.NegClauses)
		}
	}
	t.Distinct(strings.Join(t.trace, ";"))
}

// C10 --------------------------------------------------------------------

// checkDIMACS compares a serialisation with the formula.
func checkDIMACS(t *T, f cnf.CNF, b []byte, key string) {
	nv, cls, err := parseDIMACS(b)
	if err != nil {
		t.Violate(key+"/format", "not a DIMACS CNF: %v\n%s", err, clip(string(b), 400))
	}
	_ = nv
	s, c := f.Clauses()
	want := clauseBag(s, c)
	for _, cl := range cls {
		want[clauseKey(cl)]--
	}
	for k, n := range want {
		if n != 0 {
			t.Violate(key+"/clauses", "clause %s: %d more occurrences in the formula than in the output", k, n)
		}
	}
	t.Count("clauses_parsed", len(cls))
}

func randFormula(r *rand.Rand, nv, ns, nc int) cnf.CNF {
	mk := func(k int) []cnf.Clause {
		out := make([]cnf.Clause, k)
		for i := range out {
			w := r.Intn(6)
			if r.Intn(40) == 0 {
				w = r.Intn(200)
			}
			cl := make(cnf.Clause, w)
			for j := range cl {
				cl[j] = 1 + r.Intn(nv)
				if r.Intn(2) == 0 {
					cl[j] = -cl[j]
				}
			}
			out[i] = cl
			if i > 0 && r.Intn(10) == 0 {
				out[i] = out[r.Intn(i)]
			}
		}
		return out
	}
	f := cnf.FromClauses(mk(ns)).AppendConsistency(mk(nc)...)
	if r.Intn(3) == 0 {
		f = f.Negate(nv + r.Intn(100))
	}
	return f
}

func serialCase(t *T, nv, ns, nc int, bytesToo bool) {
	r := t.Rand
	w := newWork(t)
	defer w.done()
	f := randFormula(r, nv, ns, nc)
	t.Describe("formula with %d+%d clauses over %d variables", ns, nc, nv)
	path := filepath.Join(w.dir, pickStr(r, []string{"f.cnf", "a b.cnf", "ümlaut", "-x"}))
	switch r.Intn(4) {
	case 0:
		// longer earlier content
		os.WriteFile(path, bytes.Repeat([]byte("1 2 3 0\n"), 100+r.Intn(3000)), 0o644)
		t.Count("replaced_files", 1)
	case 1:
		old := randFormula(r, 1+r.Intn(20), r.Intn(200), r.Intn(200))
		old.ToFile(path)
		t.Count("replaced_files", 1)
	}
	if err := f.ToFile(path); err != nil {
		t.Violate("file/error", "ToFile failed on a writable file: %v", err)
	}
	b, err := os.ReadFile(path)
	if err != nil {
		t.Violate("file/missing", "%v", err)
	}
	checkDIMACS(t, f, b, "file")
	t.Eval(1)
	t.Count("bytes_written", len(b))
	if len(b) > 65536 {
		t.Count("files_over_64k", 1)
	}
	if bytesToo {
		m := f.ToBytes()
		if !bytes.Equal(m, b) {
			t.Violate("bytes-differ", "the byte and file serialisations differ (%d and %d bytes)", len(m), len(b))
		}
		if !bytes.Equal(f.ToBytes(), m) {
			t.Violate("bytes-unstable", "two serialisations of one formula differ")
		}
	}
	t.Distinct(fmt.Sprintf("%d %d %d %d", nv, ns, nc, len(b)))
}

func withFsize(n uint64, fn func()) {
	signal.Ignore(syscall.SIGXFSZ)
	var old syscall.Rlimit
	syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old)
	lim := syscall.Rlimit{Cur: n, Max: old.Max}
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim); err != nil {
		panic("harness: " + err.Error())
	}
	defer syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
	fn()
}

// writeFault fails the write of a formula at some size.
func writeFault(t *T, i int) {
	r := t.Rand
	w := newWork(t)
	defer w.done()
	k := 1
	switch r.Intn(4) {
	case 0:
		k = 1 + r.Intn(4000)
	case 1:
		k = 1 + r.Intn(60)
	}
	f := randFormula(r, 1+r.Intn(50), r.Intn(k+1), r.Intn(k+1))
	want := f.ToBytes()
	var err error
	kind := r.Intn(5)
	t.Describe("write fault %d on a formula of %d bytes", kind, len(want))
	switch kind {
	case 0:
		// through a link, so that nothing can replace the device itself
		path := filepath.Join(w.dir, "full")
		if err := os.Symlink("/dev/full", path); err != nil {
			panic("harness: " + err.Error())
		}
		err = f.ToFile(path)
		if err == nil {
			if st, _ := os.Lstat(path); st == nil || !st.Mode().IsRegular() {
				t.Violate("full-device", "writing %d bytes to a full device is reported as a success", len(want))
			} else if b, _ := os.ReadFile(path); !bytes.Equal(b, want) {
				t.Violate("full-device/replaced", "the file that took the place of a full device holds %d of %d bytes", len(b), len(want))
			}
		}
		t.Count("faults_full_device", 1)
	case 1, 2:
		lim := r.Intn(len(want) + 20)
		switch r.Intn(5) {
		case 0:
			lim = len(want) - 1
		case 1:
			lim = len(want)
		case 2:
			if lim > 5000 {
				lim = 4096 * (1 + r.Intn(lim/4096+1))
			}
		}
		path := filepath.Join(w.dir, "f.cnf")
		if r.Intn(3) == 0 {
			os.WriteFile(path, want, 0o644)
		}
		t.Describe("size limit %d on a formula of %d bytes", lim, len(want))
		withFsize(uint64(lim), func() { err = f.ToFile(path) })
		if lim < len(want) {
			t.Count("faults_size_limit", 1)
			if err == nil {
				t.Violate("size-limit", "a formula of %d bytes written with a limit of %d is reported as a success", len(want), lim)
			}
		} else {
			if err != nil {
				t.Violate("size-limit/spurious", "a formula of %d bytes written with a limit of %d fails: %v", len(want), lim, err)
			}
			b, _ := os.ReadFile(path)
			if !bytes.Equal(b, want) {
				t.Violate("size-limit/content", "wrong content")
			}
		}
	case 4:
		// a file system that is nearly full
		undo, ok := mountSmall(w.dir, 1+r.Intn(4), r.Intn(3))
		if !ok {
			return
		}
		defer undo()
		free := 0
		if r.Intn(3) == 0 {
			os.WriteFile(filepath.Join(w.dir, "filler"), make([]byte, os.Getpagesize()), 0o644)
		}
		path := filepath.Join(w.dir, "f.cnf")
		var st syscall.Statfs_t
		syscall.Statfs(w.dir, &st)
		free = int(st.Bfree) * int(st.Bsize)
		err = f.ToFile(path)
		b, _ := os.ReadFile(path)
		t.Describe("a file system with %d bytes and %d files left, and a formula of %d bytes", free, st.Ffree, len(want))
		if err == nil && !bytes.Equal(b, want) {
			t.Violate("full-file-system", "%d bytes of a formula of %d bytes are stored and this is reported as a success", len(b), len(want))
		}
		if err != nil && len(want) <= free && st.Ffree > 0 {
			t.Violate("full-file-system/spurious", "a formula that fits fails: %v", err)
		}
		if err != nil {
			t.Count("faults_full_file_system", 1)
		}
	case 3:
		switch r.Intn(3) {
		case 0:
			err = f.ToFile(filepath.Join(w.dir, "missing", "f.cnf"))
		case 1:
			err = f.ToFile(w.dir)
		case 2:
			err = f.ToFile("")
		}
		t.Count("faults_bad_path", 1)
		if err == nil {
			t.Violate("bad-path", "writing to an impossible path is reported as a success")
		}
	}
	t.Eval(1)
	t.Distinct(t.desc)
}

func init() {
	register(&Prop{ID: "C08", Level: "exploration",
		Rule:   "random sequences of CNF operations over at most 5 original variables on a pool of formulas; each result is solved under every assignment of the original variables and compared with the reference sets of assignments; distinct = distinct derivations",
		Assume: []string{"negations receive the largest variable in use elsewhere, as the logical operators pass it"},
		Need:   []string{"negations", "conjunctions", "appends", "new_variables", "assignments_true", "assignments_false", "trivially_true", "trivially_false"},
		Streams: []Stream{
			{Name: "algebra", Quick: 40000, Thor: 800000, Run: algebraCase},
			{Name: "large", Quick: 160, Thor: 4000, Run: largeAlgebra},
			{Name: "predefined", Quick: 1, Thor: 1, Run: predefCase},
		}})
	register(&Prop{ID: "C09", Level: "exploration",
		Rule: "random derivation histories over a pool of formulas, with repeated use of one formula, spare capacity and sub-slices of larger caller arrays; after each step every formula and caller clause is compared with its snapshot; distinct = distinct histories",
		Need: []string{"formulas_watched"},
		Streams: []Stream{
			{Name: "alias", Quick: 20000, Thor: 400000, Run: aliasCase},
		}})
	register(&Prop{ID: "C10", Mounts: true, Level: "fault_enumeration",
		Rule: "random formulas written to new and existing files, parsed by a strict DIMACS parser and compared clause by clause; write faults: full device, file size limit at and around every boundary, impossible paths; distinct = distinct (sizes, fault)",
		Need: []string{"clauses_parsed", "replaced_files", "files_over_64k", "faults_full_device", "faults_size_limit", "faults_bad_path"},
		Streams: []Stream{
			{Name: "small", Quick: 3000, Thor: 30000, Run: func(t *T, i int) { serialCase(t, 1+t.Intn(9), t.Intn(8), t.Intn(8), true) }},
			{Name: "mid", Quick: 200, Thor: 2000, Run: func(t *T, i int) { serialCase(t, 1+t.Intn(2000), t.Intn(1500), t.Intn(1500), true) }},
			{Name: "large", Quick: 8, Thor: 80, Run: func(t *T, i int) {
				serialCase(t, 1+t.Intn(200000), t.Intn(150000), t.Intn(150000), false)
			}},
			{Name: "numbers", Quick: 300, Thor: 3000, Run: func(t *T, i int) { serialCase(t, 1<<(17+t.Intn(44))-t.Intn(3), t.Intn(20), t.Intn(20), true) }},
			{Name: "fault", Quick: 1500, Thor: 20000, Run: writeFault},
		}})
}
