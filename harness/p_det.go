package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"

	"github.com/jtcaraball/goexpdt/cnf"
	"github.com/jtcaraball/goexpdt/compute"
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/logop"
)

// Properties C22 and C23.

// deepPrint writes a value with the content of every slice up to its
// capacity.
func deepPrint(sb *strings.Builder, v reflect.Value, depth int) {
	if depth > 200 {
		return
	}
	switch v.Kind() {
	case reflect.Interface, reflect.Pointer:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		deepPrint(sb, v.Elem(), depth+1)
	case reflect.Struct:
		fmt.Fprintf(sb, "%s{", v.Type())
		for i := 0; i < v.NumField(); i++ {
			if !v.Type().Field(i).IsExported() {
				continue
			}
			deepPrint(sb, v.Field(i), depth+1)
			sb.WriteByte(';')
		}
		sb.WriteByte('}')
	case reflect.Slice:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		fmt.Fprintf(sb, "[%d/%d:", v.Len(), v.Cap())
		w := v.Slice(0, v.Cap())
		for i := 0; i < w.Len(); i++ {
			deepPrint(sb, w.Index(i), depth+1)
			sb.WriteByte(' ')
		}
		sb.WriteByte(']')
	case reflect.Func:
		fmt.Fprintf(sb, "func nil=%v", v.IsNil())
	case reflect.String:
		fmt.Fprintf(sb, "%q", v.String())
	case reflect.Bool:
		fmt.Fprint(sb, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(sb, v.Int())
	default:
		panic("harness: deepPrint of " + v.Kind().String())
	}
}

func deepString(x any) string {
	var sb strings.Builder
	deepPrint(&sb, reflect.ValueOf(x), 0)
	return sb.String()
}

func treeString(t *Tree) string {
	return fmt.Sprint(t.dim, len(t.nodes), t.nodes[:cap(t.nodes)])
}

// encCost is the number of atoms encoded, quantifiers expanded.
func encCost(f *F, tree *Tree) int {
	n := 0
	for _, k := range f.K {
		n += encCost(k, tree)
	}
	switch {
	case f.Op == "all":
		return n * len(tree.nodes)
	case len(f.K) > 0:
		return n
	case f.Op == "dfs" || f.Op == "leh":
		return 5
	}
	return 1
}

// detCase encodes a query again and again, interleaved with others, and
// watches its inputs.
func detCase(t *T, i int) {
	r := t.Rand
	tree := midTree(r, 1, 4)
	if r.Intn(4) == 0 {
		tree = randTree(r, 5+r.Intn(5), 1+r.Intn(6))
	}
	type item struct {
		f     *F
		q     logop.LogOpQ
		enc   []byte
		s, k  [][]int
		deep  string
		gens  bool
		first cnf.CNF
	}
	tdeep := treeString(tree)
	var items []*item
	for k := 2 + r.Intn(4); k > 0; k-- {
		it := &item{gens: r.Intn(2) == 0}
		for {
			if r.Intn(2) == 0 {
				it.f = genClosed(r, tree, 1+r.Intn(5), closedCfg{3, 2, atomOps})
			} else {
				it.f = newScope(r, tree, 1+r.Intn(3)).qf(r, 1+r.Intn(6), atomOps)
			}
			if encCost(it.f, tree) <= 150 {
				break
			}
		}
		it.q = wrapVars(it.f.build(&Gens{Unique: it.gens}, nil), it.f.free())
		it.deep = deepString(it.q)
		items = append(items, it)
	}
	check := func(it *item, when string) {
		if d := deepString(it.q); d != it.deep {
			t.Violate("input-changed", "%s changes the query %s:\nbefore %s\nafter  %s", when, it.f, it.deep, d)
		}
		if d := treeString(tree); d != tdeep {
			t.Violate("tree-changed", "%s changes the tree:\nbefore %s\nafter  %s", when, tdeep, d)
		}
		t.Count("input_snapshots_compared", 1)
	}
	var live query.QContext
	for n := 6 + r.Intn(10); n > 0; n-- {
		it := items[r.Intn(len(items))]
		t.Describe("tree %s\nquery %s", tree, it.f)
		switch r.Intn(6) {
		case 0:
			// an evaluation in between
			if it.enc == nil || len(it.s)+len(it.k) > 1500 {
				continue
			}
			compute.QDTFAtom{Query: it.q}.Sat(query.BasicQContext(tree), &inSolver{r: r})
			check(it, "an evaluation")
			t.Count("evaluations_between", 1)
			continue
		case 1:
			// a shared context in between
			if live == nil || r.Intn(3) == 0 {
				live = query.BasicQContext(tree)
			}
			it.q.Encoding(live)
			check(it, "an encoding")
			continue
		}
		q := it.q
		if r.Intn(4) == 0 {
			q = wrapVars(it.f.build(&Gens{Unique: it.gens}, nil), it.f.free())
		}
		ctx := query.BasicQContext(tree)
		enc, err := q.Encoding(ctx)
		t.Eval(1)
		if err != nil {
			t.Violate("error", "encoding failed: %v", err)
		}
		b := formulaBytes(enc)
		t.Count("encodings", 1)
		s, k := enc.Clauses()
		if it.enc == nil {
			it.enc, it.s, it.k, it.first = b, toInts(s), toInts(k), enc
		} else {
			t.Count("repeated_encodings", 1)
			if !bytes.Equal(b, it.enc) {
				t.Violate("encoding-differs", "two encodings of one query on new contexts differ:\n%s\n%s", clip(string(it.enc), 600), clip(string(b), 600))
			}
			if !sameInts(it.s, s) || !sameInts(it.k, k) {
				t.Violate("encoding-differs/clauses", "two encodings of one query differ in their clauses")
			}
		}
		check(it, "an encoding")
	}
	for _, it := range items {
		if it.enc == nil {
			continue
		}
		a, b := it.first.Clauses()
		if !sameInts(it.s, a) || !sameInts(it.k, b) || !bytes.Equal(formulaBytes(it.first), it.enc) {
			t.Violate("result-changed", "an encoding obtained earlier changed")
		}
	}
	t.Distinct(fmt.Sprintf("%s | %s", items[0].f, tree))
}

// detWide does the same for components of many features and long preferences.
func detWide(t *T, i int) {
	r := t.Rand
	dim := []int{9, 10, 12, 16, 17, 24, 33, 40, 65, 130}[r.Intn(10)]
	tree := randTree(r, dim, r.Intn(40))
	sc := newScope(r, tree, 1+r.Intn(3))
	ops := []string{"hepr", "hepr", "sub", "cons", "full", "node", "allc", "dfs", "lel", "leh"}
	if dim > 20 {
		ops = ops[:8]
	}
	f := sc.qf(r, 1+r.Intn(3), ops)
	var order func(f *F)
	order = func(f *F) {
		if n := len(f.Pref); n > 1 {
			// ordered in part, or all of it
			p := f.Pref[r.Intn(n):]
			switch r.Intn(6) {
			case 0:
				sort.Ints(f.Pref)
			case 1:
				sort.Sort(sort.Reverse(sort.IntSlice(f.Pref)))
			case 2:
				sort.Ints(p)
			case 3:
				sort.Ints(f.Pref[:1+r.Intn(n)])
			}
		}
		for _, k := range f.K {
			order(k)
		}
	}
	order(f)
	if r.Intn(4) == 0 {
		f = forallOwn(r, dim, "c", f)
		for len(tree.nodes) > 12 {
			tree = randTree(r, dim, r.Intn(6))
		}
	}
	uniq := r.Intn(2) == 0
	mk := func() logop.LogOpQ { return wrapVars(f.build(&Gens{Unique: uniq}, nil), f.free()) }
	t.Describe("tree %s\nquery %s", tree, f)
	q := mk()
	deep, tdeep := deepString(q), treeString(tree)
	var first []byte
	for n := 0; n < 3; n++ {
		if n == 2 {
			q = mk()
		}
		enc, err := q.Encoding(query.BasicQContext(tree))
		t.Eval(1)
		if err != nil {
			t.Violate("wide/error", "encoding failed: %v", err)
		}
		b := formulaBytes(enc)
		if n == 0 {
			first = b
		} else if !bytes.Equal(b, first) {
			t.Violate("wide/encoding-differs", "two encodings of one query on new contexts differ:\n%s\n%s", clip(string(first), 600), clip(string(b), 600))
		}
		if d := deepString(q); d != deep {
			t.Violate("wide/input-changed", "an encoding changes the query:\nbefore %s\nafter  %s", deep, d)
		}
		if d := treeString(tree); d != tdeep {
			t.Violate("wide/tree-changed", "an encoding changes the tree:\nbefore %s\nafter  %s", tdeep, d)
		}
	}
	t.Count("wide_encodings", 3)
	t.Distinct(fmt.Sprintf("%s | %s", f, tree))
}

// detOptim watches the inputs of optimum computations.
func detOptim(t *T, i int) {
	r := t.Rand
	tree := midTree(r, 1, 4)
	tdeep := treeString(tree)
	p := randProblem(r, tree)
	t.Describe("%s", p)
	fg, og := p.funcs()
	var qs []logop.LogOpQ
	var deeps []string
	var cs []query.QConst
	var cdeep []string
	keep := func(q compute.Encodable) compute.Encodable {
		qs = append(qs, q)
		deeps = append(deeps, deepString(q))
		return q
	}
	for n := 0; n < 2; n++ {
		compute.ComputeOptim(
			func(v query.QVar) compute.Encodable { return keep(fg(v)) },
			func(v query.QVar, c query.QConst) compute.Encodable {
				cs = append(cs, c)
				cdeep = append(cdeep, fmt.Sprint(c))
				return keep(og(v, c))
			},
			query.QVar(p.v), query.BasicQContext(tree), &inSolver{r: r})
		t.Eval(1)
	}
	for k := range qs {
		t.Count("input_snapshots_compared", 1)
		if d := deepString(qs[k]); d != deeps[k] {
			t.Violate("optim/input-changed", "a query changed:\nbefore %s\nafter  %s", deeps[k], d)
		}
	}
	for k := range cs {
		if d := fmt.Sprint(cs[k]); d != cdeep[k] {
			t.Violate("optim/candidate-changed", "a candidate %s handed to the order changed to %s", cdeep[k], d)
		}
	}
	if treeString(tree) != tdeep {
		t.Violate("optim/tree-changed", "the tree changed")
	}
	t.Count("optimisations", 1)
	t.Distinct(p.String())
}

// detComb watches the combinators of an evaluation: the lists the caller
// built, and the answer of a second evaluation.
func detComb(t *T, i int) {
	r := t.Rand
	tree := midTree(r, 1, 3)
	tdeep := treeString(tree)
	cfg := closedCfg{maxEx: 1, maxAll: 1, ops: atomOps}
	uniq := r.Intn(2) == 0
	// values are found by sampling, so that the lists hold both
	n := r.Intn(7)
	l := make([]compute.QDTFCombinator, 0, n+r.Intn(3))
	var ss []string
	conj, disj := true, false
	for k := 0; k < n; k++ {
		c, v, s, _ := genComb(r, tree, r.Intn(3), cfg, uniq)
		l, ss = append(l, c), append(ss, s)
		conj, disj = conj && v, disj || v
	}
	if cap(l) > len(l) {
		// what lies behind the end of the caller's list is the caller's
		c, _, _, _ := genComb(r, tree, 0, cfg, uniq)
		l[:cap(l)][len(l)] = c
	}
	// two lists over the same elements
	and, or := compute.AndCombinator(l), compute.OrCombinator(l)
	t.Describe("tree %s\n%s", tree, strings.Join(ss, ", "))
	deep := deepString([]any{and, or})
	ctx := query.BasicQContext(tree)
	for k := 2 + r.Intn(3); k > 0; k-- {
		if r.Intn(2) == 0 {
			ctx = query.BasicQContext(tree)
		}
		var got, want bool
		var err error
		name := "and"
		if r.Intn(2) == 0 {
			got, err = and.Sat(ctx, &inSolver{r: r})
			want = conj
		} else {
			got, err = or.Sat(ctx, &inSolver{r: r})
			name, want = "or", disj
		}
		t.Eval(1)
		if err != nil {
			t.Violate("combinators/error", "evaluation failed: %v", err)
		}
		if got != want {
			t.Violate("combinators/answer", "%s evaluated to %v, its truth value is %v", name, got, want)
		}
		if d := deepString([]any{and, or}); d != deep {
			t.Violate("combinators/input-changed", "evaluating %s changes the combinators:\nbefore %s\nafter  %s", name, deep, d)
		}
		if treeString(tree) != tdeep {
			t.Violate("combinators/tree-changed", "an evaluation changes the tree")
		}
		t.Count("combinators_compared", 1)
	}
	if n > 1 && conj != disj {
		t.Count("mixed_lists", 1)
	}
	t.Distinct(fmt.Sprintf("%v | %s", ss, tree))
}

// C23 --------------------------------------------------------------------

type size struct{ clauses, lits, vars int }

func (s size) total() int { return s.clauses + s.lits + s.vars }

func measure(t *T, q logop.LogOpQ, tree *Tree) size {
	enc, err := q.Encoding(query.BasicQContext(tree))
	t.Eval(1)
	if err != nil {
		t.Violate("error", "encoding failed: %v", err)
	}
	a, b := enc.Clauses()
	s := size{clauses: len(a) + len(b), vars: enc.TopV()}
	for _, l := range [][]cnf.Clause{a, b} {
		for _, c := range l {
			s.lits += len(c)
		}
	}
	t.Count("clauses_measured", s.clauses)
	return s
}

// growth measures a family of queries at doubling sizes.
func growth(t *T, name string, ns []int, mk func(n int) (logop.LogOpQ, *Tree)) {
	var last size
	trace := ""
	for k, n := range ns {
		q, tree := mk(n)
		t.Describe("%s at size %d after %s", name, n, trace)
		s := measure(t, q, tree)
		trace += fmt.Sprintf(" %d:%+v", n, s)
		if k > 0 {
			t.Count("doublings", 1)
			for _, c := range [][2]int{{last.clauses, s.clauses}, {last.lits, s.lits}, {last.vars, s.vars}} {
				if c[1] > 16*c[0]+300 {
					t.Violate("growth/"+strings.Fields(name)[0], "doubling the size to %d multiplies the encoding by more than 16:%s", n, trace)
				}
			}
		}
		if s.total() > 30_000_000 {
			t.Violate("size/"+strings.Fields(name)[0], "encoding of %d clauses and literals:%s", s.total(), trace)
		}
		last = s
	}
	t.Log("%s%s", name, trace)
	t.Distinct(name + trace)
}

// The families of C23 have the same make-up at every size: leaves alternate,
// and the kinds of constants are fixed.

func balanced(r *rand.Rand, dim, leaves int) *Tree {
	val := r.Intn(2) == 0
	var rec func(n int, free []int) *shape
	rec = func(n int, free []int) *shape {
		if n <= 1 || len(free) == 0 {
			val = !val
			return &shape{leaf: true, val: val}
		}
		k := r.Intn(len(free))
		rest := append(append([]int{}, free[:k]...), free[k+1:]...)
		return &shape{feat: free[k], z: rec(n/2, rest), o: rec(n-n/2, rest)}
	}
	return rec(leaves, r.Perm(dim)).layout(dim, r.Intn(3), r)
}

// patInst is an instance by kind: undefined, full, half defined.
func patInst(kind, dim int) Inst {
	x := make(Inst, dim)
	for i := range x {
		switch {
		case kind == 0 || kind == 2 && i%2 == 0 || kind == 3 && i > 0:
			x[i] = -1
		default:
			x[i] = int8(i/2) % 2
		}
	}
	return x
}

func growDim(t *T, i int) {
	r := t.Rand
	for _, op := range atomOps {
		for _, k := range kindsOf(arity[op]) {
			neg := r.Intn(3)
			uni, leaf := r.Intn(2) == 0, r.Intn(2) == 0
			pats := []int{r.Intn(4), r.Intn(4), r.Intn(4)}
			if op == "leh" {
				pats = []int{1, 1, 1}
			}
			leaves := 2 + r.Intn(3)
			rev := r.Intn(2) == 0
			growth(t, fmt.Sprintf("%s %v in the dimension, negations %d", op, k, neg), []int{4, 8, 16, 32, 64}, func(n int) (logop.LogOpQ, *Tree) {
				tree := balanced(r, n, leaves)
				f := &F{Op: op, Leaf: leaf}
				for j, isVar := range k {
					if isVar {
						f.T = append(f.T, vt(varNames[j]))
					} else {
						f.T = append(f.T, ct(patInst(pats[j], n)))
					}
				}
				if op == "hepr" {
					for p := 0; p < n; p++ {
						if rev {
							f.Pref = append(f.Pref, n-1-p)
						} else {
							f.Pref = append(f.Pref, p)
						}
					}
				}
				for m := 0; m < neg; m++ {
					f = not(f)
				}
				return wrapVars(f.build(&Gens{Unique: uni}, nil), f.free()), tree
			})
		}
	}
}

func growNodes(t *T, i int) {
	r := t.Rand
	dim := 10
	kc, leaf := r.Intn(4), r.Intn(2) == 0
	type fam struct {
		name string
		mk   func(tree *Tree) *F
		ns   []int
	}
	up := []int{4, 8, 16, 32, 64, 128}
	mid := []int{4, 8, 16, 32, 64}
	low := []int{2, 4, 8, 16}
	for _, f := range []fam{
		{"node-var", func(tr *Tree) *F { return atom("node", vt("x")) }, up},
		{"allcomp-var", func(tr *Tree) *F { return &F{Op: "allc", T: []Term{vt("x")}, Leaf: leaf} }, up},
		{"dfs-var", func(tr *Tree) *F { return atom("dfs", vt("x")) }, mid},
		{"not-dfs-var", func(tr *Tree) *F { return not(atom("dfs", vt("x"))) }, mid},
		{"not-allcomp-var", func(tr *Tree) *F { return not(&F{Op: "allc", T: []Term{vt("x")}}) }, up},
		{"not-node-var", func(tr *Tree) *F { return not(atom("node", vt("x"))) }, up},
		{"node-const", func(tr *Tree) *F { return atom("node", ct(patInst(kc, dim))) }, mid},
		{"dfs-const", func(tr *Tree) *F { return atom("dfs", ct(patInst(kc, dim))) }, mid},
		{"forall-sub", func(tr *Tree) *F { return forall("c", atom("sub", vt("x"), gt("c"))) }, up},
		{"forall-not-sub", func(tr *Tree) *F { return forall("c", not(atom("sub", vt("x"), gt("c")))) }, up},
		{"not-forall-lel", func(tr *Tree) *F { return not(forall("c", atom("lel", vt("x"), gt("c")))) }, mid},
		{"forall-or", func(tr *Tree) *F {
			return forall("c", or(atom("sub", vt("x"), gt("c")), or(not(atom("cons", vt("x"), gt("c"))), atom("node", vt("x")))))
		}, low},
		{"forall-ex", func(tr *Tree) *F {
			return forall("c", ex("y", and(atom("sub", vt("y"), gt("c")), not(atom("sub", vt("y"), vt("x"))))))
		}, mid},
		{"forall-forall", func(tr *Tree) *F {
			return forall("c", forall("d", or(not(atom("sub", gt("c"), gt("d"))), atom("sub", vt("x"), gt("d")))))
		}, []int{2, 4, 8, 16, 32}},
		{"forall-forall-ex", func(tr *Tree) *F {
			return forall("c", forall("d", ex("y", or(atom("sub", vt("y"), gt("d")), atom("sub", vt("x"), gt("c"))))))
		}, low},
	} {
		uni := r.Intn(2) == 0
		growth(t, f.name+" in the nodes", f.ns, func(n int) (logop.LogOpQ, *Tree) {
			tree := balanced(r, dim, n)
			g := f.mk(tree)
			return wrapVars(g.build(&Gens{Unique: uni}, nil), g.free()), tree
		})
	}
}

func growQuery(t *T, i int) {
	r := t.Rand
	tree := midTree(r, 2, 4)
	vars := []string{"x", "y", "z"}
	draw := func() *F {
		op := pickStr(r, atomOps)
		k := make([]bool, arity[op])
		for j := range k {
			k[j] = r.Intn(4) > 0
		}
		f := validAtom(r, tree, op, k)
		for j := range f.T {
			if f.T[j].Var != "" {
				f.T[j].Var = pickStr(r, vars)
			}
		}
		return f
	}
	// three components, all in use at the smallest size
	pool := []*F{draw(), draw(), draw()}
	next := 0
	at := func() *F {
		next++
		return pool[next%3]
	}
	one := at()
	type fam struct {
		name string
		mk   func(n int) *F
	}
	var chain func(n int, j func(k int, a, b *F) *F, leaf func() *F) *F
	chain = func(n int, j func(k int, a, b *F) *F, leaf func() *F) *F {
		f := leaf()
		for k := 1; k < n; k++ {
			f = j(k, f, leaf())
		}
		return f
	}
	var bal func(n int, leaf func() *F, k int) *F
	bal = func(n int, leaf func() *F, k int) *F {
		if n <= 1 {
			return leaf()
		}
		a, b := bal(n/2, leaf, k+1), bal(n-n/2, leaf, k+1)
		switch k % 3 {
		case 0:
			return or(a, b)
		case 1:
			return not(and(a, b))
		}
		return and(a, not(b))
	}
	same := func() *F { return one }
	for _, f := range []fam{
		{"or-chain", func(n int) *F { return chain(n, func(k int, a, b *F) *F { return or(a, b) }, at) }},
		{"or-chain-right", func(n int) *F { return chain(n, func(k int, a, b *F) *F { return or(b, a) }, at) }},
		{"and-chain", func(n int) *F { return chain(n, func(k int, a, b *F) *F { return and(a, b) }, at) }},
		{"or-of-ands", func(n int) *F {
			return chain(n, func(k int, a, b *F) *F { return or(a, b) }, func() *F { return and(at(), and(at(), at())) })
		}},
		{"and-of-ors", func(n int) *F {
			return chain(n, func(k int, a, b *F) *F { return and(a, b) }, func() *F { return or(at(), or(at(), at())) })
		}},
		{"not-chain", func(n int) *F {
			f := at()
			for k := 0; k < n; k++ {
				f = not(f)
			}
			return f
		}},
		{"not-and-chain", func(n int) *F { return chain(n, func(k int, a, b *F) *F { return not(and(a, b)) }, at) }},
		{"not-or-chain", func(n int) *F { return chain(n, func(k int, a, b *F) *F { return not(or(a, b)) }, at) }},
		{"alternating", func(n int) *F {
			return chain(n, func(k int, a, b *F) *F {
				if k%2 == 0 {
					return or(a, b)
				}
				return and(a, b)
			}, at)
		}},
		{"balanced", func(n int) *F { return bal(n, at, 0) }},
		{"repeated-component", func(n int) *F { return bal(n, same, 0) }},
		{"repeated-or", func(n int) *F { return chain(n, func(k int, a, b *F) *F { return or(a, b) }, same) }},
		{"variables", func(n int) *F {
			var f *F = one
			for k := 0; k < n; k++ {
				f = ex(fmt.Sprintf("v%d", k), f)
			}
			return f
		}},
		{"forall-body", func(n int) *F {
			return forall("c", chain(n, func(k int, a, b *F) *F { return or(a, not(b)) }, func() *F { return atom("sub", vt(pickStr(r, vars)), gt("c")) }))
		}},
		{"foralls", func(n int) *F {
			return chain(n, func(k int, a, b *F) *F { return and(a, b) }, func() *F {
				return forall("c", atom("sub", vt(pickStr(r, vars)), gt("c")))
			})
		}},
		{"or-foralls", func(n int) *F {
			return chain(n, func(k int, a, b *F) *F { return or(a, b) }, func() *F {
				return forall("c", atom("sub", vt(pickStr(r, vars)), gt("c")))
			})
		}},
	} {
		uni := r.Intn(2) == 0
		growth(t, f.name+" in the sub-queries", []int{3, 6, 12, 24, 48}, func(n int) (logop.LogOpQ, *Tree) {
			g := f.mk(n)
			return wrapVars(g.build(&Gens{Unique: uni}, nil), vars), tree
		})
	}
}

// clausesQ is a component that registers variables and gives clauses over
// them.
type clausesQ struct {
	name string
	n    int
	s, k []cnf.Clause
}

func (q clausesQ) Encoding(ctx query.QContext) (cnf.CNF, error) {
	vs := make([]int, q.n)
	for j := range vs {
		vs[j] = ctx.CNFVar(query.QVar(q.name), j, 0)
	}
	tr := func(cs []cnf.Clause) []cnf.Clause {
		out := make([]cnf.Clause, len(cs))
		for i, c := range cs {
			for _, l := range c {
				if l > 0 {
					out[i] = append(out[i], vs[l-1])
				} else {
					out[i] = append(out[i], -vs[-l-1])
				}
			}
		}
		return out
	}
	return cnf.FromClauses(tr(q.s)).AppendConsistency(tr(q.k)...), nil
}

// multiplied measures operators over components of few long clauses or of
// many short ones, against the sizes of their operands.
func multiplied(t *T, i int) {
	r := t.Rand
	tree := midTree(r, 1, 3)
	n := 20 + r.Intn(100)
	mk := func(name string) clausesQ {
		q := clausesQ{name: name, n: n}
		k, w := 1+r.Intn(5), 100+r.Intn(300)
		if r.Intn(2) == 0 {
			k, w = w, k
		}
		gen := func(k, w int) []cnf.Clause {
			cs := make([]cnf.Clause, k)
			for i := range cs {
				for j := 0; j < w; j++ {
					l := 1 + r.Intn(n)
					if l%2 == i%2 {
						l = -l
					}
					cs[i] = append(cs[i], l)
				}
			}
			return cs
		}
		if r.Intn(6) > 0 {
			q.s = gen(k, w)
		}
		if r.Intn(2) == 0 {
			q.k = gen(1+r.Intn(3), 1+r.Intn(20))
		}
		return q
	}
	a, b := mk("a"), mk("b")
	sum := 0
	for _, q := range []logop.LogOpQ{a, b} {
		sum += measure(t, q, tree).total()
	}
	na, nb := logop.Not{Q: a}, logop.Not{Q: b}
	for _, c := range []struct {
		name string
		q    logop.LogOpQ
		mul  int
	}{
		{"not", na, 1},
		{"not-not", logop.Not{Q: na}, 1},
		{"and", logop.And{Q1: a, Q2: b}, 1},
		{"or", logop.Or{Q1: a, Q2: b}, 1},
		{"or-same", logop.Or{Q1: a, Q2: a}, 1},
		{"or-not", logop.Or{Q1: na, Q2: nb}, 1},
		{"not-or", logop.Not{Q: logop.Or{Q1: a, Q2: nb}}, 1},
		{"not-and", logop.Not{Q: logop.And{Q1: na, Q2: b}}, 1},
		{"with-var", logop.WithVar{I: "x", Q: logop.Or{Q1: a, Q2: b}}, 1},
		{"forall", logop.ForAllGuarded{I: query.QConst{ID: "c"}, Q: logop.Or{Q1: a, Q2: nb}}, len(tree.nodes)},
		{"not-forall", logop.Not{Q: logop.ForAllGuarded{I: query.QConst{ID: "c"}, Q: logop.And{Q1: na, Q2: b}}}, len(tree.nodes)},
	} {
		s := measure(t, c.q, tree)
		t.Describe("%s of components of %d and %d clauses, %d literals and variables in all: %+v", c.name, len(a.s), len(b.s), sum, s)
		t.Count("operators_measured", 1)
		if s.total() > c.mul*60*sum+3000 {
			t.Violate("multiplied/"+c.name, "the encoding is more than 60 times as large as its operands")
		}
	}
	t.Distinct(fmt.Sprint(n, len(a.s), len(b.s), sum))
}

func init() {
	register(&Prop{ID: "C22", Level: "exploration",
		Rule: "sets of random queries encoded repeatedly on new contexts, interleaved with each other, with evaluations and with encodings on a shared context; serialisations compared byte by byte, inputs by deep snapshots up to slice capacity; combinators: the lists of and/or combinators likewise, before and after evaluations; distinct = distinct (query, tree)",
		Need: []string{"repeated_encodings", "input_snapshots_compared", "optimisations", "evaluations_between", "wide_encodings", "mixed_lists"},
		Streams: []Stream{
			{Name: "encode", Quick: 14000, Thor: 250000, Run: detCase},
			{Name: "wide", Quick: 3000, Thor: 60000, Run: detWide},
			{Name: "optim", Quick: 8000, Thor: 150000, Run: detOptim},
			{Name: "combinators", Quick: 3000, Thor: 60000, Run: detComb},
		}})
	register(&Prop{ID: "C23", Level: "exploration",
		Rule:   "encodings of families of queries measured at doubling dimension, tree size and query size; each doubling may multiply clauses, literals and variables by at most 16 (degree four), plus a constant; distinct = distinct measured series",
		Assume: []string{"a super-polynomial encoding shows within the measured sizes"},
		Need:   []string{"doublings", "operators_measured"},
		Streams: []Stream{
			{Name: "dimension", Quick: 60, Thor: 2000, Run: growDim},
			{Name: "nodes", Quick: 60, Thor: 2000, Run: growNodes},
			{Name: "queries", Quick: 400, Thor: 12000, Run: growQuery},
			{Name: "operators", Quick: 400, Thor: 10000, Run: multiplied},
		}})
}
