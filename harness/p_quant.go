package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/jtcaraball/goexpdt/cnf"
	"github.com/jtcaraball/goexpdt/compute"
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/logop"
)

// Properties C05, C06 and C11.

type cnfT = cnf.CNF

// bodyFunc is a query component of the harness.
type bodyFunc func(ctx query.QContext) (cnf.CNF, error)

func (b bodyFunc) Encoding(ctx query.QContext) (cnf.CNF, error) { return b(ctx) }

func sortedKeys(m map[string]int) []string {
	out := []string{}
	for k, n := range m {
		out = append(out, fmt.Sprintf("%s x%d", k, n))
	}
	sort.Strings(out)
	return out
}

func sameCount(a, b map[string]int) bool {
	if len(a) != len(b) {
		return false
	}
	for k, n := range a {
		if b[k] != n {
			return false
		}
	}
	return true
}

// recordCase watches the values a quantifier's body is instantiated with.
func recordCase(t *T, i int) {
	r := t.Rand
	var tree *Tree
	switch r.Intn(6) {
	case 0:
		tree = chainTree(r, 1+r.Intn(60), 60)
	case 1:
		tree = smallTree(t, r.Intn(80))
	case 2:
		tree = randTree(r, 8+r.Intn(20), 100+r.Intn(200))
	default:
		tree = midTree(r, 2, 7)
	}
	t.Describe("tree %s", tree)
	insts := tree.nodeInsts()
	depth := 1
	if len(tree.nodes) <= 31 && r.Intn(2) == 0 {
		depth = 2
		if len(tree.nodes) <= 9 && r.Intn(2) == 0 {
			depth = 3
		}
	}
	ids := append([]string{}, pickIDs(r)[:depth]...)
	if depth > 1 && r.Intn(4) == 0 {
		// the innermost of the same name counts
		ids[1+r.Intn(depth-1)] = ids[0]
		t.Count("rebound_names", 1)
	}
	seen := map[string]int{}
	outside := query.QConst{ID: "other", Val: someInst(r, tree.dim).vals()}
	var bad string
	body := bodyFunc(func(ctx query.QContext) (cnf.CNF, error) {
		var parts []string
		for _, id := range ids {
			own := query.QConst{ID: id}
			if r.Intn(2) == 0 {
				own.Val = someInst(r, tree.dim).vals()
			}
			c, ok := ctx.ScopeConst(own)
			x, valid := instOf(c.Val)
			if !ok || !valid || len(x) != tree.dim || c.ID != id {
				bad = fmt.Sprintf("guarded constant %q not replaced: ok=%v value=%v id=%q", id, ok, c.Val, c.ID)
			}
			parts = append(parts, x.String())
		}
		o, ok := ctx.ScopeConst(outside)
		if ok || fmt.Sprint(o) != fmt.Sprint(outside) {
			bad = fmt.Sprintf("constant %q changed inside the quantifier: %v ok=%v", outside.ID, o, ok)
		}
		seen[strings.Join(parts, "/")]++
		return cnf.TrueCNF, nil
	})
	var q logop.LogOpQ = body
	for k := depth - 1; k >= 0; k-- {
		q = logop.ForAllGuarded{I: guardConst(r, tree.dim, ids[k]), Q: q}
		if r.Intn(5) == 0 {
			q = logop.Not{Q: q}
		}
	}
	ctx := query.BasicQContext(tree)
	reps := 1 + r.Intn(2)
	for k := 0; k < reps; k++ {
		if _, err := q.Encoding(ctx); err != nil {
			t.Violate("record/error", "encoding failed: %v", err)
		}
		t.Eval(1)
	}
	if bad != "" {
		t.Violate("record/value", "%s", bad)
	}
	want := map[string]int{}
	var rec func(k int, parts []string)
	rec = func(k int, parts []string) {
		if k == depth {
			seen := make([]string, depth)
			for a := range ids {
				for b := range ids {
					if ids[b] == ids[a] {
						seen[a] = parts[b]
					}
				}
			}
			want[strings.Join(seen, "/")] += reps
			return
		}
		for _, x := range insts {
			rec(k+1, append(parts[:k:k], x.String()))
		}
	}
	rec(0, nil)
	t.Count("instantiations", len(seen))
	if !sameCount(seen, want) {
		t.Violate("record/instantiations", "the body was instantiated with %s\nbut the tree's nodes are %s",
			clip(strings.Join(sortedKeys(seen), " "), 800), clip(strings.Join(sortedKeys(want), " "), 800))
	}
	for _, id := range ids {
		own := query.QConst{ID: id, Val: someInst(r, tree.dim).vals()}
		if c, ok := ctx.ScopeConst(own); ok || fmt.Sprint(c) != fmt.Sprint(own) {
			t.Violate("record/outside", "constant %q is still bound after the quantifier: %v", id, c)
		}
	}
	t.Distinct(fmt.Sprintf("%s depth %d", tree, depth))
}

// manyNodes watches the instantiations over a tree with thousands of nodes:
// the constant's values and the names of a variable declared inside.
func manyNodes(t *T, i int) {
	r := t.Rand
	inner := []int{140, 600, 1100, 2200, 4200, 9000, 33000, 66000}[(i+r.Intn(2))%8]
	dim := 8
	for 1<<dim < 2*inner {
		dim++
	}
	dim += r.Intn(10)
	tree := randShape(r, dim, inner, []float64{0, 0.01, 0.03}[r.Intn(3)], 0.5).layout(dim, r.Intn(3), r)
	t.Describe("tree of dimension %d with %d nodes", dim, len(tree.nodes))
	pack := func(x Inst) uint64 {
		k := uint64(1)
		for _, v := range x {
			k = 3*k + uint64(v+1)
		}
		return k
	}
	want := map[uint64]int{}
	for _, x := range tree.nodeInsts() {
		want[pack(x)]++
	}
	declared := r.Intn(2) == 0
	seen := map[uint64]int{}
	names := map[query.QVar]uint64{}
	outs := map[query.QVar]bool{}
	bad := ""
	last := ""
	body := bodyFunc(func(ctx query.QContext) (cnf.CNF, error) {
		c, ok := ctx.ScopeConst(query.QConst{ID: "c"})
		x, valid := instOf(c.Val)
		if !ok || !valid || len(x) != dim {
			bad = fmt.Sprintf("guarded constant not replaced: ok=%v value=%v", ok, c.Val)
			return cnf.TrueCNF, nil
		}
		k := pack(x)
		seen[k]++
		if !declared {
			ctx.AddVar("in")
		}
		v := ctx.ScopeVar("in")
		if _, ok := names[v]; ok {
			bad = fmt.Sprintf("the inner variable of node %s is %q, as that of an earlier node is", x, v)
		}
		names[v] = k
		outs[ctx.ScopeVar("out")] = true
		last = x.String()
		return cnf.TrueCNF, nil
	})
	var q logop.LogOpQ = body
	if declared = declared && len(tree.nodes) < 6000; declared {
		q = logop.WithVar{I: "in", Q: q}
	}
	q = logop.WithVar{I: "out", Q: logop.ForAllGuarded{I: guardConst(r, tree.dim, "c"), Q: q}}
	ctx := query.BasicQContext(tree)
	enc, err := q.Encoding(ctx)
	if err != nil {
		t.Violate("many/error", "encoding failed: %v", err)
	}
	t.Eval(1)
	if bad != "" {
		t.Violate("many/body", "%s (last node %s)", bad, last)
	}
	for k, n := range want {
		if seen[k] != n {
			t.Violate("many/instantiations", "a node's instance was taken %d times instead of %d; %d of %d instances seen", seen[k], n, len(seen), len(want))
		}
	}
	if len(seen) != len(want) || len(outs) != 1 {
		t.Violate("many/instantiations", "%d instances seen, the tree has %d nodes; %d names of the outer variable", len(seen), len(want), len(outs))
	}
	if declared {
		// every variable has all its values
		sv := loadCNF(enc, r)
		for n := 0; n < 4; n++ {
			var as []int
			for v := range names {
				as = append(as, valLits(ctx, v, someInst(r, dim))...)
			}
			sort.Ints(as)
			if !sv.Solve(as...) {
				if !confirmUnsat(enc, as) {
					panic("harness: solvers disagree")
				}
				t.Violate("many/values", "a joint assignment of %d variables is not possible", len(names))
			}
		}
		t.Count("many_variables", len(names))
	}
	t.Count("many_nodes", len(tree.nodes))
	t.Distinct(fmt.Sprint("many", dim, len(tree.nodes)))
}

func pickIDs(r *rand.Rand) []string {
	return [][]string{{"c", "d", "c1"}, {"c", "C", "c "}, {"d", " d", "D"}, {"\xff", "\xfe", "\uFFFD"}}[r.Intn(4)]
}

// forallCase compares guarded quantifiers with the reference.
func forallCase(t *T, tree *Tree, atoms int, maxAll int) {
	r := t.Rand
	s := newScope(r, tree, 1+r.Intn(2))
	ids := pickIDs(r)
	var rec func(s *scopeInfo, depth int) *F
	rec = func(s *scopeInfo, depth int) *F {
		in := *s
		id := ids[depth]
		if depth > 0 && r.Intn(5) == 0 {
			id = ids[r.Intn(depth)]
		}
		in.guards = append(append([]string{}, s.guards...), id)
		var body *F
		switch {
		case depth+1 < maxAll && r.Intn(3) > 0:
			body = rec(&in, depth+1)
			if r.Intn(2) == 0 {
				a := in.qf(r, 1, atomOps)
				if r.Intn(2) == 0 {
					body = and(a, body)
				} else {
					body = or(body, a)
				}
			}
		default:
			body = in.qf(r, 1+r.Intn(atoms), atomOps)
		}
		f := forallOwn(r, tree.dim, id, body)
		if r.Intn(3) == 0 {
			f = not(f)
		}
		return f
	}
	f := rec(s, 0)
	if r.Intn(2) == 0 {
		// the name of the bound constant used outside, with its own value
		a := s.atom(r, atomOps)
		for i := range a.T {
			if a.T[i].Var == "" && a.T[i].ID == "" {
				a.T[i].ID = ids[0]
			}
		}
		switch r.Intn(3) {
		case 0:
			f = and(a, f)
		case 1:
			f = and(f, a)
		default:
			f = or(f, a)
		}
	}
	if r.Intn(4) == 0 {
		// the same name bound by a second quantifier
		in := *s
		in.guards = []string{ids[0]}
		g := forallOwn(r, tree.dim, ids[0], in.qf(r, 1+r.Intn(2), atomOps))
		if r.Intn(2) == 0 {
			f = and(f, g)
		} else {
			f = or(g, f)
		}
	}
	profile(t, tree, f, &Gens{Unique: true}, profileOpts{limit: 30, sample: 20, key: "forall", hints: s.consts})
}

func genClosed(r *rand.Rand, tree *Tree, n int, cfg closedCfg) *F {
	s := &scopeInfo{dim: tree.dim, pVar: 0.7}
	ns := tree.nodeInsts()
	s.consts = append(s.consts, someInst(r, tree.dim), randInst(r, tree.dim, 0), ns[r.Intn(len(ns))])
	return s.quant(r, n, cfg, 0, 0)
}

// cost of a brute-force evaluation.
func bruteCost(f *F, tree *Tree) int {
	p3 := 1
	for i := 0; i < tree.dim; i++ {
		p3 *= 3
	}
	switch f.Op {
	case "ex":
		return p3 * bruteCost(f.K[0], tree)
	case "all":
		return len(tree.nodes) * bruteCost(f.K[0], tree)
	}
	n := 1
	for _, k := range f.K {
		n += bruteCost(k, tree)
	}
	return n
}

// closedF draws a closed formula that the brute-force evaluator can decide.
func closedF(r *rand.Rand, tree *Tree, n int, cfg closedCfg) *F {
	for {
		f := genClosed(r, tree, n, cfg)
		if bruteCost(f, tree) <= 60000 {
			return f
		}
	}
}

func closedTruth(f *F, tree *Tree) bool {
	return f.eval(tree, &Env{v: map[string]Inst{}, g: map[string]Inst{}})
}

// closedCase decides a closed formula by its encoding.
func closedCase(t *T, tree *Tree, n int, cfg closedCfg, unique bool, key string) {
	f := closedF(t.Rand, tree, n, cfg)
	t.Describe("tree %s\nformula %s", tree, f)
	ctx := query.BasicQContext(tree)
	enc, err := f.build(&Gens{Unique: unique}, nil).Encoding(ctx)
	t.Eval(1)
	if err != nil {
		t.Violate(key+"/error", "encoding failed: %v", err)
	}
	checkTop(t, enc, ctx, key)
	got := loadCNF(enc, t.Rand).Solve()
	want := closedTruth(f, tree)
	t.Count(fmt.Sprintf("closed_%v", want), 1)
	if usedEx(f) > 0 && usedAll(f) > 0 {
		t.Count("alternations", 1)
	}
	if got != want {
		if !got && !confirmUnsat(enc, nil) {
			panic("harness: solvers disagree")
		}
		t.Violate(key, "the formula is %v but its encoding is satisfiable=%v", want, got)
	}
	t.Distinct(fmt.Sprintf("%s | %s", f, tree))
}

// rangeCase enumerates the values declared variables can take.
func rangeCase(t *T, i int) {
	r := t.Rand
	dim := 1 + r.Intn(3)
	switch r.Intn(24) {
	case 0, 1, 2:
		dim = 4 + r.Intn(12)
	case 3:
		dim = 16 + r.Intn(120)
	case 4:
		if r.Intn(2) == 0 {
			dim = 130 + r.Intn(1000)
		}
	}
	tree := randTree(r, dim, 1+r.Intn(4))
	nv := 1 + r.Intn(3)
	names := []string{}
	for _, k := range r.Perm(len(varNames))[:nv] {
		names = append(names, varNames[k])
	}
	// declare, some of them twice
	decl := append([]string{}, names...)
	for k := r.Intn(3); k > 0; k-- {
		decl = append(decl, names[r.Intn(nv)])
	}
	r.Shuffle(len(decl), func(a, b int) { decl[a], decl[b] = decl[b], decl[a] })
	t.Describe("tree %s\ndeclared %q", tree, decl)
	ctx := query.BasicQContext(tree)
	always := bodyFunc(func(query.QContext) (cnf.CNF, error) { return cnf.TrueCNF, nil })
	never := bodyFunc(func(query.QContext) (cnf.CNF, error) { return cnf.FalseCNF, nil })
	var q logop.LogOpQ = always
	switch r.Intn(4) {
	case 0:
		// declarations in parts that do not decide the truth of the query:
		// false under OR or NOT, true under AND
		var p logop.LogOpQ
		for _, v := range decl {
			var w logop.LogOpQ
			switch r.Intn(5) {
			case 0:
				w = logop.Not{Q: logop.And{Q1: never, Q2: logop.WithVar{I: query.QVar(v), Q: always}}}
			case 1:
				w = logop.Not{Q: logop.WithVar{I: query.QVar(v), Q: never}}
			case 2:
				w = logop.Or{Q1: logop.WithVar{I: query.QVar(v), Q: never}, Q2: always}
			case 3:
				w = logop.Or{Q1: always, Q2: logop.And{Q1: logop.WithVar{I: query.QVar(v), Q: never}, Q2: never}}
			default:
				w = logop.And{Q1: always, Q2: logop.WithVar{I: query.QVar(v), Q: always}}
			}
			switch {
			case p == nil:
				p = w
			case r.Intn(2) == 0:
				p = logop.And{Q1: w, Q2: p}
			default:
				p = logop.Or{Q1: p, Q2: w}
			}
		}
		q = p
		t.Count("declared_in_undeciding_parts", 1)
	case 1, 2:
		q = wrapVars(q, decl)
	default:
		// declarations side by side
		var p logop.LogOpQ
		for _, v := range decl {
			w := logop.WithVar{I: query.QVar(v), Q: q}
			switch {
			case p == nil:
				p = w
			case r.Intn(2) == 0:
				p = logop.And{Q1: p, Q2: w}
			default:
				p = logop.Or{Q1: w, Q2: p}
			}
		}
		q = p
	}
	enc, err := q.Encoding(ctx)
	if err != nil {
		t.Violate("range/error", "encoding failed: %v", err)
	}
	checkTop(t, enc, ctx, "range")
	sv := loadCNF(enc, r)
	// raw assignments of the feature bits
	lits := func(v string, bits [][3]bool) []int {
		var as []int
		for f, b := range bits {
			for k, fvv := range []query.FeatV{query.BOT, query.ZERO, query.ONE} {
				l := ctx.CNFVar(query.QVar(v), f, int(fvv))
				if !b[k] {
					l = -l
				}
				as = append(as, l)
			}
		}
		return as
	}
	try := func(bits map[string][][3]bool) {
		var as []int
		want := true
		for _, v := range names {
			for _, b := range bits[v] {
				n := 0
				for _, x := range b {
					if x {
						n++
					}
				}
				want = want && n == 1
			}
			as = append(as, lits(v, bits[v])...)
		}
		got := sv.Solve(as...)
		t.Eval(1)
		t.Count(fmt.Sprintf("assignments_%v", want), 1)
		if got != want {
			if !got && !confirmUnsat(enc, as) {
				panic("harness: solvers disagree")
			}
			t.Violate("range", "bits %v (order undefined,0,1) are possible=%v, expected %v", bits, got, want)
		}
	}
	one := func(k int) (b [3]bool) { b[k] = true; return }
	if nv == 1 && dim <= 3 {
		for m := 0; m < 1<<(3*dim); m++ {
			bs := make([][3]bool, dim)
			for f := range bs {
				for k := 0; k < 3; k++ {
					bs[f][k] = m>>(3*f+k)&1 == 1
				}
			}
			try(map[string][][3]bool{names[0]: bs})
		}
		t.Count("variables_enumerated", 1)
	} else {
		if dim > 15 {
			t.Count("variables_of_many_features", 1)
		}
		for n := 0; n < 120; n++ {
			bits := map[string][][3]bool{}
			for _, v := range names {
				bs := make([][3]bool, dim)
				for f := range bs {
					bs[f] = one(r.Intn(3))
				}
				bits[v] = bs
			}
			if r.Intn(3) == 0 {
				// one feature with no or several values
				b := bits[names[r.Intn(nv)]]
				f := r.Intn(dim)
				if r.Intn(4) == 0 {
					f = dim - 1 // the last one
				}
				switch r.Intn(3) {
				case 0:
					b[f] = [3]bool{}
				default:
					b[f][r.Intn(3)] = true
				}
			}
			try(bits)
		}
	}
	t.Distinct(fmt.Sprintf("dim %d %q", dim, decl))
}

// scopedRange checks variables declared inside guarded quantifiers.
func scopedRange(t *T, i int) {
	r := t.Rand
	tree := midTree(r, 1, 4)
	depth := 1 + r.Intn(2)
	if len(tree.nodes) > 15 {
		depth = 1
	}
	ids := []string{"c", "1"}[:depth]
	level := 1 + r.Intn(depth) // quantifiers around the declaration of "in"
	t.Describe("tree %s\ndepth %d, inner variable declared under %d quantifiers", tree, depth, level)
	ctx := query.BasicQContext(tree)
	inner := map[query.QVar]int{}
	outer := map[query.QVar]int{}
	mk := map[query.QVar]string{}
	var bad string
	body := bodyFunc(func(ctx query.QContext) (cnf.CNF, error) {
		var key []string
		for _, id := range ids[:level] {
			c, _ := ctx.ScopeConst(query.QConst{ID: id})
			key = append(key, fmt.Sprint(c.Val))
		}
		v := ctx.ScopeVar("in")
		k := strings.Join(key, "/")
		if old, ok := mk[v]; ok && old != k {
			bad = fmt.Sprintf("one inner variable %q serves the nodes %s and %s", v, old, k)
		}
		mk[v] = k
		inner[v]++
		outer[ctx.ScopeVar("out")]++
		return cnf.TrueCNF, nil
	})
	var q logop.LogOpQ = body
	for k := depth - 1; k >= 0; k-- {
		if k == level-1 {
			q = logop.WithVar{I: "in", Q: q}
		}
		q = logop.ForAllGuarded{I: guardConst(r, tree.dim, ids[k]), Q: q}
	}
	q = logop.WithVar{I: "out", Q: q}
	enc, err := q.Encoding(ctx)
	if err != nil {
		t.Violate("scoped/error", "encoding failed: %v", err)
	}
	if bad != "" {
		t.Violate("scoped/shared", "%s", bad)
	}
	nn := 1
	for k := 0; k < level; k++ {
		nn *= len(tree.nodes)
	}
	if len(inner) != nn || len(outer) != 1 {
		t.Violate("scoped/count", "%d inner and %d outer variables, expected %d and 1", len(inner), len(outer), nn)
	}
	sv := loadCNF(enc, r)
	var vs []query.QVar
	for v := range inner {
		vs = append(vs, v)
	}
	for v := range outer {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(a, b int) bool { return vs[a] < vs[b] })
	for n := 0; n < 25; n++ {
		var as []int
		for _, v := range vs {
			as = append(as, valLits(ctx, v, someInst(r, tree.dim))...)
		}
		want := true
		if n%3 == 0 {
			v := vs[r.Intn(len(vs))]
			f := r.Intn(tree.dim)
			want = false
			switch r.Intn(2) {
			case 0:
				// two values
				for _, x := range []query.FeatV{query.BOT, query.ZERO, query.ONE} {
					l := ctx.CNFVar(v, f, int(x))
					if !has2(as, l) {
						as = append(as, l)
						break
					}
				}
			default:
				// none
				var k []int
				for _, l := range as {
					drop := false
					for _, x := range []query.FeatV{query.BOT, query.ZERO, query.ONE} {
						drop = drop || l == ctx.CNFVar(v, f, int(x))
					}
					if !drop {
						k = append(k, l)
					}
				}
				as = k
				for _, x := range []query.FeatV{query.BOT, query.ZERO, query.ONE} {
					as = append(as, -ctx.CNFVar(v, f, int(x)))
				}
			}
		}
		got := sv.Solve(as...)
		t.Eval(1)
		t.Count(fmt.Sprintf("assignments_%v", want), 1)
		if got != want {
			if !got && !confirmUnsat(enc, as) {
				panic("harness: solvers disagree")
			}
			t.Violate("scoped", "a joint assignment of %d variables is possible=%v, expected %v", len(vs), got, want)
		}
	}
	t.Count("scoped_variables", len(vs))
	t.Distinct(fmt.Sprintf("%s %d/%d", tree, level, depth))
}

// reuseCase declares few names many times: in siblings, in one another, in and
// out of guarded quantifiers, in parts that do and do not decide the query.
// Whichever of the declarations share a variable, each variable the bodies see
// takes every value an instance has, and no other.
func reuseCase(t *T, i int) {
	r := t.Rand
	tree := midTree(r, 1, 3)
	names := []query.QVar{"x", "y"}[:1+r.Intn(2)]
	ids := []string{"c", "d"}
	ctx := query.BasicQContext(tree)
	type seenVar struct {
		name query.QVar
		user query.QVar
	}
	var vars []seenVar
	seen := map[query.QVar]bool{}
	note := func(v query.QVar, q logop.LogOpQ) logop.LogOpQ {
		return bodyFunc(func(ctx query.QContext) (cnf.CNF, error) {
			if s := ctx.ScopeVar(v); !seen[s] {
				seen[s] = true
				vars = append(vars, seenVar{s, v})
			}
			return q.Encoding(ctx)
		})
	}
	leaf := func(b bool) logop.LogOpQ {
		return bodyFunc(func(query.QContext) (cnf.CNF, error) {
			if b {
				return cnf.TrueCNF, nil
			}
			return cnf.FalseCNF, nil
		})
	}
	decls := 0
	var gen func(want bool, n, all int) (logop.LogOpQ, string)
	gen = func(want bool, n, all int) (logop.LogOpQ, string) {
		if n <= 0 {
			return leaf(want), fmt.Sprint(want)
		}
		switch c := r.Intn(10); {
		case c < 3:
			v := names[r.Intn(len(names))]
			decls++
			q, s := gen(want, n-1, all)
			return logop.WithVar{I: v, Q: note(v, q)}, fmt.Sprintf("ex %q.%s", v, s)
		case c < 5 && all < 2:
			q, s := gen(want, n-1, all+1)
			return logop.ForAllGuarded{I: guardConst(r, tree.dim, ids[all]), Q: q}, "all " + ids[all] + "." + s
		case c < 6:
			q, s := gen(!want, n-1, all)
			return logop.Not{Q: q}, "!" + s
		default:
			any := want
			if r.Intn(2) == 0 {
				any = !want
			}
			l := r.Intn(n)
			if !want {
				// a conjunction with a false part, or two false parts
				if r.Intn(2) == 0 {
					a, s1 := gen(any, l, all)
					b, s2 := gen(false, n-1-l, all)
					return logop.And{Q1: a, Q2: b}, "(" + s1 + " and " + s2 + ")"
				}
				a, s1 := gen(false, l, all)
				b, s2 := gen(false, n-1-l, all)
				return logop.Or{Q1: a, Q2: b}, "(" + s1 + " or " + s2 + ")"
			}
			if r.Intn(2) == 0 {
				a, s1 := gen(true, l, all)
				b, s2 := gen(any, n-1-l, all)
				return logop.Or{Q1: a, Q2: b}, "(" + s1 + " or " + s2 + ")"
			}
			a, s1 := gen(true, l, all)
			b, s2 := gen(true, n-1-l, all)
			return logop.And{Q1: a, Q2: b}, "(" + s1 + " and " + s2 + ")"
		}
	}
	q, desc := gen(true, 2+r.Intn(9), 0)
	t.Describe("tree %s\nquery %s", tree, desc)
	enc, err := q.Encoding(ctx)
	t.Eval(1)
	if err != nil {
		t.Violate("reuse/error", "encoding failed: %v", err)
	}
	checkTop(t, enc, ctx, "reuse")
	sv := loadCNF(enc, r)
	dim := tree.dim
	bit := func(v query.QVar, f, k int, on bool) int {
		l := ctx.CNFVar(v, f, int([]query.FeatV{query.BOT, query.ZERO, query.ONE}[k]))
		if !on {
			l = -l
		}
		return l
	}
	ask := func(as []int, want bool, format string, a ...any) {
		t.Eval(1)
		if got := sv.Solve(as...); got != want {
			if !got && !confirmUnsat(enc, as) {
				panic("harness: solvers disagree")
			}
			t.Violate("reuse", "%s: possible=%v", fmt.Sprintf(format, a...), got)
		}
	}
	n := len(vars)
	t.Count("variables_seen", n)
	for k := 0; k < 8 && n > 0; k++ {
		v := vars[r.Intn(n)]
		f := r.Intn(dim)
		for m := 0; m < 8; m++ {
			var as []int
			ones := 0
			for j := 0; j < 3; j++ {
				as = append(as, bit(v.name, f, j, m>>j&1 == 1))
				ones += m >> j & 1
			}
			ask(as, ones == 1, "feature %d of %q with bits %03b", f, v.name, m)
		}
		// any instances for all the variables together
		var as []int
		for _, w := range vars {
			for g, x := range randInst(r, dim, 0.4) {
				for j := 0; j < 3; j++ {
					as = append(as, bit(w.name, g, j, int(x)+1 == j))
				}
			}
		}
		ask(as, true, "instances of the %d variables chosen independently", n)
	}
	if n < decls {
		t.Count("names_declared_again", decls-n)
	}
	t.Distinct(desc + tree.String())
}

// siblingScopes declares variables in several quantifier blocks of one query,
// with names that are easily confused, on trees with many nodes.
func siblingScopes(t *T, i int) {
	r := t.Rand
	var tree *Tree
	switch r.Intn(4) {
	case 0:
		tree = randTree(r, 6, 20+r.Intn(40))
	case 1:
		tree = midTree(r, 1, 3)
	default:
		tree = randTree(r, 4+r.Intn(2), 6+r.Intn(8))
	}
	if r.Intn(6) == 0 {
		tree = chainTree(r, 8, 8)
	}
	most := 400
	if r.Intn(25) == 0 {
		tree = denseTree(r, 9, 128+r.Intn(140))
		most = 900
		t.Count("blocks_over_256_nodes", 1)
	}
	nn := len(tree.nodes)
	idNames := []string{"a", "a1", "a11", "1", "11", "b", "c", "x", "1a", "aa", "a-1", "A", "0"}
	vNames := []string{"x", "xa", "x1", "xa1", "x11", "a", "1", "x0"}
	if r.Intn(8) == 0 {
		// all the names are long, and alike but for one place
		pad := []int{20, 60, 130, 300, 1100}[r.Intn(5)]
		a := strings.Repeat("n", r.Intn(pad+1))
		b := strings.Repeat("m", pad-len(a))
		for i := range idNames {
			idNames[i] = a + idNames[i] + b
		}
		for i := range vNames {
			vNames[i] = a + vNames[i] + b
		}
		t.Count("long_names", 1)
	}
	type block struct {
		ids   []string
		decl  int
		names []string
	}
	perm := r.Perm(len(idNames))
	if r.Intn(3) == 0 {
		perm = []int{0, 1, 2, 3, 4, 5} // a a1 a11 1 11 b
		r.Shuffle(len(perm), func(i, j int) { perm[i], perm[j] = perm[j], perm[i] })
	}
	var blocks []block
	total, next := 0, 0
	for n := 2 + r.Intn(2); n > 0; n-- {
		depth := 1
		if nn*nn+total < 300 && r.Intn(2) == 0 {
			depth = 2
		}
		b := block{}
		size := 1
		for k := 0; k < depth; k++ {
			b.ids = append(b.ids, idNames[perm[next%len(perm)]])
			next++
			size *= nn
		}
		if total+size > most || next > len(perm) {
			break
		}
		total += size
		b.decl = 1 + r.Intn(depth)
		for _, k := range r.Perm(len(vNames))[:1+r.Intn(3)] {
			b.names = append(b.names, vNames[k])
		}
		if r.Intn(2) == 0 && len(blocks) > 0 {
			b.names = blocks[0].names
		}
		blocks = append(blocks, b)
	}
	t.Describe("tree %s\nblocks %v", tree, blocks)
	ctx := query.BasicQContext(tree)
	owner := map[query.QVar]string{}
	name := map[string]query.QVar{}
	var bad string
	var q logop.LogOpQ
	for bi := range blocks {
		bi, b := bi, blocks[bi]
		body := bodyFunc(func(ctx query.QContext) (cnf.CNF, error) {
			key := fmt.Sprint(bi)
			for _, id := range b.ids[:b.decl] {
				c, _ := ctx.ScopeConst(query.QConst{ID: id})
				key += fmt.Sprint("/", c.Val)
			}
			for _, n := range b.names {
				k := fmt.Sprintf("%s %q", key, n)
				v := ctx.ScopeVar(query.QVar(n))
				if old, ok := owner[v]; ok && old != k {
					bad = fmt.Sprintf("one variable %q serves %s and %s", v, old, k)
				}
				if old, ok := name[k]; ok && old != v {
					bad = fmt.Sprintf("%s has the variables %q and %q", k, old, v)
				}
				owner[v], name[k] = k, v
			}
			return cnf.TrueCNF, nil
		})
		var p logop.LogOpQ = body
		for k := len(b.ids) - 1; k >= 0; k-- {
			if k == b.decl-1 {
				for _, n := range b.names {
					p = logop.WithVar{I: query.QVar(n), Q: p}
				}
			}
			p = logop.ForAllGuarded{I: guardConst(r, tree.dim, b.ids[k]), Q: p}
		}
		if q == nil {
			q = p
		} else {
			q = logop.And{Q1: q, Q2: p}
		}
	}
	enc, err := q.Encoding(ctx)
	if err != nil {
		t.Violate("siblings/error", "encoding failed: %v", err)
	}
	if bad != "" {
		t.Violate("siblings/shared", "%s", bad)
	}
	sv := loadCNF(enc, r)
	var vs []query.QVar
	for _, v := range name {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(a, b int) bool { return vs[a] < vs[b] })
	for n := 0; n < 4; n++ {
		var as []int
		for _, v := range vs {
			as = append(as, valLits(ctx, v, someInst(r, tree.dim))...)
		}
		t.Eval(1)
		t.Count("assignments_true", 1)
		if !sv.Solve(as...) {
			if !confirmUnsat(enc, as) {
				panic("harness: solvers disagree")
			}
			t.Violate("siblings", "a joint assignment of %d variables is impossible", len(vs))
		}
	}
	t.Count("sibling_variables", len(vs))
	t.Distinct(fmt.Sprintf("%s %v", tree, blocks))
}

func has2(l []int, x int) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

// comb is a combinator tree with its reference truth value.
func genComb(r *rand.Rand, tree *Tree, depth int, cfg closedCfg, unique bool) (compute.QDTFCombinator, bool, string, int) {
	if depth == 0 || r.Intn(3) == 0 {
		f := closedF(r, tree, 1+r.Intn(4), cfg)
		neg := r.Intn(3) == 0
		truth := closedTruth(f, tree)
		return compute.QDTFAtom{Query: f.build(&Gens{Unique: unique}, nil), Negated: neg}, truth != neg,
			fmt.Sprintf("{%s neg=%v}", f, neg), 1
	}
	n := r.Intn(4)
	isAnd := r.Intn(2) == 0
	truth := isAnd
	var l []compute.QDTFCombinator
	var ss []string
	atoms := 0
	for k := 0; k < n; k++ {
		c, v, s, a := genComb(r, tree, depth-1, cfg, unique)
		l = append(l, c)
		ss = append(ss, s)
		atoms += a
		if isAnd {
			truth = truth && v
		} else {
			truth = truth || v
		}
	}
	if isAnd {
		return compute.AndCombinator(l), truth, "And[" + strings.Join(ss, ", ") + "]", atoms
	}
	return compute.OrCombinator(l), truth, "Or[" + strings.Join(ss, ", ") + "]", atoms
}

func satCase(t *T, tree *Tree, depth int, sv compute.Solver, kind string) {
	r := t.Rand
	c, want, desc, atoms := genComb(r, tree, depth, closedCfg{maxEx: 2, maxAll: 2, ops: atomOps}, r.Intn(2) == 0)
	t.Describe("tree %s\n%s\nsolver %s", tree, desc, kind)
	got, err := c.Sat(query.BasicQContext(tree), sv)
	t.Eval(1)
	if err != nil {
		t.Violate("sat/error-"+kind, "evaluation failed: %v", err)
	}
	t.Count(fmt.Sprintf("answers_%v", want), 1)
	t.Count("atoms", atoms)
	if got != want {
		t.Violate("sat-"+kind, "evaluated to %v, the query's truth value is %v", got, want)
	}
	t.Distinct(fmt.Sprintf("%s | %s", desc, tree))
}

func init() {
	register(&Prop{ID: "C05", Level: "exploration",
		Rule:   "record: a recording body inside one to three nested quantifiers lists the constants it is instantiated with, which must be the node instances, once each; forall: formulas with (negated, nested) guarded quantifiers decided under valuations of their free variables and compared with the reference; distinct = distinct (formula, tree)",
		Assume: semAssume, Need: []string{"instantiations", "contingent_formulas"},
		Streams: []Stream{
			{Name: "record", Quick: 8000, Thor: 100000, Run: recordCase},
			{Name: "small", Quick: 6000, Thor: 100000, Run: func(t *T, i int) { forallCase(t, smallTree(t, i), 3, 2) }},
			{Name: "mid", Quick: 3000, Thor: 60000, Run: func(t *T, i int) { forallCase(t, midTree(t.Rand, 3, 5), 3, 2) }},
			{Name: "many", Quick: 8, Thor: 200, Run: manyNodes},
			{Name: "nested", Quick: 500, Thor: 10000, Run: func(t *T, i int) { forallCase(t, midTree(t.Rand, 1, 2), 2, 3) }},
		}})
	register(&Prop{ID: "C06", Level: "exploration",
		Rule:   "range: all 2^(3 dim) assignments of a variable's feature bits (dimension <= 3) or a sample of joint assignments of several variables, decided on the encoding of their declarations, possible exactly when every feature has one value; scoped: the same for variables declared under guarded quantifiers, recorded per node; quantified: closed formulas with alternation against brute force; distinct = distinct (declarations, tree) or formula",
		Assume: semAssume, Need: []string{"assignments_true", "assignments_false", "variables_enumerated", "scoped_variables", "sibling_variables", "alternations"},
		Streams: []Stream{
			{Name: "range", Quick: 3000, Thor: 50000, Run: rangeCase},
			{Name: "scoped", Quick: 2000, Thor: 40000, Run: scopedRange},
			{Name: "many", Quick: 8, Thor: 200, Run: manyNodes},
			{Name: "reuse", Quick: 2500, Thor: 50000, Run: reuseCase},
			{Name: "siblings", Quick: 2000, Thor: 40000, Run: siblingScopes},
			{Name: "quantified", Quick: 6000, Thor: 150000, Run: func(t *T, i int) {
				closedCase(t, midTree(t.Rand, 1, 3), 1+t.Intn(4), closedCfg{3, 2, []string{"sub", "sub", "lel", "node", "full", "cons", "allc"}}, t.Intn(2) == 0, "quantified")
			}},
		}})
	register(&Prop{ID: "C11", Level: "exploration",
		Rule:   "random combinator trees over closed queries (existential and guarded universal quantifiers, all components), evaluated with Sat and compared with a brute-force evaluator over all partial instances; the solver picks random models; distinct = distinct (combinator, tree)",
		Assume: append(append([]string{}, semAssume...), "existential variables occur positively, a negated guarded quantifier has a quantifier-free body (the supported fragment)"),
		Need:   []string{"answers_true", "answers_false", "exec_calls", "closed_true", "closed_false", "variants_of_both_values"},
		Streams: []Stream{
			{Name: "atoms", Quick: 12000, Thor: 300000, Run: func(t *T, i int) {
				closedCase(t, midTree(t.Rand, 1, 3), 1+t.Intn(6), closedCfg{2, 2, atomOps}, t.Intn(2) == 0, "closed")
			}},
			{Name: "inproc", Quick: 4000, Thor: 100000, Run: func(t *T, i int) {
				satCase(t, midTree(t.Rand, 1, 3), t.Intn(4), &inSolver{r: t.Rand}, "inproc")
			}},
			{Name: "exec", Quick: 250, Thor: 4000, Run: func(t *T, i int) {
				w := newWork(t)
				defer w.done()
				sv, dir := w.solver(t, "gxsolver", SolverCfg{Seed: t.Int63(), Width: t.Intn(20) - 1, Spaces: t.Intn(2) == 0, Comments: t.Intn(2) == 0})
				// one solver for several evaluations
				for k := 1 + t.Intn(4); k > 0; k-- {
					tree := midTree(t.Rand, 1, 3)
					satCase(t, tree, t.Intn(2), sv, "exec")
					satCase(t, tree, 0, sv, "exec")
				}
				t.Count("exec_calls", countCalls(dir))
			}},
			{Name: "variants", Quick: 200, Thor: 4000, Run: variantsCase},
			{Name: "wide", Quick: 150, Thor: 3000, Run: wideComb},
			{Name: "empty", Quick: 4, Thor: 4, Run: emptyComb},
		}})
}

// flipped copies a formula, with some defined values of its constants
// inverted, which leaves the shape of it as it is.
func flipped(r *rand.Rand, f *F) *F {
	g := *f
	g.T = append([]Term{}, f.T...)
	for i, t := range g.T {
		if t.Var != "" || t.Val == nil {
			continue
		}
		g.T[i].Val = append(Inst{}, t.Val...)
		for j, v := range t.Val {
			if v >= 0 && r.Intn(3) == 0 {
				g.T[i].Val[j] = 1 - v
			}
		}
	}
	g.K = nil
	for _, k := range f.K {
		g.K = append(g.K, flipped(r, k))
	}
	return &g
}

// variantsCase evaluates queries that differ only in the values of their
// constants with one solver, on one context and on new ones.
func variantsCase(t *T, i int) {
	r := t.Rand
	w := newWork(t)
	defer w.done()
	sv, dir := w.solver(t, "gxsolver", SolverCfg{Seed: t.Int63(), Width: t.Intn(20) - 1})
	tree := midTree(r, 1, 3)
	s := newScope(r, tree, 1+r.Intn(2))
	var f *F
	// a query some of whose variants are true and others false
	for try := 0; ; try++ {
		if try == 60 {
			return
		}
		f = s.qf(r, 2+r.Intn(4), atomOps)
		for _, v := range f.free() {
			f = ex(v, f)
		}
		if bruteCost(f, tree) > 5000 {
			continue
		}
		val := closedTruth(f, tree)
		other := false
		for k := 0; k < 6 && !other; k++ {
			other = closedTruth(flipped(r, f), tree) != val
		}
		if other {
			break
		}
	}
	ctx := query.BasicQContext(tree)
	seen := map[bool]bool{}
	for k := 0; k < 8; k++ {
		g := flipped(r, f)
		want := closedTruth(g, tree)
		if k > 4 && len(seen) == 1 && seen[want] {
			continue
		}
		seen[want] = true
		t.Describe("tree %s\n%s, evaluation %d on one solver", tree, g, k)
		if r.Intn(2) == 0 {
			ctx = query.BasicQContext(tree)
		} else {
			ctx.Reset()
		}
		got, err := compute.QDTFAtom{Query: g.build(&Gens{}, nil)}.Sat(ctx, sv)
		t.Eval(1)
		if err != nil {
			t.Violate("variants/error", "evaluation failed: %v", err)
		}
		if got != want {
			t.Violate("variants/answer", "evaluated to %v, the query's truth value is %v", got, want)
		}
	}
	if len(seen) == 2 {
		t.Count("variants_of_both_values", 1)
	}
	t.Count("exec_calls", countCalls(dir))
	t.Distinct(fmt.Sprintf("%s | %s", f, tree))
}

// wideComb evaluates combinators with many elements or many levels, in which
// one element alone decides.
func wideComb(t *T, i int) {
	r := t.Rand
	tree := midTree(r, 1, 3)
	gens := &Gens{}
	cfg := closedCfg{maxEx: 1, maxAll: 1, ops: atomOps}
	have := map[bool][]compute.QDTFCombinator{}
	for len(have[true]) < 2 || len(have[false]) < 2 {
		f := closedF(r, tree, 1+r.Intn(2), cfg)
		truth := closedTruth(f, tree)
		q := f.build(gens, nil)
		for _, neg := range []bool{false, true} {
			if v := truth != neg; len(have[v]) < 2 {
				have[v] = append(have[v], compute.QDTFAtom{Query: q, Negated: neg})
			}
		}
	}
	pick := func(v bool) compute.QDTFCombinator { return have[v][r.Intn(2)] }
	n := 2 + r.Intn(90)
	at := r.Intn(n + 1) // at == n: no element decides
	switch r.Intn(3) {
	case 0:
		at = n - 1
	case 1:
		at = n
	}
	var c compute.QDTFCombinator
	var want bool
	kind := r.Intn(3)
	switch kind {
	case 0, 1:
		isAnd := kind == 0
		want = isAnd
		var l []compute.QDTFCombinator
		for k := 0; k < n; k++ {
			v := isAnd
			if k == at {
				v = !v
				want = v
			}
			l = append(l, pick(v))
		}
		if isAnd {
			c = compute.AndCombinator(l)
		} else {
			c = compute.OrCombinator(l)
		}
	case 2:
		// levels: each one keeps the value of the next
		want = r.Intn(2) == 0
		c = pick(want)
		for k := 0; k < n; k++ {
			l := []compute.QDTFCombinator{c}
			isAnd := r.Intn(2) == 0
			if r.Intn(2) == 0 {
				l = append(l, pick(isAnd))
			}
			if r.Intn(2) == 0 {
				l = append([]compute.QDTFCombinator{pick(isAnd)}, l...)
			}
			if isAnd {
				c = compute.AndCombinator(l)
			} else {
				c = compute.OrCombinator(l)
			}
		}
	}
	t.Describe("tree %s\n%d elements or levels of kind %d, decided at %d", tree, n, kind, at)
	got, err := c.Sat(query.BasicQContext(tree), &inSolver{r: r})
	t.Eval(1)
	t.Count("wide_combinators", 1)
	if err != nil {
		t.Violate("wide/error", "evaluation failed: %v", err)
	}
	if got != want {
		t.Violate("wide", "evaluated to %v, the value is %v", got, want)
	}
	t.Distinct(fmt.Sprint(kind, n, at, want))
}

func emptyComb(t *T, i int) {
	tree := randTree(t.Rand, 2, 2)
	t.Describe("empty combinators")
	for _, c := range []struct {
		c    compute.QDTFCombinator
		want bool
	}{
		{compute.AndCombinator{}, true}, {compute.OrCombinator{}, false},
		{compute.AndCombinator(nil), true}, {compute.OrCombinator(nil), false},
		{compute.AndCombinator{compute.OrCombinator{}}, false},
		{compute.OrCombinator{compute.AndCombinator{}}, true},
	} {
		got, err := c.c.Sat(query.BasicQContext(tree), &inSolver{r: t.Rand})
		t.Eval(1)
		if err != nil || got != c.want {
			t.Violate("empty", "%T %v = %v, %v", c.c, c.c, got, err)
		}
	}
	t.Distinct("empty")
}
