package main

import (
	"fmt"
	"math/rand"
	"sort"

	"github.com/jtcaraball/goexpdt/query"
)

// Properties C01 to C04 and C07: encodings against the reference semantics.

var guardNames = []string{"c", "c1", "d", "k2", "c 1", "ñ", "C", "c ", " c", "D", "\xff", "\xfe"}
var varNames = []string{"x", "y", "z", "x1", "x11", "X", "variable with spaces", "v~1", "x ", " x", "\xff", "\xfe"}

// withGuards turns some constants of an atom into guarded ones; the value the
// constant itself carries must then not matter.
func withGuards(r *rand.Rand, f *F, dim int) (map[string]Inst, []string) {
	g := map[string]Inst{}
	var order []string
	pick := r.Perm(len(guardNames))
	for i, t := range f.T {
		if t.Var != "" || r.Intn(3) > 0 {
			continue
		}
		id := guardNames[pick[i]]
		g[id] = t.Val
		order = append(order, id)
		// the value the caller left in the constant must not matter
		var own Inst
		if r.Intn(2) == 0 {
			own = someInst(r, dim)
		}
		f.T[i] = Term{ID: id, Val: own}
	}
	return g, order
}

func kindsOf(n int) [][]bool {
	var out [][]bool
	for m := 0; m < 1<<n; m++ {
		k := make([]bool, n)
		for i := range k {
			k[i] = m>>i&1 == 1
		}
		out = append(out, k)
	}
	return out
}

func relatedInst(r *rand.Rand, tree *Tree, op string, prev []Inst) Inst {
	dim := tree.dim
	var x Inst
	switch c := r.Intn(10); {
	case c < 2 && len(prev) > 0:
		x = prev[r.Intn(len(prev))].clone()
		for n := r.Intn(3); n > 0; n-- {
			x[r.Intn(dim)] = int8(r.Intn(3)) - 1
		}
	case c < 3 && len(prev) > 0:
		x = prev[r.Intn(len(prev))].clone()
		for i := range x {
			if x[i] >= 0 {
				x[i] = 1 - x[i]
			}
		}
	case c < 6:
		ns := tree.nodeInsts()
		x = ns[r.Intn(len(ns))].clone()
		if r.Intn(2) == 0 {
			x[r.Intn(dim)] = int8(r.Intn(3)) - 1
		}
	default:
		x = someInst(r, dim)
	}
	if op == "leh" && r.Intn(6) > 0 {
		for i := range x {
			if x[i] < 0 {
				x[i] = int8(r.Intn(2))
			}
		}
	}
	return x
}

// boundaryConsts replaces the constants of a component by values for which
// the change of one feature changes its truth (at some values of its
// variables).
func boundaryConsts(r *rand.Rand, tree *Tree, f *F) {
	g := &F{Op: f.Op, Leaf: f.Leaf, Pref: f.Pref}
	var names []string
	for i := range f.T {
		n := fmt.Sprint("t", i)
		g.T = append(g.T, vt(n))
		names = append(names, n)
	}
	env := &Env{v: map[string]Inst{}, g: map[string]Inst{}}
	truth := func(m map[string]Inst) bool {
		env.v = m
		return g.eval(tree, env)
	}
	ms := boundary(r, tree.dim, names, valuations(r, tree, names, 0, 12, f.consts()), truth, 1)
	if len(ms) == 0 {
		return
	}
	m := ms[r.Intn(len(ms))]
	for i, n := range names {
		if f.T[i].Var == "" {
			f.T[i].Val = m[n].clone()
		}
	}
}

// atomForms checks every argument form of the given components on a tree.
func atomForms(t *T, tree *Tree, ops []string, o profileOpts) {
	r := t.Rand
	for _, op := range ops {
		for _, k := range kindsOf(arity[op]) {
			f := &F{Op: op, Leaf: r.Intn(2) == 0}
			perm := r.Perm(len(varNames))
			same := arity[op] > 1 && r.Intn(6) == 0
			var prev []Inst
			for i, isVar := range k {
				if isVar {
					j := i
					if same {
						j = r.Intn(2)
					}
					f.T = append(f.T, vt(varNames[perm[j]]))
				} else {
					x := relatedInst(r, tree, op, prev)
					prev = append(prev, x)
					f.T = append(f.T, ct(x))
				}
			}
			if op == "hepr" {
				f.Pref = randPref(r, tree.dim)
			}
			if o.bound > 0 && r.Intn(3) > 0 {
				boundaryConsts(r, tree, f)
			}
			g, order := withGuards(r, f, tree.dim)
			oo := o
			oo.guards, oo.order = g, order
			for _, x := range g {
				oo.hints = append(oo.hints, x)
			}
			kind := ""
			for _, b := range k {
				kind += map[bool]string{true: "v", false: "c"}[b]
			}
			oo.key = op + "-" + kind
			t.Count("forms_"+op, 1)
			profile(t, tree, f, &Gens{Unique: true}, oo)
			oo.key = "not-" + oo.key
			profile(t, tree, not(f), &Gens{Unique: true}, oo)
		}
	}
}

func smallTree(t *T, i int) *Tree {
	a, b := smallShapes(1), smallShapes(2)
	i %= len(a) + len(b)
	if i < len(a) {
		return a[i].layout(1, t.Intn(3), t.Rand)
	}
	return b[i-len(a)].layout(2, t.Intn(3), t.Rand)
}

func midTree(r *rand.Rand, dmin, dmax int) *Tree {
	d := dmin + r.Intn(dmax-dmin+1)
	if r.Intn(6) == 0 {
		return chainTree(r, d, d)
	}
	return randTree(r, d, 1+r.Intn(3*d))
}

func semStreams(ops []string, q, th int, bigDims, hugeDims []int, hugeQ, giantQ int) []Stream {
	return []Stream{
		{Name: "small", Quick: 1600, Thor: 16000, Run: func(t *T, i int) {
			atomForms(t, smallTree(t, i), ops, profileOpts{limit: 729, sample: 200})
		}},
		{Name: "dim3", Quick: q, Thor: th, Run: func(t *T, i int) {
			var tree *Tree
			if t.Intn(2) == 0 {
				all := smallShapes(3)
				tree = all[t.Intn(len(all))].layout(3, t.Intn(3), t.Rand)
			} else {
				tree = randTree(t.Rand, 3, 1+t.Intn(8))
			}
			atomForms(t, tree, ops, profileOpts{limit: 800, sample: 150})
		}},
		{Name: "mid", Quick: q, Thor: th, Run: func(t *T, i int) {
			atomForms(t, midTree(t.Rand, 4, 7), ops, profileOpts{limit: 300, sample: 60, bound: 10})
		}},
		{Name: "big", Quick: q / 8, Thor: th / 8, Run: func(t *T, i int) {
			d := bigDims[t.Intn(len(bigDims))]
			var tree *Tree
			if t.Intn(4) == 0 {
				tree = chainTree(t.Rand, d, d)
			} else {
				tree = randTree(t.Rand, d, 2+t.Intn(30))
			}
			atomForms(t, tree, ops, profileOpts{limit: 0, sample: 30, bound: 10})
		}},
		{Name: "giant", Quick: giantQ, Thor: 30 * giantQ, Run: giant(ops)},
		{Name: "huge", Quick: hugeQ, Thor: 40 * hugeQ, Run: func(t *T, i int) {
			d := hugeDims[t.Intn(len(hugeDims))]
			var tree *Tree
			switch t.Intn(4) {
			case 0:
				tree = chainTree(t.Rand, d, d)
			case 1:
				tree = randTree(t.Rand, d, 2+t.Intn(10))
			default:
				tree = denseTree(t.Rand, d, 30+t.Intn(300))
			}
			if d >= 64 {
				t.Count("dimensions_64_and_more", 1)
			}
			if len(tree.nodes) > 256 {
				t.Count("trees_over_256_nodes", 1)
			}
			atomForms(t, tree, ops[t.Intn(len(ops)):][:1], profileOpts{limit: 0, sample: 12, bound: 8})
		}},
	}
}

var semAssume = []string{
	"decision trees are well formed: root at index 0, every node reachable by one path, no feature repeated on a path",
	"variable, guard and auxiliary names do not collide",
	"the harness's SAT solver: models are re-checked against the clauses, unsatisfiable answers behind an alarm are confirmed by kissat or a separate DPLL",
}

const semRule = "a case is a component form (or formula) on a generated tree; its encoding is decided under every valuation of its variables (all 3^(dim*vars) when few, otherwise a sample biased to the tree's nodes, the constants, full and complementary instances) and compared with the definition; distinct = distinct (formula, tree, guard values)"

func init() {
	need := []string{"valuations_true", "valuations_false", "contingent_formulas"}
	lv := func(n int, ops ...string) Stream {
		return Stream{Name: "leaves", Quick: n, Thor: 25 * n, Run: leaves(ops)}
	}
	register(&Prop{ID: "C01", Level: "exploration", Rule: semRule, Assume: semAssume, Need: need,
		Streams: append(semStreams([]string{"sub", "lel", "node"}, 4000, 60000, []int{9, 12, 17, 25, 40}, []int{33, 64, 65, 66, 70, 129}, 160, 1600), lv(70, "node"))})
	register(&Prop{ID: "C02", Level: "exploration", Rule: semRule, Assume: semAssume, Need: need,
		Streams: append(semStreams([]string{"allc", "dfs", "full", "cons"}, 4000, 60000, []int{9, 12, 17, 25, 40}, []int{33, 64, 65, 66, 70, 129}, 160, 1600), lv(300, "allc", "dfs", "dfs"))})
	c3 := semStreams([]string{"leh", "hepr"}, 1600, 24000, []int{8, 11, 13, 16}, []int{17, 33, 64, 65, 66}, 60, 1200)
	c3 = append(c3, Stream{Name: "boundary", Quick: 1200, Thor: 20000, Run: lehBoundary})
	c3 = append(c3, Stream{Name: "prefs", Quick: 1200, Thor: 20000, Run: heprPrefs})
	c3 = append(c3, Stream{Name: "dim0", Quick: 16, Thor: 64, Run: lehNoFeatures})
	register(&Prop{ID: "C03", Level: "exploration", Rule: semRule, Assume: semAssume, Need: need, Streams: c3})

	register(&Prop{ID: "C04", Level: "exploration", Rule: semRule, Assume: semAssume, Need: need,
		Streams: []Stream{
			{Name: "small", Quick: 16000, Thor: 300000, Run: func(t *T, i int) { boolCase(t, smallTree(t, i), 1+t.Intn(6), true, 1) }},
			{Name: "dim3", Quick: 16000, Thor: 300000, Run: func(t *T, i int) { boolCase(t, midTree(t.Rand, 3, 3), 2+t.Intn(6), true, 2) }},
			{Name: "mid", Quick: 6000, Thor: 120000, Run: func(t *T, i int) { boolCase(t, midTree(t.Rand, 4, 6), 2+t.Intn(7), true, 2) }},
			{Name: "deep", Quick: 2000, Thor: 40000, Run: func(t *T, i int) { boolCase(t, midTree(t.Rand, 2, 3), 10+t.Intn(25), true, 2) }},
			{Name: "trivial", Quick: 8000, Thor: 120000, Run: trivialCase},
			{Name: "negations", Quick: 6000, Thor: 100000, Run: negationCase},
		}})
	register(&Prop{ID: "C07", Level: "exploration",
		Rule:   semRule + "; all components of a formula share one set of naming functions, and formulas pair components over common variables and constants",
		Assume: semAssume, Need: need,
		Streams: []Stream{
			{Name: "pairs", Quick: 24000, Thor: 500000, Run: sharePair},
			{Name: "sets", Quick: 8000, Thor: 150000, Run: func(t *T, i int) { boolCase(t, midTree(t.Rand, 2, 4), 3+t.Intn(6), false, 3) }},
			{Name: "bigpref", Quick: 4000, Thor: 60000, Run: sharePrefs},
			{Name: "nearconsts", Quick: 1500, Thor: 30000, Run: shareConsts},
			{Name: "quantified", Quick: 6000, Thor: 100000, Run: shareGuarded},
		}})
}

// offBy changes a count by nothing, one, or an amount that a narrow counter
// or a mask would lose.
func offBy(r *rand.Rand, n, max int) int {
	d := []int{0, 0, 1, 1, 2, 32, 63, 64, 65, 128, 255, 256, 257, 512}[r.Intn(14)]
	if r.Intn(2) == 0 {
		d = -d
	}
	if n+d < 0 || n+d > max {
		d = -d
	}
	if n+d < 0 || n+d > max {
		return r.Intn(max + 1)
	}
	return n + d
}

// giantTerms are values of a component's terms in a large dimension, at which
// its truth depends on few, late features or on large counts.
func giantTerms(r *rand.Rand, tree *Tree, op string, pref []int) []Inst {
	d := tree.dim
	pos := func() int {
		if r.Intn(4) == 0 {
			return d - 1
		}
		return r.Intn(d)
	}
	// count returns an instance with n features taken from with, the others
	// from base
	count := func(base, with Inst, n int) Inst {
		x := base.clone()
		for _, k := range r.Perm(d)[:n] {
			x[k] = with[k]
		}
		return x
	}
	bots := make(Inst, d)
	for k := range bots {
		bots[k] = -1
	}
	full := randInst(r, d, 0)
	opp := full.clone()
	for k := range opp {
		opp[k] = 1 - opp[k]
	}
	switch op {
	case "sub":
		y := someInst(r, d)
		x := count(y, bots, r.Intn(d+1))
		if r.Intn(3) > 0 {
			k := pos()
			x[k] = []int8{full[k], opp[k]}[r.Intn(2)]
		}
		return []Inst{x, y}
	case "cons":
		x := someInst(r, d)
		y := count(x, bots, r.Intn(d+1))
		if r.Intn(3) > 0 {
			k := pos()
			x[k], y[k] = full[k], opp[k]
		}
		return []Inst{x, y}
	case "lel":
		n := r.Intn(d + 1)
		return []Inst{count(full, bots, offBy(r, n, d)), count(opp, bots, n)}
	case "full":
		x := count(full, bots, []int{0, 0, 1, 1, min(d, 64), min(d, 256), d}[r.Intn(7)])
		if r.Intn(3) == 0 {
			x = full.clone()
			x[pos()] = -1
		}
		return []Inst{x}
	case "node", "allc", "dfs":
		ns := tree.nodeInsts()
		x := ns[r.Intn(len(ns))].clone()
		switch r.Intn(8) {
		case 0:
		case 6, 7:
			x = bots.clone()
			for n := r.Intn(3); n > 0; n-- {
				x[pos()] = int8(r.Intn(2))
			}
		case 1:
			x[pos()] = int8(r.Intn(3)) - 1
		case 2, 5:
			// more or fewer defined features
			free := []int{}
			for _, k := range r.Perm(d) {
				if x[k] < 0 {
					free = append(free, k)
				}
			}
			for _, k := range free[:min(len(free), []int{1, 64, 128, 256, 256, 512}[r.Intn(6)])] {
				x[k] = full[k]
			}
		case 3:
			x = count(full, x, r.Intn(d+1))
		default:
			x = count(x, bots, r.Intn(d+1))
		}
		return []Inst{x}
	case "leh":
		n := r.Intn(d + 1)
		x, y, z := full, count(full, opp, offBy(r, n, d)), count(full, opp, n)
		if r.Intn(6) == 0 {
			[]Inst{y, z}[r.Intn(2)][pos()] = -1
		}
		return []Inst{x, y, z}
	case "hepr":
		x := someInst(r, d)
		y := x.clone()
		for k := range y {
			if y[k] >= 0 {
				y[k] = int8(r.Intn(2))
			}
		}
		// they differ at late features of the list only
		for n := r.Intn(3); n > 0 && len(pref) > 0; n-- {
			k := pref[len(pref)-1-r.Intn(min(len(pref), 3))]
			z := []Inst{x, y}[r.Intn(2)]
			z[k] = int8(r.Intn(3)) - 1
		}
		return []Inst{x, y}
	}
	panic(op)
}

// giant checks components in dimensions of hundreds of features.
func giant(ops []string) func(t *T, i int) {
	return func(t *T, i int) {
		r := t.Rand
		d := []int{63, 64, 65, 127, 128, 129, 200, 255, 256, 257, 300, 513, 600}[r.Intn(13)]
		op := ops[r.Intn(len(ops))]
		f0 := r.Intn(2) == 0
		var tree *Tree
		switch r.Intn(3) {
		case 0:
			tree = chainTree(r, d, d)
		case 1:
			tree = chainTree(r, d, 1+r.Intn(d))
		default:
			tree = denseTree(r, d, 5+r.Intn(60))
		}
		if op == "allc" && r.Intn(3) > 0 {
			if r.Intn(3) == 0 {
				tree = denseTree(r, d, 200+r.Intn(500))
			}
			// one class, or one class and a single other leaf
			for k := range tree.nodes {
				tree.nodes[k].Value = f0
			}
			if r.Intn(3) > 0 {
				tree.nodes[r.Intn(len(tree.nodes))].Value = f0 == (r.Intn(9) == 0)
			}
		}
		if op == "dfs" && len(tree.nodes) > 300 {
			tree = chainTree(r, d, 1+r.Intn(140))
		}
		f := &F{Op: op, Leaf: f0}
		if op == "hepr" {
			f.Pref = r.Perm(d)
			if r.Intn(2) == 0 {
				f.Pref = f.Pref[:1+r.Intn(d)]
			}
		}
		xs := giantTerms(r, tree, op, f.Pref)
		g := map[string]Inst{}
		var order []string
		vars := map[string]Inst{}
		for k, x := range xs {
			switch c := r.Intn(4); {
			case c < 2 && op != "lel" && op != "leh" || c == 0 && d <= 129 && op == "lel":
				f.T = append(f.T, vt(varNames[k]))
				vars[varNames[k]] = x
			case c == 2:
				id := guardNames[k]
				g[id] = x
				order = append(order, id)
				f.T = append(f.T, Term{ID: id})
			default:
				f.T = append(f.T, ct(x))
			}
		}
		for k, h := range []*F{f, not(f)} {
			oo := profileOpts{guards: g, order: order, key: fmt.Sprint("giant-", op, k), only: []map[string]Inst{vars}}
			for n := 0; n < 5 && len(vars) > 0; n++ {
				m := map[string]Inst{}
				ys := giantTerms(r, tree, op, f.Pref)
				for j, v := range varNames[:len(xs)] {
					if x, ok := vars[v]; ok {
						m[v] = x
						if r.Intn(2) == 0 {
							m[v] = ys[j]
						}
					}
				}
				oo.only = append(oo.only, m)
			}
			profile(t, tree, h, &Gens{Unique: true}, oo)
		}
		t.Count("dimensions_63_and_more", 1)
	}
}

// leaves checks components on trees of hundreds or thousands of leaves, where
// one leaf or node decides.
func leaves(ops []string) func(t *T, i int) {
	return func(t *T, i int) {
		r := t.Rand
		op := ops[r.Intn(len(ops))]
		inner := []int{130, 260, 520, 600, 1030, 1100, 2100}[r.Intn(7)]
		far := r.Intn(10) == 0 && (op != "dfs" || r.Intn(3) == 0)
		if far {
			// nodes beyond 2^15 and 2^16
			inner = []int{17000, 33000, 66000, 70000}[r.Intn(4)]
		}
		d := 8
		for 1<<d < 2*inner {
			d++
		}
		d += r.Intn(8)
		sh := randShape(r, d, inner, []float64{0, 0, 0.02}[r.Intn(3)], 0.5)
		tree := sh.layout(d, r.Intn(3), r)
		insts := tree.nodeInsts()
		// leaves in the order a walk meets them
		var ls []int
		var walk func(k int)
		walk = func(k int) {
			n := tree.nodes[k]
			if n.IsLeaf() {
				ls = append(ls, k)
				return
			}
			walk(n.ZChild)
			walk(n.OChild)
		}
		walk(0)
		if r.Intn(3) == 0 {
			sort.Ints(ls)
		}
		// one class but for a few leaves
		f0 := r.Intn(2) == 0
		for k := range tree.nodes {
			tree.nodes[k].Value = f0
			if !tree.nodes[k].IsLeaf() {
				tree.nodes[k].Value = r.Intn(2) == 0
			}
		}
		odd := len(ls) - 1 - r.Intn(min(len(ls), 3))
		switch r.Intn(6) {
		case 0:
			odd = r.Intn(min(3, len(ls)))
		case 1, 2, 3:
			odd = r.Intn(len(ls))
		}
		tree.nodes[ls[odd]].Value = !f0
		at := insts[ls[odd]]
		if r.Intn(4) == 0 {
			tree.nodes[ls[r.Intn(len(ls))]].Value = !f0
		}
		term := func() Inst {
			x := at.clone()
			if op == "node" {
				x = insts[[]int{r.Intn(len(insts)), r.Intn(len(insts)), len(insts) - 1 - r.Intn(2), ls[odd]}[r.Intn(4)]].clone()
			}
			k := r.Intn(d)
			for n := 0; n < 40 && x[k] < 0; n++ {
				k = r.Intn(d)
			}
			if op == "dfs" && r.Intn(2) == 0 {
				// undefined exactly where the odd leaf differs from another,
				// or there but for a feature
				y := insts[ls[r.Intn(len(ls))]]
				var diff []int
				for j := range x {
					if x[j] >= 0 && y[j] >= 0 && x[j] != y[j] {
						diff = append(diff, j)
					}
				}
				for j := range x {
					x[j] = int8(r.Intn(2))
				}
				for _, j := range diff {
					x[j] = -1
				}
				if len(diff) > 0 && r.Intn(3) == 0 {
					x[diff[r.Intn(len(diff))]] = int8(r.Intn(2))
				}
				t.Count("leaf_differences", 1)
				return x
			}
			switch r.Intn(6) {
			case 0, 1:
			case 2, 3:
				// one feature of the path less
				x[k] = -1
			case 4:
				if x[k] >= 0 {
					x[k] = 1 - x[k]
				}
			default:
				x[r.Intn(d)] = int8(r.Intn(3)) - 1
			}
			if op == "dfs" || r.Intn(4) == 0 {
				// values and further features
				for j := range x {
					switch {
					case x[j] >= 0:
						if r.Intn(2) == 0 && op == "dfs" {
							x[j] = 1 - x[j]
						}
					case r.Intn(d) < 2:
						x[j] = int8(r.Intn(2))
					}
				}
			}
			return x
		}
		f := &F{Op: op, Leaf: f0}
		if r.Intn(6) == 0 {
			f.Leaf = !f0
		}
		if path := term; far && op == "allc" {
			// most of the tree is to be looked at
			term = func() Inst {
				x := path()
				for k := 4 * d; k > 0 && r.Intn(100) > 0; k-- {
					x[r.Intn(d)] = -1
				}
				return x
			}
		}
		vars := map[string]Inst{}
		if r.Intn(3) > 0 && !far {
			f.T = []Term{vt(varNames[0])}
			vars[varNames[0]] = term()
		} else {
			f.T = []Term{ct(term())}
		}
		t.Describe("%s, dimension %d, %d leaves, the odd one is number %d", op, d, len(ls), odd)
		for k, h := range []*F{f, not(f)} {
			more := 12
			if op == "dfs" {
				more = 60
			}
			oo := profileOpts{key: fmt.Sprint("leaves-", op, k), only: []map[string]Inst{vars}}
			for n := 0; n < more && len(vars) > 0; n++ {
				oo.only = append(oo.only, map[string]Inst{varNames[0]: term()})
			}
			if len(vars) == 0 {
				f.T[0] = ct(term())
			}
			profile(t, tree, h, &Gens{Unique: true}, oo)
		}
		t.Count("leaves_many", len(ls))
		if far {
			t.Count("far_nodes", len(tree.nodes))
		}
	}
}

// lehNoFeatures compares distances of the only instance there is in a model
// without features: they are all 0.
func lehNoFeatures(t *T, i int) {
	k := kindsOf(3)[i%8]
	f := &F{Op: "leh"}
	for j, v := range k {
		if v {
			f.T = append(f.T, vt(varNames[j]))
		} else {
			f.T = append(f.T, ct(Inst{}))
		}
	}
	if i/8%2 == 1 {
		f = not(f)
	}
	tree := &Tree{dim: 0, nodes: []query.Node{{Value: i%3 == 0, ZChild: query.NoChild, OChild: query.NoChild}}}
	vars := map[string]Inst{}
	for _, v := range f.free() {
		vars[v] = Inst{}
	}
	profile(t, tree, f, &Gens{Unique: i/16%2 == 0}, profileOpts{key: "dim0", only: []map[string]Inst{vars}})
}

// lehBoundary drives distances to 0 and to the dimension.
func lehBoundary(t *T, i int) {
	r := t.Rand
	d := 1 + r.Intn(9)
	tree := randTree(r, d, 3)
	base := randInst(r, d, 0)
	comp := base.clone()
	for k := range comp {
		comp[k] = 1 - comp[k]
	}
	near := base.clone()
	near[r.Intn(d)] ^= 1
	far := comp.clone()
	far[r.Intn(d)] ^= 1
	part := base.clone()
	part[r.Intn(d)] = -1
	cs := []Inst{base, comp, near, far, part, base, comp}
	for _, k := range kindsOf(3) {
		f := &F{Op: "leh"}
		for j, isVar := range k {
			if isVar {
				f.T = append(f.T, vt(varNames[j]))
			} else {
				f.T = append(f.T, ct(cs[r.Intn(len(cs))].clone()))
			}
		}
		if r.Intn(4) == 0 && !k[0] && !k[1] {
			f.T[1] = f.T[0]
		}
		g, order := withGuards(r, f, d)
		kind := fmt.Sprint(k)
		oo := profileOpts{limit: 300, sample: 60, guards: g, order: order, hints: cs, key: "leh-boundary-" + kind}
		profile(t, tree, f, &Gens{Unique: true}, oo)
		oo.key = "not-" + oo.key
		profile(t, tree, not(f), &Gens{Unique: true}, oo)
	}
}

// heprPrefs uses empty, single, long and high-index preference lists.
func heprPrefs(t *T, i int) {
	r := t.Rand
	d := []int{1, 2, 3, 5, 12, 15, 24, 40, 70}[r.Intn(9)]
	tree := randTree(r, d, 3)
	prefs := [][]int{{}, {r.Intn(d)}, r.Perm(d), {d - 1}, r.Perm(d)[:1+r.Intn(d)]}
	for _, p := range prefs {
		for _, k := range kindsOf(2) {
			f := &F{Op: "hepr", Pref: p}
			var prev []Inst
			for j, isVar := range k {
				if isVar {
					f.T = append(f.T, vt(varNames[j]))
				} else {
					x := relatedInst(r, tree, "hepr", prev)
					prev = append(prev, x)
					f.T = append(f.T, ct(x))
				}
			}
			if r.Intn(2) == 0 {
				boundaryConsts(r, tree, f)
			}
			g, order := withGuards(r, f, d)
			oo := profileOpts{limit: 300, sample: 30, bound: 5, guards: g, order: order, hints: append(f.consts(), prev...), key: fmt.Sprintf("hepr-prefs-%v", k)}
			profile(t, tree, f, &Gens{Unique: true}, oo)
			oo.key = "not-" + oo.key
			profile(t, tree, not(f), &Gens{Unique: true}, oo)
		}
	}
}

func newScope(r *rand.Rand, tree *Tree, nv int) *scopeInfo {
	s := &scopeInfo{dim: tree.dim, pVar: []float64{0.5, 0.75, 0.95}[r.Intn(3)]}
	for _, k := range r.Perm(len(varNames))[:nv] {
		s.vars = append(s.vars, varNames[k])
	}
	ns := tree.nodeInsts()
	s.consts = append(s.consts, someInst(r, tree.dim), randInst(r, tree.dim, 0), ns[r.Intn(len(ns))])
	return s
}

// boolCase checks a random quantifier-free formula.
func boolCase(t *T, tree *Tree, n int, unique bool, maxVars int) {
	nv := 1 + t.Intn(maxVars)
	s := newScope(t.Rand, tree, nv)
	g := map[string]Inst{}
	var order []string
	for k := t.Intn(3); k > 0; k-- {
		id := guardNames[k]
		g[id] = someInst(t.Rand, tree.dim)
		order = append(order, id)
		s.guards = append(s.guards, id)
	}
	f := s.qf(t.Rand, n, atomOps)
	profile(t, tree, f, &Gens{Unique: unique}, profileOpts{limit: 100, sample: 45, bound: 8, guards: g, order: order, key: "bool", hints: s.consts})
}

// trivialCase nests operators over operands that are trivially true or false.
func trivialCase(t *T, i int) {
	r := t.Rand
	tree := midTree(r, 1, 3)
	s := newScope(r, tree, 1)
	botc := make(Inst, tree.dim)
	for k := range botc {
		botc[k] = -1
	}
	full := randInst(r, tree.dim, 0)
	triv := func() *F {
		switch r.Intn(5) {
		case 0:
			return atom("full", ct(botc)) // false
		case 1:
			return atom("full", ct(full)) // true
		case 2:
			return atom("sub", ct(botc), ct(full)) // true
		case 3:
			return atom("leh", ct(botc), vt(s.vars[0]), ct(full)) // false, with a variable
		}
		return atom("sub", ct(botc), vt(s.vars[0])) // true, without clauses
	}
	var rec func(d int) *F
	rec = func(d int) *F {
		if d == 0 || r.Intn(6) == 0 {
			if r.Intn(3) > 0 {
				return triv()
			}
			return s.atom(r, atomOps)
		}
		switch r.Intn(3) {
		case 0:
			return not(rec(d - 1))
		case 1:
			return and(rec(d-1), rec(d-1))
		}
		return or(rec(d-1), rec(d-1))
	}
	profile(t, tree, rec(2+r.Intn(4)), &Gens{Unique: true}, profileOpts{limit: 30, sample: 20, key: "trivial"})
}

// negationCase stacks negations and repeats sub-formulas.
func negationCase(t *T, i int) {
	r := t.Rand
	tree := midTree(r, 2, 3)
	s := newScope(r, tree, 1+r.Intn(2))
	f := s.qf(r, 1+r.Intn(3), atomOps)
	for k := r.Intn(6); k > 0; k-- {
		switch r.Intn(5) {
		case 0:
			f = or(f, not(f))
		case 1:
			f = and(f, f)
		case 2:
			f = or(f, s.atom(r, atomOps))
		default:
			f = not(f)
		}
		if f.count() > 60 {
			break
		}
	}
	profile(t, tree, f, &Gens{Unique: true}, profileOpts{limit: 90, sample: 40, key: "negations"})
}

// sharePair combines two or three components over the same terms with shared
// naming functions.
func sharePair(t *T, i int) {
	r := t.Rand
	tree := midTree(r, 1, 4)
	s := newScope(r, tree, 1+r.Intn(2))
	s.pVar = 0.6
	groups := [][]string{{"node", "allc"}, {"allc"}, {"leh"}, {"lel"}, {"hepr"}, {"node", "allc", "dfs", "lel"}, atomOps}
	ops := groups[r.Intn(len(groups))]
	n := 2 + r.Intn(2)
	g := map[string]Inst{}
	var order []string
	if r.Intn(2) == 0 {
		id := guardNames[r.Intn(len(guardNames))]
		// a guarded constant of the value of a plain one
		g[id] = s.consts[r.Intn(len(s.consts))]
		order = []string{id}
		s.guards = []string{id}
	}
	var f *F
	for k := 0; k < n; k++ {
		a := s.atom(r, ops)
		if r.Intn(3) == 0 {
			a = not(a)
		}
		switch {
		case f == nil:
			f = a
		case r.Intn(3) == 0:
			f = or(f, a)
		default:
			f = and(f, a)
		}
	}
	if r.Intn(4) == 0 {
		f = not(f)
	}
	profile(t, tree, f, &Gens{}, profileOpts{limit: 250, sample: 70, bound: 6, guards: g, order: order, key: "share-pair", hints: s.consts})
}

// sharePrefs combines preference comparisons over different lists with
// indexes of several digits.
func sharePrefs(t *T, i int) {
	r := t.Rand
	d := 11 + r.Intn(14)
	tree := randTree(r, d, 3)
	s := newScope(r, tree, 1+r.Intn(2))
	// lists whose concatenated digits coincide
	pairs := [][2][]int{{{1, 11}, {11, 1}}, {{1, 10}, {11, 0}}, {{1, 0}, {10}}, {{10, 1}, {1, 0, 11 % d}}, {{2, 1}, {1, 2}},
		{{1, 2}, {1}}, {{1, 1 + 10%d}, {11 % d, 1}}}
	if d > 12 {
		pairs = append(pairs, [2][]int{{1, 2}, {12}}, [2][]int{{12, 1}, {1, 2, 11}})
	}
	if d > 21 {
		pairs = append(pairs, [2][]int{{2, 1, 11}, {21, 11}}, [2][]int{{21, 1}, {2, 11}}, [2][]int{{1, 21}, {12, 1}})
	}
	var p [2][]int
	for ok := false; !ok; {
		p = pairs[r.Intn(len(pairs))]
		if r.Intn(3) == 0 {
			// long lists alike but for one place, or one longer than the other
			perm := r.Perm(d)
			l := 2 + r.Intn(d-2)
			p = [2][]int{append([]int{}, perm[:l]...), append([]int{}, perm[:l]...)}
			switch at := l - 1 - min(l-1, r.Intn(3)*r.Intn(l)); r.Intn(3) {
			case 0:
				p[1][at] = perm[l]
			case 1:
				p[1] = append(p[1], perm[l])
			default:
				p[1][at], p[1][(at+l-1)%l] = p[1][(at+l-1)%l], p[1][at]
			}
			if r.Intn(2) == 0 {
				p[0], p[1] = p[1], p[0]
			}
		}
		ok = true
		for _, l := range p {
			for _, j := range l {
				ok = ok && j < d
			}
			for a := range l {
				for b := 0; b < a; b++ {
					ok = ok && l[a] != l[b]
				}
			}
		}
	}
	mk := func(pref []int, a, b Term) *F { return &F{Op: "hepr", Pref: pref, T: []Term{a, b}} }
	a, b := vt(s.vars[0]), vt(s.vars[0])
	if len(s.vars) > 1 {
		b = vt(s.vars[1])
	} else {
		b = ct(someInst(r, d))
	}
	if r.Intn(2) == 0 {
		a, b = b, a
	}
	f1, f2 := mk(p[0], a, b), mk(p[1], a, b)
	if r.Intn(3) == 0 {
		f2 = not(f2)
	}
	if r.Intn(3) == 0 {
		f1 = not(f1)
	}
	f := and(f1, f2)
	if r.Intn(3) == 0 {
		f = or(f1, f2)
	}
	// valuations that differ only at the listed features
	var hints []Inst
	for k := 0; k < 6; k++ {
		x := make(Inst, d)
		for j := range x {
			x[j] = -1
		}
		for _, l := range p {
			for _, j := range l {
				if r.Intn(2) == 0 {
					x[j] = int8(r.Intn(2))
				}
			}
		}
		hints = append(hints, x)
	}
	if b.Var == "" && r.Intn(2) == 0 {
		x := hints[0]
		for _, q := range []*F{f1, f2} {
			for q.Op == "not" {
				q = q.K[0]
			}
			for j := range q.T {
				if q.T[j].Var == "" {
					q.T[j].Val = x
				}
			}
		}
	}
	profile(t, tree, f, &Gens{}, profileOpts{limit: 0, sample: 100, bound: 10, key: "share-prefs", hints: hints})
}

// shareConsts combines components over long constants alike but for a feature.
func shareConsts(t *T, i int) {
	r := t.Rand
	d := 4 + r.Intn(21)
	tree := randTree(r, d, 3)
	x := someInst(r, d)
	if r.Intn(2) == 0 {
		x = randInst(r, d, 0)
	}
	v := varNames[r.Intn(len(varNames))]
	at := d - 1
	if r.Intn(2) == 0 {
		at = r.Intn(d)
	}
	ops := []string{"leh", "hepr", "lel", "leh", "hepr", "sub"}
	op := ops[r.Intn(len(ops))]
	if op == "leh" {
		x = randInst(r, d, 0)
	}
	near := func(x Inst, at int) Inst {
		y := append(Inst{}, x...)
		y[at] = int8((int(x[at])+2+r.Intn(2))%3) - 1
		if op == "leh" {
			y[at] = 1 - x[at]
		}
		return y
	}
	y := near(x, at)
	pref := r.Perm(d)[:1+r.Intn(d)]
	if r.Intn(2) == 0 && pref[len(pref)-1] != at {
		pref = append([]int{at}, remove(pref, at)...)
	}
	// the places of the variable, of the constant and of a third term
	place := r.Perm(arity[op])
	third := ct(near(x, r.Intn(d)))
	if r.Intn(3) == 0 {
		third = vt(v)
	}
	mk := func(op string, c Inst) *F {
		f := &F{Op: op, Pref: pref, T: make([]Term, arity[op])}
		for k, tm := range []Term{vt(v), ct(c), third}[:arity[op]] {
			f.T[place[k]] = tm
		}
		if op == "leh" && r.Intn(3) == 0 {
			f.T[place[2]] = ct(near(c, r.Intn(d)))
		}
		if r.Intn(3) == 0 {
			return not(f)
		}
		return f
	}
	f := mk(op, x)
	if r.Intn(3) == 0 {
		f = or(f, mk(op, y))
	} else {
		f = and(f, mk(op, y))
	}
	var hints []Inst
	for k := 0; k < 6; k++ {
		hints = append(hints, near([]Inst{x, y}[r.Intn(2)], r.Intn(d)), near(near(x, at), r.Intn(d)))
	}
	profile(t, tree, f, &Gens{}, profileOpts{limit: 0, sample: 60, bound: 10, key: "share-consts", hints: append(hints, x, y)})
}

func remove(l []int, x int) []int {
	var o []int
	for _, y := range l {
		if y != x {
			o = append(o, y)
		}
	}
	return o
}

// shareGuarded uses shared names inside guarded quantifiers.
func shareGuarded(t *T, i int) {
	r := t.Rand
	tree := midTree(r, 1, 3)
	s := newScope(r, tree, 1+r.Intn(2))
	out := s.qf(r, 1+r.Intn(2), atomOps)
	in := *s
	in.guards = []string{"c"}
	body := in.qf(r, 1+r.Intn(3), atomOps)
	var q *F = forallOwn(r, tree.dim, "c", body)
	if r.Intn(3) == 0 {
		q = not(q)
	}
	f := and(out, q)
	if r.Intn(2) == 0 {
		f = or(q, out)
	}
	profile(t, tree, f, &Gens{}, profileOpts{limit: 30, sample: 25, key: "share-quantified"})
}
