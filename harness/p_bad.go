package main

import (
	"errors"
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/jtcaraball/goexpdt/cnf"
	"github.com/jtcaraball/goexpdt/compute"
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/logop"
)

// Property C21.

// wrongInst has another dimension than d.
func wrongInst(r *rand.Rand, d int) Inst {
	n := []int{0, d - 1, d + 1, d * 2, d + 5, 1, 2, 3}[r.Intn(8)]
	if n == d || n < 0 {
		n = d + 1
	}
	if n == 0 {
		return Inst{}
	}
	x := someInst(r, n)
	if r.Intn(2) == 0 {
		for i := range x {
			if x[i] < 0 {
				x[i] = 1
			}
		}
	}
	return x
}

// badAtom is an atom of an argument form with one malformation.
type badAtom struct {
	f    *F
	g    *Gens
	tree *Tree
	// bind gives guarded constants a scope of the caller.
	bind map[string]Inst
	desc string
}

func validAtom(r *rand.Rand, tree *Tree, op string, kinds []bool) *F {
	f := &F{Op: op, Leaf: r.Intn(2) == 0}
	for i, isVar := range kinds {
		if isVar {
			f.T = append(f.T, vt(varNames[i]))
			continue
		}
		f.T = append(f.T, ct(relatedInst(r, tree, op, nil)))
	}
	if r.Intn(3) == 0 {
		// repeated arguments
		for i := 1; i < len(f.T); i++ {
			if j := r.Intn(i); (f.T[j].Var == "") == (f.T[i].Var == "") {
				f.T[i] = f.T[j]
			}
		}
	}
	if op == "hepr" {
		for len(f.Pref) == 0 {
			f.Pref = randPref(r, tree.dim)
		}
	}
	return f
}

// needsGen is the notions whose naming functions a form needs.
func needsGen(op string, k []bool) []string {
	n := 0
	for _, b := range k {
		if b {
			n++
		}
	}
	if n == 0 {
		return nil
	}
	switch op {
	case "lel":
		return []string{"count"}
	case "node", "allc":
		return []string{"reach"}
	case "hepr":
		return []string{"pr"}
	case "leh":
		if k[0] && n >= 2 {
			return []string{"hd", "ef"}
		}
		return []string{"hd"}
	}
	return nil
}

// badAtoms makes every malformation of an argument form.
func badAtoms(r *rand.Rand, tree *Tree, op string, k []bool) []badAtom {
	var out []badAtom
	add := func(d string, b badAtom) {
		b.desc = op + " " + d
		if b.g == nil {
			b.g = &Gens{Unique: r.Intn(2) == 0}
		}
		if b.tree == nil {
			b.tree = tree
		}
		out = append(out, b)
	}
	for i, isVar := range k {
		if isVar {
			continue
		}
		f := validAtom(r, tree, op, k)
		f.T[i] = ct(wrongInst(r, tree.dim))
		add(fmt.Sprintf("constant %d of the wrong dimension", i), badAtom{f: f})
		f = validAtom(r, tree, op, k)
		f.T[i] = Term{ID: "nobody"}
		add(fmt.Sprintf("constant %d without a value", i), badAtom{f: f})
		f = validAtom(r, tree, op, k)
		f.T[i] = Term{ID: "nobody", Val: wrongInst(r, tree.dim)}
		add(fmt.Sprintf("guardless constant %d of the wrong dimension", i), badAtom{f: f})
		f = validAtom(r, tree, op, k)
		f.T[i] = Term{ID: "g", Val: someInst(r, tree.dim)}
		add(fmt.Sprintf("guarded constant %d bound to the wrong dimension", i), badAtom{f: f, bind: map[string]Inst{"g": wrongInst(r, tree.dim)}})
	}
	var cs []int
	for i, isVar := range k {
		if !isVar {
			cs = append(cs, i)
		}
	}
	if len(cs) > 1 {
		// several malformed constants: alike, of one dimension, or unrelated
		for kind := 0; kind < 3; kind++ {
			f := validAtom(r, tree, op, k)
			r.Shuffle(len(cs), func(i, j int) { cs[i], cs[j] = cs[j], cs[i] })
			x := wrongInst(r, tree.dim)
			for _, i := range cs[:2+r.Intn(len(cs)-1)] {
				switch kind {
				case 1:
					x = x.clone()
					for j := range x {
						x[j] = int8(r.Intn(3)) - 1
					}
				case 2:
					x = wrongInst(r, tree.dim)
				}
				f.T[i] = ct(x)
			}
			add("several constants of the wrong dimension", badAtom{f: f})
		}
	}
	if op == "hepr" && len(cs) > 0 {
		f := validAtom(r, tree, op, k)
		f.Pref = nil
		f.T[cs[r.Intn(len(cs))]] = ct(wrongInst(r, tree.dim))
		add("constant of the wrong dimension and no preferences", badAtom{f: f})
	}
	for _, n := range needsGen(op, k) {
		add("missing naming function "+n, badAtom{f: validAtom(r, tree, op, k), g: &Gens{Nil: n}})
	}
	if op == "hepr" {
		for kind := 0; kind < 3; kind++ {
			f := validAtom(r, tree, op, k)
			p := append([]int{}, f.Pref...)
			at := r.Intn(len(p) + 1)
			ins := func(x int) {
				p = append(p[:at], append([]int{x}, p[at:]...)...)
			}
			var d string
			switch kind {
			case 0:
				ins([]int{-1, -2, -tree.dim}[r.Intn(3)])
				d = "negative feature in the preference"
			case 1:
				ins([]int{tree.dim, tree.dim + 1, 1 << 30}[r.Intn(3)])
				d = "too large feature in the preference"
			case 2:
				ins(p[r.Intn(len(p))])
				d = "duplicate feature in the preference"
			}
			f.Pref = p
			add(d, badAtom{f: f})
		}
	}
	if op == "node" || op == "allc" || op == "dfs" {
		add("empty model", badAtom{f: validAtom(r, tree, op, k), tree: &Tree{dim: tree.dim}})
		bad, at := badNode(r, tree)
		if bad != nil {
			f := validAtom(r, tree, op, k)
			if !k[0] && op != "dfs" {
				// the constant leads to the malformed node
				x := pathTo(tree, at)
				n := bad.nodes[at]
				if n.Feat >= 0 && n.Feat < tree.dim {
					if n.ZChild >= len(bad.nodes) {
						x[n.Feat] = 0
					} else {
						x[n.Feat] = 1
					}
				} else if r.Intn(2) == 0 {
					for j := range x {
						if x[j] < 0 {
							x[j] = int8(r.Intn(2))
						}
					}
				}
				f.T[0] = ct(x)
				if op == "allc" {
					// no leaf decides the walk before the node is reached
					for j := range bad.nodes {
						bad.nodes[j].Value = f.Leaf
					}
				}
			}
			add(fmt.Sprintf("malformed node %d: %+v", at, bad.nodes[at]), badAtom{f: f, tree: bad})
		}
	}
	return out
}

// badNode makes one inner node of the tree malformed.
func badNode(r *rand.Rand, t *Tree) (*Tree, int) {
	var inner []int
	for i, n := range t.nodes {
		if !n.IsLeaf() {
			inner = append(inner, i)
		}
	}
	if len(inner) == 0 {
		return nil, 0
	}
	b := &Tree{dim: t.dim}
	b.nodes = append(b.nodes, t.nodes...)
	at := inner[r.Intn(len(inner))]
	n := len(t.nodes)
	switch r.Intn(3) {
	case 0:
		b.nodes[at].Feat = []int{-1, t.dim, t.dim + 1, 1 << 20, -7}[r.Intn(5)]
	case 1:
		b.nodes[at].ZChild = []int{n, n + 1, 1 << 20}[r.Intn(3)]
	case 2:
		b.nodes[at].OChild = []int{n, n + 1, 1 << 20}[r.Intn(3)]
	}
	return b, at
}

// pathTo is the partial instance of node at of a well formed tree.
func pathTo(t *Tree, at int) Inst {
	var out Inst
	var rec func(i int, x Inst)
	rec = func(i int, x Inst) {
		if i == at {
			out = x.clone()
		}
		n := t.nodes[i]
		if n.IsLeaf() {
			return
		}
		x[n.Feat] = 0
		rec(n.ZChild, x)
		x[n.Feat] = 1
		rec(n.OChild, x)
		x[n.Feat] = -1
	}
	rec(0, botInst(t.dim))
	return out
}

// nest puts a query at some depth of a larger valid query; the larger query
// encodes the inner one at least once.
func nest(r *rand.Rand, q logop.LogOpQ, tree *Tree, depth int, desc *string) logop.LogOpQ {
	for k := 0; k < depth; k++ {
		other := func() logop.LogOpQ {
			if r.Intn(5) == 0 {
				return bodyFunc(func(query.QContext) (cnf.CNF, error) { return cnf.TrueCNF, nil })
			}
			if r.Intn(5) == 0 {
				return bodyFunc(func(query.QContext) (cnf.CNF, error) { return cnf.FalseCNF, nil })
			}
			op := []string{"sub", "lel", "full", "cons"}[r.Intn(4)]
			ks := make([]bool, arity[op])
			return validAtom(r, tree, op, ks).build(&Gens{Unique: true, n: 100 * k}, nil)
		}
		switch r.Intn(7) {
		case 0:
			q, *desc = logop.And{Q1: q, Q2: other()}, "and1 "+*desc
		case 1:
			q, *desc = logop.And{Q1: other(), Q2: q}, "and2 "+*desc
		case 2:
			q, *desc = logop.Or{Q1: q, Q2: other()}, "or1 "+*desc
		case 3:
			q, *desc = logop.Or{Q1: other(), Q2: q}, "or2 "+*desc
		case 4:
			q, *desc = logop.Not{Q: q}, "not "+*desc
		case 5:
			q, *desc = logop.WithVar{I: query.QVar(fmt.Sprintf("w%d", k)), Q: q}, "ex "+*desc
		case 6:
			q, *desc = logop.ForAllGuarded{I: query.QConst{ID: fmt.Sprintf("u%d", k)}, Q: q}, "all "+*desc
		}
	}
	return q
}

// mustReject observes a malformed query directly, inside an evaluation and
// inside an optimum computation.
func mustReject(t *T, mk func() (logop.LogOpQ, string), tree query.Model, bind map[string]Inst, what, key string) {
	r := t.Rand
	q, d := mk()
	desc := fmt.Sprintf("%s: %s\ntree %v", what, d, tree)
	t.Describe("encoding of %s", desc)
	newCtx := func() query.QContext {
		c := query.BasicQContext(tree)
		for id, x := range bind {
			c.AddScope(id)
			c.SetScope(0, x.vals())
		}
		return c
	}
	_, err := q.Encoding(newCtx())
	t.Eval(1)
	t.Count("rejections_expected", 1)
	if err == nil {
		t.Violate(key+"/accepted", "the encoding of a malformed query succeeds")
	}
	if errors.Is(err, compute.UnsatError) {
		t.Violate(key+"/unsat", "a malformed query is reported as unsatisfiable: %v", err)
	}
	if len(bind) > 0 {
		return
	}
	// evaluation
	var c compute.QDTFCombinator = compute.QDTFAtom{Query: q, Negated: r.Intn(2) == 0}
	for n := r.Intn(3); n > 0; n-- {
		tr := compute.QDTFAtom{Query: bodyFunc(func(query.QContext) (cnf.CNF, error) { return cnf.TrueCNF, nil })}
		fa := compute.QDTFAtom{Query: bodyFunc(func(query.QContext) (cnf.CNF, error) { return cnf.FalseCNF, nil })}
		switch r.Intn(4) {
		case 0:
			c = compute.AndCombinator{c, fa}
		case 1:
			c = compute.OrCombinator{c, tr}
		case 2:
			c = compute.AndCombinator{tr, c}
		case 3:
			c = compute.OrCombinator{fa, c}
		}
	}
	t.Describe("evaluation of %s", desc)
	ok, err := c.Sat(query.BasicQContext(tree), &inSolver{r: r})
	t.Eval(1)
	t.Count("evaluations_rejected", 1)
	if err == nil {
		t.Violate(key+"/sat", "evaluating a malformed query gives %v", ok)
	}
	// optimum computation: the formula or the order is malformed
	t.Describe("optimum computation with %s", desc)
	valid := func(v query.QVar) compute.Encodable {
		return bodyFunc(func(query.QContext) (cnf.CNF, error) { return cnf.TrueCNF, nil })
	}
	var out compute.OptOutput
	if r.Intn(2) == 0 {
		out, err = compute.ComputeOptim(func(v query.QVar) compute.Encodable { return q },
			func(v query.QVar, c query.QConst) compute.Encodable { return valid(v) }, "z9", query.BasicQContext(tree), &inSolver{r: r})
	} else {
		out, err = compute.ComputeOptim(valid,
			func(v query.QVar, c query.QConst) compute.Encodable { return q }, "z9", query.BasicQContext(tree), &inSolver{r: r})
	}
	t.Eval(1)
	t.Count("optimisations_rejected", 1)
	if err == nil {
		t.Violate(key+"/optim", "an optimum computation over a malformed query gives %+v", out)
	}
}

// badComponents enumerates components, argument forms and malformations.
func badComponents(t *T, i int) {
	r := t.Rand
	tree := midTree(r, 1, 4)
	for _, op := range atomOps {
		for _, k := range kindsOf(arity[op]) {
			for _, b := range badAtoms(r, tree, op, k) {
				b := b
				t.Count("malformation_"+op, 1)
				mustReject(t, func() (logop.LogOpQ, string) {
					d := b.desc + " in " + b.f.String()
					var q logop.LogOpQ = b.f.build(b.g, nil)
					if r.Intn(2) == 0 {
						q = nest(r, q, tree, 1+r.Intn(4), &d)
					}
					return wrapVars(q, b.f.free()), d
				}, b.tree, b.bind, "component", "component")
				t.Distinct(fmt.Sprintf("%s %v %s", b.desc, k, tree))
			}
		}
	}
}

// badWide malforms components of many features.
func badWide(t *T, i int) {
	r := t.Rand
	dim := []int{9, 12, 17, 33, 63, 64, 65, 66, 70, 100, 129, 130, 200, 257, 300}[r.Intn(15)]
	tree := randTree(r, dim, r.Intn(6))
	op := pickStr(r, []string{"hepr", "hepr", "sub", "cons", "full", "node", "allc", "dfs"})
	if dim < 40 && r.Intn(3) == 0 {
		op = pickStr(r, []string{"lel", "leh"})
	}
	ks := kindsOf(arity[op])
	k := ks[r.Intn(len(ks))]
	for _, b := range badAtoms(r, tree, op, k) {
		if len(b.f.Pref) > 2 && strings.Contains(b.desc, "in the preference") {
			// shorter, ordered, or with the fault near an end
			switch r.Intn(4) {
			case 0:
				sort.Ints(b.f.Pref)
			case 1:
				sort.Sort(sort.Reverse(sort.IntSlice(b.f.Pref)))
			}
		}
		t.Count("malformations_wide", 1)
		mustReject(t, func() (logop.LogOpQ, string) {
			d := b.desc + " in " + clip(b.f.String(), 1500)
			var q logop.LogOpQ = b.f.build(b.g, nil)
			return wrapVars(q, b.f.free()), d
		}, b.tree, b.bind, "wide", "wide")
		t.Distinct(fmt.Sprintf("%s %v %d %s", b.desc, k, dim, b.f))
	}
}

// badStructure: missing sub-queries, contexts and models of the operators.
func badStructure(t *T, i int) {
	r := t.Rand
	tree := midTree(r, 1, 4)
	ok := func() logop.LogOpQ {
		op := pickStr(r, atomOps)
		return validAtom(r, tree, op, make([]bool, arity[op])).build(&Gens{}, nil)
	}
	type bad struct {
		d    string
		q    logop.LogOpQ
		tree *Tree
	}
	list := []bad{
		{"and without its first operand", logop.And{Q2: ok()}, tree},
		{"and without its second operand", logop.And{Q1: ok()}, tree},
		{"and without operands", logop.And{}, tree},
		{"or without its first operand", logop.Or{Q2: ok()}, tree},
		{"or without its second operand", logop.Or{Q1: ok()}, tree},
		{"or without operands", logop.Or{}, tree},
		{"not without an operand", logop.Not{}, tree},
		{"variable without a body", logop.WithVar{I: "x"}, tree},
		{"quantifier without a body", logop.ForAllGuarded{I: query.QConst{ID: "c"}}, tree},
		{"quantifier over an empty model", logop.ForAllGuarded{I: query.QConst{ID: "c"}, Q: ok()}, &Tree{dim: tree.dim}},
	}
	if b, at := badNode(r, tree); b != nil {
		op := pickStr(r, []string{"sub", "lel", "full", "cons", "leh", "hepr"})
		q := validAtom(r, tree, op, make([]bool, arity[op])).build(&Gens{}, nil)
		list = append(list, bad{fmt.Sprintf("quantifier over a model with node %d %+v", at, b.nodes[at]), logop.ForAllGuarded{I: query.QConst{ID: "c"}, Q: q}, b})
	}
	for _, b := range list {
		b := b
		t.Count("malformation_structure", 1)
		mustReject(t, func() (logop.LogOpQ, string) {
			d := b.d
			return nest(r, b.q, tree, r.Intn(5), &d), d
		}, b.tree, nil, "structure", "structure")
		t.Distinct(b.d + tree.String())
	}
	// missing context
	f := closedF(r, tree, 1+r.Intn(4), closedCfg{2, 2, atomOps})
	t.Describe("encoding without a context: %s", f)
	q := f.build(&Gens{}, nil)
	_, err := q.Encoding(nil)
	t.Eval(1)
	t.Count("missing_contexts", 1)
	if err == nil {
		t.Violate("nil-context/accepted", "encoding without a context succeeds")
	}
	for _, op := range atomOps {
		for _, k := range kindsOf(arity[op]) {
			a := validAtom(r, tree, op, k)
			t.Describe("encoding without a context: %s", a)
			if _, err := a.build(&Gens{}, nil).Encoding(nil); err == nil {
				t.Violate("nil-context/accepted", "encoding without a context succeeds")
			}
			t.Count("missing_contexts", 1)
		}
	}
	t.Describe("evaluation without a context: %s", f)
	if ok, err := (compute.QDTFAtom{Query: q}).Sat(nil, &inSolver{r: r}); err == nil {
		t.Violate("nil-context/sat", "evaluation without a context gives %v", ok)
	}
	t.Describe("optimum computation without a context: %s", f)
	if out, err := compute.ComputeOptim(func(query.QVar) compute.Encodable { return q },
		func(query.QVar, query.QConst) compute.Encodable { return q }, "z9", nil, &inSolver{r: r}); err == nil {
		t.Violate("nil-context/optim", "an optimum computation without a context gives %v", out)
	}
	// missing queries of the evaluations
	ctx := query.BasicQContext(tree)
	tr := compute.QDTFAtom{Query: bodyFunc(func(query.QContext) (cnf.CNF, error) { return cnf.TrueCNF, nil })}
	for n, c := range []compute.QDTFCombinator{
		compute.QDTFAtom{}, compute.QDTFAtom{Negated: true}, compute.AndCombinator{nil}, compute.OrCombinator{nil},
		compute.AndCombinator{compute.QDTFAtom{}}, compute.OrCombinator{compute.QDTFAtom{}},
		compute.AndCombinator{compute.OrCombinator{nil}, compute.QDTFAtom{Query: q}},
		missAt(r, tr, nil, true), missAt(r, compute.QDTFAtom{Query: tr.Query, Negated: true}, nil, false),
		missAt(r, tr, compute.QDTFAtom{}, true), missAt(r, compute.QDTFAtom{Query: tr.Query, Negated: true}, compute.QDTFAtom{Negated: true}, false),
	} {
		t.Describe("evaluation of a missing query, case %d", n)
		ok, err := c.Sat(ctx, &inSolver{r: r})
		t.Eval(1)
		t.Count("missing_queries", 1)
		if err == nil {
			t.Violate("nil-query/sat", "evaluation of a missing query gives %v", ok)
		}
	}
	t.Describe("optimum computation with a missing formula")
	none := func(query.QVar) compute.Encodable { return nil }
	some := func(query.QVar) compute.Encodable {
		return bodyFunc(func(query.QContext) (cnf.CNF, error) { return cnf.TrueCNF, nil })
	}
	if out, err := compute.ComputeOptim(none, func(query.QVar, query.QConst) compute.Encodable { return q }, "z9", ctx, &inSolver{r: r}); err == nil {
		t.Violate("nil-query/optim", "an optimum computation without a formula gives %v", out)
	}
	t.Describe("optimum computation with a missing order")
	if out, err := compute.ComputeOptim(some, func(query.QVar, query.QConst) compute.Encodable { return nil }, "z9", ctx, &inSolver{r: r}); err == nil {
		t.Violate("nil-query/optim", "an optimum computation without an order gives %v", out)
	}
}

// missAt is a combinator in which one element is missing and no other decides.
func missAt(r *rand.Rand, x, miss compute.QDTFCombinator, and bool) compute.QDTFCombinator {
	l := make([]compute.QDTFCombinator, 1+r.Intn(20))
	for k := range l {
		l[k] = x
	}
	l[r.Intn(len(l))] = miss
	if and {
		return compute.AndCombinator(l)
	}
	return compute.OrCombinator(l)
}

// control: the queries of the malformation streams are accepted when nothing
// is wrong with them, so that a rejection means something.
func badControl(t *T, i int) {
	r := t.Rand
	tree := midTree(r, 1, 4)
	for _, op := range atomOps {
		for _, k := range kindsOf(arity[op]) {
			f := validAtom(r, tree, op, k)
			d := f.String()
			q := wrapVars(nest(r, f.build(&Gens{}, nil), tree, r.Intn(4), &d), f.free())
			t.Describe("%s\ntree %s", d, tree)
			if _, err := q.Encoding(query.BasicQContext(tree)); err != nil {
				t.Violate("control", "a valid query is rejected: %v", err)
			}
			t.Eval(1)
			t.Count("valid_accepted", 1)
		}
	}
}

func init() {
	register(&Prop{ID: "C21", Level: "fault_enumeration",
		Rule: "every component and argument form times every malformation that applies to it (constant dimension in each position, plain, guarded and unbound; naming functions; preferences; empty model; malformed node), standalone and nested to random depth, encoded, evaluated and optimised; missing sub-queries, contexts and queries of every operator; distinct = distinct (malformation, form, tree)",
		Need: []string{"rejections_expected", "evaluations_rejected", "optimisations_rejected", "missing_contexts", "malformations_wide", "missing_queries", "valid_accepted"},
		Streams: []Stream{
			{Name: "components", Quick: 400, Thor: 8000, Run: badComponents},
			{Name: "wide", Quick: 1500, Thor: 30000, Run: badWide},
			{Name: "structure", Quick: 1000, Thor: 20000, Run: badStructure},
			{Name: "control", Quick: 300, Thor: 3000, Run: badControl},
		}})
}
