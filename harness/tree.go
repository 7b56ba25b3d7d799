package main

import (
	"fmt"
	"math/rand"
	"strings"

	"github.com/jtcaraball/goexpdt/query"
)

// Inst is a partial instance in the reference semantics: -1 undefined, 0, 1.
type Inst []int8

func (a Inst) String() string {
	b := make([]byte, len(a))
	for i, v := range a {
		switch v {
		case -1:
			b[i] = '_'
		case 0:
			b[i] = '0'
		default:
			b[i] = '1'
		}
	}
	return string(b)
}

func (a Inst) full() bool { return a.bots() == 0 }

func (a Inst) bots() int {
	n := 0
	for _, v := range a {
		if v < 0 {
			n++
		}
	}
	return n
}

func (a Inst) eq(b Inst) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (a Inst) clone() Inst { return append(Inst{}, a...) }

func fv(v int8) query.FeatV {
	switch v {
	case -1:
		return query.BOT
	case 0:
		return query.ZERO
	}
	return query.ONE
}

// vals are the feature values, in an array that goes on with values of its
// own in most cases, as a row of a table would: they are not part of the slice.
func (a Inst) vals() []query.FeatV {
	spare := len(a)
	for i, v := range a {
		spare += (i + 1) * int(v+1)
	}
	spare = []int{3, 0, 2 * len(a), 1, len(a)}[spare%5]
	out := make([]query.FeatV, len(a)+spare)
	for i := range out {
		out[i] = query.FeatV(i%2) + query.ZERO
	}
	for i, v := range a {
		out[i] = fv(v)
	}
	return out[:len(a)]
}

func instOf(c []query.FeatV) (Inst, bool) {
	out := make(Inst, len(c))
	ok := true
	for i, v := range c {
		switch v {
		case query.BOT:
			out[i] = -1
		case query.ZERO:
			out[i] = 0
		case query.ONE:
			out[i] = 1
		default:
			out[i] = 9
			ok = false
		}
	}
	return out, ok
}

// allInsts returns the 3^dim partial instances.
func allInsts(dim int) []Inst {
	n := 1
	for i := 0; i < dim; i++ {
		n *= 3
	}
	out := make([]Inst, n)
	for k := 0; k < n; k++ {
		x := make(Inst, dim)
		r := k
		for i := range x {
			x[i] = int8(r%3) - 1
			r /= 3
		}
		out[k] = x
	}
	return out
}

// Tree is a decision tree and a query.Model.
type Tree struct {
	dim   int
	nodes []query.Node
}

func (t *Tree) Dim() int            { return t.dim }
func (t *Tree) Nodes() []query.Node { return t.nodes }

func (t *Tree) String() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "dim=%d ", t.dim)
	for i, n := range t.nodes {
		if i > 40 {
			fmt.Fprintf(&sb, "...(%d nodes)", len(t.nodes))
			break
		}
		if n.IsLeaf() {
			fmt.Fprintf(&sb, "%d:%v ", i, n.Value)
		} else {
			fmt.Fprintf(&sb, "%d:f%d(%d,%d) ", i, n.Feat, n.ZChild, n.OChild)
		}
	}
	return sb.String()
}

func (t *Tree) leaves() []int {
	var l []int
	for i, n := range t.nodes {
		if n.IsLeaf() {
			l = append(l, i)
		}
	}
	return l
}

func (t *Tree) shuffleLabels(r *rand.Rand) {
	l := t.leaves()
	r.Shuffle(len(l), func(a, b int) {
		x, y := &t.nodes[l[a]], &t.nodes[l[b]]
		x.Value, y.Value = y.Value, x.Value
	})
}

// ruleLabels gives the leaves labels by a rule over few of the features; what
// a leaf leaves open counts as 0.
func (t *Tree) ruleLabels(r *rand.Rand) {
	fs := r.Perm(t.dim)[:min(t.dim, 1+r.Intn(3))]
	table := r.Int63()
	var walk func(n int, x Inst)
	walk = func(n int, x Inst) {
		if nd := t.nodes[n]; !nd.IsLeaf() {
			y := x.clone()
			y[nd.Feat] = 1
			walk(nd.ZChild, x)
			walk(nd.OChild, y)
			return
		}
		k := 0
		for _, f := range fs {
			k = 2*k + int(x[f])
		}
		t.nodes[n].Value = table>>k&1 == 1
	}
	walk(0, make(Inst, t.dim))
}

// twin is a tree of the same dimension and number of nodes that differs in
// the labels of leaves, in the features tested (renamed by a permutation) or
// in which side of a node its children are on.
func (t *Tree) twin(r *rand.Rand) *Tree {
	perm := make([]int, t.dim)
	for i := range perm {
		perm[i] = i
	}
	how := 1 + r.Intn(7)
	if r.Intn(3) == 0 {
		how = 8
	}
	if how&1 != 0 {
		perm = r.Perm(t.dim)
	}
	out := &Tree{dim: t.dim, nodes: append([]query.Node{}, t.nodes...)}
	switch {
	case how == 8:
		out.ruleLabels(r)
	case r.Intn(2) == 0:
		// the labels in another order
		how &^= 2
		out.shuffleLabels(r)
	}
	for i := range out.nodes {
		n := &out.nodes[i]
		if n.IsLeaf() {
			if how&2 != 0 && r.Intn(2) == 0 {
				n.Value = !n.Value
			}
			continue
		}
		n.Feat = perm[n.Feat]
		if how&4 != 0 && r.Intn(2) == 0 {
			n.ZChild, n.OChild = n.OChild, n.ZChild
		}
	}
	return out
}

// shape is the recursive form trees are generated in.
type shape struct {
	leaf bool
	val  bool
	feat int
	z, o *shape
}

func (s *shape) size() int {
	if s.leaf {
		return 1
	}
	return 1 + s.z.size() + s.o.size()
}

// layout writes the shape as nodes. order: 0 depth first, 1 breadth first,
// 2 random with the root first.
func (s *shape) layout(dim, order int, r *rand.Rand) *Tree {
	var list []*shape
	switch order {
	case 1:
		q := []*shape{s}
		for len(q) > 0 {
			x := q[0]
			q = q[1:]
			list = append(list, x)
			if !x.leaf {
				q = append(q, x.z, x.o)
			}
		}
	default:
		var rec func(x *shape)
		rec = func(x *shape) {
			list = append(list, x)
			if !x.leaf {
				rec(x.z)
				rec(x.o)
			}
		}
		rec(s)
		if order == 2 && r != nil {
			rest := list[1:]
			r.Shuffle(len(rest), func(i, j int) { rest[i], rest[j] = rest[j], rest[i] })
		}
	}
	idx := map[*shape]int{}
	for i, x := range list {
		idx[x] = i
	}
	// in most cases the nodes are the start of a longer array, as the first
	// tree of a forest would be
	spare := []int{2, 0, 3, 1}[(len(list)/2)%4]
	forest := make([]query.Node, len(list)+spare)
	for i := range forest {
		forest[i] = query.Node{Value: i%2 == 0, Feat: 0, ZChild: query.NoChild, OChild: query.NoChild}
	}
	t := &Tree{dim: dim, nodes: forest[:len(list)]}
	for i, x := range list {
		n := query.Node{Value: x.val, Feat: x.feat, ZChild: query.NoChild, OChild: query.NoChild}
		if !x.leaf {
			n.ZChild, n.OChild = idx[x.z], idx[x.o]
		} else if k := (len(list) + 3*i) % 8; k == 0 {
			// one missing child is enough for a leaf
			n.ZChild = 0
		} else if k == 1 {
			n.OChild = 0
		}
		t.nodes[i] = n
	}
	return t
}

// randShape makes a tree with about at most budget inner nodes. Features do
// not repeat on a path.
func randShape(r *rand.Rand, dim, budget int, pleaf float64, bias float64) *shape {
	left := budget
	used := make([]bool, dim)
	var rec func(depth int) *shape
	rec = func(depth int) *shape {
		free := []int{}
		for i, u := range used {
			if !u {
				free = append(free, i)
			}
		}
		if len(free) == 0 || left <= 0 || (depth > 0 && r.Float64() < pleaf) {
			l := &shape{leaf: true, val: r.Float64() < bias}
			// the feature field of a leaf has no meaning
			switch r.Intn(6) {
			case 0, 1:
				l.feat = r.Intn(dim)
			case 2:
				l.feat = []int{-1, -2, dim, dim + 7, 1 << 40}[r.Intn(5)]
			}
			return l
		}
		left--
		f := free[r.Intn(len(free))]
		used[f] = true
		x := &shape{feat: f, val: r.Intn(2) == 0}
		if r.Intn(2) == 0 {
			x.z = rec(depth + 1)
			x.o = rec(depth + 1)
		} else {
			x.o = rec(depth + 1)
			x.z = rec(depth + 1)
		}
		used[f] = false
		return x
	}
	return rec(0)
}

func randTree(r *rand.Rand, dim, budget int) *Tree {
	p := []float64{0, 0.15, 0.3, 0.5}[r.Intn(4)]
	bias := []float64{0.5, 0.5, 0.5, 0.15, 0.85}[r.Intn(5)]
	if r.Intn(25) == 0 {
		bias = float64(r.Intn(2)) // single class
	}
	if r.Intn(30) == 0 {
		budget = 0 // a single leaf
	}
	return randShape(r, dim, budget, p, bias).layout(dim, r.Intn(3), r)
}

// chainTree is a path of the given depth.
func chainTree(r *rand.Rand, dim, depth int) *Tree {
	perm := r.Perm(dim)
	if depth > dim {
		depth = dim
	}
	cur := &shape{leaf: true, val: r.Intn(2) == 0}
	for i := 0; i < depth; i++ {
		l := &shape{leaf: true, val: r.Intn(2) == 0}
		x := &shape{feat: perm[i]}
		if r.Intn(2) == 0 {
			x.z, x.o = l, cur
		} else {
			x.z, x.o = cur, l
		}
		cur = x
	}
	return cur.layout(dim, r.Intn(3), r)
}

// denseTree is a tree with exactly the given number of inner nodes when the
// dimension allows it, grown at random leaves.
func denseTree(r *rand.Rand, dim, inner int) *Tree {
	type open struct {
		s    *shape
		used map[int]bool
	}
	root := &shape{leaf: true, val: r.Intn(2) == 0}
	list := []open{{root, map[int]bool{}}}
	for n := 0; n < inner && len(list) > 0; {
		k := r.Intn(len(list))
		o := list[k]
		list[k] = list[len(list)-1]
		list = list[:len(list)-1]
		if len(o.used) >= dim {
			continue
		}
		f := r.Intn(dim)
		for o.used[f] {
			f = r.Intn(dim)
		}
		n++
		mk := func() *shape { return &shape{leaf: true, val: r.Intn(2) == 0} }
		o.s.leaf, o.s.feat, o.s.z, o.s.o = false, f, mk(), mk()
		for _, c := range []*shape{o.s.z, o.s.o} {
			u := map[int]bool{f: true}
			for k := range o.used {
				u[k] = true
			}
			list = append(list, open{c, u})
		}
	}
	return root.layout(dim, r.Intn(3), r)
}

// enumShapes lists all trees over the features not in used.
func enumShapes(dim int, used uint) []*shape {
	out := []*shape{{leaf: true}, {leaf: true, val: true}}
	for f := 0; f < dim; f++ {
		if used&(1<<f) != 0 {
			continue
		}
		sub := enumShapes(dim, used|1<<f)
		for _, z := range sub {
			for _, o := range sub {
				out = append(out, &shape{feat: f, z: z.copy(), o: o.copy()})
			}
		}
	}
	return out
}

func (s *shape) copy() *shape {
	c := *s
	if !s.leaf {
		c.z, c.o = s.z.copy(), s.o.copy()
	}
	return &c
}

var smallTrees = map[int][]*shape{}

// smallShapes returns all tree shapes of dimension 1, 2 or 3 (2+4=6, 74, 16430).
func smallShapes(dim int) []*shape {
	if smallTrees[dim] == nil {
		smallTrees[dim] = enumShapes(dim, 0)
	}
	return smallTrees[dim]
}

// nodeInsts returns the partial instance of every node, by index.
func (t *Tree) nodeInsts() []Inst {
	out := make([]Inst, len(t.nodes))
	var rec func(i int, cur Inst)
	rec = func(i int, cur Inst) {
		out[i] = cur.clone()
		n := t.nodes[i]
		if n.IsLeaf() {
			return
		}
		cur[n.Feat] = 0
		rec(n.ZChild, cur)
		cur[n.Feat] = 1
		rec(n.OChild, cur)
		cur[n.Feat] = -1
	}
	cur := make(Inst, t.dim)
	for i := range cur {
		cur[i] = -1
	}
	rec(0, cur)
	return out
}

// class of a full instance.
func (t *Tree) class(e Inst) bool {
	i := 0
	for !t.nodes[i].IsLeaf() {
		if e[t.nodes[i].Feat] == 0 {
			i = t.nodes[i].ZChild
		} else {
			i = t.nodes[i].OChild
		}
	}
	return t.nodes[i].Value
}

// tested features.
func (t *Tree) tested() []bool {
	out := make([]bool, t.dim)
	for _, n := range t.nodes {
		if !n.IsLeaf() {
			out[n.Feat] = true
		}
	}
	return out
}

// classes returns which classes completions of e receive.
func (t *Tree) classes(e Inst) (pos, neg bool) {
	free := []int{}
	tested := t.tested()
	for i, v := range e {
		if v < 0 && tested[i] {
			free = append(free, i)
		}
	}
	if len(free) <= 6 {
		// definition: enumerate completions (untested features do not matter)
		x := e.clone()
		for i := range x {
			if x[i] < 0 {
				x[i] = 0
			}
		}
		for m := 0; m < 1<<len(free); m++ {
			for k, f := range free {
				x[f] = int8(m >> k & 1)
			}
			if t.class(x) {
				pos = true
			} else {
				neg = true
			}
		}
		return
	}
	var rec func(i int)
	rec = func(i int) {
		n := t.nodes[i]
		if n.IsLeaf() {
			if n.Value {
				pos = true
			} else {
				neg = true
			}
			return
		}
		if e[n.Feat] != 1 {
			rec(n.ZChild)
		}
		if e[n.Feat] != 0 {
			rec(n.OChild)
		}
	}
	rec(0)
	return
}

// dfs: for every e' with the same undefined features, its completions have a
// common class.
func (t *Tree) isDFS(e Inst) bool {
	def := []int{}
	tested := t.tested()
	for i, v := range e {
		if v >= 0 && tested[i] {
			def = append(def, i)
		}
	}
	if len(def) <= 7 {
		x := e.clone()
		for m := 0; m < 1<<len(def); m++ {
			for k, f := range def {
				x[f] = int8(m >> k & 1)
			}
			if p, n := t.classes(x); p && n {
				return false
			}
		}
		return true
	}
	insts := t.nodeInsts()
	var leafs [2][]Inst
	for i, a := range t.nodes {
		if a.IsLeaf() && a.Value {
			leafs[1] = append(leafs[1], insts[i])
		} else if a.IsLeaf() {
			leafs[0] = append(leafs[0], insts[i])
		}
	}
	for _, x := range leafs[1] {
		for _, y := range leafs[0] {
			conflict := false
			for _, f := range def {
				if x[f] >= 0 && y[f] >= 0 && x[f] != y[f] {
					conflict = true
					break
				}
			}
			if !conflict {
				return false
			}
		}
	}
	return true
}

func hamming(a, b Inst) int {
	n := 0
	for i := range a {
		if a[i] != b[i] {
			n++
		}
	}
	return n
}

// randInst draws an instance; pBot is the probability of undefined features.
func randInst(r *rand.Rand, dim int, pBot float64) Inst {
	x := make(Inst, dim)
	for i := range x {
		if r.Float64() < pBot {
			x[i] = -1
		} else {
			x[i] = int8(r.Intn(2))
		}
	}
	return x
}

func someInst(r *rand.Rand, dim int) Inst {
	return randInst(r, dim, []float64{0, 0, 0.1, 0.3, 0.34, 0.6, 0.9, 1}[r.Intn(8)])
}
