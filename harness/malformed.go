package main

import "math/rand"

// badTrees makes malformed variants of a tree: a node that names a feature or
// a child outside the model, or no nodes at all. The defect is at the root or
// at any other inner node.
func badTrees(r *rand.Rand, t *Tree) []*Tree {
	mk := func() *Tree {
		n := &Tree{dim: t.dim}
		n.nodes = append(n.nodes, t.nodes...)
		return n
	}
	var inner []int
	for i, n := range t.nodes {
		if !n.IsLeaf() {
			inner = append(inner, i)
		}
	}
	empty := &Tree{dim: t.dim}
	out := []*Tree{empty}
	if len(inner) == 0 {
		return out
	}
	at := inner[r.Intn(len(inner))]
	if r.Intn(3) == 0 {
		at = 0
	}
	n := len(t.nodes)
	for k := 0; k < 3; k++ {
		b := mk()
		switch k {
		case 0:
			b.nodes[at].Feat = []int{-1, t.dim, t.dim + 1, 1 << 20, -7}[r.Intn(5)]
		case 1:
			b.nodes[at].ZChild = []int{n, n + 1, 1 << 20}[r.Intn(3)]
		case 2:
			b.nodes[at].OChild = []int{n, n + 1, 1 << 20}[r.Intn(3)]
		}
		out = append(out, b)
	}
	return out
}
