package main

import (
	"errors"
	"fmt"
	"strings"

	"github.com/jtcaraball/goexpdt/query"
)

// Properties C18, C19 and C24.

type triple struct {
	v    string
	i, x int
}

var trickyVars = []string{"x", "x1", "x11", "1", "11", "", "x-1", "x 1", "x,1", "x|1", "x_1", "X", "xx", "ñ", "x\x00", "x\n1", "#", "x#1#1", "x(1", "\x1e", "x\x1e1", "-1",
	" x", "x ", "x\t", "X1", "ｘ", "Ñ", "n\u0303", "\xff", "\xfe", "\uFFFD", "x\xff"}

// node positions that equal a small one up to these
var scopeMods = []int{10, 16, 64, 100, 128, 256, 1000, 1024, 4096, 10000, 32768, 65536}

var trickyIdx = []int{0, 1, 2, 3, 9, 10, 11, 12, 21, 100, 101, 110, 111, -1, -11, 999, 1000, 65535, 65536, 1 << 32, 1<<32 + 1, -1 << 32}

// varCase applies a random history to a context's variable manager.
func varCase(t *T, i int) {
	r := t.Rand
	tree := midTree(r, 1, 3)
	ctx := query.BasicQContext(tree)
	known := map[triple]int{}
	used := map[int]triple{}
	var keys []triple
	top := 0
	steps := 20 + r.Intn(200)
	if r.Intn(20) == 0 {
		steps = 3000
	}
	rt := func() triple {
		if len(keys) > 0 && r.Intn(5) == 0 {
			// a near neighbour of a known one
			k := keys[r.Intn(len(keys))]
			// moduli a packed or truncated key could use
			m := []int{2, 3, 4, 5, 7, 8, 10, 16, 31, 32, 33, 64, 100, 127, 128, 255, 256, 257, 1000, 1 << 10, 1 << 12, 1 << 15,
				1 << 16, 1 << 20, 1 << 24, 1 << 31, 1 << 32}[r.Intn(27)]
			switch r.Intn(9) {
			case 8:
				// a name that differs in one place
				if len(k.v) > 0 {
					b := []byte(k.v)
					b[r.Intn(len(b))] ^= 1
					k.v = string(b)
				}
			case 0:
				k.i, k.x = k.x, k.i
			case 1:
				k.v += fmt.Sprint(k.i)
			case 2:
				k.i++
			case 3:
				k.i, k.x = k.i+1, k.x-m
			case 4:
				k.i, k.x = k.i-1, k.x+m
			case 5:
				k.i += m
			case 6:
				k.x += m
			case 7:
				k.i, k.x = k.i-m, k.x+1
			}
			return k
		}
		if r.Intn(6) == 0 {
			// a long name
			n := []int{1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 4096}[r.Intn(12)]
			v := strings.Repeat("v", 1+n/2) + pickStr(r, trickyVars) + strings.Repeat("w", n-n/2)
			switch r.Intn(3) {
			case 0:
				v = fmt.Sprint(r.Intn(3)) + v
			case 1:
				v += fmt.Sprint(r.Intn(3))
			}
			t.Count("long_names", 1)
			return triple{v, r.Intn(3), r.Intn(3)}
		}
		return triple{pickStr(r, trickyVars), trickyIdx[r.Intn(len(trickyIdx))], trickyIdx[r.Intn(len(trickyIdx))]}
	}
	if steps == 3000 {
		base := rt
		n := 0
		rt = func() triple {
			n++
			if r.Intn(3) == 0 {
				return base()
			}
			return triple{fmt.Sprintf("v%d", n%7), n, n % 5}
		}
	}
	for k := 0; k < steps; k++ {
		q := rt()
		switch r.Intn(12) {
		case 0:
			u := top + r.Intn(9) - 4
			if r.Intn(6) == 0 {
				u = r.Intn(100000)
				if r.Intn(8) == 0 {
					u = top + 1<<(10+r.Intn(31)) + r.Intn(3) - 1
					t.Count("far_reservations", 1)
				}
			}
			if r.Intn(10) == 0 {
				u = -r.Intn(5)
			}
			ok := ctx.UpdateTopV(u)
			t.Log("UpdateTopV(%d)=%v", u, ok)
			t.Count("reservations", 1)
			if u > top && !ok {
				t.Violate("reserve/refused", "reserving up to %d above the top %d reports no effect", u, top)
			}
			if u < top && ok {
				t.Violate("reserve/accepted", "reserving up to %d below the top %d reports an effect", u, top)
			}
			if u > top {
				top = u
			}
		case 1, 2:
			want := known[q] != 0
			if got := ctx.CNFVarExists(query.QVar(q.v), q.i, q.x); got != want {
				t.Violate("exists", "existence of %q,%d,%d is reported %v", q.v, q.i, q.x, got)
			}
			t.Count("existence_queries", 1)
			if want {
				t.Count("existing", 1)
			}
		case 3:
			if r.Intn(12) > 0 {
				break
			}
			ctx.Reset()
			t.Log("Reset")
			known, used, keys, top = map[triple]int{}, map[int]triple{}, nil, 0
			t.Count("resets", 1)
		case 4:
			// scopes do not influence numbers
			ctx.AddScope("c")
			if r.Intn(2) == 0 {
				ctx.PopScope()
			}
		default:
			n := ctx.CNFVar(query.QVar(q.v), q.i, q.x)
			t.Count("numberings", 1)
			if n <= 0 {
				t.Violate("positive", "variable %q,%d,%d gets number %d", q.v, q.i, q.x, n)
			}
			if old := known[q]; old != 0 {
				t.Count("repeated", 1)
				if old != n {
					t.Violate("stable", "variable %q,%d,%d was %d, now %d", q.v, q.i, q.x, old, n)
				}
				break
			}
			if o, ok := used[n]; ok {
				t.Violate("unique", "variables %v and %v share number %d", o, q, n)
			}
			if n <= top {
				t.Violate("fresh", "new variable %v gets number %d, not above the top %d", q, n, top)
			}
			known[q], used[n] = n, q
			keys = append(keys, q)
			top = n
		}
		if ctx.TopV() != top {
			t.Violate("top", "the top is %d, the largest number handed out or reserved is %d", ctx.TopV(), top)
		}
	}
	// everything is still there
	for q, n := range known {
		if !ctx.CNFVarExists(query.QVar(q.v), q.i, q.x) || ctx.CNFVar(query.QVar(q.v), q.i, q.x) != n {
			t.Violate("stable", "variable %v lost its number %d", q, n)
		}
	}
	t.Eval(1)
	t.Distinct(fmt.Sprint(t.Index, len(known), top))
}

// gridCase numbers all triples of a few names over a grid, as the components
// with counting variables do on models with many features and nodes.
func gridCase(t *T, i int) {
	r := t.Rand
	ctx := query.BasicQContext(midTree(r, 1, 2))
	ni, nx := 20+r.Intn(400), 1+r.Intn(420)
	if r.Intn(2) == 0 {
		ni, nx = nx, ni
	}
	names := []string{"x", "x1", "x\x1f1", "y", "x11"}[:1+r.Intn(5)]
	for ni*nx*len(names) > 150000 {
		if len(names) > 1 {
			names = names[:len(names)-1]
		} else {
			ni = ni * 3 / 4
		}
	}
	t.Describe("grid of %d names, indexes below %d, values below %d", len(names), ni, nx)
	num := make([]int, 0, len(names)*ni*nx)
	used := make(map[int]int, cap(num))
	for k, n := range names {
		for a := 0; a < ni; a++ {
			for b := 0; b < nx; b++ {
				v := ctx.CNFVar(query.QVar(n), a, b)
				id := (k*ni+a)*nx + b
				if o, ok := used[v]; ok {
					t.Violate("grid/unique", "(%q,%d,%d) and (%q,%d,%d) share number %d", n, a, b, names[o/(ni*nx)], o/nx%ni, o%nx, v)
				}
				if v <= 0 || v != ctx.TopV() {
					t.Violate("grid/fresh", "(%q,%d,%d) gets %d, the top is %d", n, a, b, v, ctx.TopV())
				}
				used[v] = id
				num = append(num, v)
			}
		}
	}
	for k := 0; k < 2000; k++ {
		id := r.Intn(len(num))
		if v := ctx.CNFVar(query.QVar(names[id/(ni*nx)]), id/nx%ni, id%nx); v != num[id] {
			t.Violate("grid/stable", "(%q,%d,%d) was %d, now %d", names[id/(ni*nx)], id/nx%ni, id%nx, num[id], v)
		}
	}
	t.Count("numberings", len(num))
	t.Eval(1)
	t.Distinct(fmt.Sprint(names, ni, nx))
}

// millionCase numbers more than a million triples in one context, in several
// shapes of grids, and asks for all of them again.
func millionCase(t *T, i int) {
	r := t.Rand
	ctx := query.BasicQContext(midTree(r, 1, 2))
	total := 1_050_000 + r.Intn(300_000)
	ni := []int{1, 7, 300, 1000, 70_000, total}[i%6]
	names := 1 + r.Intn(4)
	if i%12 >= 6 {
		names = 1 + r.Intn(total/ni+1)
	}
	at := func(k int) (query.QVar, int, int) {
		return query.QVar(fmt.Sprint("v", k%names)), k / names % ni, k / names / ni
	}
	t.Describe("%d numberings over %d names, indexes below %d", total, names, ni)
	num := make([]int, total)
	top := 0
	for k := range num {
		v, a, b := at(k)
		n := ctx.CNFVar(v, a, b)
		if n <= top || n != ctx.TopV() {
			t.Violate("huge/fresh", "(%q,%d,%d), number %d to be asked for, gets %d, the top was %d and is %d", v, a, b, k, n, top, ctx.TopV())
		}
		num[k], top = n, n
		if k > 0 && k%10 == 0 {
			// one of long ago
			o := r.Intn(k)
			v, a, b := at(o)
			if n := ctx.CNFVar(v, a, b); n != num[o] || !ctx.CNFVarExists(v, a, b) {
				t.Violate("huge/stable", "(%q,%d,%d) was %d, after %d numberings it is %d", v, a, b, num[o], k+1, n)
			}
		}
	}
	for k := range num {
		v, a, b := at(k)
		if n := ctx.CNFVar(v, a, b); n != num[k] {
			t.Violate("huge/stable", "(%q,%d,%d) was %d, after %d numberings it is %d", v, a, b, num[k], total, n)
		}
	}
	if ctx.TopV() != top {
		t.Violate("huge/top", "the top is %d, %d was the largest number handed out", ctx.TopV(), top)
	}
	t.Count("numberings", total)
	t.Count("contexts_over_a_million", 1)
	t.Eval(1)
	t.Distinct(fmt.Sprint("huge", total, names, ni))
}

// scopeCase compares scope operations with a reference model.
func scopeCase(t *T, i int) {
	r := t.Rand
	tree := midTree(r, 1, 3)
	ctx := query.BasicQContext(tree)
	type sc struct {
		tgt string
		idx int
		val Inst
		set bool
	}
	var st []sc
	level := map[string]int{}
	names := map[string]string{}  // identity -> scoped name
	idents := map[string]string{} // scoped name -> identity
	vars := trickyVars
	tgts := []string{"c", "c1", "c11", "1", "d", "x", "c 1", "ñ", "c-1", "11", "x1", "", "C", " c", "c ", "c\t", "C1", "D", "Ñ", "n\u0303", "\xff", "\xfe", "\uFFFD"}
	// a variable declared again further in: what it is called there is not
	// specified, but the outer one is unaffected once that scope is gone
	shadow := map[string]int{}
	probe := func(v string) {
		if shadow[v] > 0 {
			return
		}
		id := fmt.Sprintf("%q", v)
		for k := 0; k < level[v]; k++ {
			id += fmt.Sprintf("/%q:%d", st[k].tgt, st[k].idx)
		}
		got := string(ctx.ScopeVar(query.QVar(v)))
		t.Count("scoped_names", 1)
		if level[v] > 0 {
			t.Count("scoped_names_inside", 1)
		}
		if old, ok := names[id]; ok && old != got {
			t.Violate("scope/stable", "the scoped name of %s was %q, now %q", id, old, got)
		}
		if old, ok := idents[got]; ok && old != id {
			t.Violate("scope/injective", "%s and %s have the same scoped name %q", old, id, got)
		}
		names[id], idents[got] = got, id
	}
	checkConst := func() {
		c := query.QConst{ID: pickStr(r, tgts)}
		if r.Intn(4) == 0 {
			c.ID = ""
		}
		own := someInst(r, tree.dim)
		if r.Intn(2) == 0 {
			c.Val = own.vals()
		}
		var want *sc
		for k := range st {
			if st[k].tgt == c.ID {
				want = &st[k]
			}
		}
		got, ok := ctx.ScopeConst(c)
		t.Count("constant_lookups", 1)
		if ok != (want != nil) {
			t.Violate("const/ok", "scope lookup of %q gives ok=%v with scopes %v", c.ID, ok, st)
		}
		wv := c.Val
		if want != nil {
			if !want.set {
				t.Count("lookups_before_set", 1)
				return
			}
			t.Count("guarded_constants", 1)
			wv = want.val.vals()
		}
		if got.ID != c.ID || fmt.Sprint(got.Val) != fmt.Sprint(wv) || (wv == nil) != (got.Val == nil) {
			t.Violate("const/value", "constant %q %v is returned as %q %v; scopes %v", c.ID, c.Val, got.ID, got.Val, st)
		}
	}
	modAt := r.Intn(len(scopeMods))
	// most stacks are low, as those of real queries
	limit := 6
	if r.Intn(8) == 0 {
		limit = 7 + r.Intn(70)
		for k := 0; k < limit; k++ {
			tgts = append(tgts, fmt.Sprintf("t%d", k))
		}
	}
	steps := 30 + r.Intn(150)
	if limit > 6 {
		steps += 8 * limit
	}
	for k := 0; k < steps; k++ {
		switch r.Intn(10) {
		case 0, 1:
			tgt := pickStr(r, tgts)
			dup := false
			for _, s := range st {
				dup = dup || s.tgt == tgt
			}
			if dup && r.Intn(2) == 0 || len(st) >= limit {
				break
			}
			if dup {
				t.Count("targets_bound_again", 1)
			}
			ctx.AddScope(tgt)
			st = append(st, sc{tgt: tgt})
			t.Log("AddScope(%q)", tgt)
			if len(st) > 6 {
				t.Count("depth_more", 1)
			} else {
				t.Count(fmt.Sprintf("depth_%d", len(st)), 1)
			}
		case 2:
			if r.Intn(2) == 0 {
				break
			}
			err := ctx.PopScope()
			t.Log("PopScope")
			if (err == nil) != (len(st) > 0) {
				t.Violate("pop", "removing a scope with %d present gives %v", len(st), err)
			}
			if len(st) == 0 {
				t.Count("errors_on_empty", 1)
				break
			}
			for v, l := range level {
				if l == len(st) {
					delete(level, v)
				}
			}
			for v, l := range shadow {
				if l == len(st) {
					delete(shadow, v)
					t.Count("redeclared_then_left", 1)
				}
			}
			st = st[:len(st)-1]
		case 3, 4:
			x := someInst(r, tree.dim)
			idx := trickyIdx[r.Intn(12)]
			if idx >= 0 && r.Intn(3) == 0 {
				// congruent to a small one
				idx += (1 + r.Intn(3)) * scopeMods[modAt]
			}
			err := ctx.SetScope(idx, x.vals())
			t.Log("SetScope(%d)", idx)
			if (err == nil) != (len(st) > 0) {
				t.Violate("set", "setting a scope with %d present gives %v", len(st), err)
			}
			if len(st) == 0 {
				t.Count("errors_on_empty", 1)
				break
			}
			st[len(st)-1].idx, st[len(st)-1].val, st[len(st)-1].set = idx, x, true
		case 5, 6:
			v := pickStr(r, vars)
			ctx.AddVar(query.QVar(v))
			t.Log("AddVar(%q)", v)
			if level[v] != 0 && level[v] != len(st) {
				if shadow[v] == 0 {
					shadow[v] = len(st)
				}
				break
			}
			if len(st) > 0 {
				level[v] = len(st)
			}
		case 7, 8:
			probe(pickStr(r, vars))
			for v := range level {
				probe(v)
			}
		case 9:
			checkConst()
			if r.Intn(60) == 0 {
				ctx.Reset()
				t.Log("Reset")
				st, level, shadow = nil, map[string]int{}, map[string]int{}
			}
		}
	}
	for _, v := range vars {
		probe(v)
	}
	t.Eval(1)
	t.Distinct(strings.Join(t.trace, ";"))
}

// stackCtx counts scope operations of the code under test and can fail them.
type stackCtx struct {
	query.QContext
	depth, max int
	adds, sets int
	failSet    int
}

var errInjected = errors.New("injected failure")

func (c *stackCtx) AddScope(s string) {
	c.depth++
	c.adds++
	if c.depth > c.max {
		c.max = c.depth
	}
	c.QContext.AddScope(s)
}

func (c *stackCtx) PopScope() error {
	c.depth--
	return c.QContext.PopScope()
}

func (c *stackCtx) SetScope(i int, v []query.FeatV) error {
	c.sets++
	if c.failSet > 0 && c.sets == c.failSet {
		return errInjected
	}
	return c.QContext.SetScope(i, v)
}

// restoreCase encodes a query inside scopes of the caller, failing at every
// point in turn, and looks at the stack afterwards.
func restoreCase(t *T, i int) {
	r := t.Rand
	tree := midTree(r, 1, 4)
	f := closedF(r, tree, 1+r.Intn(4), closedCfg{2, 3, atomOps})
	if usedAll(f) == 0 {
		f = forall("c", f)
		if usedEx(f) == 0 && r.Intn(2) == 0 {
			f = not(f)
		}
	}
	outer := r.Intn(3)
	oid := []string{"p", "q"}
	// count the component encodings
	total := 0
	clean := func(hook func() error, failSet int, key string) (error, *stackCtx) {
		base := query.BasicQContext(tree)
		c := &stackCtx{QContext: base, failSet: failSet}
		type keep struct {
			name string
			val  Inst
		}
		var keeps []keep
		for k := 0; k < outer; k++ {
			base.AddScope(oid[k])
			x := someInst(r, tree.dim)
			base.SetScope(k+3, x.vals())
			v := fmt.Sprintf("o%d", k)
			base.AddVar(query.QVar(v))
			keeps = append(keeps, keep{string(base.ScopeVar(query.QVar(v))), x})
		}
		_, err := failAt(f, &Gens{Unique: r.Intn(2) == 0}, hook).Encoding(c)
		t.Eval(1)
		t.Count("encodings", 1)
		if c.max > 0 {
			t.Count("encodings_with_scopes", 1)
		}
		if err != nil {
			t.Count("failed_encodings", 1)
		}
		if c.depth != 0 {
			t.Violate("restore/"+key, "the encoding leaves the scope stack %d deeper than it found it (error: %v)", c.depth, err)
		}
		for k := outer - 1; k >= 0; k-- {
			if n := string(base.ScopeVar(query.QVar(fmt.Sprintf("o%d", k)))); n != keeps[k].name {
				t.Violate("restore/var-"+key, "a variable of an outer scope was named %q, is named %q after the encoding", keeps[k].name, n)
			}
			q, ok := base.ScopeConst(query.QConst{ID: oid[k]})
			if !ok || fmt.Sprint(q.Val) != fmt.Sprint(keeps[k].val.vals()) {
				t.Violate("restore/const-"+key, "the value of an outer scope changed")
			}
			if err := base.PopScope(); err != nil {
				t.Violate("restore/missing-"+key, "an outer scope is missing: %v", err)
			}
		}
		if err := base.PopScope(); err == nil {
			t.Violate("restore/extra-"+key, "a scope is left on the stack")
		}
		return err, c
	}
	t.Describe("tree %s\nformula %s", tree, f)
	err, c := clean(func() error { total++; return nil }, 0, "success")
	if err != nil {
		t.Violate("restore/error", "a valid formula fails: %v", err)
	}
	points := r.Perm(total)
	if len(points) > 12 {
		points = points[:12]
	}
	for _, p := range points {
		n := 0
		t.Describe("tree %s\nformula %s\nfailing component encoding %d of %d", tree, f, p+1, total)
		clean(func() error {
			n++
			if n == p+1 {
				return errInjected
			}
			return nil
		}, 0, "component")
		t.Count("injected_component", 1)
	}
	sets := c.sets
	for k := 0; k < 4 && sets > 0; k++ {
		at := 1 + r.Intn(sets)
		t.Describe("tree %s\nformula %s\nfailing SetScope %d of %d", tree, f, at, sets)
		clean(func() error { return nil }, at, "setscope")
		t.Count("injected_setscope", 1)
	}
	// a malformed model fails inside the quantifier
	good := tree
	for k, bad := range badTrees(r, good) {
		tree = bad
		t.Describe("tree %s\nformula %s", tree, f)
		err, _ := clean(func() error { return nil }, 0, fmt.Sprintf("model%d", k))
		if err == nil {
			t.Count("malformed_model_unused", 1)
		} else {
			t.Count("injected_model", 1)
		}
	}
	t.Distinct(fmt.Sprintf("%s | %s", good, f))
}

// longNames scopes variables below targets with long names, at many positions.
func longNames(t *T, i int) {
	r := t.Rand
	ctx := query.BasicQContext(randTree(r, 2, 1))
	depth := 1 + r.Intn(4)
	base := strings.Repeat(pickStr(r, []string{"c", "c1", "target", "_0"}), 1+r.Intn(400))
	base = base[:1+r.Intn(len(base))]
	vars := []string{"x", "y", base, base + "x"}
	names := map[string]query.QVar{}
	idents := map[query.QVar]string{}
	t.Describe("targets of about %d characters, depth %d", len(base), depth)
	n := 0
	for k := 0; k < 12; k++ {
		// targets that differ in one character, at any place
		var tgts []string
		var at []int
		for l := 0; l < depth; l++ {
			b := []byte(base)
			b[r.Intn(len(b))] = "abc"[r.Intn(3)]
			tgts = append(tgts, string(b)+fmt.Sprint(l))
		}
		for l, g := range tgts {
			ctx.AddScope(g)
			if l < depth-1 {
				at = append(at, r.Intn(3))
				if err := ctx.SetScope(at[l], someInst(r, 2).vals()); err != nil {
					t.Violate("long/set", "%v", err)
				}
			}
		}
		// the positions of the outer scopes are fixed for this round
		for _, v := range vars {
			ctx.AddVar(query.QVar(v))
		}
		off := []int{0, 1, 100, 1 << 20}[r.Intn(4)]
		for p := 0; p < 40; p++ {
			if err := ctx.SetScope(off+p, someInst(r, 2).vals()); err != nil {
				t.Violate("long/set", "%v", err)
			}
			for _, v := range vars {
				id := fmt.Sprintf("%q under %q at %v %d", v, tgts, at, off+p)
				got := ctx.ScopeVar(query.QVar(v))
				if old, ok := names[id]; ok && old != got {
					t.Violate("long/stable", "the scoped name of %s was %q, now %q", id, old, got)
				}
				if old, ok := idents[got]; ok && old != id {
					t.Violate("long/injective", "%s and %s have the same scoped name %q", old, id, got)
				}
				names[id], idents[got] = got, id
				n++
			}
		}
		for range tgts {
			if err := ctx.PopScope(); err != nil {
				t.Violate("long/pop", "%v", err)
			}
		}
	}
	t.Eval(1)
	t.Count("long_names", n)
	t.Distinct(fmt.Sprint(len(base), depth, t.Index))
}

// C24 --------------------------------------------------------------------

func instOps(t *T, i int) {
	r := t.Rand
	n := r.Intn(12)
	if r.Intn(20) == 0 {
		n = r.Intn(3000)
	} else if i%6000 == 7 {
		n = r.Intn(140000)
	}
	var x Inst
	if n > 0 {
		x = someInst(r, n)
	} else {
		x = Inst{}
	}
	if r.Intn(4) == 0 {
		for j := range x {
			if x[j] < 0 {
				x[j] = int8(r.Intn(2))
			}
		}
		// a single undefined feature at a border
		if n > 0 && r.Intn(2) == 0 {
			x[[]int{0, n - 1, r.Intn(n)}[r.Intn(3)]] = -1
		}
	}
	c := query.QConst{ID: pickStr(r, []string{"", "c"}), Val: x.vals()}
	t.Describe("constant %s", x)
	t.Eval(1)
	if c.IsFull() != x.full() {
		t.Violate("full", "IsFull is %v", c.IsFull())
	}
	if c.BotCount() != x.bots() {
		t.Violate("bots", "BotCount is %d, want %d", c.BotCount(), x.bots())
	}
	if x.full() {
		t.Count("full", 1)
	} else {
		t.Count("not_full", 1)
	}
	s := c.AsString()
	want := make([]byte, n)
	for j := range x {
		want[j] = map[int8]byte{-1: '_', 0: '0', 1: '1'}[x[j]]
	}
	if s != string(want) {
		t.Violate("string", "AsString is %q", s)
	}
	// equality
	y := x.clone()
	switch r.Intn(5) {
	case 0:
	case 1:
		if n > 0 {
			y[[]int{0, n - 1, r.Intn(n)}[r.Intn(3)]] = int8(r.Intn(3)) - 1
		}
	case 2:
		y = append(y, int8(r.Intn(3))-1)
	case 3:
		if n > 0 {
			y = y[:r.Intn(n)]
		}
	case 4:
		y = Inst{}
		if n > 0 {
			y = someInst(r, n)
		}
	}
	d := query.QConst{ID: pickStr(r, []string{"", "c", "d"}), Val: y.vals()}
	eq := len(x) == len(y) && x.eq(y)
	if c.EqualValue(d) != eq || d.EqualValue(c) != eq || !c.EqualValue(c) {
		t.Violate("equal", "EqualValue of %s and %s is %v and %v", x, y, c.EqualValue(d), d.EqualValue(c))
	}
	if (c.AsString() == d.AsString()) != eq {
		t.Violate("string/distinct", "string forms of %s and %s: %q %q", x, y, c.AsString(), d.AsString())
	}
	if eq {
		t.Count("equal", 1)
	} else {
		t.Count("different", 1)
	}
	b := query.AllBotConst(n)
	if len(b.Val) != n || b.BotCount() != n || b.ID != "" || b.IsFull() != (n == 0) {
		t.Violate("allbot", "AllBotConst(%d) is %v", n, b)
	}
	if n > 0 {
		// a caller that sets some features, of this one or of a part of it
		at := r.Intn(n)
		b.Val[at] = query.FeatV(1 + r.Intn(2))
		_ = append(b.Val, query.ONE)
		for _, m := range []int{n, at + 1, n + 1, n} {
			if c := query.AllBotConst(m); len(c.Val) != m || c.BotCount() != m {
				t.Violate("allbot-shared", "AllBotConst(%d) is %v, after feature %d of AllBotConst(%d) was set", m, c, at, n)
			}
		}
		if b.BotCount() != n-1 {
			t.Violate("allbot-shared", "AllBotConst(%d) with feature %d set is %v", n, at, b)
		}
		t.Count("undefined_constants_set", 1)
	}
	// dimension validation
	var cs []query.QConst
	bad := false
	for k := r.Intn(6); k > 0; k-- {
		m := n
		if r.Intn(5) == 0 {
			m = []int{0, n + 1, n - 1, n * 2, r.Intn(n + 3)}[r.Intn(5)]
			if m < 0 {
				m = 0
			}
		}
		bad = bad || m != n
		v := make([]query.FeatV, m)
		if m == 0 && r.Intn(2) == 0 {
			v = nil
		}
		cs = append(cs, query.QConst{ID: pickStr(r, []string{"", "c"}), Val: v})
	}
	err := query.ValidateConstsDim(n, cs...)
	if (err != nil) != bad {
		t.Violate("validate", "ValidateConstsDim(%d, %v): %v", n, cs, err)
	}
	if bad {
		t.Count("validation_failures", 1)
	} else {
		t.Count("validation_passes", 1)
	}
	for j := range x {
		if c.Val[j] != fv(x[j]) {
			t.Violate("changed", "an operation changed the constant")
		}
	}
	// the caller goes on with the constant: its features are set anew, and a
	// part of it is a constant of its own
	if n > 0 && r.Intn(4) == 0 {
		prev := c.AsString()
		for k := 1 + r.Intn(3); k > 0; k-- {
			at := r.Intn(n)
			if r.Intn(2) == 0 && x.bots() > 0 && x.bots() < 8 {
				for at = 0; x[at] >= 0; {
					at++
				}
			}
			x[at] = int8(r.Intn(3)) - 1
			c.Val[at] = fv(x[at])
			part, px := c, x
			if r.Intn(3) == 0 {
				m := r.Intn(n + 1)
				part.Val, px = c.Val[:m], x[:m]
			}
			for j := range px {
				want[j] = map[int8]byte{-1: '_', 0: '0', 1: '1'}[px[j]]
			}
			if g := part.AsString(); g != string(want[:len(px)]) {
				t.Violate("stale/string", "AsString is %q for %s, which was %s before feature %d was set", g, px, prev, at)
			}
			if g := part.IsFull(); g != px.full() {
				t.Violate("stale/full", "IsFull is %v for %s, which was %s before feature %d was set", g, px, prev, at)
			}
			if g := part.BotCount(); g != px.bots() {
				t.Violate("stale/bots", "BotCount is %d for %s, which was %s before feature %d was set", g, px, prev, at)
			}
			if g := part.EqualValue(query.QConst{ID: c.ID, Val: px.vals()}); !g {
				t.Violate("stale/equal", "EqualValue is false for %s, which was %s before feature %d was set", px, prev, at)
			}
		}
		t.Count("constants_set_anew", 1)
	}
	t.Distinct(x.String() + y.String() + fmt.Sprint(len(cs), bad))
}

func init() {
	register(&Prop{ID: "C18", Level: "exploration",
		Rule:    "random histories of numbering, existence, reservation, scope and reset operations with near-colliding names and indices, each result compared with a reference model; distinct = distinct histories by (index, size, top)",
		Need:    []string{"numberings", "repeated", "reservations", "existing", "resets", "contexts_over_a_million"},
		Streams: []Stream{{Name: "vars", Quick: 6000, Thor: 120000, Run: varCase}, {Name: "grid", Quick: 100, Thor: 2000, Run: gridCase}, {Name: "million", Quick: 6, Thor: 60, Run: millionCase}}})
	register(&Prop{ID: "C19", Level: "exploration",
		Rule:   "random scope histories compared with a reference model (identity of a variable = name plus scope targets and positions), and encodings failed at each component, scope operation and malformed node, with the stack compared before and after; distinct = distinct histories and formulas",
		Assume: []string{"no ascii 31 in names, nested scopes have different targets, a variable is not declared again further in"},
		Need:   []string{"scoped_names_inside", "guarded_constants", "errors_on_empty", "failed_encodings", "injected_component", "injected_setscope", "injected_model", "depth_4"},
		Streams: []Stream{
			{Name: "scope", Quick: 10000, Thor: 200000, Run: scopeCase},
			{Name: "names", Quick: 400, Thor: 8000, Run: longNames},
			{Name: "restore", Quick: 2500, Thor: 50000, Run: restoreCase},
		}})
	register(&Prop{ID: "C24", Level: "exploration",
		Rule:    "random and border constants; each operation compared with its definition; distinct = distinct constants",
		Need:    []string{"full", "not_full", "equal", "different", "validation_failures", "validation_passes", "constants_set_anew"},
		Streams: []Stream{{Name: "ops", Quick: 60000, Thor: 1000000, Run: instOps}}})
}
