package main

import (
	"fmt"
	"math/rand"
	"strings"

	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/extensions/allcomp"
	"github.com/jtcaraball/goexpdt/query/extensions/cons"
	"github.com/jtcaraball/goexpdt/query/extensions/dfs"
	"github.com/jtcaraball/goexpdt/query/extensions/full"
	"github.com/jtcaraball/goexpdt/query/extensions/hepr"
	"github.com/jtcaraball/goexpdt/query/extensions/leh"
	"github.com/jtcaraball/goexpdt/query/logop"
	"github.com/jtcaraball/goexpdt/query/predicates/isnode"
	"github.com/jtcaraball/goexpdt/query/predicates/lel"
	"github.com/jtcaraball/goexpdt/query/predicates/subsumption"
)

// Term of a formula: a variable, a constant or a guarded constant.
type Term struct {
	Var string
	ID  string
	Val Inst
	Q   *query.QConst // the constant itself, as someone handed it over
}

func (t Term) String() string {
	switch {
	case t.Var != "":
		return t.Var
	case t.ID != "":
		return "$" + t.ID
	}
	return "<" + t.Val.String() + ">"
}

// F is a formula of the reference language.
type F struct {
	Op   string // sub lel node allc dfs full cons leh hepr true false not and or ex all
	T    []Term
	Leaf bool
	Pref []int
	K    []*F
	Name string
	// Own is a value the constant of a quantifier has of its own, which the
	// values of the nodes replace.
	Own Inst
}

func (f *F) String() string {
	switch f.Op {
	case "not":
		return "!" + f.K[0].String()
	case "and", "or":
		return "(" + f.K[0].String() + " " + f.Op + " " + f.K[1].String() + ")"
	case "ex", "all":
		if f.Own != nil {
			return f.Op + " " + f.Name + "(" + f.Own.String() + ")." + f.K[0].String()
		}
		return f.Op + " " + f.Name + "." + f.K[0].String()
	}
	var sb strings.Builder
	sb.WriteString(f.Op)
	if f.Op == "allc" {
		fmt.Fprintf(&sb, "[%v]", f.Leaf)
	}
	if f.Op == "hepr" {
		fmt.Fprintf(&sb, "%v", f.Pref)
	}
	if len(f.T) > 0 {
		sb.WriteString("(")
		for i, t := range f.T {
			if i > 0 {
				sb.WriteString(",")
			}
			sb.WriteString(t.String())
		}
		sb.WriteString(")")
	}
	return sb.String()
}

func not(a *F) *F               { return &F{Op: "not", K: []*F{a}} }
func and(a, b *F) *F            { return &F{Op: "and", K: []*F{a, b}} }
func or(a, b *F) *F             { return &F{Op: "or", K: []*F{a, b}} }
func ex(v string, a *F) *F      { return &F{Op: "ex", Name: v, K: []*F{a}} }
func forall(id string, a *F) *F { return &F{Op: "all", Name: id, K: []*F{a}} }

// forallOwn is forall over a constant that may have a value of its own.
func forallOwn(r *rand.Rand, dim int, id string, a *F) *F {
	f := forall(id, a)
	f.Own = ownValue(r, dim)
	return f
}

func ownValue(r *rand.Rand, dim int) Inst {
	switch r.Intn(8) {
	case 0:
		return wrongInst(r, dim)
	case 1:
		return Inst{}
	case 2, 3:
		x := someInst(r, dim)
		if r.Intn(2) == 0 {
			for j := range x {
				if x[j] < 0 {
					x[j] = int8(r.Intn(2))
				}
			}
		}
		return x
	}
	return nil
}

func ownConst(id string, own Inst) query.QConst {
	c := query.QConst{ID: id}
	if own != nil {
		c.Val = own.vals()
	}
	return c
}

// guardConst is the constant of a quantifier.
func guardConst(r *rand.Rand, dim int, id string) query.QConst {
	return ownConst(id, ownValue(r, dim))
}
func atom(op string, t ...Term) *F {
	return &F{Op: op, T: t}
}
func vt(v string) Term  { return Term{Var: v} }
func ct(x Inst) Term    { return Term{Val: x} }
func gt(id string) Term { return Term{ID: id} }

// arity by operator.
var arity = map[string]int{"sub": 2, "lel": 2, "node": 1, "allc": 1, "dfs": 1, "full": 1, "cons": 2, "leh": 3, "hepr": 2}

var atomOps = []string{"sub", "lel", "node", "allc", "dfs", "full", "cons", "leh", "hepr"}

// Env is a valuation.
type Env struct {
	v map[string]Inst
	g map[string]Inst
}

func (e *Env) term(t Term) Inst {
	var x Inst
	switch {
	case t.Var != "":
		x = e.v[t.Var]
	case t.ID != "":
		x = e.g[t.ID]
		if x == nil {
			x = t.Val
		}
	default:
		x = t.Val
	}
	if x == nil {
		panic("harness: unbound term " + t.String())
	}
	return x
}

func subsumed(a, b Inst) bool {
	for i := range a {
		if a[i] >= 0 && a[i] != b[i] {
			return false
		}
	}
	return true
}

func refHepr(pref []int, a, b Inst) bool {
	for _, p := range pref {
		da, db := a[p] >= 0, b[p] >= 0
		if da != db {
			return da
		}
	}
	return true
}

// eval is the reference semantics.
func (f *F) eval(t *Tree, e *Env) bool {
	switch f.Op {
	case "true":
		return true
	case "false":
		return false
	case "not":
		return !f.K[0].eval(t, e)
	case "and":
		return f.K[0].eval(t, e) && f.K[1].eval(t, e)
	case "or":
		return f.K[0].eval(t, e) || f.K[1].eval(t, e)
	case "ex":
		old, had := e.v[f.Name]
		r := false
		for _, x := range cachedInsts(t.dim) {
			e.v[f.Name] = x
			if f.K[0].eval(t, e) {
				r = true
				break
			}
		}
		if had {
			e.v[f.Name] = old
		} else {
			delete(e.v, f.Name)
		}
		return r
	case "all":
		old, had := e.g[f.Name]
		r := true
		for _, x := range t.nodeInsts() {
			e.g[f.Name] = x
			if !f.K[0].eval(t, e) {
				r = false
				break
			}
		}
		if had {
			e.g[f.Name] = old
		} else {
			delete(e.g, f.Name)
		}
		return r
	}
	a := e.term(f.T[0])
	var b, c Inst
	if len(f.T) > 1 {
		b = e.term(f.T[1])
	}
	if len(f.T) > 2 {
		c = e.term(f.T[2])
	}
	switch f.Op {
	case "sub":
		return subsumed(a, b)
	case "lel":
		return a.bots() >= b.bots()
	case "node":
		for _, x := range t.nodeInsts() {
			if x.eq(a) {
				return true
			}
		}
		return false
	case "allc":
		p, n := t.classes(a)
		if f.Leaf {
			return p && !n
		}
		return n && !p
	case "dfs":
		return t.isDFS(a)
	case "full":
		return a.full()
	case "cons":
		for i := range a {
			if a[i] >= 0 && b[i] >= 0 && a[i] != b[i] {
				return false
			}
		}
		return true
	case "leh":
		return a.full() && b.full() && c.full() && hamming(a, b) <= hamming(a, c)
	case "hepr":
		return refHepr(f.Pref, a, b)
	}
	panic("harness: op " + f.Op)
}

var instCache = map[int][]Inst{}

func cachedInsts(dim int) []Inst {
	if instCache[dim] == nil {
		instCache[dim] = allInsts(dim)
	}
	return instCache[dim]
}

// Gens makes the naming functions of auxiliary notions.
type Gens struct {
	// Unique gives each occurrence of a component its own names; otherwise
	// all occurrences share one set of names.
	Unique bool
	n      int
	// Nil is the notion whose naming function is missing.
	Nil string
}

type genSet struct {
	reach, count func(v query.QVar) query.QVar
	hd, ef       func(a, b query.QVar) query.QVar
	pr           func(p, a, b query.QVar) query.QVar
}

func (g *Gens) next() genSet {
	pre := ""
	if g.Unique {
		g.n++
		pre = fmt.Sprintf("#%d", g.n)
	}
	pair := func(k string) func(a, b query.QVar) query.QVar {
		return func(a, b query.QVar) query.QVar {
			if b < a {
				a, b = b, a
			}
			return query.QVar(k + pre + "|" + string(a) + "|" + string(b))
		}
	}
	gs := genSet{
		reach: func(v query.QVar) query.QVar { return query.QVar("%r" + pre + "|" + string(v)) },
		count: func(v query.QVar) query.QVar { return query.QVar("%c" + pre + "|" + string(v)) },
		hd:    pair("%h"),
		ef:    pair("%e"),
		pr: func(p, a, b query.QVar) query.QVar {
			return query.QVar("%p" + pre + "|" + string(p) + "|" + string(a) + "|" + string(b))
		},
	}
	switch g.Nil {
	case "reach":
		gs.reach = nil
	case "count":
		gs.count = nil
	case "hd":
		gs.hd = nil
	case "ef":
		gs.ef = nil
	case "pr":
		gs.pr = nil
	}
	return gs
}

func (t Term) c() query.QConst {
	if t.Q != nil {
		return *t.Q
	}
	if t.ID != "" {
		q := query.QConst{ID: t.ID}
		if t.Val != nil {
			q.Val = t.Val.vals()
		}
		return q
	}
	return query.QConst{Val: t.Val.vals()}
}

func (t Term) q() query.QVar { return query.QVar(t.Var) }

// Extra lets a formula contain components of the harness.
type Extra func(f *F) logop.LogOpQ

// build makes the goexpdt query of the formula.
func (f *F) build(g *Gens, extra Extra) logop.LogOpQ {
	switch f.Op {
	case "not":
		return logop.Not{Q: f.K[0].build(g, extra)}
	case "and":
		return logop.And{Q1: f.K[0].build(g, extra), Q2: f.K[1].build(g, extra)}
	case "or":
		return logop.Or{Q1: f.K[0].build(g, extra), Q2: f.K[1].build(g, extra)}
	case "ex":
		return logop.WithVar{I: query.QVar(f.Name), Q: f.K[0].build(g, extra)}
	case "all":
		return logop.ForAllGuarded{I: ownConst(f.Name, f.Own), Q: f.K[0].build(g, extra)}
	}
	if extra != nil {
		if q := extra(f); q != nil {
			return q
		}
	}
	s := g.next()
	k := ""
	for _, t := range f.T {
		if t.Var != "" {
			k += "v"
		} else {
			k += "c"
		}
	}
	a := f.T[0]
	var b, c Term
	if len(f.T) > 1 {
		b = f.T[1]
	}
	if len(f.T) > 2 {
		c = f.T[2]
	}
	switch f.Op + " " + k {
	case "sub cc":
		return subsumption.ConstConst{I1: a.c(), I2: b.c()}
	case "sub cv":
		return subsumption.ConstVar{I1: a.c(), I2: b.q()}
	case "sub vc":
		return subsumption.VarConst{I1: a.q(), I2: b.c()}
	case "sub vv":
		return subsumption.VarVar{I1: a.q(), I2: b.q()}
	case "lel cc":
		return lel.ConstConst{I1: a.c(), I2: b.c()}
	case "lel cv":
		return lel.ConstVar{I1: a.c(), I2: b.q(), CountVarGen: s.count}
	case "lel vc":
		return lel.VarConst{I1: a.q(), I2: b.c(), CountVarGen: s.count}
	case "lel vv":
		return lel.VarVar{I1: a.q(), I2: b.q(), CountVarGen: s.count}
	case "node c":
		return isnode.Const{I: a.c()}
	case "node v":
		return isnode.Var{I: a.q(), ReachNodeVarGen: s.reach}
	case "allc c":
		return allcomp.Const{I: a.c(), LeafValue: f.Leaf}
	case "allc v":
		return allcomp.Var{I: a.q(), LeafValue: f.Leaf, ReachNodeVarGen: s.reach}
	case "dfs c":
		return dfs.Const{I: a.c()}
	case "dfs v":
		return dfs.Var{I: a.q()}
	case "full c":
		return full.Const{I: a.c()}
	case "full v":
		return full.Var{I: a.q()}
	case "cons cc":
		return cons.ConstConst{I1: a.c(), I2: b.c()}
	case "cons cv":
		return cons.ConstVar{I1: a.c(), I2: b.q()}
	case "cons vc":
		return cons.VarConst{I1: a.q(), I2: b.c()}
	case "cons vv":
		return cons.VarVar{I1: a.q(), I2: b.q()}
	case "hepr cc":
		return hepr.ConstConst{I1: a.c(), I2: b.c(), Preference: f.Pref}
	case "hepr cv":
		return hepr.ConstVar{I1: a.c(), I2: b.q(), Preference: f.Pref, FeaturePreferenceRankVarGen: s.pr}
	case "hepr vc":
		return hepr.VarConst{I1: a.q(), I2: b.c(), Preference: f.Pref, FeaturePreferenceRankVarGen: s.pr}
	case "hepr vv":
		return hepr.VarVar{I1: a.q(), I2: b.q(), Preference: f.Pref, FeaturePreferenceRankVarGen: s.pr}
	case "leh ccc":
		return leh.ConstConstConst{I1: a.c(), I2: b.c(), I3: c.c()}
	case "leh ccv":
		return leh.ConstConstVar{I1: a.c(), I2: b.c(), I3: c.q(), HammingDistanceVarGen: s.hd}
	case "leh cvc":
		return leh.ConstVarConst{I1: a.c(), I2: b.q(), I3: c.c(), HammingDistanceVarGen: s.hd}
	case "leh cvv":
		return leh.ConstVarVar{I1: a.c(), I2: b.q(), I3: c.q(), HammingDistanceVarGen: s.hd}
	case "leh vcc":
		return leh.VarConstConst{I1: a.q(), I2: b.c(), I3: c.c(), HammingDistanceVarGen: s.hd}
	case "leh vcv":
		return leh.VarConstVar{I1: a.q(), I2: b.c(), I3: c.q(), HammingDistanceVarGen: s.hd, EqualFeatureVarGen: s.ef}
	case "leh vvc":
		return leh.VarVarConst{I1: a.q(), I2: b.q(), I3: c.c(), HammingDistanceVarGen: s.hd, EqualFeatureVarGen: s.ef}
	case "leh vvv":
		return leh.VarVarVar{I1: a.q(), I2: b.q(), I3: c.q(), HammingDistanceVarGen: s.hd, EqualFeatureVarGen: s.ef}
	}
	panic("harness: no component " + f.Op + " " + k)
}

// free variables, in order of occurrence.
func (f *F) free() []string {
	var out []string
	seen := map[string]bool{}
	var rec func(f *F, bound map[string]int)
	rec = func(f *F, bound map[string]int) {
		for _, t := range f.T {
			if t.Var != "" && bound[t.Var] == 0 && !seen[t.Var] {
				seen[t.Var] = true
				out = append(out, t.Var)
			}
		}
		if f.Op == "ex" {
			bound[f.Name]++
		}
		for _, k := range f.K {
			rec(k, bound)
		}
		if f.Op == "ex" {
			bound[f.Name]--
		}
	}
	rec(f, map[string]int{})
	return out
}

func (f *F) count() int {
	n := 1
	for _, k := range f.K {
		n += k.count()
	}
	return n
}

// consts lists the constants used.
func (f *F) consts() []Inst {
	var out []Inst
	for _, t := range f.T {
		if t.Var == "" && t.ID == "" {
			out = append(out, t.Val)
		}
	}
	for _, k := range f.K {
		out = append(out, k.consts()...)
	}
	return out
}

// randPref draws a preference list without duplicates.
func randPref(r *rand.Rand, dim int) []int {
	p := r.Perm(dim)
	switch r.Intn(8) {
	case 0:
		return []int{}
	case 1, 2, 3:
		return p
	}
	return p[:1+r.Intn(dim)]
}

// randTerm draws from the variables, guards and constants available.
type scopeInfo struct {
	vars   []string
	guards []string
	// consts is a pool that makes equal constants likely.
	consts []Inst
	dim    int
	pVar   float64
}

func (s *scopeInfo) term(r *rand.Rand) Term {
	if len(s.vars) > 0 && r.Float64() < s.pVar {
		return vt(s.vars[r.Intn(len(s.vars))])
	}
	if len(s.guards) > 0 && r.Intn(3) > 0 {
		g := gt(s.guards[r.Intn(len(s.guards))])
		if r.Intn(4) == 0 {
			// a value of the caller's own, which the quantifier replaces
			g.Val = someInst(r, s.dim)
		}
		return g
	}
	if len(s.consts) > 0 && r.Intn(2) == 0 {
		return ct(s.consts[r.Intn(len(s.consts))].clone())
	}
	return ct(someInst(r, s.dim))
}

func (s *scopeInfo) atom(r *rand.Rand, ops []string) *F {
	op := ops[r.Intn(len(ops))]
	f := &F{Op: op}
	for i := 0; i < arity[op]; i++ {
		t := s.term(r)
		if op == "leh" && t.Var == "" && t.ID == "" && r.Intn(6) > 0 {
			// mostly full constants, otherwise the formula is plainly false
			v := t.Val.clone()
			for j := range v {
				if v[j] < 0 {
					v[j] = int8(r.Intn(2))
				}
			}
			t = ct(v)
		}
		f.T = append(f.T, t)
	}
	if op == "leh" && r.Intn(8) == 0 {
		f.T[1] = f.T[0]
	}
	f.Leaf = r.Intn(2) == 0
	if op == "hepr" {
		f.Pref = randPref(r, s.dim)
	}
	return f
}

// qf draws a quantifier-free formula with n atoms.
func (s *scopeInfo) qf(r *rand.Rand, n int, ops []string) *F {
	if r.Intn(4) == 0 {
		return not(s.qf(r, n, ops))
	}
	if n <= 1 {
		return s.atom(r, ops)
	}
	l := 1 + r.Intn(n-1)
	a, b := s.qf(r, l, ops), s.qf(r, n-l, ops)
	if r.Intn(8) == 0 {
		b = a
	}
	if r.Intn(2) == 0 {
		return and(a, b)
	}
	return or(a, b)
}

// closed draws a closed formula in the supported fragment: existential
// variables occur positively; a negated guarded quantifier has a
// quantifier-free body.
type closedCfg struct {
	maxEx, maxAll int
	ops           []string
}

func (s *scopeInfo) quant(r *rand.Rand, n int, cfg closedCfg, depthEx, depthAll int) *F {
	sub := *s
	sub.vars = append([]string{}, s.vars...)
	sub.guards = append([]string{}, s.guards...)
	c := r.Intn(10)
	switch {
	case c < 3 && depthEx < cfg.maxEx:
		v := exNames[r.Intn(2)][depthEx] + strings.Repeat("'", len(s.guards))
		for has(sub.vars, v) {
			v += "_"
		}
		sub.vars = append(sub.vars, v)
		return ex(v, sub.quant(r, n, cfg, depthEx+1, depthAll))
	case c < 6 && depthAll < cfg.maxAll:
		id := allNames[r.Intn(3)][depthAll]
		for has(sub.guards, id) {
			id += "_"
		}
		if len(sub.guards) > 0 && r.Intn(6) == 0 {
			// a name that is bound further out
			id = sub.guards[r.Intn(len(sub.guards))]
		} else {
			sub.guards = append(sub.guards, id)
		}
		if r.Intn(4) == 0 {
			return not(forallOwn(r, s.dim, id, sub.qf(r, n, cfg.ops)))
		}
		return forallOwn(r, s.dim, id, sub.quant(r, n, cfg, depthEx, depthAll+1))
	case c < 9 && n > 1:
		l := 1 + r.Intn(n-1)
		a := s.quant(r, l, cfg, depthEx, depthAll)
		b := s.quant(r, n-l, cfg, depthEx+usedEx(a), depthAll+usedAll(a))
		if r.Intn(2) == 0 {
			return and(a, b)
		}
		return or(a, b)
	}
	return s.qf(r, n, cfg.ops)
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func usedEx(f *F) int {
	n := 0
	if f.Op == "ex" {
		n = 1
	}
	for _, k := range f.K {
		n += usedEx(k)
	}
	return n
}

func usedAll(f *F) int {
	n := 0
	if f.Op == "all" {
		n = 1
	}
	for _, k := range f.K {
		n += usedAll(k)
	}
	return n
}

// the names quantifiers bind, by depth
var exNames = [][]string{
	{"x", "y", "z", "x1", "xx", "X"},
	{"x", "X", "x ", " x", "\xff", "\xfe"},
}
var allNames = [][]string{
	{"c", "c1", "d", "c11"},
	{"c", "C", "c ", " c"},
	{"\xff", "\xfe", "\uFFFD", "ñ"},
}
