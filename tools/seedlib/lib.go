package main

import (
	"bufio"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/jtcaraball/goexpdt/cnf"
	"github.com/jtcaraball/goexpdt/compute"
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/logop"
	"github.com/jtcaraball/goexpdt/query/predicates/subsumption"
)

// Shared part of the demonstrations: a model, a small SAT solver, and the
// means to use this same program as a solver executable.

type tree struct {
	dim   int
	nodes []query.Node
}

func (t tree) Dim() int            { return t.dim }
func (t tree) Nodes() []query.Node { return t.nodes }

func leaf(v bool) query.Node {
	return query.Node{Value: v, ZChild: query.NoChild, OChild: query.NoChild}
}
func inner(f, z, o int) query.Node { return query.Node{Feat: f, ZChild: z, OChild: o} }

const (
	B = query.BOT
	Z = query.ZERO
	O = query.ONE
)

func con(v ...query.FeatV) query.QConst { return query.QConst{Val: v} }

func fail(format string, a ...any) {
	fmt.Printf("FAIL: "+format+"\n", a...)
	os.Exit(1)
}

func must(err error) {
	if err != nil {
		fail("unexpected error: %v", err)
	}
}

// solve returns a model of the clauses (indexed by variable), or nil. prefer
// is the value tried first for a variable.
func solve(clauses [][]int, prefer func(v int) bool) map[int]bool {
	val := map[int]bool{}
	top := 0
	for _, c := range clauses {
		for _, l := range c {
			if l > top {
				top = l
			}
			if -l > top {
				top = -l
			}
		}
	}
	var rec func() bool
	rec = func() bool {
		var trail []int
		undo := func() {
			for _, v := range trail {
				delete(val, v)
			}
		}
		for again := true; again; {
			again = false
			for _, c := range clauses {
				free, n, ok := 0, 0, false
				for _, l := range c {
					v := l
					if v < 0 {
						v = -v
					}
					b, set := val[v]
					if !set {
						free, n = l, n+1
					} else if b == (l > 0) {
						ok = true
						break
					}
				}
				if ok {
					continue
				}
				if n == 0 {
					undo()
					return false
				}
				if n == 1 {
					v := free
					if v < 0 {
						v = -v
					}
					val[v] = free > 0
					trail = append(trail, v)
					again = true
				}
			}
		}
		for v := 1; v <= top; v++ {
			if _, set := val[v]; set {
				continue
			}
			first := prefer(v)
			for _, b := range []bool{first, !first} {
				val[v] = b
				if rec() {
					return true
				}
				delete(val, v)
			}
			undo()
			return false
		}
		return true
	}
	if !rec() {
		return nil
	}
	return val
}

func clausesOf(f cnf.CNF) [][]int {
	s, c := f.Clauses()
	var out [][]int
	for _, l := range [][]cnf.Clause{s, c} {
		for _, cl := range l {
			out = append(out, append([]int{}, cl...))
		}
	}
	return out
}

// sat encodes q in ctx and returns whether it is satisfiable.
func sat(q logop.LogOpQ, ctx query.QContext) bool {
	f, err := q.Encoding(ctx)
	must(err)
	return solve(clausesOf(f), func(int) bool { return false }) != nil
}

// is holds when v has exactly the value c.
func is(v query.QVar, c query.QConst) logop.LogOpQ {
	return logop.And{
		Q1: subsumption.VarConst{I1: v, I2: c},
		Q2: subsumption.ConstVar{I1: c, I2: v},
	}
}

// at asks for q with the variables fixed to values.
func at(q logop.LogOpQ, fix ...any) logop.LogOpQ {
	for i := 0; i < len(fix); i += 2 {
		q = logop.And{Q1: is(fix[i].(query.QVar), fix[i+1].(query.QConst)), Q2: q}
	}
	for i := 0; i < len(fix); i += 2 {
		q = logop.WithVar{I: fix[i].(query.QVar), Q: q}
	}
	return q
}

// allConsts returns the 3^dim partial instances.
func allConsts(dim int) []query.QConst {
	out := []query.QConst{{Val: []query.FeatV{}}}
	for i := 0; i < dim; i++ {
		var next []query.QConst
		for _, c := range out {
			for _, f := range []query.FeatV{B, Z, O} {
				next = append(next, query.QConst{Val: append(append([]query.FeatV{}, c.Val...), f)})
			}
		}
		out = next
	}
	return out
}

// memSolver is an in-process solver that counts its calls.
type memSolver struct {
	model  map[int]bool
	steps  int
	prefer func(v int) bool
	hook   func(call int) error
}

func (s *memSolver) Step(q compute.Encodable, ctx query.QContext) error {
	s.steps++
	if s.hook != nil {
		if err := s.hook(s.steps); err != nil {
			return err
		}
	}
	f, err := q.Encoding(ctx)
	if err != nil {
		return err
	}
	p := s.prefer
	if p == nil {
		p = func(int) bool { return false }
	}
	m := solve(clausesOf(f), p)
	if m == nil {
		return compute.UnsatError
	}
	s.model = m
	return nil
}

func (s *memSolver) Values(vs []query.QVar, ctx query.QContext) ([]query.QConst, error) {
	var out []query.QConst
	for _, v := range vs {
		var c query.QConst
		for i := 0; i < ctx.Dim(); i++ {
			for _, f := range []query.FeatV{B, Z, O} {
				if s.model[ctx.CNFVar(v, i, int(f))] {
					c.Val = append(c.Val, f)
					break
				}
			}
		}
		out = append(out, c)
	}
	return out, nil
}

// solverExe writes a script in dir that runs this program as a solver.
func solverExe(dir string) string {
	self, err := os.Executable()
	must(err)
	p := filepath.Join(dir, "solver")
	must(os.WriteFile(p, []byte("#!/bin/sh\nDEMO_SOLVER=1 exec '"+self+"' \"$1\"\n"), 0o755))
	return p
}

func scratch() (string, func()) {
	d, err := os.MkdirTemp("", "demo")
	must(err)
	return d, func() { os.RemoveAll(d) }
}

func solverMain() {
	f, err := os.Open(os.Args[1])
	if err != nil {
		os.Exit(3)
	}
	var clauses [][]int
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		line := strings.Fields(sc.Text())
		if len(line) == 0 || line[0] == "p" || line[0] == "c" {
			continue
		}
		var c []int
		for _, w := range line {
			n, err := strconv.Atoi(w)
			if err != nil {
				os.Exit(4)
			}
			if n != 0 {
				c = append(c, n)
			}
		}
		clauses = append(clauses, c)
	}
	pref, _ := strconv.Atoi(os.Getenv("DEMO_PREF"))
	m := solve(clauses, func(v int) bool { return pref>>(v%8)&1 != 0 })
	if m == nil {
		fmt.Println("s UNSATISFIABLE")
		os.Exit(20)
	}
	fmt.Println("s SATISFIABLE")
	fmt.Print("v")
	for v, b := range m {
		if !b {
			v = -v
		}
		fmt.Print(" ", v)
	}
	fmt.Println(" 0")
	os.Exit(10)
}

func main() {
	if os.Getenv("DEMO_SOLVER") != "" {
		solverMain()
	}
	demo()
	fmt.Println("ok")
}
