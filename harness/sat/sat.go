// Package sat is a small CDCL solver with assumptions. It is the trusted
// decision oracle of the monitors: every "satisfiable" answer is re-checked
// against the clauses before it is used, and "unsatisfiable" answers that
// would lead to an alarm are confirmed by an independent procedure.
package sat

import "math/rand"

// Solver over variables 1..n; literals are +-v.
type Solver struct {
	n       int
	orig    [][]int // original clauses
	clauses [][]int // all clauses of length >= 2, internal literals
	watches [][]int32
	assign  []int8 // by variable: 0 unset, 1 true, -1 false
	level   []int32
	reason  []int32
	phase   []int8
	act     []float64
	inc     float64
	trail   []int
	lim     []int
	qhead   int
	heap    []int
	hpos    []int
	seen    []bool
	unsat   bool
	model   []int8
	rng     *rand.Rand
	// RandPol makes decisions pick random polarities and, sometimes, random
	// variables so that different calls report different models.
	RandPol bool
	// Conflicts seen so far.
	Conflicts int64
	Solves    int64
}

// New returns a solver for the variables 1..n.
func New(n int, rng *rand.Rand) *Solver {
	s := &Solver{inc: 1, rng: rng}
	s.Grow(n)
	return s
}

// Grow makes sure variables up to n exist.
func (s *Solver) Grow(n int) {
	if len(s.assign) == 0 {
		s.assign = append(s.assign, 0)
		s.level = append(s.level, 0)
		s.reason = append(s.reason, -1)
		s.phase = append(s.phase, -1)
		s.act = append(s.act, 0)
		s.hpos = append(s.hpos, -1)
		s.seen = append(s.seen, false)
		s.watches = append(s.watches, nil, nil)
	}
	for s.n < n {
		s.n++
		s.assign = append(s.assign, 0)
		s.level = append(s.level, 0)
		s.reason = append(s.reason, -1)
		s.phase = append(s.phase, -1)
		s.act = append(s.act, 0)
		s.hpos = append(s.hpos, -1)
		s.seen = append(s.seen, false)
		s.watches = append(s.watches, nil, nil)
		s.heapInsert(s.n)
	}
}

func lidx(l int) int {
	if l > 0 {
		return 2 * l
	}
	return -2*l + 1
}

func abs(l int) int {
	if l < 0 {
		return -l
	}
	return l
}

func (s *Solver) val(l int) int8 {
	if l > 0 {
		return s.assign[l]
	}
	return -s.assign[-l]
}

// Add adds a clause. It may be called between solves.
func (s *Solver) Add(cl []int) {
	s.cancel(0)
	keep := make([]int, len(cl))
	copy(keep, cl)
	s.orig = append(s.orig, keep)
	if s.unsat {
		return
	}
	m := map[int]bool{}
	out := []int{}
	for _, l := range cl {
		if abs(l) > s.n {
			s.Grow(abs(l))
		}
		if m[-l] || s.val(l) == 1 {
			return
		}
		if m[l] || s.val(l) == -1 {
			continue
		}
		m[l] = true
		out = append(out, l)
	}
	switch len(out) {
	case 0:
		s.unsat = true
	case 1:
		s.enqueue(out[0], -1)
		if s.propagate() >= 0 {
			s.unsat = true
		}
	default:
		s.attach(out)
	}
}

func (s *Solver) attach(c []int) int {
	id := len(s.clauses)
	s.clauses = append(s.clauses, c)
	s.watches[lidx(-c[0])] = append(s.watches[lidx(-c[0])], int32(id))
	s.watches[lidx(-c[1])] = append(s.watches[lidx(-c[1])], int32(id))
	return id
}

func (s *Solver) enqueue(l int, why int) {
	v := abs(l)
	if l > 0 {
		s.assign[v] = 1
	} else {
		s.assign[v] = -1
	}
	s.level[v] = int32(len(s.lim))
	s.reason[v] = int32(why)
	s.trail = append(s.trail, l)
}

func (s *Solver) propagate() int {
	for s.qhead < len(s.trail) {
		l := s.trail[s.qhead]
		s.qhead++
		ws := s.watches[lidx(l)]
		j := 0
		for i := 0; i < len(ws); i++ {
			id := ws[i]
			c := s.clauses[id]
			if c[0] == -l {
				c[0], c[1] = c[1], c[0]
			}
			if s.val(c[0]) == 1 {
				ws[j] = id
				j++
				continue
			}
			found := false
			for k := 2; k < len(c); k++ {
				if s.val(c[k]) != -1 {
					c[1], c[k] = c[k], c[1]
					s.watches[lidx(-c[1])] = append(s.watches[lidx(-c[1])], id)
					found = true
					break
				}
			}
			if found {
				continue
			}
			ws[j] = id
			j++
			if s.val(c[0]) == -1 {
				for i++; i < len(ws); i++ {
					ws[j] = ws[i]
					j++
				}
				s.watches[lidx(l)] = ws[:j]
				s.qhead = len(s.trail)
				return int(id)
			}
			s.enqueue(c[0], int(id))
		}
		s.watches[lidx(l)] = ws[:j]
	}
	return -1
}

func (s *Solver) cancel(lv int) {
	if len(s.lim) <= lv {
		return
	}
	for i := len(s.trail) - 1; i >= s.lim[lv]; i-- {
		v := abs(s.trail[i])
		s.phase[v] = s.assign[v]
		s.assign[v] = 0
		if s.hpos[v] < 0 {
			s.heapInsert(v)
		}
	}
	s.trail = s.trail[:s.lim[lv]]
	s.lim = s.lim[:lv]
	s.qhead = len(s.trail)
}

func (s *Solver) analyze(confl int) ([]int, int) {
	learnt := []int{0}
	cnt := 0
	p := 0
	idx := len(s.trail) - 1
	touched := []int{}
	for {
		c := s.clauses[confl]
		for _, q := range c {
			if q == p {
				continue
			}
			v := abs(q)
			if s.seen[v] || s.level[v] == 0 {
				continue
			}
			s.seen[v] = true
			touched = append(touched, v)
			s.bump(v)
			if int(s.level[v]) == len(s.lim) {
				cnt++
			} else {
				learnt = append(learnt, q)
			}
		}
		for !s.seen[abs(s.trail[idx])] {
			idx--
		}
		p = s.trail[idx]
		idx--
		cnt--
		if cnt == 0 {
			break
		}
		confl = int(s.reason[abs(p)])
	}
	learnt[0] = -p
	for _, v := range touched {
		s.seen[v] = false
	}
	bt := 0
	if len(learnt) > 1 {
		mi := 1
		for i := 2; i < len(learnt); i++ {
			if s.level[abs(learnt[i])] > s.level[abs(learnt[mi])] {
				mi = i
			}
		}
		learnt[1], learnt[mi] = learnt[mi], learnt[1]
		bt = int(s.level[abs(learnt[1])])
	}
	s.inc /= 0.95
	return learnt, bt
}

func (s *Solver) bump(v int) {
	s.act[v] += s.inc
	if s.act[v] > 1e100 {
		for i := range s.act {
			s.act[i] *= 1e-100
		}
		s.inc *= 1e-100
	}
	if s.hpos[v] >= 0 {
		s.up(s.hpos[v])
	}
}

func luby(x int64) int64 {
	size, seq := int64(1), 0
	for size < x+1 {
		seq++
		size = 2*size + 1
	}
	for size-1 != x {
		size = (size - 1) >> 1
		seq--
		x %= size
	}
	return int64(1) << uint(seq)
}

// Solve decides the clauses under the assumptions.
func (s *Solver) Solve(assumps ...int) bool {
	s.Solves++
	s.cancel(0)
	if s.unsat {
		return false
	}
	for _, a := range assumps {
		s.Grow(abs(a))
	}
	if s.propagate() >= 0 {
		s.unsat = true
		return false
	}
	var restarts, budget int64
	budget = 100 * luby(0)
	for {
		confl := s.propagate()
		if confl >= 0 {
			s.Conflicts++
			budget--
			if len(s.lim) == 0 {
				s.unsat = true
				return false
			}
			learnt, bt := s.analyze(confl)
			s.cancel(bt)
			if len(learnt) == 1 {
				s.enqueue(learnt[0], -1)
			} else {
				id := s.attach(learnt)
				s.enqueue(learnt[0], id)
			}
			continue
		}
		if budget <= 0 {
			restarts++
			budget = 100 * luby(restarts)
			s.cancel(0)
			continue
		}
		next := 0
		for len(s.lim) < len(assumps) {
			a := assumps[len(s.lim)]
			switch s.val(a) {
			case 1:
				s.lim = append(s.lim, len(s.trail))
				continue
			case -1:
				s.cancel(0)
				return false
			}
			next = a
			break
		}
		if next == 0 {
			v := 0
			if s.RandPol && s.rng.Intn(8) == 0 {
				c := 1 + s.rng.Intn(max1(s.n))
				if c <= s.n && s.assign[c] == 0 {
					v = c
				}
			}
			for v == 0 && len(s.heap) > 0 {
				c := s.pop()
				if s.assign[c] == 0 {
					v = c
				}
			}
			if v == 0 {
				s.model = append(s.model[:0], s.assign...)
				s.cancel(0)
				s.verify(assumps)
				return true
			}
			next = v
			if s.RandPol {
				if s.rng.Intn(2) == 0 {
					next = -v
				}
			} else if s.phase[v] < 0 {
				next = -v
			}
		}
		s.lim = append(s.lim, len(s.trail))
		s.enqueue(next, -1)
	}
}

func max1(n int) int {
	if n < 1 {
		return 1
	}
	return n
}

func (s *Solver) verify(assumps []int) {
	for _, c := range s.orig {
		ok := false
		for _, l := range c {
			if s.Model(l) {
				ok = true
				break
			}
		}
		if !ok {
			panic("harness: internal solver produced a wrong model")
		}
	}
	for _, a := range assumps {
		if !s.Model(a) {
			panic("harness: internal solver ignored an assumption")
		}
	}
}

// Model returns the truth value of l in the last model.
func (s *Solver) Model(l int) bool {
	if l > 0 {
		return l < len(s.model) && s.model[l] == 1
	}
	return !s.Model(-l)
}

// heap ordered by activity.
func (s *Solver) less(a, b int) bool { return s.act[a] > s.act[b] }

func (s *Solver) heapInsert(v int) {
	s.hpos[v] = len(s.heap)
	s.heap = append(s.heap, v)
	s.up(s.hpos[v])
}

func (s *Solver) up(i int) {
	v := s.heap[i]
	for i > 0 {
		p := (i - 1) / 2
		if !s.less(v, s.heap[p]) {
			break
		}
		s.heap[i] = s.heap[p]
		s.hpos[s.heap[i]] = i
		i = p
	}
	s.heap[i] = v
	s.hpos[v] = i
}

func (s *Solver) pop() int {
	v := s.heap[0]
	last := s.heap[len(s.heap)-1]
	s.heap = s.heap[:len(s.heap)-1]
	s.hpos[v] = -1
	if len(s.heap) > 0 {
		i := 0
		for {
			c := 2*i + 1
			if c >= len(s.heap) {
				break
			}
			if c+1 < len(s.heap) && s.less(s.heap[c+1], s.heap[c]) {
				c++
			}
			if !s.less(s.heap[c], last) {
				break
			}
			s.heap[i] = s.heap[c]
			s.hpos[s.heap[i]] = i
			i = c
		}
		s.heap[i] = last
		s.hpos[last] = i
	}
	return v
}

// Naive decides the clauses under assumptions by plain DPLL. It shares no
// code with Solver and is used to confirm unsatisfiable answers. The second
// result is false when the step bound was reached.
func Naive(n int, clauses [][]int, assumps []int, maxSteps int) (bool, bool) {
	a := make([]int8, n+1)
	set := func(l int) {
		if l > 0 {
			a[l] = 1
		} else {
			a[-l] = -1
		}
	}
	value := func(l int) int8 {
		if l > 0 {
			return a[l]
		}
		return -a[-l]
	}
	for _, l := range assumps {
		if value(l) == -1 {
			return false, true
		}
		set(l)
	}
	steps := 0
	var rec func() (bool, bool)
	rec = func() (bool, bool) {
		var undo []int
		back := func() {
			for _, v := range undo {
				a[v] = 0
			}
		}
		for {
			steps++
			if steps > maxSteps {
				back()
				return false, false
			}
			changed := false
			pick := 0
			for _, c := range clauses {
				free, nfree, sat := 0, 0, false
				for _, l := range c {
					switch value(l) {
					case 1:
						sat = true
					case 0:
						if free != l {
							nfree++
						}
						free = l
					}
					if sat {
						break
					}
				}
				if sat {
					continue
				}
				if nfree == 0 {
					back()
					return false, true
				}
				if nfree == 1 {
					set(free)
					undo = append(undo, abs(free))
					changed = true
					continue
				}
				if pick == 0 {
					pick = free
				}
			}
			if changed {
				continue
			}
			if pick == 0 {
				return true, true
			}
			for _, l := range []int{pick, -pick} {
				set(l)
				r, ok := rec()
				if !ok {
					a[abs(l)] = 0
					back()
					return false, false
				}
				if r {
					return true, true
				}
				a[abs(l)] = 0
			}
			back()
			return false, true
		}
	}
	return rec()
}
