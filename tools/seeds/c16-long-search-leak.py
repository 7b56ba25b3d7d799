ID = 'c16-long-search-leak'
PROPERTY = 'C16'
NEEDS = 'an optimum computation of sixteen solver calls or more'
BREAKS = 'temporary files of the computation stay behind'
EDITS = [
    ('compute/optimum.go',
     r"""		steps += 1

""",
     r"""		steps += 1

		// A new scratch file from time to time.
		if steps%16 == 0 {
			if tmpfp, err = os.CreateTemp("", "tmp.cnf"); err != nil {
				return OptOutput{}, err
			}
		}

"""),
]
DEMO = r"""
package main

import (
	"errors"
	"os"

	"github.com/jtcaraball/goexpdt/compute"
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/logop"
	"github.com/jtcaraball/goexpdt/query/predicates/subsumption"
)

// chain answers with one instance after the other, each better than the last.
type chain struct {
	n, steps int
	failAt   int
	list     []query.QConst
}

func (s *chain) Step(q compute.Encodable, ctx query.QContext) error {
	s.steps++
	if s.steps == s.failAt {
		return errFail
	}
	if _, err := q.Encoding(ctx); err != nil {
		return err
	}
	if s.steps > len(s.list) {
		return compute.UnsatError
	}
	return nil
}

func (s *chain) Values([]query.QVar, query.QContext) ([]query.QConst, error) {
	return []query.QConst{s.list[s.steps-1]}, nil
}

var errFail = errors.New("the solver failed")

// shrinking gives an instance of 30 features and those it has by dropping
// one feature after the other.
func shrinking() []query.QConst {
	var out []query.QConst
	for k := 0; k < 30; k++ {
		c := query.QConst{Val: make([]query.FeatV, 30)}
		for i := range c.Val {
			c.Val[i] = O
			if i < k {
				c.Val[i] = B
			}
		}
		out = append(out, c)
	}
	return out
}

func formula(v query.QVar) compute.Encodable {
	return subsumption.VarConst{I1: v, I2: shrinking()[0]}
}

func order(v query.QVar, c query.QConst) compute.Encodable {
	return logop.And{
		Q1: subsumption.VarConst{I1: v, I2: c},
		Q2: logop.Not{Q: subsumption.ConstVar{I1: c, I2: v}},
	}
}

func demo() {
	d, clean := scratch()
	defer clean()
	os.Setenv("TMPDIR", d)
	ctx := query.BasicQContext(tree{30, []query.Node{leaf(true)}})
	out, err := compute.ComputeOptim(formula, order, "x", ctx, &chain{list: shrinking()})
	must(err)
	if !out.Found {
		fail("nothing found")
	}
	es, err := os.ReadDir(d)
	must(err)
	if len(es) > 0 {
		fail("%d files are left, %s", len(es), es[0].Name())
	}
}
"""
