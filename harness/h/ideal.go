package h

// A solver that decides formulas exactly and answers with any satisfying
// assignment.

import (
	"context"
	"errors"
	"io"
	"os"
	"os/exec"

	"github.com/jtcaraball/goexpdt/compute"
	"github.com/jtcaraball/goexpdt/query"
	"verifharness/sym"
)

// failure is an error that a careless reader takes for something harmless.
type failure struct{ what string }

func (e *failure) Error() string {
	return e.what + ": timeout, interrupted, not satisfiable, EOF, no error"
}
func (e *failure) Timeout() bool   { return true }
func (e *failure) Temporary() bool { return true }
func (e *failure) Unwrap() []error {
	return []error{os.ErrDeadlineExceeded, io.EOF, context.Canceled, context.DeadlineExceeded,
		os.ErrNotExist, os.ErrPermission, os.ErrClosed, io.ErrUnexpectedEOF, exec.ErrNotFound}
}

var errSolver error = &failure{"solver"}

type ideal struct {
	assigned []bool
	steps    int
	fail     int // fail on this step (counting from 1)
	failVals int // fail on this call of Values
	vals     int
}

func (s *ideal) Step(q compute.Encodable, ctx query.QContext) error {
	s.steps++
	if s.steps == s.fail {
		return errSolver
	}
	f, err := q.Encoding(ctx)
	if err != nil {
		return err
	}
	sem, cons := rawBoth(f)
	sat, a := sym.Solve(sem, cons)
	if !sat {
		return compute.UnsatError
	}
	s.assigned = a
	return nil
}

func (s *ideal) Values(vars []query.QVar, ctx query.QContext) ([]query.QConst, error) {
	s.vals++
	if s.vals == s.failVals {
		return nil, errSolver
	}
	is := func(v query.QVar, i int, k query.FeatV) bool {
		n := ctx.CNFVar(v, i, int(k))
		return n < len(s.assigned) && s.assigned[n]
	}
	out := []query.QConst{}
	for _, v := range vars {
		c := query.QConst{Val: make(vals, ctx.Dim())}
		for i := range c.Val {
			switch {
			case is(v, i, query.BOT):
				c.Val[i] = query.BOT
			case is(v, i, query.ZERO):
				c.Val[i] = query.ZERO
			case is(v, i, query.ONE):
				c.Val[i] = query.ONE
			default:
				return nil, errors.New("no value")
			}
		}
		out = append(out, c)
	}
	return out, nil
}
