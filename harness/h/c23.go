package h

// Verdicts of atoms and of their combinations.

import (
	"errors"

	"github.com/jtcaraball/goexpdt/cnf"
	"github.com/jtcaraball/goexpdt/compute"
	"github.com/jtcaraball/goexpdt/query"
	"verifharness/sym"
)

// probe is a query known to scripted by its number.
type probe struct{ id int }

func (p *probe) Encoding(ctx query.QContext) (cnf.CNF, error) {
	sym.Assert(false, "the query is encoded outside of the solver")
	return cnf.CNF{}, nil
}

// scripted answers the query numbered i as ans[i] tells: 0 satisfiable, 1
// unsatisfiable, 2 failure, 3 a failure that reads like unsatisfiability.
type scripted struct {
	ctx  query.QContext
	ans  []int
	seen []int
}

// answers lets the solver answer n queries in any way.
func (s *scripted) answers(n int) {
	s.seen = nil
	s.ans = nil
	for i := 0; i < n; i++ {
		s.ans = append(s.ans, sym.Int("answer", 0, 2))
	}
}

func (s *scripted) Step(q compute.Encodable, ctx query.QContext) error {
	p, ok := q.(*probe)
	sym.Assert(ok, "the solver was given another query")
	sym.Assert(ctx == s.ctx, "the solver was given another context")
	s.seen = append(s.seen, p.id)
	switch s.ans[p.id] {
	case 1:
		return compute.UnsatError
	case 2:
		return errSolver
	case 3:
		return errAlike
	}
	return nil
}

// errAlike is another error with the text of the unsatisfiability marker.
var errAlike error = alike{}

type alike struct{}

func (alike) Error() string { return compute.UnsatError.Error() }
func (alike) Unwrap() error { return errSolver }

func (s *scripted) Values(vars []query.QVar, ctx query.QContext) ([]query.QConst, error) {
	return nil, errSolver
}

// opaque is a member that answers in any way it likes.
type opaque struct {
	id  int
	s   *scripted
	ctx query.QContext
}

func (o *opaque) Sat(ctx query.QContext, solver compute.Solver) (bool, error) {
	sym.Assert(ctx == o.ctx, "a member was given another context")
	s, ok := solver.(*scripted)
	sym.Assert(ok && s == o.s, "a member was given another solver")
	s.seen = append(s.seen, o.id)
	r := s.ans[o.id]
	if r == 2 {
		return false, errSolver
	}
	return r == 0, nil
}

// combo is the combination as the harness understands it.
type combo struct {
	kind    int // 0 atom or opaque, 1 and, 2 or
	id      int
	negated bool
	members []*combo
}

// turn is when a query is to be evaluated.
type turn struct {
	id    int
	reach bool
}

// eval is the meaning of e: whether it is true and whether it fails, over the
// answers to every query, evaluated or not. reach tells when e is evaluated;
// that of its atoms is noted in at, in their order.
func (e *combo) eval(s *scripted, reach bool, at *[]turn) (yes, fails bool) {
	if e.kind == 0 {
		*at = append(*at, turn{e.id, reach})
		r := s.ans[e.id]
		return sym.Ite(e.negated, sym.B2I(r == 1), sym.B2I(r == 0)) == 1, r >= 2
	}
	going := true // neither failed nor determined so far
	yes = e.kind == 1
	for _, m := range e.members {
		y, f := m.eval(s, sym.And(reach, going), at)
		fails = sym.Or(fails, sym.And(going, f))
		if e.kind == 1 {
			yes = sym.And(yes, y)
			going = sym.And(going, y, sym.Not(f))
		} else {
			yes = sym.Or(yes, y)
			going = sym.And(going, sym.Not(y), sym.Not(f))
		}
	}
	return yes, fails
}

// checkVerdict states that sat and err are the verdict of e.
func checkVerdict(label string, e *combo, s *scripted, sat bool, err error) {
	at := []turn{}
	yes, fails := e.eval(s, true, &at)
	k := 0
	for _, t := range at {
		reach := t.reach
		done := k < len(s.seen) && s.seen[k] == t.id
		if done {
			k++
		}
		if done {
			sym.Assert(reach, label+": a member is evaluated although the verdict is determined")
		} else {
			sym.Assert(sym.Not(reach), label+": a member is not evaluated, or not in order")
		}
	}
	sym.Assert(k == len(s.seen), label+": members are not evaluated in order")
	if err != nil {
		sym.Cover("failure")
		sym.Assert(fails, label+": unexpected error")
		sym.Assert(errors.Is(err, errSolver), label+": the failure is lost")
		sym.Assert(!errors.Is(err, compute.UnsatError), label+": the failure reads as unsatisfiable")
		sym.Assert(!sat, label+": true in spite of a failure")
		return
	}
	sym.Assert(sym.Not(fails), label+": a failure is not reported")
	sym.Assert(sym.Iff(sat, yes), label+": the verdict is wrong")
	if sat {
		sym.Cover("true")
	} else {
		sym.Cover("false")
	}
}

// C23_atom: one atom.
func C23_atom() {
	s := &scripted{ctx: query.BasicQContext(flat(1))}
	e := &combo{negated: sym.Bool("negated")}
	a := compute.QDTFAtom{Query: &probe{}, Negated: e.negated}
	s.seen, s.ans = nil, []int{sym.Int("answer", 0, 3)}
	sat, err := a.Sat(s.ctx, s)
	checkVerdict("atom", e, s, sat, err)
	// Once more: an atom keeps no state.
	s.seen, s.ans = nil, []int{sym.Int("answer", 0, 3)}
	sat, err = a.Sat(s.ctx, s)
	checkVerdict("atom again", e, s, sat, err)
}

// C23_members: combinations of members that answer in any way.
func C23_members() {
	s := &scripted{ctx: query.BasicQContext(flat(1))}
	n := sym.Choose("members", 1+sym.Bound("members", 5, 8))
	e := &combo{kind: 1 + sym.Choose("or", 2)}
	ms := []compute.QDTFCombinator{}
	for i := 0; i < n; i++ {
		e.members = append(e.members, &combo{id: i})
		ms = append(ms, &opaque{i, s, s.ctx})
	}
	for k := 0; k < 2; k++ {
		var sat bool
		var err error
		s.answers(n)
		if e.kind == 1 {
			sat, err = compute.AndCombinator(ms).Sat(s.ctx, s)
		} else {
			sat, err = compute.OrCombinator(ms).Sat(s.ctx, s)
		}
		checkVerdict("members", e, s, sat, err)
		for i, m := range ms {
			o, ok := m.(*opaque)
			sym.Assert(ok && o.id == i, "the members were changed")
		}
		if n > 3 {
			break
		}
	}
}

// nested is any combination of at most the given depth and its description.
func nested(depth, width int, next *int) (compute.QDTFCombinator, *combo) {
	kind := 0
	if depth > 0 {
		kind = sym.Choose("kind", 3)
	}
	if kind == 0 {
		id := *next
		*next++
		e := &combo{id: id, negated: sym.Bool("negated")}
		return compute.QDTFAtom{Query: &probe{id}, Negated: e.negated}, e
	}
	e := &combo{kind: kind}
	ms := []compute.QDTFCombinator{}
	for n := sym.Choose("width", width+1); n > 0; n-- {
		m, me := nested(depth-1, width, next)
		ms = append(ms, m)
		e.members = append(e.members, me)
	}
	if kind == 1 {
		return compute.AndCombinator(ms), e
	}
	return compute.OrCombinator(ms), e
}

// C23_nested: nested combinations of atoms.
func C23_nested() {
	s := &scripted{ctx: query.BasicQContext(flat(1))}
	next := 0
	c, e := nested(2, sym.Bound("width", 2, 3), &next)
	s.answers(next)
	sat, err := c.Sat(s.ctx, s)
	checkVerdict("nested", e, s, sat, err)
}

// C23_deep: narrow but deep nesting.
func C23_deep() {
	s := &scripted{ctx: query.BasicQContext(flat(1))}
	next := 0
	depth := sym.Bound("depth", 4, 6)
	var c compute.QDTFCombinator
	var e *combo
	leaf := func() {
		e = &combo{id: next, negated: sym.Bool("negated")}
		c = compute.QDTFAtom{Query: &probe{next}, Negated: e.negated}
		next++
	}
	leaf()
	// Each level puts an atom before or after what there is so far.
	for i := 0; i < depth; i++ {
		ic, ie := c, e
		leaf()
		ms, es := []compute.QDTFCombinator{ic, c}, []*combo{ie, e}
		if sym.Choose("first", 2) == 1 {
			ms, es = []compute.QDTFCombinator{c, ic}, []*combo{e, ie}
		}
		e = &combo{kind: 1 + i%2, members: es}
		if i%2 == 0 {
			c = compute.AndCombinator(ms)
		} else {
			c = compute.OrCombinator(ms)
		}
	}
	s.answers(next)
	sat, err := c.Sat(s.ctx, s)
	checkVerdict("deep", e, s, sat, err)
}
