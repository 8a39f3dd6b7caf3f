package h

// Scoping against a reference model.

import (
	"github.com/jtcaraball/goexpdt/query"
	"verifharness/sym"
)

// mscope is an open scope of the reference; id tells scopes apart.
type mscope struct {
	id     int
	target string
	idx    int
	val    vals
}

type mkey struct {
	v      query.QVar
	scopes []mscope
}

type mname struct {
	key  mkey
	name query.QVar
}

// scoping is the reference model with everything resolved so far.
type scoping struct {
	ctx    query.QContext
	open   []mscope
	level  map[query.QVar]int // variables introduced inside scopes
	nid    int
	seen   []mname
	qvars  []query.QVar
	ids    []string
	outers map[query.QVar]bool // introduced with no scope open
}

func newScoping(qvars []query.QVar, ids []string) *scoping {
	return &scoping{ctx: query.BasicQContext(flat(2)), level: map[query.QVar]int{}, qvars: qvars, ids: ids, outers: map[query.QVar]bool{}}
}

// same tells whether two keys agree in what they show (variable, targets and
// values), and whether they are made of the same scopes.
func (k mkey) same(o mkey) (shown, scopes bool) {
	if len(k.scopes) != len(o.scopes) {
		return false, false
	}
	eq := []bool{k.v == o.v}
	scopes = true
	for i := range k.scopes {
		eq = append(eq, k.scopes[i].target == o.scopes[i].target, k.scopes[i].idx == o.scopes[i].idx)
		if k.scopes[i].id != o.scopes[i].id {
			scopes = false
		}
	}
	return sym.And(eq...), scopes
}

// check resolves everything and compares.
func (s *scoping) check(label string) {
	for _, v := range s.qvars {
		name := s.ctx.ScopeVar(v)
		k := mkey{v, append([]mscope{}, s.open[:s.level[v]]...)}
		if len(k.scopes) == 0 {
			sym.Assert(name == v, label+": variable introduced outside has another name")
		}
		for _, e := range s.seen {
			shown, scopes := k.same(e.key)
			sym.Assert(sym.Implies(!shown, name != e.name), label+": two variables have the same name")
			if scopes {
				sym.Assert(sym.Implies(shown, name == e.name), label+": a variable has two names")
			}
		}
		s.seen = append(s.seen, mname{k, name})
	}
	for _, id := range s.ids {
		own := vals{query.ONE, query.BOT, query.ZERO}
		c, ok := s.ctx.ScopeConst(query.QConst{ID: id, Val: own})
		want, found := own, false
		for _, sc := range s.open {
			if sc.target == id {
				want, found = sc.val, true
			}
		}
		sym.Assert(ok == found, label+": constant reported scoped or not")
		sym.Assert(c.ID == id, label+": constant has another name")
		sym.Assert(len(c.Val) == len(want), label+": value of a constant")
		for i := range want {
			sym.Assert(c.Val[i] == want[i], label+": value of a constant")
		}
	}
}

func (s *scoping) addScope(t string) {
	s.ctx.AddScope(t)
	s.nid++
	s.open = append(s.open, mscope{id: s.nid, target: t})
}

func (s *scoping) setScope(idx int, val vals) {
	err := s.ctx.SetScope(idx, append(vals{}, val...))
	if len(s.open) == 0 {
		sym.Assert(err != nil, "setting a scope with none open is no error")
		return
	}
	noErr(err, "setting a scope")
	top := &s.open[len(s.open)-1]
	top.idx, top.val = idx, val
}

func (s *scoping) pop() {
	err := s.ctx.PopScope()
	if len(s.open) == 0 {
		sym.Assert(err != nil, "popping with no scope open is no error")
		return
	}
	noErr(err, "popping a scope")
	for v, l := range s.level {
		if l == len(s.open) {
			delete(s.level, v)
		}
	}
	s.open = s.open[:len(s.open)-1]
}

func (s *scoping) addVar(v query.QVar) {
	// Introducing a variable again, first outside of all scopes and then
	// inside of some, is left open.
	if s.outers[v] && len(s.open) > 0 {
		sym.Assume(false)
	}
	s.ctx.AddVar(v)
	if len(s.open) == 0 {
		s.outers[v] = true
		return
	}
	if _, ok := s.level[v]; !ok {
		s.level[v] = len(s.open)
	}
}

func (s *scoping) reset() {
	s.ctx.Reset()
	s.open, s.level, s.seen = nil, map[query.QVar]int{}, nil
	s.outers = map[query.QVar]bool{}
	sym.Cover("reset")
}

// C06_history: any history of operations.
func C06_history() {
	targets := []string{"c", "1"}
	qvars := []query.QVar{"x", "x1"}
	s := newScoping(qvars, []string{"c", "1", "d"})
	steps := sym.Bound("operations", 5, 6)
	for k := 0; k < steps; k++ {
		switch op := sym.Choose("op", 7); op {
		case 0, 1:
			s.addScope(targets[op])
		case 2:
			s.setScope(sym.Int("idx", 0, 11), inst("v"+itoa(k)+".", 1))
		case 3:
			s.pop()
		case 4, 5:
			s.addVar(qvars[op-4])
		case 6:
			s.reset()
		}
		s.check("history")
	}
	sym.Cover("history")
}

// C06_nest: scopes as guarded universals open them, with a variable
// introduced at every level, each scope taking two values.
func C06_nest() {
	depth := 1 + sym.Choose("depth", sym.Bound("depth", 3, 4))
	targets := []string{"c", "11", "c1"}
	qvars := []query.QVar{"x", "x1", "y", "1", "xc"}
	s := newScoping(qvars, targets)
	s.addVar(qvars[0])
	var walk func(d int)
	walk = func(d int) {
		if d == depth {
			s.check("nest")
			return
		}
		s.addScope(targets[sym.Choose("target"+itoa(d), len(targets))])
		for r := 0; r < 2; r++ {
			s.setScope([]int{1, 11}[r], inst("n"+itoa(d)+"."+itoa(r)+".", 1))
			s.addVar(qvars[d+1])
			s.check("nest")
			walk(d + 1)
		}
		s.pop()
		s.check("nest")
	}
	if depth > 2 {
		s.qvars = qvars[:depth+1]
	}
	walk(0)
	sym.Cover("nested")
}

// C06_long: long names that differ late, indices that lie far apart.
func C06_long() {
	long := "a_rather_long_name_that_goes_on_for_more_than_sixty_four_bytes_before_it_ends"
	targets := []string{long + "c", long + "1", long}
	qvars := []query.QVar{query.QVar(long), query.QVar(long + "1"), "x", "y"}
	offs := []int{0, 10, 100, 1 << 7, 1 << 8, 1 << 16, 1 << 32}
	s := newScoping(qvars, targets)
	s.addVar(qvars[0])
	s.addScope(targets[sym.Choose("target", 2)])
	s.setScope(3, inst("a", 1))
	s.addVar(qvars[1])
	s.check("long")
	s.setScope(3+offs[sym.Choose("offset", len(offs))], inst("b", 1))
	s.addVar(qvars[1])
	s.check("long")
	s.addScope(targets[sym.Choose("inner target", 3)])
	s.setScope(5, inst("c", 1))
	s.addVar(qvars[2])
	s.check("long")
	s.setScope(5+offs[sym.Choose("inner offset", len(offs))], inst("d", 1))
	s.check("long")
	s.pop()
	s.check("long")
	s.pop()
	// The other target, with the same index.
	s.addScope(targets[sym.Choose("second target", 2)])
	s.setScope(3, inst("e", 1))
	s.addVar(qvars[1])
	s.check("long")
	s.pop()
	s.check("long")
	sym.Cover("long names")
}
