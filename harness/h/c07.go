package h

// Declared variables and the propositional operators.

import (
	"github.com/jtcaraball/goexpdt/cnf"
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/logop"
	"verifharness/sym"
)

// stub is a sub-query given by its encoding.
type stub func(ctx query.QContext) (cnf.CNF, error)

func (s stub) Encoding(ctx query.QContext) (cnf.CNF, error) { return s(ctx) }

// sub is a sub-query with its truth value.
type sub struct {
	q     logop.LogOpQ
	truth func() bool
}

// cells are arbitrary values of the CNF variables of a query variable.
type cells [][]bool

func anyCells(name string, dim int) cells {
	c := make(cells, dim)
	for i := range c {
		c[i] = []bool{sym.Bool(name + itoa(i) + "b"), sym.Bool(name + itoa(i) + "0"), sym.Bool(name + itoa(i) + "1")}
	}
	return c
}

// proper: every feature has exactly one value.
func (c cells) proper() bool {
	out := []bool{}
	for _, f := range c {
		out = append(out, sym.B2I(f[0])+sym.B2I(f[1])+sym.B2I(f[2]) == 1)
	}
	return sym.And(out...)
}

func (c cells) defs(ctx query.QContext, v query.QVar) []sym.Def {
	var out []sym.Def
	for i, f := range c {
		for k := range f {
			out = append(out, sym.Def{Var: ctx.CNFVar(v, i, k), Val: f[k]})
		}
	}
	return out
}

// someSub picks a sub-query about a declared variable.
func someSub(name string, v query.QVar, c cells) sub {
	switch sym.Choose(name, 4) {
	case 0:
		return sub{stub(func(query.QContext) (cnf.CNF, error) { return cnf.TrueCNF, nil }), func() bool { return true }}
	case 1:
		return sub{stub(func(query.QContext) (cnf.CNF, error) { return cnf.FalseCNF, nil }), func() bool { return false }}
	case 2:
		// The last feature has some value.
		i, k, pos := len(c)-1, sym.Choose(name+" value", 3), sym.Choose(name+" sign", 2) == 1
		return sub{stub(func(ctx query.QContext) (cnf.CNF, error) {
			l := ctx.CNFVar(ctx.ScopeVar(v), i, k)
			if !pos {
				l = -l
			}
			return cnf.FromClauses([]cnf.Clause{{l}}), nil
		}), func() bool { return sym.Iff(c[i][k], pos) }}
	}
	// Some feature is one and some feature is zero.
	return sub{stub(func(ctx query.QContext) (cnf.CNF, error) {
		a, b := cnf.Clause{}, cnf.Clause{}
		for i := range c {
			a = append(a, ctx.CNFVar(ctx.ScopeVar(v), i, int(query.ONE)))
			b = append(b, ctx.CNFVar(ctx.ScopeVar(v), i, int(query.ZERO)))
		}
		return cnf.FromClauses([]cnf.Clause{a, b}), nil
	}), func() bool {
		a, b := []bool{}, []bool{}
		for i := range c {
			a, b = append(a, c[i][2]), append(b, c[i][1])
		}
		return sym.And(sym.Or(a...), sym.Or(b...))
	}}
}

// C07_declared: declarations in all positions.
func C07_declared() {
	dim := anyDim("dimension", 2, 3)
	ctx := query.BasicQContext(flat(dim))
	if sym.Choose("scoped", 2) == 1 {
		ctx.AddScope("c")
		ctx.SetScope(3, nil)
	}
	x, y := query.QVar("x"), query.QVar("y")
	cx, cy := anyCells("x", dim), anyCells("y", dim)
	a := someSub("a", x, cx)
	two := true // both variables are declared
	var q logop.LogOpQ
	var spec func() bool
	form := sym.Choose("form", 16)
	switch form {
	case 0:
		q, spec, two = logop.WithVar{I: x, Q: a.q}, a.truth, false
	case 1:
		q, two = logop.Not{Q: logop.WithVar{I: x, Q: a.q}}, false
		spec = func() bool { return !a.truth() }
	case 2:
		q, two = logop.Not{Q: logop.Not{Q: logop.WithVar{I: x, Q: a.q}}}, false
		spec = a.truth
	case 3:
		q, spec, two = logop.WithVar{I: x, Q: logop.WithVar{I: x, Q: a.q}}, a.truth, false
	case 4:
		b := someSub("b", x, cx)
		q, two = logop.And{Q1: logop.WithVar{I: x, Q: a.q}, Q2: logop.WithVar{I: x, Q: b.q}}, false
		spec = func() bool { return sym.And(a.truth(), b.truth()) }
	case 5:
		b := someSub("b", x, cx)
		q, two = logop.Or{Q1: logop.WithVar{I: x, Q: a.q}, Q2: logop.WithVar{I: x, Q: b.q}}, false
		spec = func() bool { return sym.Or(a.truth(), b.truth()) }
	case 6:
		b := someSub("b", y, cy)
		q = logop.WithVar{I: x, Q: logop.WithVar{I: y, Q: logop.And{Q1: a.q, Q2: b.q}}}
		spec = func() bool { return sym.And(a.truth(), b.truth()) }
	case 7:
		b := someSub("b", y, cy)
		q = logop.Or{Q1: logop.WithVar{I: x, Q: a.q}, Q2: logop.WithVar{I: y, Q: b.q}}
		spec = func() bool { return sym.Or(a.truth(), b.truth()) }
	case 8:
		b := someSub("b", y, cy)
		q = logop.And{Q1: logop.Not{Q: logop.WithVar{I: x, Q: a.q}}, Q2: logop.WithVar{I: y, Q: b.q}}
		spec = func() bool { return sym.And(!a.truth(), b.truth()) }
	case 9:
		b := someSub("b", y, cy)
		q = logop.WithVar{I: x, Q: logop.Not{Q: logop.Or{Q1: a.q, Q2: logop.WithVar{I: y, Q: b.q}}}}
		spec = func() bool { return sym.And(!a.truth(), !b.truth()) }
	case 10:
		b := someSub("b", y, cy)
		q = logop.WithVar{I: x, Q: logop.And{Q1: a.q, Q2: logop.WithVar{I: y, Q: logop.WithVar{I: x, Q: b.q}}}}
		spec = func() bool { return sym.And(a.truth(), b.truth()) }
	case 11:
		b := someSub("b", x, cx)
		q, two = logop.And{Q1: logop.WithVar{I: x, Q: logop.Not{Q: a.q}}, Q2: logop.Not{Q: logop.WithVar{I: x, Q: b.q}}}, false
		spec = func() bool { return sym.And(!a.truth(), !b.truth()) }
	}
	if form >= 12 {
		// A declaration next to what is true or false anyway.
		two = false
		truth := sym.Choose("truth", 2) == 1
		known := stub(func(query.QContext) (cnf.CNF, error) {
			if truth {
				return cnf.TrueCNF, nil
			}
			return cnf.FalseCNF, nil
		})
		d := logop.WithVar{I: x, Q: a.q}
		switch form {
		case 12:
			q, spec = logop.Or{Q1: known, Q2: d}, func() bool { return sym.Or(truth, a.truth()) }
		case 13:
			q, spec = logop.Or{Q1: d, Q2: known}, func() bool { return sym.Or(truth, a.truth()) }
		case 14:
			q, spec = logop.Not{Q: logop.And{Q1: known, Q2: d}}, func() bool { return !sym.And(truth, a.truth()) }
		case 15:
			q, spec = logop.Not{Q: logop.And{Q1: d, Q2: known}}, func() bool { return !sym.And(truth, a.truth()) }
		}
	}
	f, err := q.Encoding(ctx)
	noErr(err, "declared")
	checkCovered("declared", f)
	ctx.UpdateTopV(f.TopV())
	// A declared variable resolves to one name throughout.
	defs := cx.defs(ctx, ctx.ScopeVar(x))
	ok := cx.proper()
	if two {
		defs = append(defs, cy.defs(ctx, ctx.ScopeVar(y))...)
		ok = sym.And(ok, cy.proper())
	}
	s, c := rawBoth(f)
	sym.Cover("declared")
	sym.EquivSat("declared", s, c, defs, sym.And(ok, spec()))
	observeCNF("declared", f)
}

// C07_wide: one declaration over more features.
func C07_wide() {
	dim := 3 + sym.Choose("further features", sym.Bound("further features", 4, 8)+4)
	if k := dim - 3 - sym.Bound("further features", 4, 8); k >= 0 {
		dim = []int{13, 33, 65, 130}[k]
	}
	ctx := query.BasicQContext(flat(dim))
	x := query.QVar("x")
	cx := anyCells("x", dim)
	a := someSub("a", x, cx)
	q, spec := logop.LogOpQ(logop.WithVar{I: x, Q: a.q}), a.truth
	if sym.Choose("negated", 2) == 1 {
		q, spec = logop.Not{Q: q}, func() bool { return !a.truth() }
	}
	f, err := q.Encoding(ctx)
	noErr(err, "wide")
	checkCovered("wide", f)
	ctx.UpdateTopV(f.TopV())
	s, c := rawBoth(f)
	sym.Cover("wide")
	sym.EquivSat("wide", s, c, cx.defs(ctx, ctx.ScopeVar(x)), sym.And(cx.proper(), spec()))
}

var errSub error = &failure{"sub-query"}

// leafs hands out the sub-queries of an expression; p are the values of the
// propositions they speak about.
type leafs struct {
	n    int
	p    []bool
	fail bool
}

func prop(ctx query.QContext, i int) int { return ctx.CNFVar("p", i, 0) }

func (ls *leafs) leaf(kinds int) sub {
	id := ls.n
	ls.n++
	i, j := id%len(ls.p), (id+1)%len(ls.p)
	switch sym.Choose("leaf"+itoa(id), kinds) {
	case 0: // a proposition
		return sub{stub(func(ctx query.QContext) (cnf.CNF, error) {
			return cnf.FromClauses([]cnf.Clause{{prop(ctx, i)}}), nil
		}), func() bool { return ls.p[i] }}
	case 1: // a clause and a literal
		return sub{stub(func(ctx query.QContext) (cnf.CNF, error) {
			return cnf.FromClauses([]cnf.Clause{{prop(ctx, i), prop(ctx, j)}, {-prop(ctx, j), prop(ctx, i)}}), nil
		}), func() bool { return ls.p[i] }}
	case 2: // an auxiliary variable defined by consistency clauses
		return sub{stub(func(ctx query.QContext) (cnf.CNF, error) {
			a := ctx.CNFVar("aux", id, 0)
			x, y := prop(ctx, i), prop(ctx, j)
			f := cnf.FromClauses([]cnf.Clause{{a}})
			return f.AppendConsistency(cnf.Clause{-a, x}, cnf.Clause{-a, -y}, cnf.Clause{a, -x, y}), nil
		}), func() bool { return sym.And(ls.p[i], !ls.p[j]) }}
	case 3: // true
		return sub{stub(func(query.QContext) (cnf.CNF, error) { return cnf.TrueCNF, nil }), func() bool { return true }}
	case 4: // false
		return sub{stub(func(query.QContext) (cnf.CNF, error) { return cnf.FalseCNF, nil }), func() bool { return false }}
	case 5: // fails
		ls.fail = true
		return sub{stub(func(query.QContext) (cnf.CNF, error) { return cnf.CNF{}, errSub }), func() bool { return false }}
	case 6: // false next to other clauses, with consistency clauses
		return sub{stub(func(ctx query.QContext) (cnf.CNF, error) {
			a := ctx.CNFVar("aux", id, 1)
			f := cnf.FromClauses([]cnf.Clause{{prop(ctx, i)}, {}})
			return f.AppendConsistency(cnf.Clause{-a, prop(ctx, j)}, cnf.Clause{a, -prop(ctx, j)}), nil
		}), func() bool { return false }}
	}
	// no semantic clause, only consistency clauses
	return sub{stub(func(ctx query.QContext) (cnf.CNF, error) {
		a := ctx.CNFVar("aux", id, 2)
		return cnf.CNF{}.AppendConsistency(cnf.Clause{-a, prop(ctx, j)}, cnf.Clause{a, -prop(ctx, j)}), nil
	}), func() bool { return true }}
}

const allKinds = 8

// expr picks an expression of exactly ops operators.
func (ls *leafs) expr(ops int, kinds int) sub {
	if ops == 0 {
		return ls.leaf(kinds)
	}
	switch op := sym.Choose("op", 1+2*ops); {
	case op == 0:
		a := ls.expr(ops-1, kinds)
		return sub{logop.Not{Q: a.q}, func() bool { return !a.truth() }}
	default:
		l := (op - 1) / 2
		a := ls.expr(l, kinds)
		b := ls.expr(ops-1-l, kinds)
		if op%2 == 1 {
			return sub{logop.And{Q1: a.q, Q2: b.q}, func() bool { return sym.And(a.truth(), b.truth()) }}
		}
		return sub{logop.Or{Q1: a.q, Q2: b.q}, func() bool { return sym.Or(a.truth(), b.truth()) }}
	}
}

func checkExpr(label string, ops, kinds int) {
	ctx := query.BasicQContext(flat(1))
	ls := &leafs{p: bools("p", 3)}
	late := sym.Choose("propositions exist", 2) == 0
	if !late {
		for i := range ls.p {
			prop(ctx, i)
		}
	}
	e := ls.expr(ops, kinds)
	f, err := e.q.Encoding(ctx)
	if ls.fail {
		sym.Cover("failing sub-query")
		sym.Assert(err != nil, label+": error of a sub-query not reported")
		return
	}
	noErr(err, label)
	checkCovered(label, f)
	ctx.UpdateTopV(f.TopV())
	defs := []sym.Def{}
	for i := range ls.p {
		defs = append(defs, sym.Def{Var: prop(ctx, i), Val: ls.p[i]})
	}
	s, c := rawBoth(f)
	sym.Cover("expression")
	sym.Equiv(label, s, c, defs, e.truth())
	observeCNF(label, f)
}

// C08_small: expressions over all kinds of sub-queries.
func C08_small() {
	checkExpr("expression", 1+sym.Choose("operators", sym.Bound("operators", 2, 2)), allKinds)
}

// C08_large: larger expressions over fewer kinds.
func C08_large() {
	ops := sym.Bound("operators of large expressions", 3, 4)
	checkExpr("expression", ops, sym.Bound("kinds of sub-queries", 3, 3))
}

// C08_nots: towers of negations over all kinds.
func C08_nots() {
	n := 1 + sym.Choose("negations", sym.Bound("negations", 5, 8))
	ctx := query.BasicQContext(flat(1))
	ls := &leafs{p: bools("p", 3)}
	e := ls.expr(1, 5)
	q := e.q
	for i := 0; i < n; i++ {
		q = logop.Not{Q: q}
	}
	f, err := q.Encoding(ctx)
	noErr(err, "negations")
	ctx.UpdateTopV(f.TopV())
	defs := []sym.Def{}
	for i := range ls.p {
		defs = append(defs, sym.Def{Var: prop(ctx, i), Val: ls.p[i]})
	}
	s, c := rawBoth(f)
	sym.Cover("expression")
	sym.Equiv("negations", s, c, defs, sym.Iff(e.truth(), n%2 == 0))
}
