package h

// Every size up to one beyond any block or buffer, and structures in which
// nothing can be left out unnoticed.

import (
	"errors"

	"github.com/jtcaraball/goexpdt/cnf"
	"github.com/jtcaraball/goexpdt/compute"
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/logop"
	"github.com/jtcaraball/goexpdt/query/predicates/subsumption"
	"verifharness/sym"
)

// subsets is all the k-element subsets of xs.
func subsets(xs []int, k int) [][]int {
	if k == 0 {
		return [][]int{{}}
	}
	out := [][]int{}
	for i := range xs {
		for _, r := range subsets(xs[i+1:], k-1) {
			out = append(out, append([]int{xs[i]}, r...))
		}
	}
	return out
}

// C01_subsets: all clauses of k out of n literals. For each there is an
// assignment that breaks it and no other.
func C01_subsets() {
	sizes := [][2]int{{4, 2}, {5, 3}, {7, 3}, {6, 2}, {8, 4}, {9, 3}, {9, 4}}
	z := sizes[sym.Choose("size", sym.Bound("sizes of subsets", 4, len(sizes)))]
	n, k := z[0], z[1]
	// What the variables are called.
	vars := make([]int, n)
	names := sym.Choose("variables", 4)
	for i := range vars {
		switch names {
		case 0:
			vars[i] = i + 1
		case 1:
			vars[i] = 1 << i
		case 2: // numbers made of the same digits
			vars[i] = []int{1, 2, 12, 21, 11, 22, 112, 121, 211}[i]
		case 3:
			vars[i] = 1 + i*i
		}
	}
	lits := make([]int, n)
	signs := sym.Choose("signs", 3)
	for i := range lits {
		lits[i] = vars[i]
		if signs == 1 && i%2 == 0 || signs == 2 {
			lits[i] = -lits[i]
		}
	}
	s := subsets(lits, k)
	if sym.Choose("backwards", 2) == 1 {
		for i, j := 0, len(s)-1; i < j; i, j = i+1, j-1 {
			s[i], s[j] = s[j], s[i]
		}
	}
	more := sym.Choose("shorter clause", 2) == 1
	vals := bools("x", n)
	broken := []bool{}
	sign := func(l int) bool { return l > 0 }
	truth := func(l int) bool {
		for i, v := range vars {
			if absInt(l) == v {
				return vals[i] == sign(l)
			}
		}
		return false
	}
	if more { // and a clause of one literal that is part of many
		s = append(s, []int{lits[n-1], lits[0]}[:1+sym.Choose("of two", 2)])
	}
	for _, c := range s {
		any := []bool{}
		for _, l := range c {
			any = append(any, truth(l))
		}
		broken = append(broken, !sym.Or(any...))
	}
	f := cnf.FromClauses(clonef(s))
	known := f.TopV()
	g := f.Negate()
	if sym.Choose("top", 2) == 1 {
		known = 500
		g = f.Negate(known)
	}
	defs := []sym.Def{}
	for i, v := range vars {
		defs = append(defs, sym.Def{Var: v, Val: vals[i]})
	}
	sym.Cover("negated")
	checkNegation("subsets", f, g, known, defs, sym.Or(broken...))
	inUse := map[int]bool{}
	for _, v := range vars {
		inUse[v] = true
	}
	gs, gc := rawBoth(g)
	for _, c := range join(gs, gc) {
		for _, l := range c {
			sym.Assert(inUse[absInt(l)] || absInt(l) > known, "subsets: auxiliary variable not fresh")
		}
	}
	known = g.TopV()
	h := g.Negate()
	checkNegation("subsets negated twice", g, h, known, defs, !sym.Or(broken...))
}

func absInt(l int) int {
	if l < 0 {
		return -l
	}
	return l
}

// C02_sizes: any number of clauses added at once, to few and to many.
func C02_sizes() {
	most := sym.Bound("clauses added at once", 140, 300)
	anyA, anyB := wideLit("a"), wideLit("b")
	anyAt := []int{1, 33, most / 2, most}[sym.Choose("any literals at", 4)]
	way := sym.Choose("way", 6)
	base := cnf.FromClauses([]cnf.Clause{{7}}).AppendConsistency(cnf.Clause{8})
	var grown cnf.CNF
	for n := 0; n <= most; n++ {
		a, b := 2*most+n%5, -(2*most + n%7)
		if n == anyAt {
			a, b = anyA, anyB
		}
		cs := make([][]int, n)
		for i := range cs {
			cs[i] = []int{i + 1}
		}
		if n > 0 {
			cs[n-1] = []int{n, a}
			cs[n/2] = append(cs[n/2], b)
		}
		var f cnf.CNF
		s, c := [][]int{{7}}, [][]int{{8}}
		switch way {
		case 0:
			f, s = base.AppendSemantics(clonef(cs)...), join(s, cs)
		case 1:
			f, c = base.AppendConsistency(clonef(cs)...), join(c, cs)
		case 2:
			f, s = base.Conjunction(cnf.FromClauses(clonef(cs))), join(s, cs)
		case 3:
			f, s, c = cnf.FromClauses(clonef(cs)).AppendConsistency(clonef(cs)...).Conjunction(base), join(cs, s), join(cs, c)
		case 4: // one more each time
			if n > 0 {
				grown = grown.AppendSemantics(cnf.Clause{n}).AppendConsistency(cnf.Clause{-n})
			}
			f = grown.AppendSemantics(cnf.Clause{a}).AppendConsistency(cnf.Clause{b})
			s, c = [][]int{}, [][]int{}
			for i := 1; i <= n; i++ {
				s, c = append(s, []int{i}), append(c, []int{-i})
			}
			s, c = append(s, []int{a}), append(c, []int{b})
		case 5: // and the same in one go
			f = cnf.FromClauses(clonef(cs)).Conjunction(cnf.CNF{}.AppendConsistency(clonef(cs)...))
			s, c = cs, cs
		}
		gs, gc := rawBoth(f)
		inOrder("semantic", gs, s)
		inOrder("consistency", gc, c)
		sym.Assert(sym.And(f.TopV() >= n, sym.Or(n == 0, sym.And(f.TopV() >= b, f.TopV() >= -b, f.TopV() >= a, f.TopV() >= -a))), "top variable below a variable")
		sym.Assert(f.TriviallyTrue() == (len(s)+len(c) == 0) && !f.TriviallyFalse(), "trivially true or false")
	}
	sym.Cover("sizes")
}

// inOrder states that two lists of clauses, most of which are told apart by
// their first literal, are the same. The usual order is tried first.
func inOrder(label string, got, want [][]int) {
	sym.Assert(len(got) == len(want), label+": number of clauses")
	same := true
	for i := range want {
		if len(got[i]) != len(want[i]) {
			same = false
			break
		}
	}
	eq := []bool{}
	for i := range want {
		if same {
			eq = append(eq, sameClause(got[i], want[i]))
		}
	}
	if same && sym.And(eq...) {
		return
	}
	sameClauses(label, got, want)
}

// C03_sizes: two formulas derived from one of any size.
func C03_sizes() {
	most := sym.Bound("clauses grown", 140, 300)
	a, b := wideLit("a"), wideLit("b")
	sym.Assume(a != b)
	step := []int{1, 2, 7}[sym.Choose("step", 3)]
	way := sym.Choose("way", 3)
	var f cnf.CNF
	n := 0
	for n < most {
		cs := []cnf.Clause{}
		for i := 0; i < step; i++ {
			n++
			cs = append(cs, cnf.Clause{n})
		}
		switch way {
		case 0:
			f = f.AppendSemantics(cs...).AppendConsistency(cs...)
		case 1:
			f = f.Conjunction(cnf.FromClauses(cs).AppendConsistency(cs...))
		case 2: // made by the caller, with room to spare
			own := make([]cnf.Clause, n, 2*n+1)
			for i := range own {
				own[i] = cnf.Clause{i + 1}
			}
			f = cnf.FromClauses(own).AppendConsistency(own...)
		}
		make2 := func(l int) cnf.CNF {
			return f.AppendSemantics(cnf.Clause{l}).AppendConsistency(cnf.Clause{l})
		}
		g := make2(a)
		h := make2(b)
		k := f.Conjunction(h)
		neg := f.AppendSemantics(cnf.Clause{a}).Negate(1000)
		_, nc := rawBoth(neg)
		make2(b).Negate(2000)
		_, nc2 := rawBoth(neg)
		for _, e := range []struct {
			f   cnf.CNF
			lit int
			n   int
		}{{g, a, n + 1}, {h, b, n + 1}, {k, b, 2*n + 1}} {
			s, c := e.f.Clauses()
			sym.Assert(len(s) == e.n && len(c) == e.n, "number of clauses")
			sym.Assert(sym.And(holds(s, e.lit), holds(c, e.lit)), "a formula was altered")
		}
		s, c := f.Clauses()
		sym.Assert(len(s) == n && len(c) == n, "number of clauses")
		sym.Assert(len(nc) == len(nc2), "a negation was altered")
		for i := len(nc) - 3; i < len(nc); i++ {
			sym.Assert(sameClause(nc[i], nc2[i]), "a negation was altered")
		}
	}
	sym.Cover("sizes")
}

// holds tells whether the clause of only l is there.
func holds(cs []cnf.Clause, l int) bool {
	in := []bool{}
	for _, c := range cs {
		if len(c) == 1 {
			in = append(in, c[0] == l)
		}
	}
	return sym.Or(in...)
}

// C06_deep: scopes within scopes within scopes.
func C06_deep() {
	depth := howMany("scopes within each other", 2, 70, 300, 700)
	marks := []int{1, 2, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 299, 300, 700}
	s := newScoping([]query.QVar{"out"}, []string{"c1", "c" + itoa(depth), "c64", "c"})
	s.addVar("out")
	next := 0
	for d := 1; d <= depth; d++ {
		s.addScope("c" + itoa(d))
		if d == depth/2 {
			s.setScope(sym.Int("idx", 0, 300), inst("m", 1))
		} else {
			s.setScope(d%300, vals{query.FeatV(d % 3)})
		}
		if next < len(marks) && d == marks[next] {
			v := query.QVar("x" + itoa(d))
			s.qvars = append(s.qvars, v)
			s.addVar(v)
			next++
		}
	}
	s.check("deep")
	s.setScope(301, vals{query.ZERO})
	s.check("deep")
	for d := depth; d > depth/2; d-- {
		s.pop()
	}
	s.setScope(302, vals{query.ZERO})
	s.check("deep")
	for d := depth / 2; d > 0; d-- {
		s.pop()
	}
	s.check("deep")
	s.pop()
	sym.Cover("deep")
}

// C10_long: a variable inside a universal over a tree of many nodes.
func C10_long() {
	t := complete(howMany("depth of a complete tree", 2, 5, 7, 8))
	nodes := t.instances()
	k := query.QConst{ID: "k"}
	ctx := query.BasicQContext(t)
	at := somewhere("false at", len(nodes))
	p := sym.Bool("p")
	kind := sym.Choose("kind", 3)
	// The node at which the sub-query has no witness unless p holds.
	bad := stub(func(ctx query.QContext) (cnf.CNF, error) {
		c, _ := ctx.ScopeConst(k)
		for i := range c.Val {
			if c.Val[i] != nodes[at][i] {
				return cnf.TrueCNF, nil
			}
		}
		return cnf.FromClauses([]cnf.Clause{{ctx.CNFVar("p", 0, 0)}}), nil
	})
	var q logop.LogOpQ
	spec := p
	same := and(subsumption.ConstVar{I1: k, I2: "x"}, subsumption.VarConst{I1: "x", I2: k})
	switch kind {
	case 0: // equal to the constant
		q = forNodes("k", with("x", and(same, bad)))
	case 1: // not equal to it
		q = forNodes("k", with("x", and(not(same), bad)))
	case 2: // equal to every one of them
		q = with("x", forNodes("k", and(same, bad)))
		spec = false
	}
	f, err := q.Encoding(ctx)
	noErr(err, "long")
	checkCovered("long", f)
	ctx.UpdateTopV(f.TopV())
	s, c := rawBoth(f)
	sym.Cover("many nodes")
	sym.EquivSat("long", s, c, []sym.Def{{Var: ctx.CNFVar("p", 0, 0), Val: p}}, spec)
}

// bulky is a proposition, or a constant, encoded with any number of clauses.
func bulky(name string, n int, p bool) sub {
	kind := sym.Choose(name, 5)
	at := func(ctx query.QContext, i int) int { return ctx.CNFVar(query.QVar("bulk "+name), 0, i) }
	q := stub(func(ctx query.QContext) (cnf.CNF, error) {
		// A chain of equal variables from p on.
		c := []cnf.Clause{}
		for i := 0; i+1 < n; i++ {
			c = append(c, cnf.Clause{-at(ctx, i), at(ctx, i+1)}, cnf.Clause{at(ctx, i), -at(ctx, i+1)})
		}
		f := cnf.CNF{}
		if kind < 4 {
			f = f.AppendConsistency(c...)
		}
		switch kind {
		case 0: // true
			return f, nil
		case 1: // false
			return f.AppendSemantics(cnf.Clause{}), nil
		case 2: // p
			return f.AppendSemantics(cnf.Clause{at(ctx, n-1)}), nil
		case 3: // not p, over and over
			for i := 0; i < n; i++ {
				f = f.AppendSemantics(cnf.Clause{-at(ctx, i), -at(ctx, n-1-i)})
			}
			return f, nil
		default: // p, through semantic clauses only: all of a chain hold
			for i := 0; i < n; i++ {
				f = f.AppendSemantics(cnf.Clause{at(ctx, 0)})
			}
			return f, nil
		}
	})
	return sub{q, func() bool {
		switch kind {
		case 0, 1:
			return kind == 0
		case 3:
			return !p
		}
		return p
	}}
}

// C08_bulk: operators over sub-queries of many clauses.
func C08_bulk() {
	n := howMany("clauses of a sub-query", 3, 20, 70, 140, 400)
	ctx := query.BasicQContext(flat(1))
	ps := bools("p", 2)
	a := bulky("a", n, ps[0])
	b := bulky("b", 1+sym.Choose("small", 2)*(n-1), ps[1])
	var e sub
	switch sym.Choose("operator", 5) {
	case 0:
		e = sub{logop.Not{Q: a.q}, func() bool { return !a.truth() }}
	case 1:
		e = sub{logop.And{Q1: a.q, Q2: b.q}, func() bool { return sym.And(a.truth(), b.truth()) }}
	case 2:
		e = sub{logop.Or{Q1: b.q, Q2: a.q}, func() bool { return sym.Or(a.truth(), b.truth()) }}
	case 3:
		e = sub{logop.Not{Q: logop.And{Q1: b.q, Q2: logop.Not{Q: a.q}}}, func() bool { return sym.Or(!b.truth(), a.truth()) }}
	case 4:
		e = sub{logop.Not{Q: logop.WithVar{I: "x", Q: a.q}}, func() bool { return !a.truth() }}
	}
	f, err := e.q.Encoding(ctx)
	noErr(err, "bulk")
	checkCovered("bulk", f)
	ctx.UpdateTopV(f.TopV())
	defs := []sym.Def{{Var: ctx.CNFVar("bulk a", 0, 0), Val: ps[0]}, {Var: ctx.CNFVar("bulk b", 0, 0), Val: ps[1]}}
	s, c := rawBoth(f)
	sym.Cover("bulk")
	sym.EquivSat("bulk", s, c, defs, e.truth())
}

// named is a query told apart by a number only: two of them may be equal.
type named struct{ id int }

func (named) Encoding(ctx query.QContext) (cnf.CNF, error) {
	sym.Assert(false, "the query is encoded outside of the solver")
	return cnf.CNF{}, nil
}

// byName answers the query numbered i as ans[i] tells, each time.
type byName struct {
	ans []int
	n   int
}

func (s *byName) Step(q compute.Encodable, ctx query.QContext) error {
	s.n++
	id := 0
	switch q := q.(type) {
	case named:
		id = q.id
	case *probe:
		id = q.id
	default:
		sym.Assert(false, "the solver was given another query")
	}
	switch s.ans[id] {
	case 1:
		return compute.UnsatError
	case 2:
		return errSolver
	}
	return nil
}

func (s *byName) Values(vars []query.QVar, ctx query.QContext) ([]query.QConst, error) {
	return nil, errSolver
}

// C23_shared: the same query in several atoms of a combination, negated or
// not.
func C23_shared() {
	s := &byName{}
	qs := []compute.Encodable{named{0}, named{1}}
	if sym.Choose("pointers", 2) == 1 {
		qs = []compute.Encodable{&probe{0}, &probe{1}}
	}
	for range qs {
		s.ans = append(s.ans, sym.Int("answer", 0, 2))
	}
	kind := sym.Choose("or", 2)
	n := 2 + sym.Choose("members", sym.Bound("members, shared", 3, 4))
	ms := []compute.QDTFCombinator{}
	sat, fails, going := kind == 0, false, true
	add := func(yes, bad bool) {
		fails = sym.Or(fails, sym.And(going, bad))
		if kind == 0 {
			sat = sym.And(sat, yes)
			going = sym.And(going, yes, !bad)
		} else {
			sat = sym.Or(sat, yes)
			going = sym.And(going, !yes, !bad)
		}
	}
	for i := 0; i < n; i++ {
		k := sym.Choose("query", 2)
		neg := sym.Choose("negated", 2) == 1
		a := compute.QDTFAtom{Query: qs[k], Negated: neg}
		yes := s.ans[k] == 0
		if neg {
			yes = s.ans[k] == 1
		}
		bad := s.ans[k] == 2
		if i == n-1 && sym.Choose("last in a combination", 2) == 1 {
			// Alone in one of the other kind.
			if kind == 0 {
				ms = append(ms, compute.OrCombinator{a})
			} else {
				ms = append(ms, compute.AndCombinator{a})
			}
		} else {
			ms = append(ms, a)
		}
		add(yes, bad)
	}
	ctx := query.BasicQContext(flat(1))
	for again := 0; again < 2; again++ {
		var got bool
		var err error
		if kind == 0 {
			got, err = compute.AndCombinator(ms).Sat(ctx, s)
		} else {
			got, err = compute.OrCombinator(ms).Sat(ctx, s)
		}
		sym.Cover("shared")
		sym.Assert(sym.Iff(err != nil, fails), "a failure is not reported, or made up")
		if err != nil {
			sym.Assert(errors.Is(err, errSolver) && !got, "the failure is lost")
			continue
		}
		sym.Assert(sym.Iff(got, sat), "the verdict is wrong")
	}
}

// C26_contexts: one solver, one name, and contexts that number it in
// different ways.
func C26_contexts() {
	dim := 1 + sym.Choose("dim", 2)
	s := newBin("contexts")
	vs := []query.QVar{"v", "w"}[:1+sym.Choose("variables", 2)]
	ctx := query.BasicQContext(flat(dim))
	for k := 0; k < sym.Bound("contexts", 2, 3); k++ {
		switch sym.Choose("next", 3) {
		case 0:
			ctx.Reset()
		case 1:
			ctx = query.BasicQContext(flat(dim))
		case 2:
			ctx = query.BasicQContext(flat(3 - dim))
		}
		d := ctx.Dim()
		ctx.UpdateTopV([]int{0, 3, 7}[(k+d)%3])
		number(ctx, vs, k == 1)
		us := []vals{}
		for i := range vs {
			u := make(vals, d)
			for j := range u {
				u[j] = query.FeatV((k + i + j + 1) % 3)
			}
			us = append(us, u)
		}
		if k == 1 {
			us[0] = someInst("u", d)
		}
		sym.SetSolver(10, false, plain(assignment(ctx, vs, us)), nil)
		noErr(s.Step(declares(vs), ctx), "contexts")
		checkValues("contexts", s, ctx, vs, us)
	}
	sym.Cover("read")
}

// C20_alike: constants of many features that are nearly the same.
func C20_alike() {
	dim := howMany("features of constants that are alike", 2, 9, 22, 34, 66, 130)
	at := somewhere("they differ at", dim)
	mkv := func(name string, window bool) vals {
		v := make(vals, dim)
		for i := range v {
			v[i] = query.FeatV(1 + i%2)
			if i%5 == 3 && dim > 9 {
				v[i] = query.BOT
			}
			if window && (i == at || i == 1) {
				v[i] = query.FeatV(sym.Int(name+itoa(i), 0, 2))
			}
		}
		return v
	}
	x := arg{v: "x", val: mkv("x", true)}
	y := arg{v: "y", val: mkv("y", false)}
	c, d := mkv("c", false), mkv("d", false)
	d[at] = (d[at] + 1) % 3
	th := &things{t: tree{dim: dim}, x: x, y: y, c: arg{c: query.QConst{Val: c}, val: c}, d: arg{c: query.QConst{Val: d}, val: d}}
	kind := sym.Choose("kind", 3)
	if kind == 2 && dim > 40 {
		sym.Assume(false)
	}
	switch kind {
	case 0:
		pref := []int{}
		for i := 0; i < dim; i++ {
			pref = append(pref, (i*7+3)%dim)
		}
		ms := th.heprs(pref)
		th.pairUp(ms[[]int{0, 1, 1, 4}[sym.Choose("pair", 4)]], ms[[]int{5, 4, 5, 1}[sym.Choose("other", 4)]])
	case 1:
		ms := th.lels()
		th.pairUp(ms[[]int{0, 1}[sym.Choose("pair", 2)]], ms[[]int{5, 7}[sym.Choose("other", 2)]])
	case 2:
		// Distances are between full instances.
		for _, v := range []vals{x.val, y.val, c, d} {
			for i := range v {
				if v[i] == query.BOT && i != at && i != 1 {
					v[i] = query.ONE
				}
			}
		}
		if d[at] == query.BOT {
			d[at] = 3 - c[at]
		}
		ms := th.lehs()
		th.pairUp(ms[[]int{4, 6, 0}[sym.Choose("pair", 3)]], ms[[]int{5, 7, 9}[sym.Choose("other", 3)]])
	}
}
