package h

// Sizes beyond those the exhaustive harnesses take: what is done with a few
// clauses, scopes, members, runs must also be done with many. The bulk follows
// a pattern; a few places hold any values.

import (
	"errors"
	"sort"

	"github.com/jtcaraball/goexpdt/cnf"
	"github.com/jtcaraball/goexpdt/compute"
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/extensions/allcomp"
	"github.com/jtcaraball/goexpdt/query/extensions/dfs"
	"github.com/jtcaraball/goexpdt/query/extensions/full"
	"github.com/jtcaraball/goexpdt/query/logop"
	"github.com/jtcaraball/goexpdt/query/predicates/isnode"
	"github.com/jtcaraball/goexpdt/query/predicates/lel"
	"github.com/jtcaraball/goexpdt/query/predicates/subsumption"
	"verifharness/sym"
)

// howMany picks one of the numbers; the first q of them in quick runs.
func howMany(name string, q int, ns ...int) int {
	return ns[sym.Choose(name, sym.Bound(name+" (how many sizes)", q, len(ns)))]
}

// somewhere is the first, a middle or the last place among n.
func somewhere(name string, n int) int {
	return []int{0, n / 2, n - 1}[sym.Choose(name, 3)]
}

// pattern is n clauses of one to four literals over nv variables.
func pattern(n, nv int) [][]int {
	out := [][]int{}
	for i := 0; i < n; i++ {
		c := []int{}
		for j := 0; j <= (i*7+i/3)%4; j++ {
			l := 1 + (i*5+j*3)%nv
			if (i+j)%3 == 0 {
				l = -l
			}
			c = append(c, l)
		}
		out = append(out, c)
	}
	return out
}

// C01_many: many clauses, some of them of many literals.
func C01_many() {
	nv := howMany("variables in many clauses", 2, 5, 9, 14)
	n := howMany("many clauses", 4, 5, 9, 17, 40, 70, 140)
	s := pattern(n, nv)
	// Not too many different clauses, or the formula is false anyway.
	for i := range s {
		s[i] = append([]int{}, s[i%(2+nv/4)]...)
	}
	at := somewhere("any clause", n)
	s[at] = []int{anyLit("a", nv), anyLit("b", nv)}
	switch sym.Choose("odd clause", 3) {
	case 1: // a long one
		c := []int{}
		for v := 1; v <= nv; v++ {
			c = append(c, v*(1-2*(v%2)))
		}
		s[n-1-at] = append(c, anyLit("l", nv))
	case 2:
		s[n-1-at] = []int{}
	}
	c := [][]int{}
	for i := 0; i < n; i += 1 + n/9 {
		c = append(c, []int{1 + i%nv, -(1 + (i+1)%nv)})
	}
	f := cnf.FromClauses(clonef(s)).AppendConsistency(clonef(c)...)
	vals := bools("x", nv)
	var g cnf.CNF
	known := f.TopV()
	if sym.Choose("opt", 2) == 1 {
		known = 300
		g = f.Negate(known)
	} else {
		g = f.Negate()
	}
	sym.Assume(known >= nv)
	sym.Cover("negated")
	checkNegation("many", f, g, known, defsFor(vals), sym.And(evalClauses(c, vals), !evalClauses(s, vals)))
	checkFresh("many", f, g, known)
}

// C01_long: a clause of many literals.
func C01_long() {
	w := howMany("long clause", 4, 8, 17, 33, 65, 130)
	c := []int{}
	for v := 1; v <= w; v++ {
		c = append(c, v*(1-2*(v%3/2)))
	}
	at := somewhere("any literal", w)
	c[at] = anyLit("a", w)
	s := [][]int{c}
	if sym.Choose("next to", 2) == 1 {
		s = append(s, []int{anyLit("u", w)})
	}
	f := cnf.FromClauses(clonef(s))
	g := f.Negate(w)
	vals := bools("x", w)
	sym.Cover("negated")
	checkNegation("long", f, g, w, defsFor(vals), !evalClauses(s, vals))
	checkFresh("long", f, g, w)
}

// tagged is n clauses told apart by their first literals, which are from on.
func tagged(n, from int) [][]int {
	out := [][]int{}
	for i := 0; i < n; i++ {
		c := []int{from + i}
		for j := 0; j < i%3; j++ {
			c = append(c, (from+i+j)*(1-2*(j%2)))
		}
		out = append(out, c)
	}
	return out
}

// sameTagged compares lists whose clauses are told apart by their first
// literals.
func sameTagged(label string, got, want [][]int) {
	sym.Assert(len(got) == len(want), label+": number of clauses")
	at := map[int][]int{}
	for _, c := range got {
		sym.Assert(len(c) > 0, label+": clause lost or altered")
		at[c[0]] = c
	}
	for _, c := range want {
		sym.Assert(sameClause(at[c[0]], c), label+": clause lost or altered")
	}
}

// C02_many: building and conjoining formulas of many clauses.
func C02_many() {
	n := howMany("many clauses", 5, 3, 5, 9, 17, 33, 65, 130)
	s, c, r := tagged(n, 1000), tagged(n, 2000), tagged(n+1, 3000)
	at := somewhere("any clause", n)
	top := 1 << 20
	s[at] = append(s[at], sym.Int("a", -top, top))
	c[n-1-at] = append(c[n-1-at], sym.Int("b", -top, top))
	sym.Assume(sym.And(s[at][len(s[at])-1] != 0, c[n-1-at][len(c[n-1-at])-1] != 0))
	var f cnf.CNF
	switch sym.Choose("way", 3) {
	case 0:
		f = cnf.FromClauses(clonef(s)).AppendConsistency(clonef(c)...)
	case 1:
		for i := range s {
			f = f.AppendSemantics(clonef(s[i : i+1])...).AppendConsistency(clonef(c[i : i+1])...)
		}
	case 2:
		for i := range s {
			f = cnf.FromClauses(clonef(s[i : i+1])).Conjunction(f)
		}
		f = f.AppendConsistency(clonef(c[:n/2])...)
		f = f.Conjunction(cnf.CNF{}.AppendConsistency(clonef(c[n/2:])...))
	}
	want := func(label string, f cnf.CNF, s, c [][]int) {
		gs, gc := rawBoth(f)
		sameTagged(label+" semantic", gs, s)
		sameTagged(label+" consistency", gc, c)
		for _, cl := range join(s, c) {
			for _, l := range cl {
				sym.Assert(sym.And(f.TopV() >= l, f.TopV() >= -l), label+": top variable below a variable")
			}
		}
		sym.Assert(!f.TriviallyTrue(), label+": trivially true")
		sym.Assert(f.TriviallyFalse() == hasEmpty(s, c), label+": trivially false")
	}
	want("built", f, s, c)
	g := cnf.FromClauses(clonef(r)).AppendConsistency(cnf.Clause{5000})
	want("conjunction", f.Conjunction(g), join(s, r), join(c, [][]int{{5000}}))
	want("conjunction the other way", g.Conjunction(f), join(s, r), join(c, [][]int{{5000}}))
	want("built", f, s, c)
	sym.Cover("built")
	// An empty clause anywhere makes a formula false.
	e := clonef(s)
	e[somewhere("empty", n)] = cnf.Clause{}
	sym.Assert(cnf.FromClauses(e).TriviallyFalse(), "an empty clause is missed")
	sym.Assert(cnf.CNF{}.AppendConsistency(e...).TriviallyFalse(), "an empty clause is missed")
	sym.Assert(!cnf.FromClauses(e).TriviallyTrue(), "an empty clause is missed")
}

// C03_many: formulas grown to many clauses before others are derived.
func C03_many() {
	n := howMany("many clauses", 6, 5, 7, 9, 13, 17, 33, 65)
	m := n - sym.Choose("fewer consistency clauses", 2)*(n-1)
	f := cnf.TrueCNF
	switch sym.Choose("growth", 3) {
	case 0:
		for i := 0; i < n; i++ {
			f = f.AppendSemantics(cnf.Clause{1 + i%6, -(1 + i%5)})
		}
		for i := 0; i < m; i++ {
			f = f.AppendConsistency(cnf.Clause{-(1 + i%6)})
		}
	case 1:
		for i := 0; i < n; i++ {
			f = f.Conjunction(cnf.FromClauses([]cnf.Clause{{1 + i%6, 2}}))
		}
		for i := 0; i < m; i++ {
			f = f.Conjunction(cnf.CNF{}.AppendConsistency(cnf.Clause{1 + i%6}))
		}
	case 2:
		f = cnf.FromClauses(clonef(pattern(n, 6))).AppendConsistency(clonef(pattern(m, 6))...)
		f = f.AppendSemantics(cnf.Clause{1}).AppendConsistency(cnf.Clause{2})
	}
	f = f.AppendSemantics(cnf.Clause{anyLit("a", 6)})
	valueOps("value", f, nil, sym.Bound("operations on many clauses", 2, 2))
}

// C04_long: texts longer than any buffer.
func C04_long() {
	n := howMany("long text", 2, 400, 5200, 12000)
	s, c := tagged(n, 1001), tagged(n/2, 200000)
	a := sym.Int("a", 1, 9)
	if n < 1000 {
		a = anyLit("any", 9)
	}
	if at := (n/2 - 1) * sym.Choose("last", 2); sym.Choose("part", 2) == 0 {
		s[at] = append(s[at], a)
	} else {
		c[at] = append(c[at], a)
	}
	f := cnf.FromClauses(clonef(s)).AppendConsistency(clonef(c)...)
	want := join(s, c)
	mem := f.ToBytes()
	check := func(label string, b []byte) {
		d := readDIMACS(b)
		sym.Assert(d.ok, label+": not a DIMACS text")
		sym.Assert(d.n == len(want), label+": clause count of the header")
		sym.Assert(d.vars >= 200000+n/2-1, label+": variable count of the header")
		sameTagged(label, d.clauses, want)
	}
	path := sym.TempDir() + "/long.cnf"
	faults := 6
	if n > 1000 {
		faults = 3
	}
	switch sym.Choose("fault", faults) {
	case 0:
		check("long bytes", mem)
	case 1:
		sym.WriteFile(path, append(append([]byte{}, mem...), "1 2 0\n"...))
	case 2:
		sym.LimitFileSize(len(mem) - 1)
	case 3:
		sym.LimitFileSize(4096)
	case 4:
		sym.LimitFileSize(len(mem) - len(mem)%4096)
	case 5:
		sym.LimitFileSize(0)
	}
	err := f.ToFile(path)
	sym.LimitFileSize(-1)
	if err != nil {
		sym.Cover("failed")
		return
	}
	b, ok := sym.ReadFile(path)
	sym.Assert(ok, "no error for a file that is not there")
	sym.Assert(len(b) == len(mem), "no error for a file that is not written in full")
	sym.Assert(string(b) == string(mem), "file: differs from the bytes")
	sym.Cover("written")
}

// C05_many: many variables.
func C05_many() {
	n := howMany("many variables", 2, 60, 300, 1100)
	ctx := query.BasicQContext(flat(2))
	names := []query.QVar{"x", "x1", "y"}
	at := func(i int) (query.QVar, int, int) { return names[i%3], i / 3 / 4, i / 3 % 4 }
	nums := make([]int, n)
	seen := map[int]bool{}
	reserve := somewhere("reserve", n)
	for i := range nums {
		if i == reserve {
			t := ctx.TopV() + sym.Choose("reserved", 3)*70
			sym.Assert(ctx.UpdateTopV(t) || t == ctx.TopV(), "update above the top refused")
		}
		top := ctx.TopV()
		v, idx, val := at(i)
		nums[i] = ctx.CNFVar(v, idx, val)
		sym.Assert(nums[i] > top && ctx.TopV() >= nums[i], "fresh number in use or reserved")
		sym.Assert(!seen[nums[i]], "two triples have one number")
		seen[nums[i]] = true
	}
	// Any triple again.
	v := names[sym.Choose("name", 3)]
	idx, val := sym.Int("idx", -1, n/12+1), sym.Int("val", -1, 4)
	top := ctx.TopV()
	exists := ctx.CNFVarExists(v, idx, val)
	num := ctx.CNFVar(v, idx, val)
	known := []bool{}
	for i, k := range nums {
		w, a, b := at(i)
		if w != v {
			sym.Assert(num != k, "two triples have one number")
			continue
		}
		same := sym.And(a == idx, b == val)
		known = append(known, same)
		sym.Assert(sym.Iff(same, num == k), "numbers and triples do not correspond")
	}
	sym.Assert(sym.Iff(exists, sym.Or(known...)), "existence misreported")
	sym.Assert(sym.Or(exists, num > top), "fresh number in use or reserved")
	sym.Assert(ctx.CNFVar(v, idx, val) == num, "number not stable")
	for i, k := range nums {
		w, a, b := at(i)
		sym.Assert(ctx.CNFVarExists(w, a, b) && ctx.CNFVar(w, a, b) == k, "number not stable")
	}
	sym.Cover("many")
}

// C06_many: many scopes within each other.
func C06_many() {
	depth := howMany("many scopes", 2, 6, 9, 12)
	targets := []string{"c", "d", "e"}
	qvars := []query.QVar{}
	for i := 0; i <= depth; i++ {
		qvars = append(qvars, query.QVar("x"+itoa(i)))
	}
	s := newScoping(qvars, targets)
	s.addVar(qvars[0])
	twice := somewhere("second value", depth)
	from := somewhere("shared target", depth)
	for d := 0; d < depth; d++ {
		t := targets[d%2]
		if d >= from {
			t = targets[2-d%2]
		}
		s.addScope(t)
		s.setScope(d%3, inst("n"+itoa(d)+".", 1))
		s.addVar(qvars[d+1])
		if d == twice {
			s.check("many")
			s.setScope(sym.Int("idx", 0, 300), inst("m", 1))
			s.addVar(qvars[d+1])
			s.check("many")
		}
	}
	s.check("many")
	for d := 0; d < depth; d++ {
		s.pop()
		if d%3 == 1 || d == depth-1 {
			s.check("many")
		}
	}
	s.pop()
	sym.Cover("many")
}

// C07_many: many declared variables, each with values of its own.
func C07_many() {
	n := howMany("many declared variables", 3, 4, 6, 9, 12)
	ctx := query.BasicQContext(flat(1))
	inner := sym.Choose("nesting", 3)
	odd := somewhere("odd one", n)
	var q logop.LogOpQ
	cs := []cells{}
	truths := []func() bool{}
	for i := 0; i < n; i++ {
		v := query.QVar("v" + itoa(i))
		c := anyCells(string(v), 1)
		k := i % 3
		lit := stub(func(ctx query.QContext) (cnf.CNF, error) {
			return cnf.FromClauses([]cnf.Clause{{ctx.CNFVar(ctx.ScopeVar(v), 0, k)}}), nil
		})
		a := sub{lit, func() bool { return c[0][k] }}
		if i == odd {
			a = someSub("a", v, c)
		}
		cs = append(cs, c)
		truths = append(truths, a.truth)
		switch {
		case q == nil:
			q = logop.WithVar{I: v, Q: a.q}
		case inner == 0: // all declared first
			q = logop.WithVar{I: v, Q: logop.And{Q1: a.q, Q2: q}}
		case inner == 1: // next to each other
			q = logop.Or{Q1: q, Q2: logop.WithVar{I: v, Q: a.q}}
		default:
			q = logop.And{Q1: logop.WithVar{I: v, Q: a.q}, Q2: logop.Not{Q: q}}
		}
	}
	f, err := q.Encoding(ctx)
	noErr(err, "many")
	checkCovered("many", f)
	ctx.UpdateTopV(f.TopV())
	defs := []sym.Def{}
	ok := []bool{}
	for i, c := range cs {
		defs = append(defs, c.defs(ctx, ctx.ScopeVar(query.QVar("v"+itoa(i))))...)
		ok = append(ok, c.proper())
	}
	truth := truths[0]()
	for _, t := range truths[1:] {
		switch inner {
		case 0:
			truth = sym.And(truth, t())
		case 1:
			truth = sym.Or(truth, t())
		default:
			truth = sym.And(t(), !truth)
		}
	}
	s, c := rawBoth(f)
	sym.Cover("declared")
	sym.EquivSat("many", s, c, defs, sym.And(sym.And(ok...), truth))
}

// C08_chain: many operators in a row.
func C08_chain() {
	n := howMany("operators in a row", 3, 6, 11, 20, 40)
	ctx := query.BasicQContext(flat(1))
	ls := &leafs{p: bools("p", 5)}
	e := ls.leaf(3)
	odd := somewhere("odd one", n)
	mix, side := sym.Choose("mix", 4), sym.Choose("side", 2)
	for i := 0; i < n; i++ {
		var a sub
		if i == odd {
			a = ls.leaf(allKinds)
		} else {
			// A clause over all but one proposition.
			id := i
			a = sub{stub(func(ctx query.QContext) (cnf.CNF, error) {
				c := cnf.Clause{}
				for k := range ls.p {
					if k != id%len(ls.p) {
						c = append(c, prop(ctx, k)*(1-2*((id/3+k)%2)))
					}
				}
				return cnf.FromClauses([]cnf.Clause{c}), nil
			}), func() bool {
				out := []bool{}
				for k, p := range ls.p {
					if k != id%len(ls.p) {
						out = append(out, sym.Iff(p, (id/3+k)%2 == 0))
					}
				}
				return sym.Or(out...)
			}}
		}
		l, r := e, a
		if side == 1 {
			l, r = a, e
		}
		both := []func(a, b bool) bool{func(a, b bool) bool { return sym.And(a, b) }, func(a, b bool) bool { return sym.Or(a, b) }}
		switch {
		case mix == 0 || mix == 2 && i%2 == 0:
			e = sub{logop.And{Q1: l.q, Q2: r.q}, func() bool { return both[0](l.truth(), r.truth()) }}
		case mix == 3:
			e = sub{logop.Not{Q: logop.And{Q1: l.q, Q2: r.q}}, func() bool { return !both[0](l.truth(), r.truth()) }}
		default:
			e = sub{logop.Or{Q1: l.q, Q2: r.q}, func() bool { return both[1](l.truth(), r.truth()) }}
		}
	}
	f, err := e.q.Encoding(ctx)
	if ls.fail {
		sym.Cover("failing sub-query")
		sym.Assert(err != nil, "error of a sub-query not reported")
		return
	}
	noErr(err, "chain")
	checkCovered("chain", f)
	ctx.UpdateTopV(f.TopV())
	defs := []sym.Def{}
	for i := range ls.p {
		defs = append(defs, sym.Def{Var: prop(ctx, i), Val: ls.p[i]})
	}
	s, c := rawBoth(f)
	sym.Cover("expression")
	sym.Equiv("chain", s, c, defs, e.truth())
}

// C23_many: many members, one of which answers in any way.
func C23_many() {
	s := &scripted{ctx: query.BasicQContext(flat(1))}
	n := howMany("many members", 3, 9, 17, 40, 130)
	e := &combo{kind: 1 + sym.Choose("or", 2)}
	ms := []compute.QDTFCombinator{}
	atoms := sym.Choose("atoms", 2) == 1
	s.answers(1)
	one := s.ans[0]
	s.ans = nil
	at, other := somewhere("any answer", n), sym.Choose("another one", n)
	for i := 0; i < n; i++ {
		m := &combo{id: i}
		ans := e.kind - 1 // does not settle the verdict
		if i == other {
			ans = 2 - e.kind
		}
		if atoms {
			m.negated = i%3 == 1
			if m.negated {
				ans = 1 - ans
			}
			ms = append(ms, compute.QDTFAtom{Query: &probe{i}, Negated: m.negated})
		} else {
			ms = append(ms, &opaque{i, s, s.ctx})
		}
		if i == at {
			ans = one
		}
		s.ans = append(s.ans, ans)
		e.members = append(e.members, m)
	}
	var sat bool
	var err error
	if e.kind == 1 {
		sat, err = compute.AndCombinator(ms).Sat(s.ctx, s)
	} else {
		sat, err = compute.OrCombinator(ms).Sat(s.ctx, s)
	}
	checkVerdict("many", e, s, sat, err)
}

// slow is a solver which always answers with the last instance of the set
// that satisfies the query.
type slow struct {
	ideal
	v   query.QVar
	set []vals
	at  int // instances from here on are known not to satisfy it
}

func (s *slow) Step(q compute.Encodable, ctx query.QContext) error {
	s.steps++
	if s.steps == s.fail {
		return errSolver
	}
	f, err := q.Encoding(ctx)
	if err != nil {
		return err
	}
	sem, cons := rawBoth(f)
	for s.at > 0 {
		s.at--
		is := [][]int{}
		for i, k := range s.set[s.at] {
			is = append(is, []int{ctx.CNFVar(s.v, i, int(k))})
		}
		if ok, a := sym.Solve(join(sem, is), cons); ok {
			s.assigned = a
			return nil
		}
	}
	sat, _ := sym.Solve(sem, cons)
	sym.Assert(!sat, "the query allows an instance that does not precede the last one")
	return compute.UnsatError
}

// C24_long: as many improvements as there are instances.
func C24_long() {
	dim := sym.Bound("dimension of long chains", 3, 3)
	which := []int{1, 3, 2}[sym.Choose("order", 3)]
	o := strictly(dim, which)
	every := allInstances(dim)
	set := []vals{}
	gap := 0
	if which == 1 {
		gap = sym.Choose("gap", len(every))
	}
	for i, u := range every {
		if i != gap || i == 0 {
			set = append(set, u)
		}
	}
	if which == 2 || which == 3 {
		// From full to bottom, or the other way: one chain.
		set = set[:0]
		for i := 0; i <= dim; i++ {
			u := make(vals, dim)
			for j := range u {
				u[j] = query.ONE
				if j >= i {
					u[j] = query.BOT
				}
			}
			set = append(set, u)
		}
		if which == 3 {
			for i, j := 0, len(set)-1; i < j; i, j = i+1, j-1 {
				set[i], set[j] = set[j], set[i]
			}
		}
	}
	if which == 1 { // best first
		sort.Slice(set, func(i, j int) bool { return code(set[i]) < code(set[j]) })
	}
	s := &slow{v: "x", set: set, at: len(set)}
	if gap == 0 && sym.Choose("failing", 2) == 1 {
		s.fail = 1 + sym.Choose("at", len(set)+1)
	}
	fg := func(x query.QVar) compute.Encodable { return among(x, dim, inSet(set)) }
	out, err := compute.ComputeOptim(fg, o.mk, s.v, query.BasicQContext(flat(dim)), s)
	if s.fail > 0 {
		sym.Cover("failed")
		sym.Assert(errors.Is(err, errSolver), "the error is lost")
		sym.Assert(!out.Found, "an answer comes with an error")
		return
	}
	noErr(err, "long")
	sym.Cover("found")
	sym.Assert(s.steps == len(set)+1, "the computation stops before the best instance")
	checkOptimum("long", out, s.steps, dim, set, o.less)
}

// greedy is a solver that looks for values feature by feature in a fixed
// order.
type greedy struct {
	ideal
	v                query.QVar
	first, alternate int
}

func (s *greedy) Step(q compute.Encodable, ctx query.QContext) error {
	s.steps++
	f, err := q.Encoding(ctx)
	if err != nil {
		return err
	}
	sem, cons := rawBoth(f)
	sat, a := sym.One(sem, cons)
	if !sat {
		return compute.UnsatError
	}
	for i := 0; i < ctx.Dim(); i++ {
		for k := 0; k < 3; k++ {
			val := (s.first + k + i*s.alternate) % 3
			if n := ctx.CNFVar(s.v, i, val); n < len(a) && a[n] {
				sem = append(sem[:len(sem):len(sem)], []int{n})
				break
			}
			with := append(sem[:len(sem):len(sem)], []int{ctx.CNFVar(s.v, i, val)})
			if ok, b := sym.One(with, cons); ok {
				sem, a = with, b
				break
			}
		}
	}
	s.assigned = a
	return nil
}

// C24_wide: optima over many features.
func C24_wide() {
	dim := howMany("many features", 1, 5, 8)
	v := query.QVar("x")
	c := make(vals, dim)
	at := somewhere("any value", dim)
	for i := range c {
		c[i] = query.FeatV((i*2 + 1) % 3)
		if i == at {
			c[i] = query.FeatV(sym.Int("c", 0, 2))
		}
	}
	k := query.QConst{Val: c}
	var out compute.OptOutput
	var err error
	s := &greedy{v: v, first: sym.Choose("first value tried", 3), alternate: sym.Choose("alternate", 2)}
	ctx := query.BasicQContext(flat(dim))
	switch sym.Choose("order", 2) {
	case 0: // the most defined instance below c, which is c
		out, err = compute.ComputeOptim(
			func(x query.QVar) compute.Encodable { return subsumption.VarConst{I1: x, I2: k} },
			func(x query.QVar, d query.QConst) compute.Encodable {
				return logop.Not{Q: lel.VarConst{I1: x, I2: d, CountVarGen: genCount}}
			}, v, ctx, s)
	case 1: // the least instance above c
		out, err = compute.ComputeOptim(
			func(x query.QVar) compute.Encodable { return subsumption.ConstVar{I1: k, I2: x} },
			func(x query.QVar, d query.QConst) compute.Encodable {
				return logop.And{Q1: subsumption.VarConst{I1: x, I2: d}, Q2: logop.Not{Q: subsumption.ConstVar{I1: d, I2: x}}}
			}, v, ctx, s)
	}
	_ = out
	noErr(err, "wide")
	sym.Assert(out.Found && out.Calls == s.steps && s.steps <= dim+2, "wide: found or calls wrong")
	sym.Assert(len(out.Value.Val) == dim, "wide: the value has a wrong length")
	for i := range c {
		sym.Assert(out.Value.Val[i] == c[i], "wide: the value is not optimal")
	}
	sym.Cover("found")
}

// C25_long: a query of many clauses reaches the solver in full.
func C25_long() {
	n := howMany("long query", 2, 500, 5200, 12000)
	s, c := tagged(n, 1001), tagged(n/2, 200000)
	at := somewhere("any clause", n/2)
	s[at] = append(s[at], anyLit("a", 20))
	q := stub(func(query.QContext) (cnf.CNF, error) {
		return cnf.FromClauses(clonef(s)).AppendConsistency(clonef(c)...), nil
	})
	exit := []int{10, 20}[sym.Choose("exit", 2)]
	sym.SetSolver(exit, false, []byte("v 1 0\n"), nil)
	b := newBin("long")
	err := b.Step(q, query.BasicQContext(flat(1)))
	if exit == 10 {
		noErr(err, "long")
	} else {
		sym.Assert(err == compute.UnsatError, "unsatisfiable is not reported as such")
	}
	sym.Assert(sym.SolverRuns() == 1, "number of solver runs")
	d := readDIMACS(sym.SolverInput(0))
	sym.Assert(d.ok, "not a DIMACS text")
	want := join(s, c)
	sym.Assert(d.n == len(want) && d.vars >= 200000+n/2-1, "header")
	sameTagged("long", d.clauses, want)
	sym.Assert(sym.TempEntries() == 0, "temporary files remain")
	sym.Cover("long")
}

// C20_many: every kind of formula in one context, in different orders.
func C20_many() {
	th := newThings(oneNode(2), 1, 1)
	th.d.val = vals{2, 0}
	th.d.c.Val = th.d.val
	ms := th.kinds()
	ms = append(ms, th.lels()[5], th.heprs([]int{0})[3], th.heprs([]int{0, 1})[2], th.models()[4], th.models()[5], th.lehs()[6], th.lehs()[9])
	n := len(ms)
	start := sym.Choose("first of many", n)
	step := []int{1, n - 1, 4}[sym.Choose("order of many", sym.Bound("orders of many", 3, 3))]
	for n%step == 0 && step > 1 {
		step++
	}
	ctx := query.BasicQContext(th.t)
	order := []member{}
	for i := 0; i < n; i++ {
		order = append(order, ms[(start+i*step)%n])
	}
	sems := [][][]int{}
	c := [][]int{}
	for _, m := range order {
		f, err := m.q.Encoding(ctx)
		noErr(err, m.name)
		checkCovered(m.name, f)
		ctx.UpdateTopV(f.TopV())
		s, fc := rawBoth(f)
		sems = append(sems, s)
		c = append(c, fc...)
	}
	defs := defsOf(ctx, binding{th.x.v, th.x.val}, binding{th.y.v, th.y.val})
	sym.Cover("many")
	for _, i := range []int{0, n / 3, 2 * n / 3, n - 1} {
		sym.Equiv(order[i].name+" among many", sems[i], c, defs, order[i].spec())
	}
}

// C22_wide: more features, constants of other lengths.
func C22_wide() {
	f := anyForm()
	dim := howMany("wide dimension", 2, 5, 9, 17)
	ctx := query.BasicQContext(oneNode(dim))
	off := []int{0, -1, 1, -2, dim, -dim}
	args := make(fargs, len(f.kind))
	ok := true
	odd := sym.Choose("which argument", len(f.kind))
	for i := range f.kind {
		args[i].v = query.QVar("x" + itoa(i))
		if f.kind[i] == 'v' {
			continue
		}
		n := dim
		if i == odd {
			n += off[sym.Choose("length", len(off))]
		}
		ok = ok && n == dim
		v := make(vals, n, n+2)
		for j := range v {
			v[j] = query.FeatV((i*(j+1) + j) % 3)
		}
		if n > 0 && i == odd {
			v[somewhere("any value", n)] = query.FeatV(sym.Int("value", 0, 2))
		}
		args[i].c = query.QConst{ID: "k" + itoa(i), Val: v}
		if i == odd && sym.Choose("resolution", 2) == 1 {
			ctx.AddScope(args[i].c.ID)
			noErr(ctx.SetScope(0, v), "setting a scope")
			args[i].c.Val = nil
		}
	}
	// Another formula of the context was fine.
	if sym.Choose("after another", 2) == 1 {
		_, err := full.Const{I: query.QConst{Val: make(vals, dim)}}.Encoding(ctx)
		noErr(err, "another")
	}
	expect("constant of wrong length", ok, f.mk(args, allGens(), prefUpTo(dim), true), ctx)
}

// C22_longer: longer preferences.
func C22_longer() {
	fs := []form{}
	for _, f := range forms() {
		if f.name == "hepr" {
			fs = append(fs, f)
		}
	}
	f := fs[sym.Choose("formula", len(fs))]
	dim := howMany("preference dimension", 4, 7, 12, 71, 130, 260)
	ctx := query.BasicQContext(flat(dim))
	args := make(fargs, len(f.kind))
	for i := range f.kind {
		args[i].v = query.QVar("x" + itoa(i))
		if f.kind[i] == 'c' {
			v := make(vals, dim)
			for j := range v {
				v[j] = query.FeatV((j + i) % 3)
			}
			args[i].c = query.QConst{Val: v}
		}
	}
	n := []int{5, dim - 1, dim, dim + 1}[sym.Choose("preference length", 4)]
	pref := []int{}
	for i := 0; i < n; i++ {
		pref = append(pref, (i*7+3)%dim)
		if dim%7 == 0 {
			pref[i] = (i*5 + 3) % dim
		}
	}
	at := somewhere("any feature", n)
	pref[at] = sym.Int("feature", -70, 2*dim)
	ok := []bool{pref[at] >= 0, pref[at] < dim}
	for i, p := range pref {
		for j := 0; j < i; j++ {
			ok = append(ok, p != pref[j])
		}
	}
	_, err := f.mk(args, allGens(), pref, true).Encoding(ctx)
	sym.Cover("preference")
	sym.Assert(sym.Iff(err == nil, sym.And(ok...)), "preference check")
}

// C22_deep: a larger tree with an ill-formed node.
func C22_deep() {
	dim := 5
	t := someBigTree(dim)
	nodes := t.nodes
	inner := []int{}
	for i, n := range nodes {
		if n.ZChild != query.NoChild {
			inner = append(inner, i)
		}
	}
	bad := inner[somewhere("ill-formed node", len(inner))]
	far := []int{0, 1, 1000}[sym.Choose("how far", 3)]
	switch sym.Choose("what", 4) {
	case 0:
		nodes[bad].Feat = dim + far
	case 1:
		nodes[bad].Feat = -1 - far
	case 2:
		nodes[bad].ZChild = len(nodes) + far
	case 3:
		nodes[bad].OChild = len(nodes) + far
	}
	ctx := query.BasicQContext(t)
	lv := sym.Choose("requested", 2) == 1
	q := []logop.LogOpQ{
		isnode.Var{I: "x", ReachNodeVarGen: genReach},
		allcomp.Var{I: "x", LeafValue: lv, ReachNodeVarGen: genReach},
		dfs.Var{I: "x"},
		dfs.Const{I: query.QConst{Val: make(vals, dim)}},
		logop.ForAllGuarded{I: query.QConst{ID: "c"}, Q: stub(func(query.QContext) (cnf.CNF, error) { return cnf.TrueCNF, nil })},
	}[sym.Choose("formula", 5)]
	expect("ill-formed node", false, q, ctx)
}

// C27_long: many evaluations and optima in one context.
func C27_long() {
	dim := 1
	t := oneNode(dim)
	ctx := query.BasicQContext(t)
	c := query.QConst{ID: "c", Val: inst("c", dim)}
	s := &ideal{}
	n := sym.Bound("evaluations in a row", 9, 20)
	odd, what := somewhere("odd one", n), sym.Choose("query", 7)
	start := sym.Choose("first", 6)
	for k := 0; k < n; k++ {
		w := (start + k) % 6
		if k == odd {
			w = what
		}
		if k%4 == 3 && k != odd || w == 6 {
			set := allInstances(dim)[k%2:]
			o := strictly(dim, 2+k/4%2)
			s.steps = 0
			out, err := compute.ComputeOptim(
				func(x query.QVar) compute.Encodable { return among(x, dim, inSet(set)) }, o.mk, "x", ctx, s)
			noErr(err, "optimum")
			sym.Cover("optimum")
			checkOptimum("optimum", out, s.steps, dim, set, o.less)
			continue
		}
		a := ask(t, w, c)
		negated := k%3 == 1
		got, err := compute.QDTFAtom{Query: a.q, Negated: negated}.Sat(ctx, s)
		if a.fails {
			sym.Assert(errors.Is(err, errSub), "the failure is lost")
			sym.Assert(!got, "true in spite of a failure")
			continue
		}
		noErr(err, "evaluation")
		sym.Cover("evaluated")
		sym.Assert(sym.Iff(got, a.answer() != negated), "the answer depends on the history")
	}
}
