package h

// What is kept from one call to the next must not show.

import (
	"github.com/jtcaraball/goexpdt/cnf"
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/logop"
	"verifharness/sym"
)

// C04_again: a formula is written, others are made of it and written, and it
// is written again.
func C04_again() {
	f, want := someFormula(1, 2, 2, sym.Bound("variables, written again", 2, 4))
	if sym.Choose("bare", 2) == 1 {
		f = cnf.FromClauses(clonef(want))
	}
	path := sym.TempDir() + "/f.cnf"
	write := func(label string, f cnf.CNF, want [][]int, file bool) {
		if !file {
			checkDIMACS(label, f.ToBytes(), want)
			return
		}
		noErr(f.ToFile(path), label)
		b, ok := sym.ReadFile(path)
		sym.Assert(ok, label+": not there")
		checkDIMACS(label, b, want)
	}
	file := sym.Choose("file", 2) == 1
	write("first", f, want, file)
	l := []int{2, -11}[sym.Choose("l", 2)]
	g := f
	switch sym.Choose("operation", 6) {
	case 0:
		g = f.AppendSemantics(cnf.Clause{l, 2})
	case 1:
		g = f.AppendConsistency(cnf.Clause{l, 2})
	case 2:
		g = f.Conjunction(cnf.FromClauses([]cnf.Clause{{l}}))
	case 3:
		g = cnf.FromClauses([]cnf.Clause{{l}}).Conjunction(f)
	case 4:
		g = f.Negate(12)
	case 5:
		g = f.AppendConsistency(cnf.Clause{l}).AppendSemantics(cnf.Clause{-l})
	}
	// What it consists of is taken from the clauses.
	s, c := rawBoth(g)
	sym.Cover("read")
	write("derived", g, join(s, c), sym.Choose("derived file", 2) == 1)
	write("again", f, want, !file)
	h := g.Negate(40)
	s, c = rawBoth(h)
	write("negated", h, join(s, c), file)
}

// C05_large: numbers far up, asked for again and again.
func C05_large() {
	ctx := query.BasicQContext(flat(2))
	base := []int{1<<8 - 2, 1<<16 - 2, 1<<31 - 2, 1<<32 - 2, 1<<53 - 2, 1<<62 - 2}
	var known []numbered
	high := 0
	for k := 0; k < 2; k++ {
		t := base[sym.Choose("top", len(base))] + sym.Int("above", 0, 2)
		top := ctx.TopV()
		ok := ctx.UpdateTopV(t)
		sym.Assert(sym.Implies(t > top, sym.And(ok, ctx.TopV() >= t)), "update above the top without effect")
		sym.Assert(sym.Implies(t < top, sym.And(!ok, ctx.TopV() == top)), "update below the top accepted")
		high = sym.Ite(t > high, t, high)
		for j := 0; j < 2; j++ {
			idx, val := sym.Int("idx", 0, 2), sym.Int("val", 0, 2)
			num := ctx.CNFVar("x", idx, val)
			seen := false
			for _, e := range known {
				same := sym.And(e.idx == idx, e.val == val)
				seen = sym.Or(seen, same)
				sym.Assert(sym.Iff(same, e.num == num), "numbers and triples do not correspond")
			}
			sym.Assert(sym.And(num > 0, sym.Or(seen, num > high)), "fresh number in use or reserved")
			known = append(known, numbered{"x", idx, val, num})
			high = sym.Ite(num > high, num, high)
			sym.Assert(ctx.TopV() >= high, "top variable below a number in use")
		}
		for _, e := range known {
			sym.Assert(ctx.CNFVarExists(e.v, e.idx, e.val), "existing variable not reported")
			sym.Assert(ctx.CNFVar(e.v, e.idx, e.val) == e.num, "number not stable")
		}
	}
	sym.Cover("large")
	ctx.Reset()
	sym.Assert(sym.And(ctx.TopV() == 0, ctx.CNFVar("x", 0, 0) == 1), "top variable after a reset")
}

// C06_names: unusual names, the empty one among them.
func C06_names() {
	names := []string{"", " ", "c", "c ", "C", "0", "-1", "é", "nil", "_", "c#", "c,1", "c.1"}
	pick := func(n string) string { return names[sym.Choose(n, len(names))] }
	a, b := pick("target"), pick("other target")
	v := query.QVar(pick("variable"))
	s := newScoping([]query.QVar{v, "x", v + "1"}, []string{a, b, "d"})
	s.addVar("x")
	s.addScope(a)
	s.setScope(sym.Int("idx", 0, 11), inst("a", 1))
	s.addVar(v)
	s.check("names")
	s.addScope(b)
	s.addVar(v + "1")
	s.check("names")
	s.setScope(sym.Int("idx", 0, 11), inst("b", 1))
	s.check("names")
	s.setScope(sym.Int("idx", 0, 11), inst("c", 1))
	s.check("names")
	s.pop()
	s.check("names")
	s.pop()
	s.check("names")
	sym.Cover("names")
}

// C09_long: trees of many nodes and features.
func C09_long() {
	var t tree
	switch k := howMany("features of a long tree", 3, 9, 33, 70, 130); k {
	case 33:
		t = complete(sym.Bound("depth of a complete tree", 6, 8))
	default:
		t = longTree(k, false)
	}
	nodes := t.instances()
	ctx := query.BasicQContext(t)
	key := func(v vals) query.QVar {
		b := []byte{}
		for _, f := range v {
			b = append(b, "_01"[f])
		}
		return query.QVar(b)
	}
	at := somewhere("false at", len(nodes)+1)
	fail := sym.Choose("fails there", 2) == 1
	r := &visits{fail: -1}
	if fail {
		r.fail = at
	}
	r.f = func(ctx query.QContext, c vals) (cnf.CNF, error) {
		return cnf.FromClauses([]cnf.Clause{{ctx.CNFVar("p:"+key(c), 0, 0)}}), nil
	}
	f, err := logop.ForAllGuarded{I: query.QConst{ID: "k"}, Q: r}.Encoding(ctx)
	sym.Assert(ctx.PopScope() != nil, "a scope is left open")
	sym.Cover("visited")
	if fail && at < len(nodes) {
		sym.Assert(err != nil, "error of the sub-query not reported")
		return
	}
	noErr(err, "long")
	sym.Assert(len(r.given) == len(nodes), "wrong number of visits")
	seen := map[query.QVar]int{}
	for _, g := range r.given {
		seen[key(g)]++
	}
	names := map[query.QVar]bool{}
	for _, n := range r.names {
		names[n] = true
	}
	sym.Assert(len(names) == len(r.names), "two visits use the same variable")
	checkCovered("long", f)
	ctx.UpdateTopV(f.TopV())
	cells := make([]bool, len(nodes))
	var defs []sym.Def
	for i, n := range nodes {
		sym.Assert(seen[key(n)] == 1, "a node is not visited exactly once with its instance")
		cells[i] = i != at
		if i == at || i%16 == 3 {
			cells[i] = sym.Bool("holds" + itoa(i))
		}
		defs = append(defs, sym.Def{Var: ctx.CNFVar("p:"+key(n), 0, 0), Val: cells[i]})
	}
	s, c := rawBoth(f)
	sym.Equiv("long", s, c, defs, sym.And(cells...))
}

// reordered is a sub-query before whose encoding something happens.
type reordered struct {
	do func()
	q  logop.LogOpQ
}

func (r reordered) Encoding(ctx query.QContext) (cnf.CNF, error) {
	r.do()
	return r.q.Encoding(ctx)
}

// C20_changed: one preference slice that is changed between two formulas.
func C20_changed() {
	dim := 2 + sym.Choose("dim", sym.Bound("dimension of changed preferences", 1, 2))
	th := newThings(tree{dim: dim}, 0, 1)
	shared := prefUpTo(dim)
	first, second := prefUpTo(dim), prefUpTo(dim)
	perm := func(p []int, how int) {
		switch how {
		case 0:
			p[0], p[1] = p[1], p[0]
		case 1:
			p[0], p[dim-1] = p[dim-1], p[0]
		case 2:
			p[dim-2], p[dim-1] = p[dim-1], p[dim-2]
		}
	}
	perm(second, sym.Choose("permutation", dim))
	n := dim - sym.Choose("shorter", 2)
	mk := func(k int, pref []int) member {
		m := th.heprs(shared[:n])[k]
		spec := th.heprs(pref[:n])[k].spec
		return member{m.name, reordered{func() { copy(shared, pref) }, m.q}, spec}
	}
	a, b := mk(sym.Choose("first", 3), first), mk(sym.Choose("second", 4), second)
	if sym.Choose("one query", 2) == 1 {
		th.combine(a, b)
		return
	}
	th.pairUp(a, b)
}

// C20_digits: preferences whose features make up the same digits.
func C20_digits() {
	dim := 124
	c := make(vals, dim)
	for i := range c {
		c[i] = query.FeatV(i * 2 % 3)
	}
	fixed := func(name string) vals {
		v := make(vals, dim)
		for i := range v {
			switch i {
			case 1, 2, 3, 12, 23, 123:
				v[i] = query.FeatV(sym.Int(name+itoa(i), 0, 1))
			default:
				v[i] = query.FeatV(i % 2)
			}
		}
		return v
	}
	x := arg{v: "x", val: fixed("x")}
	y := arg{v: "y", val: fixed("y")}
	th := &things{t: tree{dim: dim}, x: x, y: y, c: arg{c: query.QConst{Val: c}, val: c}}
	th.d = th.c
	prefs := [][]int{{123}, {12, 3}, {1, 23}, {1, 2, 3}, {1, 2, 123}, {1, 21, 23}, {12, 1, 23}, {12, 123}, {121, 23}}
	p := sym.Choose("first preference", len(prefs))
	r := sym.Choose("second preference", len(prefs))
	sym.Assume(p != r)
	k := sym.Choose("which", 3)
	th.pairUp(th.heprs(prefs[p])[k], th.heprs(prefs[r])[k])
}

// changing is a model that is another one after a change.
type changing struct{ t *tree }

func (c changing) Dim() int            { return c.t.dim }
func (c changing) Nodes() []query.Node { return c.t.nodes }

// C22_changed: a model that is changed between two queries.
func C22_changed() { checkChanged() }

// C27_changed: a model that is changed between two queries.
func C27_changed() { checkChanged() }

func checkChanged() {
	leaf := func(v bool) query.Node {
		return query.Node{Value: v, ZChild: query.NoChild, OChild: query.NoChild}
	}
	good := []query.Node{{Feat: 1, ZChild: 1, OChild: 4}, {Feat: 0, ZChild: 2, OChild: 3}, leaf(true), leaf(false), leaf(true)}
	t := &tree{2, append(make([]query.Node, 0, len(good)+2), good...)}
	val := vals{query.ZERO, query.ZERO}
	which := sym.Choose("query", 8)
	lv := sym.Choose("requested", 2) == 1
	ask := func() logop.LogOpQ {
		return modelQueries("x", query.QConst{Val: val[:t.dim]}, lv)[which].q
	}
	same := sym.Choose("same context", 2) == 1
	ctx := query.BasicQContext(changing{t})
	again := func() {
		if !same {
			ctx = query.BasicQContext(changing{t})
		}
	}
	if sym.Choose("before", 2) == 1 {
		noErr(second(ask().Encoding(ctx)), "valid model is rejected")
		again()
	}
	ok := false
	switch sym.Choose("change", 8) {
	case 0:
		f := sym.Int("feature", -3, 5)
		sym.Assume(f != 0) // tested once on a path
		t.nodes[0].Feat = f
		ok = f == 1
	case 1:
		t.nodes[1].Feat = 2
	case 2:
		t.nodes[0].OChild = len(good)
	case 3:
		t.nodes[1].ZChild = len(good) + 5
	case 4: // fewer features
		t.dim = 1
	case 5: // fewer nodes
		t.nodes = t.nodes[:len(good)-1]
	case 6: // none
		t.nodes = t.nodes[:0]
	case 7:
		t.nodes[1].OChild, t.nodes[1].ZChild = 2, 3
		ok = true
	}
	err := second(ask().Encoding(ctx))
	sym.Cover("changed")
	sym.Assert(sym.Iff(err == nil, ok), "changed model")
	// And back.
	t.dim, t.nodes = 2, t.nodes[:len(good)]
	copy(t.nodes, good)
	again()
	noErr(second(ask().Encoding(ctx)), "valid model is rejected")
}

func second(_ cnf.CNF, err error) error { return err }
