package h

// Variables under guarded universals.

import (
	"github.com/jtcaraball/goexpdt/cnf"
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/extensions/allcomp"
	"github.com/jtcaraball/goexpdt/query/extensions/cons"
	"github.com/jtcaraball/goexpdt/query/extensions/dfs"
	"github.com/jtcaraball/goexpdt/query/extensions/full"
	"github.com/jtcaraball/goexpdt/query/extensions/hepr"
	"github.com/jtcaraball/goexpdt/query/extensions/leh"
	"github.com/jtcaraball/goexpdt/query/logop"
	"github.com/jtcaraball/goexpdt/query/predicates/isnode"
	"github.com/jtcaraball/goexpdt/query/predicates/lel"
	"github.com/jtcaraball/goexpdt/query/predicates/subsumption"
	"verifharness/sym"
)

// relation is an arbitrary relation between values of constants and
// variables. Which tuples belong to it is a proposition each.
type relation struct {
	name   string
	consts []string
	vars   []query.QVar
	tuples map[string]bool
	order  []string
}

func newRelation(name string, dim int, nodes []vals, consts []string, vars []query.QVar) *relation {
	r := &relation{name: name, consts: consts, vars: vars, tuples: map[string]bool{}}
	rows := [][]vals{{}}
	for range consts {
		next := [][]vals{}
		for _, row := range rows {
			for _, v := range nodes {
				next = append(next, append(append([]vals{}, row...), v))
			}
		}
		rows = next
	}
	for range vars {
		next := [][]vals{}
		for _, row := range rows {
			for _, v := range allInstances(dim) {
				next = append(next, append(append([]vals{}, row...), v))
			}
		}
		rows = next
	}
	for _, row := range rows {
		k := tupleKey(row)
		r.tuples[k] = sym.Bool(name + k)
		r.order = append(r.order, k)
	}
	return r
}

func tupleKey(row []vals) string {
	k := ""
	for _, v := range row {
		k += "," + itoa(code(v))
	}
	return k
}

func (r *relation) has(row ...vals) bool { return r.tuples[tupleKey(row)] }

func (r *relation) defs(ctx query.QContext) []sym.Def {
	var out []sym.Def
	for _, k := range r.order {
		out = append(out, sym.Def{Var: ctx.CNFVar(query.QVar("rel "+r.name+k), 0, 0), Val: r.tuples[k]})
	}
	return out
}

// Encoding: for every value of the variables that is excluded, one of their
// features has another value.
func (r *relation) Encoding(ctx query.QContext) (cnf.CNF, error) {
	row := []vals{}
	for _, id := range r.consts {
		c, ok := ctx.ScopeConst(query.QConst{ID: id})
		sym.Assert(ok, "quantified constant not scoped")
		row = append(row, append(vals{}, c.Val...))
	}
	type part struct {
		row []vals
		cl  cnf.Clause
	}
	parts := []part{{row, nil}}
	for _, x := range r.vars {
		sx := ctx.ScopeVar(x)
		next := []part{}
		for _, p := range parts {
			for _, v := range allInstances(ctx.Dim()) {
				cl := append(cnf.Clause{}, p.cl...)
				for i, k := range v {
					cl = append(cl, -ctx.CNFVar(sx, i, int(k)))
				}
				next = append(next, part{append(append([]vals{}, p.row...), v), cl})
			}
		}
		parts = next
	}
	f := cnf.CNF{}
	for _, p := range parts {
		f = f.AppendSemantics(append(p.cl, ctx.CNFVar(query.QVar("rel "+r.name+tupleKey(p.row)), 0, 0)))
	}
	return f, nil
}

func all[T any](xs []T, f func(T) bool) bool {
	out := []bool{}
	for _, x := range xs {
		out = append(out, f(x))
	}
	return sym.And(out...)
}

func some[T any](xs []T, f func(T) bool) bool {
	out := []bool{}
	for _, x := range xs {
		out = append(out, f(x))
	}
	return sym.Or(out...)
}

func forNodes(id string, q logop.LogOpQ) logop.LogOpQ {
	return logop.ForAllGuarded{I: query.QConst{ID: id}, Q: q}
}

func with(x query.QVar, q logop.LogOpQ) logop.LogOpQ { return logop.WithVar{I: x, Q: q} }
func not(q logop.LogOpQ) logop.LogOpQ                { return logop.Not{Q: q} }

func and(qs ...logop.LogOpQ) logop.LogOpQ {
	out := qs[len(qs)-1]
	for i := len(qs) - 2; i >= 0; i-- {
		out = logop.And{Q1: qs[i], Q2: out}
	}
	return out
}

func or(a, b logop.LogOpQ) logop.LogOpQ { return logop.Or{Q1: a, Q2: b} }

// smallTree is a tree of n inner nodes over as few features as it needs.
func smallTree(n int) tree {
	dim := 1
	for 1<<dim-1 < n {
		dim++
	}
	return tree{dim, anyTree(dim, n, n < 2)}
}

// C10_relations: arbitrary relations under every arrangement of quantifiers.
func C10_relations() {
	inner := sym.Choose("inner nodes", 3)
	t := smallTree(inner)
	form := sym.Choose("form", 11)
	nodes, every := t.instances(), allInstances(t.dim)
	var q logop.LogOpQ
	var rels []*relation
	var spec func() bool
	rel := func(name string, consts []string, vars ...query.QVar) *relation {
		r := newRelation(name, t.dim, nodes, consts, vars)
		rels = append(rels, r)
		return r
	}
	// y is one of the partial instances when it is declared outside.
	yv := inst("y", t.dim)
	yOut := false
	pick := func(f func(y vals) bool) bool {
		return some(every, func(v vals) bool { return sym.And(equalTo(v, yv), f(v)) })
	}
	switch form {
	case 0:
		r := rel("r", []string{"c"}, "x")
		q = forNodes("c", with("x", r))
		spec = func() bool {
			return all(nodes, func(c vals) bool { return some(every, func(x vals) bool { return r.has(c, x) }) })
		}
	case 1:
		r := rel("r", []string{"c"}, "x", "y")
		q, yOut = with("y", forNodes("c", with("x", r))), true
		spec = func() bool {
			return pick(func(y vals) bool {
				return all(nodes, func(c vals) bool { return some(every, func(x vals) bool { return r.has(c, x, y) }) })
			})
		}
	case 2:
		r := rel("r", []string{"d", "c"}, "x")
		q = forNodes("c", forNodes("d", with("x", r)))
		spec = func() bool {
			return all(nodes, func(c vals) bool {
				return all(nodes, func(d vals) bool { return some(every, func(x vals) bool { return r.has(d, c, x) }) })
			})
		}
	case 3:
		r := rel("r", []string{"c", "d"}, "x")
		q = forNodes("c", with("x", forNodes("d", r)))
		spec = func() bool {
			return all(nodes, func(c vals) bool {
				return some(every, func(x vals) bool { return all(nodes, func(d vals) bool { return r.has(c, d, x) }) })
			})
		}
	case 4:
		r := rel("r", []string{"c", "d"}, "x", "z")
		q = forNodes("c", with("x", forNodes("d", with("z", r))))
		spec = func() bool {
			return all(nodes, func(c vals) bool {
				return some(every, func(x vals) bool {
					return all(nodes, func(d vals) bool { return some(every, func(z vals) bool { return r.has(c, d, x, z) }) })
				})
			})
		}
	case 5:
		r, u := rel("r", []string{"c"}, "x"), rel("u", nil, "y")
		q, yOut = with("y", and(u, forNodes("c", with("x", r)))), true
		spec = func() bool {
			return pick(func(y vals) bool {
				return sym.And(u.has(y), all(nodes, func(c vals) bool { return some(every, func(x vals) bool { return r.has(c, x) }) }))
			})
		}
	case 6:
		// One value for all nodes.
		r := rel("r", []string{"c"}, "y")
		q, yOut = with("y", forNodes("c", not(r))), true
		spec = func() bool {
			return pick(func(y vals) bool { return all(nodes, func(c vals) bool { return !r.has(c, y) }) })
		}
	case 7:
		r, u := rel("r", []string{"c"}, "x"), rel("u", []string{"c"}, "z")
		q = forNodes("c", with("x", or(with("z", u), r)))
		spec = func() bool {
			return all(nodes, func(c vals) bool {
				return sym.Or(some(every, func(z vals) bool { return u.has(c, z) }), some(every, func(x vals) bool { return r.has(c, x) }))
			})
		}
	case 8:
		r, u := rel("r", []string{"c"}, "x"), rel("u", []string{"c", "d"}, "x")
		q = forNodes("c", with("x", and(not(r), forNodes("d", u))))
		spec = func() bool {
			return all(nodes, func(c vals) bool {
				return some(every, func(x vals) bool {
					return sym.And(!r.has(c, x), all(nodes, func(d vals) bool { return u.has(c, d, x) }))
				})
			})
		}
	case 9:
		// Two universals one after the other, with variables of their own.
		r, u := rel("r", []string{"c"}, "x", "y"), rel("u", []string{"d"}, "z", "y")
		q, yOut = with("y", and(forNodes("c", with("x", r)), forNodes("d", with("z", u)))), true
		spec = func() bool {
			return pick(func(y vals) bool {
				return sym.And(
					all(nodes, func(c vals) bool { return some(every, func(x vals) bool { return r.has(c, x, y) }) }),
					all(nodes, func(d vals) bool { return some(every, func(z vals) bool { return u.has(d, z, y) }) }))
			})
		}
	case 10:
		// Three levels.
		r := rel("r", []string{"c", "d", "e"}, "x")
		q = forNodes("c", forNodes("d", with("x", forNodes("e", r))))
		spec = func() bool {
			return all(nodes, func(c vals) bool {
				return all(nodes, func(d vals) bool {
					return some(every, func(x vals) bool {
						return all(nodes, func(e vals) bool { return r.has(c, d, e, x) })
					})
				})
			})
		}
	}
	ctx := query.BasicQContext(t)
	f, err := q.Encoding(ctx)
	noErr(err, "relations")
	checkCovered("relations", f)
	ctx.UpdateTopV(f.TopV())
	var defs []sym.Def
	for _, r := range rels {
		defs = append(defs, r.defs(ctx)...)
	}
	if yOut {
		defs = append(defs, defsOf(ctx, binding{"y", yv})...)
	}
	s, c := rawBoth(f)
	sym.Cover("relations")
	sym.EquivSat("relations", s, c, defs, spec())
}

// about is a formula of the library about x, the constant named id and y,
// with its definition.
type about struct {
	mk   func(x query.QVar, id string, y query.QVar) logop.LogOpQ
	spec func(t tree, x, c, y vals) bool
}

func abouts() []about {
	k := func(id string) query.QConst { return query.QConst{ID: id} }
	return []about{
		{func(x query.QVar, id string, y query.QVar) logop.LogOpQ {
			return subsumption.ConstVar{I1: k(id), I2: x}
		},
			func(t tree, x, c, y vals) bool { return oSubsumed(c, x) }},
		{func(x query.QVar, id string, y query.QVar) logop.LogOpQ {
			return lel.VarConst{I1: x, I2: k(id), CountVarGen: genCount}
		}, func(t tree, x, c, y vals) bool { return oLEL(x, c) }},
		{func(x query.QVar, id string, y query.QVar) logop.LogOpQ {
			return lel.VarVar{I1: y, I2: x, CountVarGen: genCount}
		}, func(t tree, x, c, y vals) bool { return oLEL(y, x) }},
		{func(x query.QVar, id string, y query.QVar) logop.LogOpQ { return not(cons.VarConst{I1: x, I2: k(id)}) },
			func(t tree, x, c, y vals) bool { return !oCons(x, c) }},
		{func(x query.QVar, id string, y query.QVar) logop.LogOpQ {
			return isnode.Var{I: x, ReachNodeVarGen: genReach}
		}, func(t tree, x, c, y vals) bool { return oNode(t.dim, t.nodes, x) }},
		{func(x query.QVar, id string, y query.QVar) logop.LogOpQ {
			return not(allcomp.Var{I: x, LeafValue: true, ReachNodeVarGen: genReach})
		}, func(t tree, x, c, y vals) bool { return !oAllComp(t.dim, t.nodes, x, true) }},
		{func(x query.QVar, id string, y query.QVar) logop.LogOpQ {
			return or(allcomp.Const{I: k(id), LeafValue: false}, full.Var{I: x})
		}, func(t tree, x, c, y vals) bool {
			return sym.Or(oAllComp(t.dim, t.nodes, c, false), oFull(x))
		}},
		{func(x query.QVar, id string, y query.QVar) logop.LogOpQ {
			return hepr.VarConst{I1: x, I2: k(id), Preference: []int{0}, FeaturePreferenceRankVarGen: genRank}
		}, func(t tree, x, c, y vals) bool { return oHEPR([]int{0}, x, c) }},
		{func(x query.QVar, id string, y query.QVar) logop.LogOpQ {
			return or(leh.VarConstVar{I1: x, I2: k(id), I3: y, HammingDistanceVarGen: genHamming, EqualFeatureVarGen: genEqual}, not(full.Const{I: k(id)}))
		}, func(t tree, x, c, y vals) bool { return sym.Or(oLEH(x, c, y), !oFull(c)) }},
		{func(x query.QVar, id string, y query.QVar) logop.LogOpQ { return not(dfs.Var{I: x}) },
			func(t tree, x, c, y vals) bool { return !oDFS(t.dim, t.nodes, x) }},
		{func(x query.QVar, id string, y query.QVar) logop.LogOpQ {
			return hepr.VarVar{I1: y, I2: x, Preference: []int{0}, FeaturePreferenceRankVarGen: genRank}
		}, func(t tree, x, c, y vals) bool { return oHEPR([]int{0}, y, x) }},
		{func(x query.QVar, id string, y query.QVar) logop.LogOpQ { return not(isnode.Const{I: k(id)}) },
			func(t tree, x, c, y vals) bool { return !oNode(t.dim, t.nodes, c) }},
	}
}

// C10_formulas: two formulas of the library about a variable declared under
// the universals.
func C10_formulas() {
	t := smallTree(1 + sym.Choose("inner nodes", sym.Bound("inner nodes", 1, 2)))
	if sym.Choose("extra feature", sym.Bound("extra features", 2, 2)) == 1 {
		t.dim++
		if t.dim > 2 {
			sym.Assume(false)
		}
	}
	nodes, every := t.instances(), allInstances(t.dim)
	as := abouts()
	a := as[sym.Choose("first", len(as))]
	b := as[sym.Choose("second", len(as))]
	yv := inst("y", t.dim)
	var q logop.LogOpQ
	var spec func() bool
	switch sym.Choose("form", sym.Bound("arrangements", 3, 3)) {
	case 0:
		q = with("y", forNodes("c", with("x", and(a.mk("x", "c", "y"), b.mk("x", "c", "y")))))
		spec = func() bool {
			return all(nodes, func(c vals) bool {
				return some(every, func(x vals) bool { return sym.And(a.spec(t, x, c, yv), b.spec(t, x, c, yv)) })
			})
		}
	case 1:
		q = with("y", forNodes("c", with("x", and(a.mk("x", "c", "y"), forNodes("d", or(b.mk("x", "d", "y"), not(a.mk("x", "c", "y"))))))))
		spec = func() bool {
			return all(nodes, func(c vals) bool {
				return some(every, func(x vals) bool {
					return sym.And(a.spec(t, x, c, yv), all(nodes, func(d vals) bool { return b.spec(t, x, d, yv) }))
				})
			})
		}
	case 2:
		q = with("y", forNodes("c", with("x", and(a.mk("x", "c", "y"), forNodes("d", with("z", b.mk("z", "d", "x")))))))
		spec = func() bool {
			return all(nodes, func(c vals) bool {
				return some(every, func(x vals) bool {
					return sym.And(a.spec(t, x, c, yv), all(nodes, func(d vals) bool {
						return some(every, func(z vals) bool { return b.spec(t, z, d, x) })
					}))
				})
			})
		}
	}
	ctx := query.BasicQContext(t)
	f, err := q.Encoding(ctx)
	noErr(err, "formulas")
	checkCovered("formulas", f)
	ctx.UpdateTopV(f.TopV())
	s, c := rawBoth(f)
	sym.Cover("formulas")
	sym.EquivSat("formulas", s, c, defsOf(ctx, binding{"y", yv}), spec())
}

// C10_again: a universal encoded several times in one context.
func C10_again() {
	t := smallTree(1 + sym.Choose("inner nodes", 2))
	if t.dim > 2 {
		sym.Assume(false)
	}
	nodes, every := t.instances(), allInstances(t.dim)
	as := abouts()
	a := as[sym.Choose("formula", len(as))]
	yv := inst("y", t.dim)
	q := with("y", forNodes("c", with("x", and(subsumption.VarConst{I1: "x", I2: query.QConst{ID: "c"}}, a.mk("x", "c", "y")))))
	want := all(nodes, func(c vals) bool {
		return some(every, func(x vals) bool { return sym.And(oSubsumed(x, c), a.spec(t, x, c, yv)) })
	})
	ctx := query.BasicQContext(t)
	times := 2 + sym.Choose("times", sym.Bound("more times", 2, 3))
	var f cnf.CNF
	for k := 0; k < times; k++ {
		var err error
		f, err = q.Encoding(ctx)
		noErr(err, "again")
		checkCovered("again", f)
		ctx.UpdateTopV(f.TopV())
	}
	s, c := rawBoth(f)
	sym.Cover("again")
	sym.EquivSat("again", s, c, defsOf(ctx, binding{"y", yv}), want)
}

// C10_levels: a variable below several universals.
func C10_levels() {
	t := smallTree(sym.Choose("inner nodes", 2))
	depth := 3 + sym.Choose("further levels", sym.Bound("further levels", 1, 2))
	// The variable is declared below this many of them.
	at := 1 + sym.Choose("level", depth)
	ids := []string{}
	for i := 0; i < depth; i++ {
		ids = append(ids, "c"+itoa(i))
	}
	r := newRelation("r", t.dim, t.instances(), ids, []query.QVar{"x"})
	q := logop.LogOpQ(r)
	for i := depth - 1; i >= 0; i-- {
		if i == at-1 {
			q = with("x", q)
		}
		q = forNodes(ids[i], q)
	}
	ctx := query.BasicQContext(t)
	f, err := q.Encoding(ctx)
	noErr(err, "levels")
	checkCovered("levels", f)
	ctx.UpdateTopV(f.TopV())
	defs := r.defs(ctx)
	s, c := rawBoth(f)
	nodes, every := t.instances(), allInstances(t.dim)
	var outer func(k int, row []vals) bool
	outer = func(k int, row []vals) bool {
		if k == at {
			return some(every, func(x vals) bool { return underWith(r, nodes, depth, k, row, x) })
		}
		return all(nodes, func(v vals) bool { return outer(k+1, append(append([]vals{}, row...), v)) })
	}
	sym.Cover("levels")
	sym.EquivSat("levels", s, c, defs, outer(0, nil))
}

// underWith: the relation holds for x and all values of the constants from the
// k-th.
func underWith(r *relation, nodes []vals, depth, k int, row []vals, x vals) bool {
	if k == depth {
		return r.has(append(append([]vals{}, row...), x)...)
	}
	return all(nodes, func(v vals) bool {
		return underWith(r, nodes, depth, k+1, append(append([]vals{}, row...), v), x)
	})
}

// C10_many: a witness for each of many nodes.
func C10_many() {
	t := complete(sym.Bound("depth of a complete tree", 4, 5))
	nodes := t.instances()
	ok := map[int]bool{}
	for _, v := range nodes {
		ok[code(v)] = sym.Bool("p" + itoa(code(v)))
	}
	// x is the node itself, if that one is permitted.
	same := and(subsumption.ConstVar{I1: query.QConst{ID: "c"}, I2: "x"}, subsumption.VarConst{I1: "x", I2: query.QConst{ID: "c"}})
	allowed := stub(func(ctx query.QContext) (cnf.CNF, error) {
		c, found := ctx.ScopeConst(query.QConst{ID: "c"})
		sym.Assert(found, "quantified constant not scoped")
		return cnf.FromClauses([]cnf.Clause{{ctx.CNFVar("allowed", code(c.Val), 0)}}), nil
	})
	q := forNodes("c", with("x", and(same, allowed)))
	ctx := query.BasicQContext(t)
	f, err := q.Encoding(ctx)
	noErr(err, "many")
	ctx.UpdateTopV(f.TopV())
	var defs []sym.Def
	want := []bool{}
	for _, v := range nodes {
		defs = append(defs, sym.Def{Var: ctx.CNFVar("allowed", code(v), 0), Val: ok[code(v)]})
		want = append(want, ok[code(v)])
	}
	s, c := rawBoth(f)
	sym.Cover("many")
	sym.EquivSat("many", s, c, defs, sym.And(want...))
}

// family is a formula of the library in all its versions.
type family struct {
	name string
	vs   []version
	spec func(t tree, a []arg) bool
}

func families(dim int) []family {
	pref := []int{}
	for i := dim - 1; i >= 0; i-- {
		pref = append(pref, i)
	}
	two := func(f func(a, b vals) bool) func(t tree, a []arg) bool {
		return func(t tree, a []arg) bool { return f(a[0].val, a[1].val) }
	}
	return []family{
		{"subsumption", subsumptionVs(), two(oSubsumed)},
		{"cons", consVs(), two(oCons)},
		{"lel", lelVs(), two(oLEL)},
		{"hepr", heprVs(pref), two(func(a, b vals) bool { return oHEPR(pref, a, b) })},
		{"leh", lehVs(), func(t tree, a []arg) bool { return oLEH(a[0].val, a[1].val, a[2].val) }},
		{"full", fullVs(), func(t tree, a []arg) bool { return oFull(a[0].val) }},
		{"isnode", isnodeVs(), func(t tree, a []arg) bool { return oNode(t.dim, t.nodes, a[0].val) }},
		{"allcomp", allcompVs(true), func(t tree, a []arg) bool { return oAllComp(t.dim, t.nodes, a[0].val, true) }},
		{"dfs", dfsVs(), func(t tree, a []arg) bool { return oDFS(t.dim, t.nodes, a[0].val) }},
	}
}

// C10_apart: which nodes have a property, for any formula of the library in
// any version about the node and variables declared outside.
func C10_apart() {
	t := tree{2, anyTree(2, 2, false)}
	fam := families(t.dim)
	fm := fam[sym.Choose("formula", len(fam))]
	v := fm.vs[sym.Choose("version", len(fm.vs))]
	args := make([]arg, len(v.kind))
	q := logop.LogOpQ(nil)
	ids := []string{}
	vars := []query.QVar{}
	defvals := []vals{}
	same := sym.Choose("same node", 2) == 1
	for i := range v.kind {
		if v.kind[i] == 'v' {
			x := []query.QVar{"y", "z", "w"}[len(vars)]
			args[i].v, args[i].val = x, inst(string(x), t.dim)
			vars, defvals = append(vars, x), append(defvals, args[i].val)
		} else {
			if same && len(ids) > 0 {
				args[i].c.ID = ids[0]
				continue
			}
			args[i].c.ID = []string{"c", "d", "e"}[len(ids)]
			ids = append(ids, args[i].c.ID)
		}
	}
	if len(vars) == 0 || (len(ids) == 0 && same) {
		sym.Assume(false)
	}
	inside := sym.Choose("inside", 2) == 1 // under a universal of its own
	r := newRelation("r", t.dim, t.instances(), ids, nil)
	a := v.mk(args)
	q = or(and(a, r), and(not(a), not(r)))
	for i := len(ids) - 1; i >= 0; i-- {
		q = forNodes(ids[i], q)
	}
	if inside {
		q = and(q, forNodes("c", with("u", full.Var{I: "u"})))
	}
	for i := len(vars) - 1; i >= 0; i-- {
		q = with(vars[i], q)
	}
	ctx := query.BasicQContext(t)
	f, err := q.Encoding(ctx)
	noErr(err, "apart")
	checkCovered("apart", f)
	ctx.UpdateTopV(f.TopV())
	defs := r.defs(ctx)
	for i, x := range vars {
		defs = append(defs, defsOf(ctx, binding{x, defvals[i]})...)
	}
	var spec func(k int, row []vals) bool
	spec = func(k int, row []vals) bool {
		if k < len(ids) {
			return all(t.instances(), func(c vals) bool { return spec(k+1, append(append([]vals{}, row...), c)) })
		}
		b := append([]arg{}, args...)
		for i := range v.kind {
			for j, id := range ids {
				if v.kind[i] == 'c' && b[i].c.ID == id {
					b[i].val = row[j]
				}
			}
		}
		return sym.Iff(fm.spec(t, b), r.has(row...))
	}
	s, c := rawBoth(f)
	sym.Cover("apart")
	sym.EquivSat("apart "+fm.name+" "+v.kind, s, c, defs, spec(0, nil))
}
