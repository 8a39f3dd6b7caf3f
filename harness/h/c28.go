package h

// Whole explanation queries.

import (
	"github.com/jtcaraball/goexpdt/compute"
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/extensions/allcomp"
	"github.com/jtcaraball/goexpdt/query/extensions/dfs"
	"github.com/jtcaraball/goexpdt/query/extensions/full"
	"github.com/jtcaraball/goexpdt/query/extensions/hepr"
	"github.com/jtcaraball/goexpdt/query/extensions/leh"
	"github.com/jtcaraball/goexpdt/query/logop"
	"github.com/jtcaraball/goexpdt/query/predicates/isnode"
	"github.com/jtcaraball/goexpdt/query/predicates/lel"
	"github.com/jtcaraball/goexpdt/query/predicates/subsumption"
	"verifharness/sym"
)

// explanation is a property of instances with its formula.
type explanation struct {
	name string
	mk   compute.SVFormula
	is   func(x vals) bool
}

func implies(a, b logop.LogOpQ) logop.LogOpQ { return or(not(a), b) }

// explanations are properties about a model and an instance.
func explanations(t tree, c query.QConst) []explanation {
	comp := func(v query.QVar, lv bool) logop.LogOpQ {
		return allcomp.Var{I: v, LeafValue: lv, ReachNodeVarGen: genReach}
	}
	is := func(x vals, lv bool) bool { return oAllComp(t.dim, t.nodes, x, lv) }
	return []explanation{
		{"sufficient reason", func(v query.QVar) compute.Encodable {
			return with(v, and(subsumption.VarConst{I1: v, I2: c},
				implies(allcomp.Const{I: c, LeafValue: true}, comp(v, true)),
				implies(allcomp.Const{I: c, LeafValue: false}, comp(v, false))))
		}, func(x vals) bool {
			return sym.And(oSubsumed(x, c.Val),
				sym.Implies(is(c.Val, true), is(x, true)), sym.Implies(is(c.Val, false), is(x, false)))
		}},
		{"counterfactual", func(v query.QVar) compute.Encodable {
			return and(full.Var{I: v},
				implies(allcomp.Const{I: c, LeafValue: true}, comp(v, false)),
				implies(allcomp.Const{I: c, LeafValue: false}, comp(v, true)))
		}, func(x vals) bool {
			return sym.And(oFull(x), sym.Implies(is(c.Val, true), is(x, false)), sym.Implies(is(c.Val, false), is(x, true)))
		}},
		{"determinant feature set", func(v query.QVar) compute.Encodable { return dfs.Var{I: v} },
			func(x vals) bool { return oDFS(t.dim, t.nodes, x) }},
		{"node of a class", func(v query.QVar) compute.Encodable {
			return and(isnode.Var{I: v, ReachNodeVarGen: genReach}, or(comp(v, true), comp(v, false)))
		}, func(x vals) bool {
			return sym.And(oNode(t.dim, t.nodes, x), sym.Or(is(x, true), is(x, false)))
		}},
		{"above every node", func(v query.QVar) compute.Encodable {
			n := query.QConst{ID: "n"}
			return forNodes("n", or(lel.ConstVar{I1: n, I2: v, CountVarGen: genCount}, not(allcomp.Const{I: n, LeafValue: true})))
		}, func(x vals) bool {
			return all(t.instances(), func(n vals) bool { return sym.Or(oLEL(n, x), !is(n, true)) })
		}},
	}
}

// preferences are strict orders with their formulas.
func preferred(dim int, c query.QConst) []order {
	pref := prefUpTo(dim)
	return []order{
		{func(a, b vals) bool { return sym.And(oSubsumed(a, b), !oSubsumed(b, a)) },
			func(v query.QVar, u query.QConst) compute.Encodable {
				return and(subsumption.VarConst{I1: v, I2: u}, not(subsumption.ConstVar{I1: u, I2: v}))
			}},
		{func(a, b vals) bool { return sym.And(oLEL(a, b), !oLEL(b, a)) },
			func(v query.QVar, u query.QConst) compute.Encodable {
				return and(lel.VarConst{I1: v, I2: u, CountVarGen: genCount}, not(lel.ConstVar{I1: u, I2: v, CountVarGen: genCount}))
			}},
		{func(a, b vals) bool { return sym.And(oHEPR(pref, a, b), !oHEPR(pref, b, a)) },
			func(v query.QVar, u query.QConst) compute.Encodable {
				return and(hepr.VarConst{I1: v, I2: u, Preference: pref, FeaturePreferenceRankVarGen: genRank},
					not(hepr.ConstVar{I1: u, I2: v, Preference: pref, FeaturePreferenceRankVarGen: genRank}))
			}},
		{func(a, b vals) bool { return sym.And(oLEH(c.Val, a, b), !oLEH(c.Val, b, a)) },
			func(v query.QVar, u query.QConst) compute.Encodable {
				return and(leh.ConstVarConst{I1: c, I2: v, I3: u, HammingDistanceVarGen: genHamming},
					not(leh.ConstConstVar{I1: c, I2: u, I3: v, HammingDistanceVarGen: genHamming}))
			}},
	}
}

// checkExplained computes an optimal explanation and states that it is one.
func checkExplained(e explanation, o order, t tree, s compute.Solver, steps func() int) compute.OptOutput {
	out, err := compute.ComputeOptim(e.mk, o.mk, "x", query.BasicQContext(t), s)
	noErr(err, e.name)
	sym.Assert(out.Calls == steps(), e.name+": wrong number of calls")
	every := allInstances(t.dim)
	if !out.Found {
		sym.Cover("not found")
		sym.Assert(!some(every, e.is), e.name+": one exists")
		return out
	}
	sym.Cover("found")
	sym.Assert(len(out.Value.Val) == t.dim, e.name+": a value of wrong length")
	sym.Assert(e.is(out.Value.Val), e.name+": the value is none")
	for _, u := range every {
		sym.Assert(!sym.And(e.is(u), o.less(u, out.Value.Val)), e.name+": the value is not optimal")
	}
	return out
}

// C28_explanations: every property under every order, for small trees.
func C28_explanations() {
	k := sym.Choose("inner nodes", sym.Bound("inner nodes of explained trees", 3, 4))
	dim := 1
	switch {
	case k > 2:
		dim = 3
	case k > 1:
		dim = 2
	}
	t := plainTree(k, dim)
	c := query.QConst{Val: inst("c", t.dim)}
	es, os := explanations(t, c), preferred(t.dim, c)
	e, o := es[sym.Choose("property", len(es))], os[sym.Choose("order", len(os))]
	s := &ideal{}
	checkExplained(e, o, t, s, func() int { return s.steps })
}

// C28_reason: minimal sufficient reasons of full instances for larger trees.
func C28_reason() {
	k := sym.Choose("inner nodes", sym.Bound("inner nodes of reasons", 3, 4))
	t := plainTree(k, 2+k/3)
	v := inst("c", t.dim)
	sym.Assume(oFull(v))
	c := query.QConst{Val: v}
	s := &ideal{}
	e := explanations(t, c)[0]
	out := checkExplained(e, preferred(t.dim, c)[sym.Choose("order", 2)], t, s, func() int { return s.steps })
	sym.Assert(out.Found, "a full instance has a sufficient reason")
}

// minimumDFS asks whether c is a determinant feature set of least size.
func minimumDFS(c query.QConst) compute.QDTFAtom {
	return compute.QDTFAtom{
		Query: or(not(dfs.Const{I: c}), with("y", and(dfs.Var{I: "y"},
			lel.VarConst{I1: "y", I2: c, CountVarGen: genCount},
			not(lel.ConstVar{I1: c, I2: "y", CountVarGen: genCount})))),
		Negated: true,
	}
}

// C28_minimum: whether an instance is a determinant feature set of least size.
func C28_minimum() {
	k := sym.Choose("inner nodes", sym.Bound("inner nodes", 4, 5))
	t := plainTree(k, 2+k/3)
	c := query.QConst{Val: inst("c", t.dim)}
	s := &ideal{}
	got, err := minimumDFS(c).Sat(query.BasicQContext(t), s)
	noErr(err, "minimum")
	sym.Cover("evaluated")
	set := func(x vals) bool { return oDFS(t.dim, t.nodes, x) }
	want := sym.And(set(c.Val), !some(allInstances(t.dim), func(y vals) bool {
		return sym.And(set(y), oLEL(y, c.Val), !oLEL(c.Val, y))
	}))
	sym.Assert(sym.Iff(got, want), "the evaluation is wrong")
}

// C28_external: the same through an external solver that decides the text it
// is given.
func C28_external() {
	t := oneNode(1 + sym.Choose("extra feature", sym.Bound("dimension through a solver", 2, 2)))
	c := query.QConst{Val: inst("c", t.dim)}
	s := newBin("external")
	sym.IdealSolver()
	if sym.Choose("computation", 2) == 0 {
		es := explanations(t, c)
		e := es[sym.Choose("property", sym.Bound("properties through a solver", 5, 5))]
		o := preferred(t.dim, c)[sym.Choose("order", sym.Bound("orders through a solver", 4, 4))]
		checkExplained(e, o, t, s, sym.SolverRuns)
	} else {
		got, err := minimumDFS(c).Sat(query.BasicQContext(t), s)
		noErr(err, "minimum")
		sym.Cover("evaluated")
		set := func(x vals) bool { return oDFS(t.dim, t.nodes, x) }
		want := sym.And(set(c.Val), !some(allInstances(t.dim), func(y vals) bool {
			return sym.And(set(y), oLEL(y, c.Val), !oLEL(c.Val, y))
		}))
		sym.Assert(sym.Iff(got, want), "the evaluation is wrong")
	}
	nothingLeft("external", 0)
}

// C28_big: sufficient reasons for larger trees.
func C28_big() {
	k := sym.Bound("inner nodes of larger trees", 7, 9)
	t := bigTree(sym.Choose("larger tree", sym.Bound("larger trees", 2, 12)), k, 4, 0)
	full := sym.Choose("full", 2) == 1
	v := vals{}
	for i := 0; i < t.dim; i++ {
		f := sym.Int("c"+itoa(i), 1, 2)
		if !full {
			f = (f - 1) * (1 + i%2) // bottom or a value
		}
		v = append(v, query.FeatV(f))
	}
	c := query.QConst{Val: v}
	s := &ideal{}
	e := explanations(t, c)[sym.Choose("property", sym.Bound("explanations", 1, 2))]
	out := checkExplained(e, preferred(t.dim, c)[sym.Choose("order", 2)], t, s, func() int { return s.steps })
	if e.name == "sufficient reason" {
		sym.Assert(out.Found, "a full instance has a sufficient reason")
	}
}
