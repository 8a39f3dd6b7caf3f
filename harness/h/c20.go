package h

// Formulas that share a context.

import (
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/extensions/allcomp"
	"github.com/jtcaraball/goexpdt/query/extensions/cons"
	"github.com/jtcaraball/goexpdt/query/extensions/dfs"
	"github.com/jtcaraball/goexpdt/query/extensions/full"
	"github.com/jtcaraball/goexpdt/query/extensions/hepr"
	"github.com/jtcaraball/goexpdt/query/logop"
	"github.com/jtcaraball/goexpdt/query/predicates/isnode"
	"github.com/jtcaraball/goexpdt/query/predicates/lel"
	"github.com/jtcaraball/goexpdt/query/predicates/subsumption"
	"verifharness/sym"
)

// member is a formula with its definition.
type member struct {
	name string
	q    logop.LogOpQ
	spec func() bool
}

// things are the variables and constants members are about.
type things struct {
	t        tree
	x, y     arg
	c, d     arg
	declared map[query.QVar]arg
}

// newThings has constants of values lo to hi.
func newThings(t tree, lo, hi int) *things {
	k := func(name string) arg {
		v := make(vals, t.dim)
		for i := range v {
			v[i] = query.FeatV(sym.Int(name+itoa(i), lo, hi))
		}
		return arg{c: query.QConst{Val: v}, val: v}
	}
	x := arg{v: "x", val: inst("x", t.dim)}
	y := arg{v: "y", val: inst("y", t.dim)}
	return &things{t: t, x: x, y: y, c: k("c"), d: k("d")}
}

// pairUp encodes two members in one context and checks that each keeps its
// meaning in the presence of the other.
func (th *things) pairUp(a, b member) {
	ctx := query.BasicQContext(th.t)
	if sym.Choose("variables exist", 2) == 1 {
		register(ctx, th.y.v)
		register(ctx, th.x.v)
	}
	f, err := a.q.Encoding(ctx)
	noErr(err, a.name)
	g, err := b.q.Encoding(ctx)
	noErr(err, b.name)
	checkCovered(a.name, f)
	checkCovered(b.name, g)
	ctx.UpdateTopV(f.TopV())
	ctx.UpdateTopV(g.TopV())
	defs := defsOf(ctx, binding{th.x.v, th.x.val}, binding{th.y.v, th.y.val})
	fs, fc := rawBoth(f)
	gs, gc := rawBoth(g)
	c := append(append([][]int{}, fc...), gc...)
	sym.Cover("together")
	sym.Equiv(a.name+" with "+b.name, fs, c, defs, a.spec())
	sym.Equiv(b.name+" after "+a.name, gs, c, defs, b.spec())
}

// combine encodes a query built of two members.
func (th *things) combine(a, b member) {
	var q logop.LogOpQ
	var spec func() bool
	switch sym.Choose("combination", 4) {
	case 0:
		q, spec = and(a.q, b.q), func() bool { return sym.And(a.spec(), b.spec()) }
	case 1:
		q, spec = or(a.q, b.q), func() bool { return sym.Or(a.spec(), b.spec()) }
	case 2:
		q, spec = or(not(a.q), and(b.q, a.q)), func() bool { return sym.Or(!a.spec(), b.spec()) }
	case 3:
		q, spec = and(not(and(a.q, b.q)), not(and(b.q, a.q))), func() bool { return !sym.And(a.spec(), b.spec()) }
	}
	ctx := query.BasicQContext(th.t)
	f, err := with(th.x.v, with(th.y.v, q)).Encoding(ctx)
	noErr(err, "combination")
	checkCovered("combination", f)
	ctx.UpdateTopV(f.TopV())
	s, c := rawBoth(f)
	sym.Cover("combined")
	sym.Equiv("combination of "+a.name+" and "+b.name, s, c,
		defsOf(ctx, binding{th.x.v, th.x.val}, binding{th.y.v, th.y.val}), spec())
}

func mk(name string, q logop.LogOpQ, spec func() bool) member { return member{name, q, spec} }

func (th *things) lels() []member {
	x, y, c, d := th.x, th.y, th.c, th.d
	cv := func(a, b arg) member {
		return mk("lel", lel.ConstVar{I1: a.c, I2: b.v, CountVarGen: genCount}, func() bool { return oLEL(a.val, b.val) })
	}
	vc := func(a, b arg) member {
		return mk("lel", lel.VarConst{I1: a.v, I2: b.c, CountVarGen: genCount}, func() bool { return oLEL(a.val, b.val) })
	}
	vv := func(a, b arg) member {
		return mk("lel", lel.VarVar{I1: a.v, I2: b.v, CountVarGen: genCount}, func() bool { return oLEL(a.val, b.val) })
	}
	return []member{cv(c, x), vc(x, c), vv(x, y), vv(y, x), cv(d, y), vc(x, d), vv(x, x), cv(d, x)}
}

func (th *things) heprs(pref []int) []member {
	x, y, c, d := th.x, th.y, th.c, th.d
	cv := func(a, b arg) member {
		return mk("hepr", hepr.ConstVar{I1: a.c, I2: b.v, Preference: pref, FeaturePreferenceRankVarGen: genRank}, func() bool { return oHEPR(pref, a.val, b.val) })
	}
	vc := func(a, b arg) member {
		return mk("hepr", hepr.VarConst{I1: a.v, I2: b.c, Preference: pref, FeaturePreferenceRankVarGen: genRank}, func() bool { return oHEPR(pref, a.val, b.val) })
	}
	vv := func(a, b arg) member {
		return mk("hepr", hepr.VarVar{I1: a.v, I2: b.v, Preference: pref, FeaturePreferenceRankVarGen: genRank}, func() bool { return oHEPR(pref, a.val, b.val) })
	}
	return []member{cv(c, x), vc(x, c), vv(x, y), vv(y, x), vc(x, d), cv(d, x)}
}

func (th *things) lehs() []member {
	x, y, c, d := th.x, th.y, th.c, th.d
	vs := lehVs()
	l := func(i int, as ...arg) member {
		return mk("leh."+vs[i].kind, vs[i].mk(as), func() bool { return oLEH(as[0].val, as[1].val, as[2].val) })
	}
	return []member{
		l(1, c, d, x), l(1, d, c, x), l(2, c, x, d), l(2, d, x, c), l(3, c, x, y), l(3, d, y, x),
		l(4, x, c, d), l(4, x, d, c), l(5, x, c, y), l(5, y, d, x), l(6, x, y, c), l(6, y, x, d),
		l(7, x, y, x), l(7, y, y, x), l(0, c, d, c),
	}
}

func (th *things) models() []member {
	x, y, t := th.x, th.y, th.t
	node := func(a arg) member {
		return mk("isnode", isnode.Var{I: a.v, ReachNodeVarGen: genReach}, func() bool { return oNode(t.dim, t.nodes, a.val) })
	}
	comp := func(a arg, lv bool) member {
		return mk("allcomp", allcomp.Var{I: a.v, LeafValue: lv, ReachNodeVarGen: genReach}, func() bool { return oAllComp(t.dim, t.nodes, a.val, lv) })
	}
	det := func(a arg) member {
		return mk("dfs", dfs.Var{I: a.v}, func() bool { return oDFS(t.dim, t.nodes, a.val) })
	}
	return []member{node(x), comp(x, true), comp(x, false), node(y), comp(y, true), det(x)}
}

// kinds is one member of every kind.
func (th *things) kinds() []member {
	x, y, c, d := th.x, th.y, th.c, th.d
	pref := []int{}
	for i := th.t.dim - 1; i >= 0; i-- {
		pref = append(pref, i)
	}
	ms := th.models()
	vs := lehVs()
	return append(ms[:3:3],
		mk("subsumption", subsumption.VarConst{I1: x.v, I2: c.c}, func() bool { return oSubsumed(x.val, c.val) }),
		mk("subsumption", subsumption.VarVar{I1: y.v, I2: x.v}, func() bool { return oSubsumed(y.val, x.val) }),
		mk("cons", cons.ConstVar{I1: c.c, I2: x.v}, func() bool { return oCons(c.val, x.val) }),
		mk("cons", cons.VarVar{I1: x.v, I2: y.v}, func() bool { return oCons(x.val, y.val) }),
		mk("full", full.Var{I: x.v}, func() bool { return oFull(x.val) }),
		th.lels()[0], th.lels()[2],
		th.heprs(pref)[1], th.heprs(pref)[2],
		mk("leh", vs[6].mk([]arg{x, y, d}), func() bool { return oLEH(x.val, y.val, d.val) }),
		mk("leh", vs[7].mk([]arg{x, y, x}), func() bool { return oLEH(x.val, y.val, x.val) }),
	)
}

func chooseTwo(as, bs []member) (member, member) {
	return as[sym.Choose("first", len(as))], bs[sym.Choose("second", len(bs))]
}

// C20_lel: levels.
func C20_lel() {
	th := newThings(tree{dim: 1 + sym.Choose("dim", sym.Bound("dimension", 3, 4))}, 0, 2)
	th.pairUp(chooseTwo(th.lels(), th.lels()))
}

// C20_leh: Hamming distances.
func C20_leh() {
	th := newThings(tree{dim: 1 + sym.Choose("dim", sym.Bound("dimension of distances", 2, 2))}, 1, 2)
	th.pairUp(chooseTwo(th.lehs(), th.lehs()))
}

// C20_hepr: preference ranks.
func C20_hepr() {
	dim := 1 + sym.Choose("dim", 2)
	th := newThings(tree{dim: dim}, 0, 1)
	// Preferences may share memory.
	up, down := []int{0, 1}, []int{1, 0}
	prefs := [][]int{up[:0], up[:1], down[:1], up, down}[:2+3*(dim-1)]
	p := prefs[sym.Choose("first preference", len(prefs))]
	r := prefs[sym.Choose("second preference", len(prefs))]
	th.pairUp(chooseTwo(th.heprs(p)[:5], th.heprs(r)))
}

// C20_preferences: features of more than one digit.
func C20_preferences() {
	t := tree{dim: 13}
	x := arg{v: "x", val: inst("x", t.dim)}
	y := arg{v: "y", val: inst("y", t.dim)}
	v := make(vals, t.dim)
	for i := range v {
		v[i] = query.FeatV((i + 1) % 3)
	}
	c := arg{c: query.QConst{Val: v}, val: v}
	th := &things{t: t, x: x, y: y, c: c, d: c}
	more := []int{1, 2, 12}
	prefs := [][]int{{1, 12}, {11, 2}, more, {12, 1, 2}, {0, 11, 2}, {12}, more[:2]}
	p := prefs[sym.Choose("first preference", len(prefs))]
	r := prefs[sym.Choose("second preference", len(prefs))]
	th.pairUp(chooseTwo(th.heprs(p)[:4], th.heprs(r)[:4]))
}

// C20_models: formulas about the model with one reachability generator.
func C20_models() {
	th := newThings(plainTree(sym.Choose("inner nodes", 3), 2), 0, 2)
	th.pairUp(chooseTwo(th.models(), th.models()))
}

// C20_kinds: formulas of different kinds.
func C20_kinds() {
	th := newThings(smallTree(1+sym.Choose("inner nodes", 1)), 1, 2)
	th.pairUp(chooseTwo(th.kinds(), th.kinds()))
}

// C20_combinations: queries over formulas of different kinds.
func C20_combinations() {
	t := smallTree(1)
	t.dim = 1 + sym.Choose("extra feature", 2)
	th := newThings(t, 1, 2)
	th.combine(chooseTwo(th.kinds(), th.kinds()))
}

// plainTree is a tree of k inner nodes in any shape, numbered from the last
// node visited to the first.
func plainTree(k, dim int) tree {
	ss := shapes(k)
	s := ss[sym.Choose("shape", len(ss))]
	fs := features(s, dim, 0)
	return tree{dim, layout(s, fs[sym.Choose("features", len(fs))], numberings(2*k+1, false)[1], nil)}
}
