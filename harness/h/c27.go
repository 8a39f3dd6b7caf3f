package h

// Contexts that were used before.

import (
	"errors"

	"github.com/jtcaraball/goexpdt/cnf"
	"github.com/jtcaraball/goexpdt/compute"
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/extensions/allcomp"
	"github.com/jtcaraball/goexpdt/query/extensions/cons"
	"github.com/jtcaraball/goexpdt/query/extensions/dfs"
	"github.com/jtcaraball/goexpdt/query/extensions/full"
	"github.com/jtcaraball/goexpdt/query/extensions/hepr"
	"github.com/jtcaraball/goexpdt/query/extensions/leh"
	"github.com/jtcaraball/goexpdt/query/logop"
	"github.com/jtcaraball/goexpdt/query/predicates/isnode"
	"github.com/jtcaraball/goexpdt/query/predicates/lel"
	"github.com/jtcaraball/goexpdt/query/predicates/subsumption"
	"verifharness/sym"
)

// means is the definition of the form.
func (f form) means(t tree, a []vals, pref []int, lv bool) bool {
	switch f.name {
	case "subsumption":
		return oSubsumed(a[0], a[1])
	case "cons":
		return oCons(a[0], a[1])
	case "lel":
		return oLEL(a[0], a[1])
	case "full":
		return oFull(a[0])
	case "isnode":
		return oNode(t.dim, t.nodes, a[0])
	case "allcomp":
		return oAllComp(t.dim, t.nodes, a[0], lv)
	case "dfs":
		return oDFS(t.dim, t.nodes, a[0])
	case "hepr":
		return oHEPR(pref, a[0], a[1])
	}
	return oLEH(a[0], a[1], a[2])
}

var nHistories = 8

// soil uses a context in one of several ways. Variables and constants have the
// names of those used later.
func soil(ctx query.QContext, k int) {
	dim := ctx.Dim()
	one := make(vals, dim)
	for i := range one {
		one[i] = query.ONE
	}
	c0, c1 := query.QConst{ID: "k0"}, query.QConst{ID: "k1", Val: one}
	var q logop.LogOpQ
	fails := false
	switch k {
	case 0:
		return
	case 1: // variables under universals over the same constants
		q = forNodes("k0", with("x0", and(subsumption.ConstVar{I1: c0, I2: "x0"}, with("x1",
			lel.VarVar{I1: "x0", I2: "x1", CountVarGen: genCount}))))
	case 2: // nested, failing in the middle
		n := 0
		fails = true
		q = forNodes("k1", with("x0", forNodes("k0", with("x1", stub(func(ctx query.QContext) (cnf.CNF, error) {
			n++
			if n == 3 {
				return cnf.CNF{}, errSub
			}
			return cons.VarVar{I1: "x0", I2: "x1"}.Encoding(ctx)
		})))))
	case 3: // auxiliary variables of every kind about the same variables
		q = with("x0", with("x1", not(and(
			isnode.Var{I: "x0", ReachNodeVarGen: genReach},
			allcomp.Var{I: "x0", LeafValue: true, ReachNodeVarGen: genReach},
			not(dfs.Var{I: "x1"}),
			lel.VarConst{I1: "x0", I2: c1, CountVarGen: genCount},
			leh.VarVarConst{I1: "x0", I2: "x1", I3: c1, HammingDistanceVarGen: genHamming, EqualFeatureVarGen: genEqual},
			hepr.VarVar{I1: "x1", I2: "x0", Preference: prefUpTo(dim), FeaturePreferenceRankVarGen: genRank}))))
	case 4: // a constant of wrong length, after much else
		fails = true
		q = with("x0", with("x1", or(not(full.Var{I: "x0"}), subsumption.VarConst{I1: "x1", I2: query.QConst{ID: "k0", Val: make(vals, dim+1)}})))
	case 5: // only the first variable
		q = with("x0", not(full.Var{I: "x0"}))
	case 6: // used without a declaration
		q = not(subsumption.VarVar{I1: "x1", I2: "x0"})
	case 7: // the numbering starts elsewhere
		for i := 0; i < 5; i++ {
			ctx.CNFVar("x1", dim-1, i)
		}
		ctx.UpdateTopV(40)
		return
	}
	_, err := q.Encoding(ctx)
	sym.Assert((err != nil) == fails, "preparation")
}

// checkReuse encodes a query about a formula of the library in a used context.
func checkReuse(reset bool) {
	f := anyForm()
	dim := 1
	switch len(f.kind) {
	case 1:
		dim = sym.Bound("dimension, one argument", 2, 3)
	case 2:
		dim = sym.Bound("dimension, two arguments", 2, 2)
	case 3:
		dim = sym.Bound("dimension, three arguments", 1, 2)
	}
	t := oneNode(dim)
	ctx := query.BasicQContext(t)
	history := sym.Choose("history", nHistories+2)
	if history < nHistories {
		soil(ctx, history)
	}
	if reset {
		if sym.Choose("open scopes", 2) == 1 {
			ctx.AddScope("k0")
			ctx.AddScope("k1")
			noErr(ctx.SetScope(1, make(vals, dim)), "setting a scope")
			ctx.AddVar("x0")
		}
		ctx.Reset()
		sym.Assert(ctx.TopV() == 0, "variables remain after a reset")
		sym.Assert(ctx.PopScope() != nil, "scopes remain after a reset")
	}
	args := make(fargs, len(f.kind))
	vs := make([]vals, len(f.kind))
	bs := []binding{}
	for i := range f.kind {
		args[i].v = query.QVar("x" + itoa(i))
		if f.kind[i] == 'v' {
			vs[i] = inst("x"+itoa(i)+".", dim)
			bs = append(bs, binding{args[i].v, vs[i]})
			continue
		}
		vs[i] = inst("c"+itoa(i)+".", dim)
		args[i].c = query.QConst{ID: "k" + itoa(i), Val: vs[i]}
	}
	pref := prefUpTo(dim)
	lv := sym.Bool("requested")
	q := f.mk(args, allGens(), pref, lv)
	negated := sym.Choose("negated", 2) == 1
	if negated {
		q = not(q)
	}
	for i := len(args) - 1; i >= 0; i-- {
		if f.kind[i] == 'v' {
			q = with(args[i].v, q)
		}
	}
	if history >= nHistories { // the query itself
		g, err := q.Encoding(ctx)
		noErr(err, f.name)
		ctx.UpdateTopV(g.TopV())
		if history > nHistories { // and once more elsewhere
			other := query.BasicQContext(t)
			other.UpdateTopV(41)
			for k := 0; k < 2; k++ {
				g, err = q.Encoding(other)
				noErr(err, f.name)
				other.UpdateTopV(g.TopV())
			}
		}
		if reset {
			ctx.Reset()
		}
	}
	g, err := q.Encoding(ctx)
	noErr(err, f.name)
	checkCovered(f.name, g)
	ctx.UpdateTopV(g.TopV())
	s, c := rawBoth(g)
	sym.Cover("encoded")
	sym.Equiv(f.name+"."+f.kind, s, c, defsOf(ctx, bs...), f.means(t, vs, pref, lv) != negated)
	// By itself the query asks whether there are such instances.
	rows := [][]vals{{}}
	for i := range f.kind {
		next := [][]vals{}
		for _, r := range rows {
			if f.kind[i] == 'c' {
				next = append(next, append(append([]vals{}, r...), vs[i]))
				continue
			}
			for _, u := range allInstances(dim) {
				next = append(next, append(append([]vals{}, r...), u))
			}
		}
		rows = next
	}
	sym.EquivSat(f.name+"."+f.kind+" alone", s, c, nil, some(rows, func(r []vals) bool {
		return f.means(t, r, pref, lv) != negated
	}))
}

// C27_reset: encoding in a context after a reset.
func C27_reset() { checkReuse(true) }

// C27_again: encoding in a context without a reset.
func C27_again() { checkReuse(false) }

// C27_inputs: what formulas are made of stays as it is, and encoding the same
// formula again, elsewhere, gives the same.
func C27_inputs() {
	f := anyForm()
	dim := 2
	if f.kind == "ccc" {
		dim = 1
	}
	// Nodes whose other fields mean nothing, with room to spare.
	t := tree{dim, append(make([]query.Node, 0, 8), []query.Node{
		{Feat: dim - 1, ZChild: 2, OChild: 1, Value: true},
		{Feat: 7, ZChild: query.NoChild, OChild: 0, Value: sym.Bool("leaf0")},
		{Feat: -4, ZChild: 99, OChild: -6, Value: sym.Bool("leaf1")},
	}...)}
	spare := t.nodes[:8]
	for i := 3; i < len(spare); i++ {
		spare[i].Feat = 55
	}
	// Slices with room to spare.
	own := func(v vals) vals {
		w := make(vals, len(v), len(v)+3)
		copy(w, v)
		full := w[:len(v)+3]
		for i := len(v); i < len(full); i++ {
			full[i] = 77
		}
		return w
	}
	same := func(what string, w, v vals) {
		full := w[:len(v)+3]
		for i := range full {
			if i < len(v) {
				sym.Assert(full[i] == v[i], what+" is altered")
			} else {
				sym.Assert(full[i] == 77, what+" is written behind its end")
			}
		}
	}
	ctx := query.BasicQContext(t)
	args := make(fargs, len(f.kind))
	given := make([]vals, len(f.kind))
	vs := make([]vals, len(f.kind))
	scoped := sym.Choose("scoped", 2) == 1
	for i := range f.kind {
		args[i].v = query.QVar("x" + itoa(i))
		vs[i] = inst("a"+itoa(i)+".", dim)
		if f.kind[i] != 'c' {
			continue
		}
		given[i] = own(vs[i])
		args[i].c = query.QConst{ID: "k" + itoa(i), Val: given[i]}
		if scoped {
			ctx.AddScope(args[i].c.ID)
			noErr(ctx.SetScope(2, given[i]), "setting a scope")
			args[i].c.Val = nil
		}
	}
	nodes := append([]query.Node{}, t.nodes...)
	pref := make([]int, 0, dim+2)
	for i := 0; i < dim; i++ {
		pref = append(pref, dim-1-i)
	}
	pref[:dim+1][dim] = 99
	lv := sym.Bool("requested")
	q := f.mk(args, allGens(), pref, lv)
	var g [2]cnf.CNF
	for k := range g {
		if k == 1 && !scoped {
			ctx = query.BasicQContext(t)
		} else if k == 1 {
			for ctx.PopScope() == nil {
			}
			ctx.Reset()
			for i := range f.kind {
				if f.kind[i] == 'c' {
					ctx.AddScope(args[i].c.ID)
					noErr(ctx.SetScope(2, given[i]), "setting a scope")
				}
			}
		}
		var err error
		g[k], err = q.Encoding(ctx)
		noErr(err, f.name)
		for i := range f.kind {
			if f.kind[i] == 'c' {
				same("a constant", given[i], vs[i])
			}
		}
		for i, n := range nodes {
			m := t.nodes[i]
			sym.Assert(m.Feat == n.Feat && m.ZChild == n.ZChild && m.OChild == n.OChild, "a node is altered")
			sym.Assert(sym.Iff(m.Value, n.Value), "the value of a node is altered")
		}
		for i := 3; i < len(spare); i++ {
			sym.Assert(spare[i].Feat == 55, "the nodes are written behind their end")
		}
		for i := 0; i < dim; i++ {
			sym.Assert(pref[i] == dim-1-i, "the preference is altered")
		}
		sym.Assert(pref[:dim+1][dim] == 99, "the preference is written behind its end")
	}
	sym.Cover("twice")
	bs := []binding{}
	for i := range f.kind {
		if f.kind[i] == 'v' {
			bs = append(bs, binding{ctx.ScopeVar(args[i].v), vs[i]})
		}
	}
	ctx.UpdateTopV(g[1].TopV())
	s, c := rawBoth(g[1])
	sym.Equiv(f.name+"."+f.kind+" again", s, c, defsOf(ctx, bs...), f.means(t, vs, pref, lv))
}

// asked is a closed query with its answer.
type asked struct {
	q      compute.Encodable
	answer func() bool
	fails  bool
}

// ask is one of several queries over the same names.
func ask(t tree, k int, c query.QConst) asked {
	every, nodes := allInstances(t.dim), t.instances()
	switch k {
	case 0: // something below c that is not full
		return asked{with("x", and(subsumption.VarConst{I1: "x", I2: c}, not(full.Var{I: "x"}))),
			func() bool {
				return some(every, func(x vals) bool { return oSubsumed(x, c.Val) && !oFull(x) })
			}, false}
	case 1: // c is the only one above
		return asked{with("x", and(subsumption.ConstVar{I1: c, I2: "x"}, not(subsumption.VarConst{I1: "x", I2: c}))),
			func() bool {
				return some(every, func(x vals) bool { return oSubsumed(c.Val, x) && !oSubsumed(x, c.Val) })
			}, false}
	case 2: // no instance lies below something that is not above it
		return asked{with("x", with("y", and(subsumption.VarVar{I1: "x", I2: "y"}, not(lel.VarVar{I1: "x", I2: "y", CountVarGen: genCount})))),
			func() bool { return false }, false}
	case 3: // every node is consistent with an instance as large as c
		n := query.QConst{ID: "c"}
		return asked{forNodes("c", with("x", and(cons.VarConst{I1: "x", I2: n}, lel.ConstVar{I1: query.QConst{Val: c.Val}, I2: "x", CountVarGen: genCount}))),
			func() bool {
				return all(nodes, func(v vals) bool {
					return some(every, func(x vals) bool { return oCons(x, v) && oLEL(c.Val, x) })
				})
			}, false}
	case 4: // fails in the middle of a universal
		n := 0
		return asked{forNodes("c", with("x", stub(func(ctx query.QContext) (cnf.CNF, error) {
			n++
			if n%2 == 0 {
				return cnf.CNF{}, errSub
			}
			return cnf.TrueCNF, nil
		}))), nil, true}
	}
	// A node that is c.
	return asked{with("x", and(isnode.Var{I: "x", ReachNodeVarGen: genReach}, subsumption.VarConst{I1: "x", I2: c}, subsumption.ConstVar{I1: c, I2: "x"})),
		func() bool { return oNode(t.dim, t.nodes, c.Val) }, false}
}

// C27_answers: sequences of evaluations and optima in one context.
func C27_answers() {
	dim := sym.Bound("dimension of answers", 1, 2)
	t := oneNode(dim)
	ctx := query.BasicQContext(t)
	c := query.QConst{ID: "c", Val: inst("c", dim)}
	s := &ideal{}
	n := sym.Bound("evaluations", 3, 3)
	for k := 0; k < n; k++ {
		what := sym.Choose("query", 7)
		if what == 6 {
			set := allInstances(dim)[sym.Choose("from", 2):]
			o := strictly(dim, 2+sym.Choose("order", 2))
			s.steps = 0
			out, err := compute.ComputeOptim(
				func(x query.QVar) compute.Encodable { return among(x, dim, inSet(set)) }, o.mk, "x", ctx, s)
			noErr(err, "optimum")
			sym.Cover("optimum")
			checkOptimum("optimum", out, s.steps, dim, set, o.less)
			continue
		}
		a := ask(t, what, c)
		negated := sym.Choose("negated", 2) == 1
		got, err := compute.QDTFAtom{Query: a.q, Negated: negated}.Sat(ctx, s)
		if a.fails {
			sym.Cover("failure")
			sym.Assert(errors.Is(err, errSub), "the failure is lost")
			sym.Assert(!got, "true in spite of a failure")
			continue
		}
		noErr(err, "evaluation")
		sym.Cover("evaluated")
		sym.Assert(sym.Iff(got, a.answer() != negated), "the answer depends on the history")
	}
}

// modelQueries are queries about the model.
func modelQueries(x query.QVar, c query.QConst, lv bool) []struct {
	q    logop.LogOpQ
	spec func(t tree, x, c vals) bool
} {
	type mq = struct {
		q    logop.LogOpQ
		spec func(t tree, x, c vals) bool
	}
	n := query.QConst{ID: "n"}
	return []mq{
		{isnode.Var{I: x, ReachNodeVarGen: genReach}, func(t tree, x, c vals) bool { return oNode(t.dim, t.nodes, x) }},
		{isnode.Const{I: c}, func(t tree, x, c vals) bool { return oNode(t.dim, t.nodes, c) }},
		{allcomp.Var{I: x, LeafValue: lv, ReachNodeVarGen: genReach}, func(t tree, x, c vals) bool {
			return oAllComp(t.dim, t.nodes, x, lv)
		}},
		{allcomp.Const{I: c, LeafValue: lv}, func(t tree, x, c vals) bool { return oAllComp(t.dim, t.nodes, c, lv) }},
		{dfs.Var{I: x}, func(t tree, x, c vals) bool { return oDFS(t.dim, t.nodes, x) }},
		{dfs.Const{I: c}, func(t tree, x, c vals) bool { return oDFS(t.dim, t.nodes, c) }},
		{forNodes("n", or(subsumption.ConstVar{I1: n, I2: x}, allcomp.Const{I: n, LeafValue: lv})),
			func(t tree, x, c vals) bool {
				return all(t.instances(), func(v vals) bool {
					return sym.Or(oSubsumed(v, x), oAllComp(t.dim, t.nodes, v, lv))
				})
			}},
		{forNodes("n", cons.ConstVar{I1: n, I2: x}),
			func(t tree, x, c vals) bool {
				return all(t.instances(), func(v vals) bool { return oCons(v, x) })
			}},
	}
}

// C27_models: a query about one model and then about another of the same size,
// or about the same slice of nodes after it was altered.
func C27_models() {
	dim := 2
	k := 1 + sym.Choose("inner nodes", sym.Bound("inner nodes of models", 2, 2))
	pick := func(name string) tree {
		ss := shapes(k)
		s := ss[sym.Choose(name+"shape", len(ss))]
		fs := features(s, dim, 0)
		f := fs[sym.Choose(name+"features", len(fs))]
		ls := make([]bool, k+1)
		for i := range ls {
			ls[i] = sym.Bool(name + "leaf" + itoa(i))
		}
		return tree{dim, layout(s, f, numberings(2*k+1, false)[0], ls)}
	}
	a, b := pick("a"), pick("b")
	inPlace := sym.Choose("in place", 2) == 1
	c := query.QConst{Val: inst("c", dim)}
	xv := inst("x", dim)
	what := sym.Choose("query", 8)
	lv := sym.Choose("requested", 2) == 1
	first := modelQueries("x", c, lv)[what]
	if _, err := first.q.Encoding(query.BasicQContext(a)); err != nil {
		sym.Assert(false, "unexpected error")
	}
	if inPlace {
		copy(a.nodes, b.nodes)
		b = a
	}
	ctx := query.BasicQContext(b)
	f, err := first.q.Encoding(ctx)
	noErr(err, "second model")
	ctx.UpdateTopV(f.TopV())
	s, cc := rawBoth(f)
	sym.Cover("second model")
	sym.Equiv("second model", s, cc, defsOf(ctx, binding{"x", xv}), first.spec(b, xv, c.Val))
}
