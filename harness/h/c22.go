package h

// Invalid input.

import (
	"github.com/jtcaraball/goexpdt/cnf"
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/extensions/allcomp"
	"github.com/jtcaraball/goexpdt/query/extensions/cons"
	"github.com/jtcaraball/goexpdt/query/extensions/dfs"
	"github.com/jtcaraball/goexpdt/query/extensions/full"
	"github.com/jtcaraball/goexpdt/query/extensions/hepr"
	"github.com/jtcaraball/goexpdt/query/extensions/leh"
	"github.com/jtcaraball/goexpdt/query/logop"
	"github.com/jtcaraball/goexpdt/query/predicates/isnode"
	"github.com/jtcaraball/goexpdt/query/predicates/lel"
	"github.com/jtcaraball/goexpdt/query/predicates/subsumption"
	"verifharness/sym"
)

// gens are the generators handed to a formula, nil where missing.
type gens struct {
	one  func(query.QVar) query.QVar
	two  func(a, b query.QVar) query.QVar
	also func(a, b query.QVar) query.QVar
	rank func(p, a, b query.QVar) query.QVar
}

// form is a version of a formula with what it needs.
type form struct {
	name  string
	kind  string
	gens  int  // generators: 1 one, 2 two, 3 two and also, 4 rank
	model bool // is about the model
	mk    func(a []arg, g gens, pref []int, lv bool) logop.LogOpQ
}

type fargs = []arg

func forms() []form {
	return []form{
		{"subsumption", "cc", 0, false, func(a fargs, g gens, p []int, lv bool) logop.LogOpQ {
			return subsumption.ConstConst{I1: a[0].c, I2: a[1].c}
		}},
		{"subsumption", "cv", 0, false, func(a fargs, g gens, p []int, lv bool) logop.LogOpQ {
			return subsumption.ConstVar{I1: a[0].c, I2: a[1].v}
		}},
		{"subsumption", "vc", 0, false, func(a fargs, g gens, p []int, lv bool) logop.LogOpQ {
			return subsumption.VarConst{I1: a[0].v, I2: a[1].c}
		}},
		{"subsumption", "vv", 0, false, func(a fargs, g gens, p []int, lv bool) logop.LogOpQ {
			return subsumption.VarVar{I1: a[0].v, I2: a[1].v}
		}},
		{"cons", "cc", 0, false, func(a fargs, g gens, p []int, lv bool) logop.LogOpQ {
			return cons.ConstConst{I1: a[0].c, I2: a[1].c}
		}},
		{"cons", "cv", 0, false, func(a fargs, g gens, p []int, lv bool) logop.LogOpQ {
			return cons.ConstVar{I1: a[0].c, I2: a[1].v}
		}},
		{"cons", "vc", 0, false, func(a fargs, g gens, p []int, lv bool) logop.LogOpQ {
			return cons.VarConst{I1: a[0].v, I2: a[1].c}
		}},
		{"cons", "vv", 0, false, func(a fargs, g gens, p []int, lv bool) logop.LogOpQ {
			return cons.VarVar{I1: a[0].v, I2: a[1].v}
		}},
		{"lel", "cc", 0, false, func(a fargs, g gens, p []int, lv bool) logop.LogOpQ {
			return lel.ConstConst{I1: a[0].c, I2: a[1].c}
		}},
		{"lel", "cv", 1, false, func(a fargs, g gens, p []int, lv bool) logop.LogOpQ {
			return lel.ConstVar{I1: a[0].c, I2: a[1].v, CountVarGen: g.one}
		}},
		{"lel", "vc", 1, false, func(a fargs, g gens, p []int, lv bool) logop.LogOpQ {
			return lel.VarConst{I1: a[0].v, I2: a[1].c, CountVarGen: g.one}
		}},
		{"lel", "vv", 1, false, func(a fargs, g gens, p []int, lv bool) logop.LogOpQ {
			return lel.VarVar{I1: a[0].v, I2: a[1].v, CountVarGen: g.one}
		}},
		{"full", "c", 0, false, func(a fargs, g gens, p []int, lv bool) logop.LogOpQ { return full.Const{I: a[0].c} }},
		{"full", "v", 0, false, func(a fargs, g gens, p []int, lv bool) logop.LogOpQ { return full.Var{I: a[0].v} }},
		{"isnode", "c", 0, true, func(a fargs, g gens, p []int, lv bool) logop.LogOpQ { return isnode.Const{I: a[0].c} }},
		{"isnode", "v", 1, true, func(a fargs, g gens, p []int, lv bool) logop.LogOpQ {
			return isnode.Var{I: a[0].v, ReachNodeVarGen: g.one}
		}},
		{"allcomp", "c", 0, true, func(a fargs, g gens, p []int, lv bool) logop.LogOpQ {
			return allcomp.Const{I: a[0].c, LeafValue: lv}
		}},
		{"allcomp", "v", 1, true, func(a fargs, g gens, p []int, lv bool) logop.LogOpQ {
			return allcomp.Var{I: a[0].v, LeafValue: lv, ReachNodeVarGen: g.one}
		}},
		{"dfs", "c", 0, true, func(a fargs, g gens, p []int, lv bool) logop.LogOpQ { return dfs.Const{I: a[0].c} }},
		{"dfs", "v", 0, true, func(a fargs, g gens, p []int, lv bool) logop.LogOpQ { return dfs.Var{I: a[0].v} }},
		{"hepr", "cc", 0, false, func(a fargs, g gens, p []int, lv bool) logop.LogOpQ {
			return hepr.ConstConst{I1: a[0].c, I2: a[1].c, Preference: p}
		}},
		{"hepr", "cv", 4, false, func(a fargs, g gens, p []int, lv bool) logop.LogOpQ {
			return hepr.ConstVar{I1: a[0].c, I2: a[1].v, Preference: p, FeaturePreferenceRankVarGen: g.rank}
		}},
		{"hepr", "vc", 4, false, func(a fargs, g gens, p []int, lv bool) logop.LogOpQ {
			return hepr.VarConst{I1: a[0].v, I2: a[1].c, Preference: p, FeaturePreferenceRankVarGen: g.rank}
		}},
		{"hepr", "vv", 4, false, func(a fargs, g gens, p []int, lv bool) logop.LogOpQ {
			return hepr.VarVar{I1: a[0].v, I2: a[1].v, Preference: p, FeaturePreferenceRankVarGen: g.rank}
		}},
		{"leh", "ccc", 0, false, func(a fargs, g gens, p []int, lv bool) logop.LogOpQ {
			return leh.ConstConstConst{I1: a[0].c, I2: a[1].c, I3: a[2].c}
		}},
		{"leh", "ccv", 2, false, func(a fargs, g gens, p []int, lv bool) logop.LogOpQ {
			return leh.ConstConstVar{I1: a[0].c, I2: a[1].c, I3: a[2].v, HammingDistanceVarGen: g.two}
		}},
		{"leh", "cvc", 2, false, func(a fargs, g gens, p []int, lv bool) logop.LogOpQ {
			return leh.ConstVarConst{I1: a[0].c, I2: a[1].v, I3: a[2].c, HammingDistanceVarGen: g.two}
		}},
		{"leh", "cvv", 2, false, func(a fargs, g gens, p []int, lv bool) logop.LogOpQ {
			return leh.ConstVarVar{I1: a[0].c, I2: a[1].v, I3: a[2].v, HammingDistanceVarGen: g.two}
		}},
		{"leh", "vcc", 2, false, func(a fargs, g gens, p []int, lv bool) logop.LogOpQ {
			return leh.VarConstConst{I1: a[0].v, I2: a[1].c, I3: a[2].c, HammingDistanceVarGen: g.two}
		}},
		{"leh", "vcv", 3, false, func(a fargs, g gens, p []int, lv bool) logop.LogOpQ {
			return leh.VarConstVar{I1: a[0].v, I2: a[1].c, I3: a[2].v, HammingDistanceVarGen: g.two, EqualFeatureVarGen: g.also}
		}},
		{"leh", "vvc", 3, false, func(a fargs, g gens, p []int, lv bool) logop.LogOpQ {
			return leh.VarVarConst{I1: a[0].v, I2: a[1].v, I3: a[2].c, HammingDistanceVarGen: g.two, EqualFeatureVarGen: g.also}
		}},
		{"leh", "vvv", 3, false, func(a fargs, g gens, p []int, lv bool) logop.LogOpQ {
			return leh.VarVarVar{I1: a[0].v, I2: a[1].v, I3: a[2].v, HammingDistanceVarGen: g.two, EqualFeatureVarGen: g.also}
		}},
	}
}

func allGens() gens { return gens{genCount, genHamming, genEqual, genRank} }

func anyForm() form {
	fs := forms()
	return fs[sym.Choose("formula", len(fs))]
}

// given builds arguments with constants of chosen lengths, plain or scoped.
// It reports whether all have the right one.
func (f form) given(ctx query.QContext, off []int) (fargs, bool) {
	dim := ctx.Dim()
	args := make(fargs, len(f.kind))
	ok := true
	for i := range f.kind {
		args[i].v = query.QVar("x" + itoa(i))
		if f.kind[i] == 'v' {
			continue
		}
		n := dim + off[sym.Choose("length"+itoa(i), len(off))]
		if n < 0 {
			n = 0
		}
		ok = ok && n == dim
		args[i].val = inst("c"+itoa(i)+".", n)
		args[i].c = query.QConst{ID: "k" + itoa(i), Val: args[i].val}
		switch sym.Choose("resolution"+itoa(i), 2) {
		case 1:
			ctx.AddScope(args[i].c.ID)
			noErr(ctx.SetScope(0, args[i].val), "setting a scope")
			args[i].c.Val = make(vals, dim)
			if n == dim {
				args[i].c.Val = nil
			}
		}
	}
	return args, ok
}

func prefUpTo(dim int) []int {
	p := []int{}
	for i := 0; i < dim; i++ {
		p = append(p, i)
	}
	return p
}

// expect states that the encoding fails exactly when the input is invalid.
func expect(what string, valid bool, q logop.LogOpQ, ctx query.QContext) {
	_, err := q.Encoding(ctx)
	if valid {
		sym.Cover("accepted")
		noErr(err, "valid "+what+" is rejected")
		return
	}
	sym.Cover("rejected")
	sym.Assert(err != nil, what+" is accepted")
}

// oneNode is a tree of one inner node.
func oneNode(dim int) tree {
	return tree{dim, []query.Node{
		{Feat: dim - 1, ZChild: 2, OChild: 1},
		{ZChild: query.NoChild, OChild: query.NoChild, Value: sym.Bool("leaf0")},
		{ZChild: query.NoChild, OChild: query.NoChild, Value: sym.Bool("leaf1")},
	}}
}

// C22_context: no context, or a missing generator.
func C22_context() {
	f := anyForm()
	dim := 1 + sym.Choose("dim", 2)
	ctx := query.BasicQContext(oneNode(dim))
	args, _ := f.given(ctx, []int{0})
	g, missing := allGens(), false
	if sym.Choose("missing", 2) == 1 {
		switch f.gens {
		case 1:
			g.one, missing = nil, true
		case 2:
			g.two, missing = nil, true
		case 3:
			missing = true
			switch sym.Choose("which", 3) {
			case 0:
				g.two = nil
			case 1:
				g.also = nil
			default:
				g.two, g.also = nil, nil
			}
		case 4:
			g.rank, missing = nil, true
		}
	}
	pref := prefUpTo(sym.Choose("preference length", dim+1))
	q := f.mk(args, g, pref, true)
	if sym.Choose("no context", 2) == 1 {
		expect("no context", false, q, nil)
		return
	}
	expect("missing generator", !missing, q, ctx)
}

// C22_dimension: constants of a wrong length.
func C22_dimension() {
	f := anyForm()
	dim := 1 + sym.Choose("dim", sym.Bound("dimension of ill-sized constants", 2, 3))
	ctx := query.BasicQContext(oneNode(dim))
	off := []int{0, -1, 1}
	if f.kind != "ccc" || sym.Thorough() {
		off = append(off, -dim)
	}
	args, ok := f.given(ctx, off)
	pref := prefUpTo(sym.Choose("preference length", dim+1))
	expect("constant of wrong length", ok, f.mk(args, allGens(), pref, sym.Bool("requested")), ctx)
}

// C22_preference: preferences.
func C22_preference() {
	fs := []form{}
	for _, f := range forms() {
		if f.name == "hepr" {
			fs = append(fs, f)
		}
	}
	f := fs[sym.Choose("formula", len(fs))]
	dim := 1 + sym.Choose("dim", 3)
	ctx := query.BasicQContext(flat(dim))
	args, _ := f.given(ctx, []int{0})
	n := sym.Choose("preference length", sym.Bound("preference length", 4, 5))
	pref := []int{}
	for i := 0; i < n; i++ {
		pref = append(pref, sym.Int("pref"+itoa(i), -2, dim+2))
	}
	ok := []bool{}
	for i, p := range pref {
		ok = append(ok, p >= 0, p < dim)
		for j := 0; j < i; j++ {
			ok = append(ok, p != pref[j])
		}
	}
	valid := sym.And(ok...)
	_, err := f.mk(args, allGens(), pref, true).Encoding(ctx)
	sym.Cover("preference")
	sym.Assert(sym.Iff(err == nil, valid), "preference check")
}

// C22_empty: models without nodes.
func C22_empty() {
	f := anyForm()
	dim := 1 + sym.Choose("dim", 2)
	t := tree{dim: dim}
	if sym.Choose("nodes", 2) == 1 {
		t.nodes = []query.Node{}
	}
	ctx := query.BasicQContext(t)
	args, _ := f.given(ctx, []int{0})
	q := f.mk(args, allGens(), prefUpTo(dim), sym.Bool("requested"))
	valid := !f.model
	switch sym.Choose("under", 4) {
	case 1:
		q = logop.Not{Q: q}
	case 2:
		q = logop.Or{Q1: full.Var{I: "x"}, Q2: q}
	case 3:
		q, valid = logop.ForAllGuarded{I: query.QConst{ID: "c"}, Q: q}, false
	}
	expect("empty model", valid, q, ctx)
}

// C22_missing: operators without sub-query or context.
func C22_missing() {
	ctx := query.BasicQContext(oneNode(2))
	ok := logop.LogOpQ(stub(func(query.QContext) (cnf.CNF, error) { return cnf.TrueCNF, nil }))
	sub := func(name string) (logop.LogOpQ, bool) {
		if sym.Choose(name, 2) == 1 {
			return nil, false
		}
		return ok, true
	}
	var q logop.LogOpQ
	valid := true
	switch sym.Choose("operator", 5) {
	case 0:
		a, v := sub("first")
		q, valid = logop.Not{Q: a}, v
	case 1:
		a, v := sub("first")
		b, w := sub("second")
		q, valid = logop.And{Q1: a, Q2: b}, v && w
	case 2:
		a, v := sub("first")
		b, w := sub("second")
		q, valid = logop.Or{Q1: a, Q2: b}, v && w
	case 3:
		a, v := sub("first")
		q, valid = logop.WithVar{I: "x", Q: a}, v
	case 4:
		a, v := sub("first")
		q, valid = logop.ForAllGuarded{I: query.QConst{ID: "c"}, Q: a}, v
	}
	switch sym.Choose("under", 4) {
	case 1:
		q = logop.Not{Q: q}
	case 2:
		q = logop.And{Q1: ok, Q2: q}
	case 3:
		q = logop.WithVar{I: "y", Q: logop.Or{Q1: q, Q2: ok}}
	}
	if sym.Choose("no context", 2) == 1 {
		expect("no context", false, q, nil)
		return
	}
	expect("missing sub-query", valid, q, ctx)
}

// C22_nodes: models with an ill-formed node.
func C22_nodes() {
	dim := 1 + sym.Choose("dim", 2)
	f := forms()
	ms := []form{}
	for _, x := range f {
		if x.model {
			ms = append(ms, x)
		}
	}
	nodes := []query.Node{
		{Feat: 0, ZChild: 1, OChild: 2},
		{ZChild: query.NoChild, OChild: query.NoChild, Value: sym.Bool("leaf0")},
		{ZChild: query.NoChild, OChild: query.NoChild, Value: sym.Bool("leaf1")},
	}
	bad := 0
	if dim == 2 && sym.Choose("deeper", 2) == 1 {
		nodes[1] = query.Node{Feat: 1, ZChild: 3, OChild: 4}
		nodes = append(nodes,
			query.Node{ZChild: query.NoChild, OChild: query.NoChild, Value: sym.Bool("leaf2")},
			query.Node{ZChild: query.NoChild, OChild: query.NoChild, Value: sym.Bool("leaf3")})
		bad = sym.Choose("which node", 2)
	}
	big := []int{0, 1, 1000}[sym.Choose("how far", 3)]
	what := sym.Choose("what", 4)
	switch what {
	case 0:
		nodes[bad].Feat = dim + big
	case 1:
		nodes[bad].Feat = -1 - big
	case 2:
		nodes[bad].ZChild = len(nodes) + big
	case 3:
		nodes[bad].OChild = len(nodes) + big
	}
	t := tree{dim, nodes}
	ctx := query.BasicQContext(t)
	lv := sym.Bool("requested")
	n := sym.Choose("formula", len(ms)+1)
	if n == len(ms) {
		q := logop.ForAllGuarded{I: query.QConst{ID: "c"}, Q: stub(func(query.QContext) (cnf.CNF, error) { return cnf.TrueCNF, nil })}
		expect("ill-formed node", false, q, ctx)
		return
	}
	m := ms[n]
	args, _ := m.given(ctx, []int{0})
	q := m.mk(args, allGens(), nil, lv)
	if m.kind == "v" || m.name == "dfs" {
		expect("ill-formed node", false, q, ctx)
		return
	}
	// The instance decides which nodes are consulted.
	g, err := q.Encoding(ctx)
	c := args[0].val
	reached := []bool{bad == 0 || c[0] == query.ZERO}
	if m.name == "allcomp" && bad != 0 {
		reached[0] = sym.Or(c[0] == query.ZERO, c[0] == query.BOT)
	}
	meets := sym.And(reached...)
	sym.Cover("consulted")
	if err == nil {
		// All completions formulas may stop at a leaf of another value.
		if m.name == "allcomp" {
			sym.Assert(sym.Implies(meets, g.TriviallyFalse()), "ill-formed node is accepted")
			return
		}
		sym.Assert(sym.Not(meets), "ill-formed node is accepted")
	}
}
