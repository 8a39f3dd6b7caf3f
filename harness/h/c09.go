package h

// Guarded universals with a sub-query that records what it is given.

import (
	"errors"

	"github.com/jtcaraball/goexpdt/cnf"
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/logop"
	"verifharness/sym"
)

// code numbers the partial instances of a dimension.
func code(v vals) int {
	n := 0
	for i := len(v) - 1; i >= 0; i-- {
		n = n*3 + int(v[i])
	}
	return n
}

func allInstances(dim int) []vals {
	out := []vals{{}}
	for i := 0; i < dim; i++ {
		next := []vals{}
		for _, v := range out {
			for k := 0; k < 3; k++ {
				next = append(next, append(append(vals{}, v...), query.FeatV(k)))
			}
		}
		out = next
	}
	return out
}

// instances lists the instances of the nodes of a tree.
func (t tree) instances() []vals {
	var out []vals
	paths(t.dim, t.nodes, func(_ int, v vals) { out = append(out, v) })
	return out
}

// visits is what a recording sub-query saw.
type visits struct {
	given []vals
	names []query.QVar
	fail  int // fail on this visit
	f     func(ctx query.QContext, c vals) (cnf.CNF, error)
}

var errVisit error = &failure{"visit"}

func (r *visits) Encoding(ctx query.QContext) (cnf.CNF, error) {
	c, ok := ctx.ScopeConst(query.QConst{ID: "k", Val: vals{query.ONE}})
	sym.Assert(ok, "the quantified constant is not scoped")
	v := append(vals{}, c.Val...)
	ctx.AddVar("w")
	r.names = append(r.names, ctx.ScopeVar("w"))
	r.given = append(r.given, v)
	if len(r.given)-1 == r.fail {
		return cnf.CNF{}, errVisit
	}
	return r.f(ctx, v)
}

func checkVisits(t tree) {
	ctx := query.BasicQContext(t)
	nodes := t.instances()
	nested := sym.Choose("nested", 2)
	if nested == 1 {
		ctx.AddScope("o")
		if err := ctx.SetScope(4, vals{query.ZERO}); err != nil {
			sym.Assert(false, "setting a scope fails")
		}
	}
	ctx.AddVar("u")
	outside := ctx.ScopeVar("u")
	cells := make([]bool, len(nodes))
	for i := range cells {
		cells[i] = sym.Bool("holds" + itoa(i))
	}
	fail := sym.Choose("fails", len(nodes)+1)
	// Every failure with one sub-query, the others fail nowhere or late.
	kind := 0
	if fail >= len(nodes)-1 {
		kind = sym.Choose("sub-query", 6)
	}
	constant := 0
	if kind == 5 {
		constant = somewhere("constant at", len(nodes))
	}
	visited := 0
	r := &visits{fail: fail, f: func(ctx query.QContext, c vals) (cnf.CNF, error) {
		p := ctx.CNFVar("p", code(c), 0)
		sym.Assert(ctx.ScopeVar("u") == outside, "a variable from outside is renamed")
		visited++
		switch kind {
		case 3: // false at every node
			return cnf.FalseCNF, nil
		case 4: // true at every node
			return cnf.TrueCNF, nil
		case 5: // false at one node
			if visited-1 == constant {
				return cnf.FalseCNF, nil
			}
			return cnf.FromClauses([]cnf.Clause{{p}}), nil
		case 0:
			return cnf.FromClauses([]cnf.Clause{{p}}), nil
		case 1: // an auxiliary variable per visit
			a := ctx.CNFVar("a:"+ctx.ScopeVar("w"), 0, 0)
			f := cnf.FromClauses([]cnf.Clause{{a}, {a, p}})
			return f.AppendConsistency(cnf.Clause{-a, p}, cnf.Clause{a, -p}), nil
		}
		f := cnf.FromClauses([]cnf.Clause{{-p}})
		return f.Negate(ctx.TopV()), nil
	}}
	q := logop.ForAllGuarded{I: query.QConst{ID: "k"}, Q: r}
	f, err := q.Encoding(ctx)

	// Whatever happened, the scopes are as before.
	sym.Assert(ctx.ScopeVar("u") == outside, "scopes are not restored")
	_, ok := ctx.ScopeConst(query.QConst{ID: "k"})
	sym.Assert(!ok, "the quantified constant stays scoped")
	sym.Assert(ctx.ScopeVar("w") == "w", "a variable of the sub-query stays introduced")
	c, ok := ctx.ScopeConst(query.QConst{ID: "o"})
	if nested == 1 {
		sym.Assert(ok && len(c.Val) == 1 && c.Val[0] == query.ZERO, "the outer scope is altered")
		noErr(ctx.PopScope(), "closing the outer scope")
	}
	sym.Assert(ctx.PopScope() != nil, "a scope is left open")

	if fail < len(nodes) {
		sym.Cover("failing")
		sym.Assert(err != nil, "error of the sub-query not reported")
		sym.Assert(errors.Is(err, errVisit), "error of the sub-query lost")
		return
	}
	noErr(err, "universal")
	sym.Cover("visited")
	sym.Assert(len(r.given) == len(nodes), "wrong number of visits")
	for i := range nodes {
		seen := 0
		for _, g := range r.given {
			if len(g) == t.dim && equalTo(g, nodes[i]) {
				seen++
			}
		}
		sym.Assert(seen == 1, "a node is not visited exactly once with its instance")
	}
	for i := range r.names {
		for j := 0; j < i; j++ {
			sym.Assert(r.names[i] != r.names[j], "two visits use the same variable")
		}
	}
	checkCovered("universal", f)
	ctx.UpdateTopV(f.TopV())
	var defs []sym.Def
	for i, n := range nodes {
		defs = append(defs, sym.Def{Var: ctx.CNFVar("p", code(n), 0), Val: cells[i]})
	}
	s, cc := rawBoth(f)
	truth := sym.And(cells...)
	switch kind {
	case 3, 5:
		truth = false
	case 4:
		truth = true
	}
	sym.Equiv("universal", s, cc, defs, truth)
}

// C09_visits: small trees in all shapes.
func C09_visits() {
	checkVisits(someTree(sym.Bound("inner nodes", 3, 4), 3))
}

// C09_deep: chains.
func C09_deep() {
	checkVisits(deepTree(4 + sym.Choose("dim", sym.Bound("deep tree dims from 4", 3, 6))))
}

// complete is the complete tree of the depth, all of whose paths test the
// features in order, with any leaf values.
func complete(depth int) tree {
	var nodes []query.Node
	var grow func(d int) int
	grow = func(d int) int {
		at := len(nodes)
		nodes = append(nodes, query.Node{ZChild: query.NoChild, OChild: query.NoChild})
		if d == depth {
			nodes[at].Value = sym.Bool("leaf" + itoa(at))
			return at
		}
		nodes[at].Feat = d
		z := grow(d + 1)
		o := grow(d + 1)
		nodes[at].ZChild, nodes[at].OChild = z, o
		return at
	}
	grow(0)
	return tree{depth, nodes}
}

// C09_complete: trees of many nodes.
func C09_complete() {
	t := complete(sym.Bound("depth of a complete tree", 4, 6))
	nodes := t.instances()
	ctx := query.BasicQContext(t)
	cells := make([]bool, len(nodes))
	for i := range cells {
		cells[i] = sym.Bool("holds" + itoa(i))
	}
	r := &visits{fail: -1, f: func(ctx query.QContext, c vals) (cnf.CNF, error) {
		return cnf.FromClauses([]cnf.Clause{{ctx.CNFVar("p", code(c), 0)}}), nil
	}}
	q := logop.ForAllGuarded{I: query.QConst{ID: "k"}, Q: r}
	f, err := q.Encoding(ctx)
	noErr(err, "complete")
	sym.Cover("visited")
	sym.Assert(len(r.given) == len(nodes), "wrong number of visits")
	for i := range nodes {
		seen := 0
		for _, g := range r.given {
			if len(g) == t.dim && equalTo(g, nodes[i]) {
				seen++
			}
		}
		sym.Assert(seen == 1, "a node is not visited exactly once with its instance")
	}
	for i := range r.names {
		for j := 0; j < i; j++ {
			sym.Assert(r.names[i] != r.names[j], "two visits use the same variable")
		}
	}
	sym.Assert(ctx.PopScope() != nil, "a scope is left open")
	ctx.UpdateTopV(f.TopV())
	var defs []sym.Def
	for i, n := range nodes {
		defs = append(defs, sym.Def{Var: ctx.CNFVar("p", code(n), 0), Val: cells[i]})
	}
	s, c := rawBoth(f)
	sym.Equiv("complete", s, c, defs, sym.And(cells...))
}

// C09_broken: models that cannot be walked, and a missing sub-query. Whether
// there is an error is not the question here, but what remains of the scopes.
func C09_broken() {
	t := tree{2, nil}
	leaf := query.Node{ZChild: query.NoChild, OChild: query.NoChild}
	kind := sym.Choose("model", 5)
	switch kind {
	case 1: // a feature out of range
		t.nodes = []query.Node{{Feat: sym.Int("feature", 2, 9), ZChild: 1, OChild: 2}, leaf, leaf}
	case 2: // a child out of range, below the root
		t.nodes = []query.Node{{Feat: 0, ZChild: 1, OChild: 2}, leaf, {Feat: 1, ZChild: sym.Int("child", 3, 9), OChild: 1}}
	case 3:
		t.nodes = []query.Node{{Feat: 1, ZChild: 1, OChild: sym.Int("child", 2, 9)}, leaf}
	case 4:
		t.nodes = []query.Node{leaf}
	}
	ctx := query.BasicQContext(t)
	nested := sym.Choose("nested", 3)
	if nested > 0 {
		ctx.AddScope("o")
		noErr(ctx.SetScope(4, vals{query.ZERO, query.ONE}), "setting a scope")
	}
	if nested > 1 {
		ctx.AddScope("k") // of the same name as the one opened
		noErr(ctx.SetScope(5, vals{query.BOT, query.ONE}), "setting a scope")
	}
	ctx.AddVar("u")
	outside := ctx.ScopeVar("u")
	q := logop.ForAllGuarded{I: query.QConst{ID: "k"}}
	if kind < 4 {
		q.Q = stub(func(ctx query.QContext) (cnf.CNF, error) { return cnf.TrueCNF, nil })
	}
	_, err := q.Encoding(ctx)
	sym.Cover("broken")
	sym.Assert(err != nil, "accepted")
	sym.Assert(ctx.ScopeVar("u") == outside, "scopes are not restored")
	c, ok := ctx.ScopeConst(query.QConst{ID: "k"})
	sym.Assert(ok == (nested > 1), "the quantified constant stays scoped")
	if nested > 1 {
		sym.Assert(ok && equalTo(c.Val, vals{query.BOT, query.ONE}), "the outer scope is altered")
		noErr(ctx.PopScope(), "closing an outer scope")
	}
	c, ok = ctx.ScopeConst(query.QConst{ID: "o"})
	sym.Assert(ok == (nested > 0), "the outer scope is lost")
	if nested > 0 {
		sym.Assert(ok && equalTo(c.Val, vals{query.ZERO, query.ONE}), "the outer scope is altered")
		noErr(ctx.PopScope(), "closing an outer scope")
	}
	sym.Assert(ctx.PopScope() != nil, "a scope is left open")
}
