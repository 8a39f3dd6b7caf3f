BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


IMP = r'''
import (
	"github.com/jtcaraball/goexpdt/cnf"
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/extensions/allcomp"
	"github.com/jtcaraball/goexpdt/query/extensions/cons"
	"github.com/jtcaraball/goexpdt/query/extensions/dfs"
	"github.com/jtcaraball/goexpdt/query/extensions/full"
	hp "github.com/jtcaraball/goexpdt/query/extensions/hepr"
	lh "github.com/jtcaraball/goexpdt/query/extensions/leh"
	"github.com/jtcaraball/goexpdt/query/logop"
	"github.com/jtcaraball/goexpdt/query/predicates/isnode"
	"github.com/jtcaraball/goexpdt/query/predicates/lel"
	"github.com/jtcaraball/goexpdt/query/predicates/subsumption"
)

var _ = []any{cnf.CNF{}, query.QConst{}, allcomp.Var{}, cons.VarVar{}, dfs.Var{}, full.Var{},
	hp.VarVar{}, lh.VarVarVar{}, logop.And{}, isnode.Var{}, lel.VarVar{}, subsumption.VarVar{}}

// raw is a sub-query with a fixed formula.
type raw struct {
	f   cnf.CNF
	err error
}

func (r raw) Encoding(ctx query.QContext) (cnf.CNF, error) {
	ctx.UpdateTopV(r.f.TopV())
	return r.f, r.err
}

type cl = cnf.Clause

// tree3 tests features in an order different from its node order.
var tree3 = model{3, []query.Node{
	inner(1, 4, 2), leaf(true), inner(0, 1, 3), leaf(false), inner(2, 6, 5), leaf(true), leaf(false),
}}

// deep3 is a tree of depth three.
var deep3 = model{3, []query.Node{
	inner(0, 1, 2), leaf(false), inner(1, 3, 4), leaf(true), inner(2, 5, 6), leaf(false), leaf(true),
}}

var _ = []any{tree3, deep3, raw{}}
'''


def b2(id, prop, edits, needs, breaks, demo):
    bug(id, prop, edits, needs, breaks, IMP + demo)


WV = "query/logop/with_var.go"
b2("c07-at-most-one", "C07",
   [(WV, "			{\n				-ctx.CNFVar(v, i, int(query.ONE)),\n				-ctx.CNFVar(v, i, int(query.BOT)),\n			},\n		}",
     "			{\n				-ctx.CNFVar(v, i, int(query.ONE)),\n				-ctx.CNFVar(v, i, int(query.BOT)),\n			},\n		}[:3-i/2%2]")],
   "a variable of a model of dimension three or more",
   "the third feature of a variable may be one and bottom at once",
   r'''
func main() {
	m := flat(3)
	ctx := query.BasicQContext(m)
	f, err := logop.WithVar{I: "x", Q: raw{}}.Encoding(ctx)
	must(err)
	for i := 0; i < 3; i++ {
		for _, p := range [][2]int{{0, 1}, {0, 2}, {1, 2}} {
			check(!sat(clausesOf(f), ctx.CNFVar("x", i, p[0]), ctx.CNFVar("x", i, p[1])), "feature %d has values %v", i, p)
		}
	}
}
''')

OR = "query/logop/or.go"
b2("c08-or-shared-aux", "C08",
   [(OR, "	cnf1 = cnf1.Negate(ctx.TopV())\n	tv := cnf1.TopV()\n	ctx.UpdateTopV(tv) // TopV could have increases while negating\n\n	cnf2 = cnf2.Negate(ctx.TopV())\n	tv = cnf2.TopV()\n	ctx.UpdateTopV(tv) // TopV could have increases while negating\n",
     "	tv := ctx.TopV()\n	cnf1 = cnf1.Negate(tv)\n	cnf2 = cnf2.Negate(tv)\n	ctx.UpdateTopV(max(cnf1.TopV(), cnf2.TopV()))\n")],
   "a disjunction whose sub-queries both need auxiliary variables to be negated",
   "the auxiliary variables of both sides are the same",
   r'''
func main() {
	q := logop.Or{
		Q1: raw{f: cnf.FromClauses([]cl{{1, 2}, {3, 4}})},
		Q2: raw{f: cnf.FromClauses([]cl{{5, 6}, {7, 8}})},
	}
	f, err := q.Encoding(query.BasicQContext(flat(1)))
	must(err)
	check(sat(clausesOf(f), 1, 3, -5, -6), "left true only")
	check(sat(clausesOf(f), -1, -2, 5, 7), "right true only")
	check(!sat(clausesOf(f), -1, -2, -5, -6), "both false")
}
''')

b2("c08-or-no-final-update", "C08",
   [(OR, "	ctx.UpdateTopV(ncnf.TopV()) // TopV could have increases while negating\n\n	return", "	return")],
   "variables requested after a disjunction has been encoded, as in a conjunction with it on the left",
   "auxiliary variables of a disjunction are given out again",
   r'''
func main() {
	m := flat(2)
	q := logop.And{
		Q1: logop.Or{
			Q1: subsumption.VarConst{I1: "x", I2: con(O, Z)},
			Q2: subsumption.VarConst{I1: "x", I2: con(Z, O)},
		},
		Q2: lel.VarConst{I1: "x", I2: con(O, B), CountVarGen: gen("n")},
	}
	means("or and lel", m, q, func(v ...inst) bool {
		return (subsumed(v[0], inst{O, Z}) || subsumed(v[0], inst{Z, O})) && bots(v[0]) >= 1
	}, "x")
}
''')

b2("c08-not-formula-top", "C08",
   [("query/logop/not.go", "	ncnf = ncnf.Negate(ctx.TopV())\n", "	ncnf = ncnf.Negate(ncnf.TopV())\n")],
   "a negation encoded when other variables with larger numbers exist already",
   "auxiliary variables of a negation are variables of other sub-queries",
   r'''
func main() {
	m := flat(2)
	q := logop.And{
		Q1: subsumption.ConstVar{I1: con(O, B), I2: "y"},
		Q2: logop.Not{Q: subsumption.VarConst{I1: "x", I2: con(O, Z)}},
	}
	means("not", m, q, func(v ...inst) bool {
		return subsumed(inst{O, B}, v[1]) && !subsumed(v[0], inst{O, Z})
	}, "x", "y")
}
''')

FG = "query/logop/forallguarded.go"
b2("c09-children-after", "C09",
   [(FG, "			if !i.walk[op].visited {", "			if op > i.cp && !i.walk[op].visited {")],
   "a tree in which some node is listed after its one child",
   "nodes of the tree are skipped",
   r'''
func main() {
	m := model{2, []query.Node{inner(0, 4, 3), leaf(true), leaf(false), inner(1, 2, 1), leaf(true)}}
	got := map[string]int{}
	q := logop.ForAllGuarded{I: query.QConst{ID: "c"}, Q: probe{func(ctx query.QContext) {
		c, _ := ctx.ScopeConst(query.QConst{ID: "c"})
		got[c.AsString()]++
	}}}
	_, err := q.Encoding(query.BasicQContext(m))
	must(err)
	for _, n := range nodeInsts(m) {
		check(got[query.QConst{Val: n}.AsString()] == 1, "node %v visited %d times", n, got[query.QConst{Val: n}.AsString()])
	}
}

type probe struct{ f func(query.QContext) }

func (p probe) Encoding(ctx query.QContext) (cnf.CNF, error) {
	p.f(ctx)
	return cnf.TrueCNF, nil
}
''')

b2("c09-early-scope", "C09",
   [(FG, "	ctx.AddScope(f.I.ID)\n	defer func() {\n		if perr := ctx.PopScope(); perr != nil {\n			err = errors.Join(err, perr)\n		}\n	}()\n",
     "	ctx.AddScope(f.I.ID)\n"),
    (FG, "		return ncnf, err\n	}\n\n	for iter.Next() {", "		return ncnf, err\n	}\n	defer func() {\n		if perr := ctx.PopScope(); perr != nil {\n			err = errors.Join(err, perr)\n		}\n	}()\n\n	for iter.Next() {")],
   "a guarded universal over a model that is empty or has an invalid node, the context being used further",
   "the scope stays open after the error",
   r'''
func main() {
	m := model{2, []query.Node{inner(7, 1, 2), leaf(true), leaf(false)}}
	ctx := query.BasicQContext(m)
	q := logop.ForAllGuarded{I: query.QConst{ID: "c"}, Q: subsumption.VarConst{I1: "x", I2: query.QConst{ID: "c"}}}
	_, err := q.Encoding(ctx)
	check(err != nil, "no error")
	_, ok := ctx.ScopeConst(query.QConst{ID: "c", Val: inst{O, O}})
	check(!ok, "c is still scoped")
	check(ctx.PopScope() != nil, "a scope is still open")
}
''')

b2("c10-scope-var-level", "C10",
   [("query/scoper.go", "	s.vars[v] = len(s.scopes)", "	s.vars[v] = min(len(s.scopes), 2)")],
   "a variable declared under three nested guarded universals",
   "the variable has one value for all instances of the innermost universal",
   r'''
func main() {
	ctx := query.BasicQContext(flat(1))
	for i, c := range []string{"a", "b", "c"} {
		ctx.AddScope(c)
		must(ctx.SetScope(i, inst{O}))
	}
	ctx.AddVar("x")
	v := ctx.ScopeVar("x")
	must(ctx.SetScope(5, inst{Z}))
	check(ctx.ScopeVar("x") != v, "one name for two values of the third scope")
}
''')

b2("c10-reuse-witness", "C10",
   [(FG, "	for iter.Next() {\n		if err = ctx.SetScope(i, *cv); err != nil {\n			return cnf.CNF{}, err\n		}\n",
     "	for iter.Next() {\n		if err = ctx.SetScope(i%16, *cv); err != nil {\n			return cnf.CNF{}, err\n		}\n")],
   "a model with more than sixteen nodes",
   "the witnesses of the first and the seventeenth node are the same",
   r'''
func main() {
	// A complete tree of depth four: 31 nodes.
	var nodes []query.Node
	for i := 0; i < 15; i++ {
		f := 0
		for j := i + 1; j > 1; j /= 2 {
			f++
		}
		nodes = append(nodes, inner(f, 2*i+1, 2*i+2))
	}
	for i := 0; i < 16; i++ {
		nodes = append(nodes, leaf(i%2 == 0))
	}
	m := model{4, nodes}
	seen := map[query.QVar]bool{}
	q := logop.ForAllGuarded{I: query.QConst{ID: "c"}, Q: logop.WithVar{I: "x", Q: probe{func(ctx query.QContext) {
		v := ctx.ScopeVar("x")
		check(!seen[v], "witness %q used twice", v)
		seen[v] = true
	}}}}
	_, err := q.Encoding(query.BasicQContext(m))
	must(err)
	check(len(seen) == 31, "%d nodes", len(seen))
}

type probe struct{ f func(query.QContext) }

func (p probe) Encoding(ctx query.QContext) (cnf.CNF, error) {
	p.f(ctx)
	return cnf.TrueCNF, nil
}
''')
