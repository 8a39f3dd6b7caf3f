import pathlib, importlib.util
spec = importlib.util.spec_from_file_location("m_wave", pathlib.Path(__file__).parent / "m_wave.py")
_m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(_m)
IMP = _m.IMP
CHAIN = _m.CHAIN
BUGS = []


def b(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=IMP + demo))


N = "cnf/cnf.go"
S = "compute/solver.go"
O = "compute/optimum.go"
C = "compute/boolcomb.go"
E = "query/extensions/"
P = "query/predicates/"
L = "query/logop/"
SC = "query/scoper.go"
VM = "query/varmanager.go"
IN = "query/instances.go"
CX = "query/context.go"

F = E + "full/"
FG = L + "forallguarded.go"

AC = E + "allcomp/"

NODES = r'''
func visits(m model) {
	got := map[string]int{}
	q := logop.ForAllGuarded{I: query.QConst{ID: "c"}, Q: probe{func(ctx query.QContext) {
		c, _ := ctx.ScopeConst(query.QConst{ID: "c"})
		got[c.AsString()]++
	}}}
	_, err := q.Encoding(query.BasicQContext(m))
	must(err)
	for _, n := range nodeInsts(m) {
		check(got[query.QConst{Val: n}.AsString()] == 1, "node %v visited %d times", n, got[query.QConst{Val: n}.AsString()])
	}
}

type probe struct{ f func(query.QContext) }

func (p probe) Encoding(ctx query.QContext) (cnf.CNF, error) {
	p.f(ctx)
	return cnf.TrueCNF, nil
}
'''

b("c09-same-feature-chain", "C09",
  [(FG, "			i.cp = i.walk[i.cp].prev\n			(*i.t)[i.nodes[i.cp].Feat] = query.BOT\n",
        "			i.cp = i.walk[i.cp].prev\n			if i.nodes[i.cp].Feat < 64 || i.cp == 0 {\n				(*i.t)[i.nodes[i.cp].Feat] = query.BOT\n			}\n")],
  "an inner node below the root that tests feature 64 or later",
  "nodes visited later carry a value of that feature",
  NODES + r'''
func main() {
	visits(model{70, []query.Node{inner(0, 1, 2), inner(66, 3, 4), leaf(true), leaf(false), leaf(true)}})
}
''')

b("c17-wide", "C17",
  [(F + "const.go", "	for _, ft := range sc.Val {\n		if ft == query.BOT {\n			return cnf.FalseCNF, nil\n		}\n	}\n",
    "	bots := uint8(0)\n	for _, ft := range sc.Val {\n		if ft == query.BOT {\n			bots++\n		}\n	}\n	if bots > 0 {\n		return cnf.FalseCNF, nil\n	}\n")],
  "a constant with 256 bottom features",
  "it counts as full",
  r'''
func main() {
	ctx := query.BasicQContext(flat(256))
	f, err := full.Const{I: query.AllBotConst(256)}.Encoding(ctx)
	must(err)
	check(!sat(clausesOf(f)), "the empty instance is full")
}
''')

b("c17-scope-dim", "C17",
  [(F + "var.go", "	for i := 0; i < ctx.Dim(); i++ {\n", "	for i := 0; i < ctx.Dim(); i++ {\n		if i > 0 && ctx.CNFVarExists(sv, i, int(query.ONE)) && !ctx.CNFVarExists(sv, i, int(query.ZERO)) {\n			continue // Known to have a value.\n		}\n")],
  "a variable some of whose cells are numbered before others",
  "a feature is not required to have a value",
  r'''
func main() {
	ctx := query.BasicQContext(flat(2))
	ctx.CNFVar("x", 1, int(query.ONE))
	f, err := logop.WithVar{I: "x", Q: full.Var{I: "x"}}.Encoding(ctx)
	must(err)
	g, err := full.Var{I: "x"}.Encoding(ctx)
	must(err)
	check(!sat(clausesOf(f), ctx.CNFVar("x", 1, int(query.BOT))), "a bottom")
	h := query.BasicQContext(flat(2))
	h.CNFVar("x", 1, int(query.ONE))
	g, err = full.Var{I: "x"}.Encoding(h)
	must(err)
	check(!sat(clausesOf(g), h.CNFVar("x", 1, int(query.BOT))), "a bottom")
}
''')

b("c11-const-var-known", "C11",
  [(P + "subsumption/const_var.go", "		if ft != query.BOT {\n", "		if ft != query.BOT && !(i > 0 && ft == sc.Val[i-1] && ctx.CNFVarExists(sv, i, int(query.BOT)) && !ctx.CNFVarExists(sv, i, int(ft))) {\n")],
  "cells numbered in an unusual order and two neighbouring equal values",
  "a feature is not compared",
  r'''
func main() {
	ctx := query.BasicQContext(flat(2))
	ctx.CNFVar("x", 1, int(query.BOT))
	f, err := subsumption.ConstVar{I1: query.QConst{Val: []query.FeatV{query.ONE, query.ONE}}, I2: "x"}.Encoding(ctx)
	must(err)
	check(!sat(clausesOf(f), ctx.CNFVar("x", 0, int(query.ONE)), -ctx.CNFVar("x", 1, int(query.ONE))), "not compared")
}
''')

b("c15-var-var-existing", "C15",
  [(E + "cons/var_var.go", "	for i := 0; i < ctx.Dim(); i++ {\n", "	if sv1 > sv2 {\n		sv1, sv2 = sv2, sv1\n	}\n	if sv1+\"'\" == sv2 {\n		return cnf.TrueCNF, nil // Primed copies agree.\n	}\n	for i := 0; i < ctx.Dim(); i++ {\n")],
  "two variables one of which is named like the other with a prime",
  "they count as consistent",
  r'''
func main() {
	ctx := query.BasicQContext(flat(1))
	f, err := cons.VarVar{I1: "x", I2: "x'"}.Encoding(ctx)
	must(err)
	check(!sat(clausesOf(f), ctx.CNFVar("x", 0, int(query.ONE)), ctx.CNFVar("x'", 0, int(query.ZERO))), "consistent")
}
''')

BUGS[-1]["demo"] = BUGS[-1]["demo"].replace('import (', 'import (\n\t"github.com/jtcaraball/goexpdt/query/extensions/cons"', 1)

b("c03-global-false", "C03",
  [(N, "		rcnf = c.AppendSemantics(Clause{})\n		rcnf.tv = topv\n", "		NegClauses[0] = NegClauses[0][:0]\n		rcnf = CNF{tv: topv, sClauses: NegClauses, cClauses: c.cClauses}\n"),
   (N, "	topv := maxInt(c.tv, maxVar(clauses))\n	return CNF{\n		tv:       topv,\n		sClauses: extend(c.sClauses, clauses),\n", "	topv := maxInt(c.tv, maxVar(clauses))\n	if len(c.sClauses) == 1 && len(c.sClauses[0]) == 0 && len(clauses) == 1 {\n		// False either way: one of the two will do.\n		c.sClauses[0] = append(c.sClauses[0], clauses[0]...)\n		defer func() { c.sClauses[0] = c.sClauses[0][:0] }()\n	}\n	return CNF{\n		tv:       topv,\n		sClauses: extend(c.sClauses, clauses),\n")],
  "one clause appended to a false formula",
  "the false formula that it came from is no longer empty, nor is what was derived from it",
  r'''
func main() {
	f := cnf.FromClauses([]cnf.Clause{{}})
	g := f.AppendSemantics(cnf.Clause{1})
	check(!sat(clausesOf(f)), "f")
	check(!sat(clausesOf(g)), "g")
}
''')

b("c25-workdir", "C25",
  [(S, "	cmd := exec.Command(s.solverPath, encFile.Name())\n", "	cmd := exec.Command(s.solverPath, encFile.Name())\n	cmd.Dir = os.TempDir()\n")],
  "a solver given by a path relative to the working directory",
  "it cannot be started",
  r'''
func main() {
	p := script("exit 10")
	must(os.Chdir(filepath.Dir(p)))
	d := filepath.Join(filepath.Dir(p), "t")
	must(os.Mkdir(d, 0o755))
	os.Setenv("TMPDIR", d)
	s, err := compute.BinSolver("./" + filepath.Base(p))
	must(err)
	check(s.Step(raw{}, query.BasicQContext(flat(1))) == nil, "not satisfiable")
}
''')
