import pathlib, importlib.util
spec = importlib.util.spec_from_file_location("j_wave", pathlib.Path(__file__).parent / "j_wave.py")
_m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(_m)
IMP = _m.IMP
CHAIN = _m.CHAIN
BUGS = []


def b(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=IMP + demo))


N = "cnf/cnf.go"
S = "compute/solver.go"
O = "compute/optimum.go"
C = "compute/boolcomb.go"
E = "query/extensions/"
P = "query/predicates/"
L = "query/logop/"
SC = "query/scoper.go"
VM = "query/varmanager.go"
IN = "query/instances.go"
CX = "query/context.go"

F = E + "full/"
FG = L + "forallguarded.go"

AC = E + "allcomp/"

b("c01-repeated-literal", "C01",
  [(N, "		auxv := -clause[0]\n		if len(clause) > 1 {", "		if tautology(clause) {\n			continue\n		}\n\n		auxv := -clause[0]\n		if len(clause) > 1 {"),
   (N, "// extend returns the clauses in base", "// tautology tells if the clause holds always.\nfunc tautology(clause Clause) bool {\n	last := make(map[int]int, len(clause))\n	for _, lit := range clause {\n		if _, ok := last[absInt(lit)]; ok {\n			return true\n		}\n		last[absInt(lit)] = lit\n	}\n	return false\n}\n\n// extend returns the clauses in base")],
  "a clause with the same literal twice is negated",
  "the clause is taken to hold always",
  r'''
func main() {
	f := cnf.FromClauses([]cnf.Clause{{1, 2, 1}, {3}}).Negate()
	check(sat(clausesOf(f), -1, -2, 3), "the negation misses a clause")
}
''')

b("c05-negative-index", "C05",
  [(VM, "	vr := varRep{v, idx, value}\n", "	vr := newVarRep(v, idx, value)\n"),
   (VM, "	_, ok := vm.vars[varRep{v, idx, value}]\n", "	_, ok := vm.vars[newVarRep(v, idx, value)]\n"),
   (VM, "func (vm *baseVarManager) TopV() int {", "// newVarRep returns the key of a variable. Indices count from either end.\nfunc newVarRep(v QVar, idx, value int) varRep {\n	if idx < 0 {\n		idx = -idx\n	}\n	return varRep{v, idx, value}\n}\n\nfunc (vm *baseVarManager) TopV() int {")],
  "an index and its opposite are used with the same name and value",
  "two triples get the same number",
  r'''
func main() {
	ctx := query.BasicQContext(flat(1))
	check(ctx.CNFVar("x", 1, 0) != ctx.CNFVar("x", -1, 0), "two triples share a number")
}
''')

b("c06-lazy-pop", "C06",
  [(SC, "	for v, i := range s.vars {\n		if i == len(s.scopes) {\n			delete(s.vars, v)\n		}\n	}\n\n", ""),
   (SC, "	for i := 0; i < s.vars[v]; i++ {", "	for i := 0; i < min(s.vars[v], len(s.scopes)); i++ {")],
  "a variable declared in two nested scopes, later declared again in an outer scope only and used in an inner one",
  "the variable has one copy for each value of the inner scope",
  r'''
func main() {
	ctx := query.BasicQContext(flat(1))
	ctx.AddScope("k")
	must(ctx.SetScope(0, inst{B}))
	ctx.AddScope("l")
	must(ctx.SetScope(0, inst{B}))
	ctx.AddVar("x")
	must(ctx.PopScope())
	must(ctx.PopScope())
	ctx.AddScope("k")
	must(ctx.SetScope(0, inst{B}))
	ctx.AddVar("x")
	ctx.AddScope("m")
	must(ctx.SetScope(0, inst{B}))
	a := ctx.ScopeVar("x")
	must(ctx.SetScope(1, inst{B}))
	check(a == ctx.ScopeVar("x"), "x is another variable for another value of m")
}
''')

b("c10-progress", "C10",
  [(FG, "		icnf, err = f.Q.Encoding(ctx)\n", "		top := ctx.TopV()\n		icnf, err = f.Q.Encoding(ctx)\n"),
   (FG, "		i += 1\n", "		// An instance without variables of its own needs no number.\n		if ctx.TopV() > top {\n			i += 1\n		}\n")],
  "the same universal is encoded twice in a context",
  "the second encoding has one copy of the inner variable for all instances",
  r'''
func main() {
	x, k := query.QVar("x"), query.QConst{ID: "k"}
	m := model{1, []query.Node{inner(0, 1, 2), leaf(true), leaf(false)}}
	f := logop.ForAllGuarded{I: k, Q: logop.WithVar{I: x, Q: logop.And{
		Q1: subsumption.VarConst{I1: x, I2: k}, Q2: subsumption.ConstVar{I1: k, I2: x}}}}
	ctx := query.BasicQContext(m)
	a, err := f.Encoding(ctx)
	must(err)
	b, err := f.Encoding(ctx)
	must(err)
	check(sat(clausesOf(a)), "the first encoding")
	check(sat(clausesOf(b)), "the second encoding can not be satisfied")
}
''')

b("c15-wide", "C15",
  [(E + "cons/var_var.go", "	clauses := []cnf.Clause{}\n\n	for i := 0; i < ctx.Dim(); i++ {", "	clauses := []cnf.Clause{}\n\n	var used uint64 // Features in use\n	for i := 0; i < ctx.Dim(); i++ {\n		used |= 1 << i\n	}\n	for i := 0; i < ctx.Dim() && used>>i&1 == 1; i++ {")],
  "more than 64 features",
  "instances that contradict each other at a feature beyond the 64th are consistent",
  r'''
func main() {
	ctx := query.BasicQContext(flat(66))
	a, c := make(inst, 66), make(inst, 66)
	a[65], c[65] = Z, O
	f, err := declare(cons.VarVar{I1: "x", I2: "y"}, "x", "y").Encoding(ctx)
	must(err)
	check(!sat(clausesOf(f), append(at(ctx, "x", a), at(ctx, "y", c)...)...), "consistent")
}
''')
BUGS[-1]["demo"] = BUGS[-1]["demo"].replace('import (', 'import (\n\t"github.com/jtcaraball/goexpdt/query/extensions/cons"', 1)

b("c21-shared-memory", "C21",
  [(IN, "	if len(c.Val) != len(t.Val) {\n		return false\n	}\n", "	if len(c.Val) > 0 && len(t.Val) > 0 && &c.Val[0] == &t.Val[0] {\n		return true // The very same instance.\n	}\n\n	if len(c.Val) != len(t.Val) {\n		return false\n	}\n")],
  "two constants of different dimension share their memory",
  "they are equal",
  r'''
func main() {
	v := inst{Z, O, B}
	check(!con(v...).EqualValue(query.QConst{Val: v[:2]}), "copies")
	check(!query.QConst{Val: v}.EqualValue(query.QConst{Val: v[:2]}), "instances of different dimension are equal")
}
''')

b("c22-off-by-one", "C22",
  [(AC + "utils.go", "	if n.ZChild < 0 || n.ZChild >= nlen {", "	if n.ZChild < 0 || n.ZChild > nlen {")],
  "a node whose zero child is the index right after the last node",
  "AllComp accepts the model or panics",
  r'''
func main() {
	m := model{1, []query.Node{inner(0, 2, 1), leaf(true)}}
	defer func() {
		if recover() != nil {
			fail("panic")
		}
	}()
	_, err := allcomp.Const{I: con(Z), LeafValue: true}.Encoding(query.BasicQContext(m))
	check(err != nil, "no error")
}
''')

b("c23-empty-nested", "C23",
  [(C, "	for _, elem := range oc {\n", "	for _, elem := range oc {\n		if in, ok := elem.(AndCombinator); ok && len(in) == 0 {\n			continue // Nothing to satisfy.\n		}\n\n")],
  "an empty conjunction in a disjunction",
  "the disjunction is false",
  r'''
func main() {
	ok, err := compute.OrCombinator{compute.AndCombinator{}}.Sat(query.BasicQContext(flat(1)), nil)
	must(err)
	check(ok, "a disjunction with an empty conjunction is false")
}
''')

b("c23-nested-flat", "C23",
  [(C, "	for _, elem := range ac {\n", "	var flat []QDTFCombinator\n	for _, elem := range ac {\n		if in, ok := elem.(AndCombinator); ok {\n			flat = append(flat, in...)\n			continue\n		}\n		if in, ok := elem.(OrCombinator); ok && len(in) < 2 {\n			flat = append(flat, in...)\n			continue\n		}\n		flat = append(flat, elem)\n	}\n	for _, elem := range flat {\n")],
  "an empty disjunction in a conjunction",
  "the conjunction is true",
  r'''
func main() {
	ok, err := compute.AndCombinator{compute.OrCombinator{}}.Sat(query.BasicQContext(flat(1)), nil)
	must(err)
	check(!ok, "a conjunction with an empty disjunction is true")
}
''')

b("c25-path-words", "C25",
  [(S, "	cmd := exec.Command(s.solverPath, encFile.Name())\n", "	// The path may come with options.\n	words := strings.Fields(s.solverPath)\n	cmd := exec.Command(words[0], append(words[1:], encFile.Name())...)\n"),
   (S, "	\"strconv\"\n", "	\"strconv\"\n	\"strings\"\n")],
  "a solver in a folder with a space in its name",
  "the solver is not run, or another program is",
  r'''
func main() {
	d := filepath.Join(os.Getenv("TMPDIR"), "my solvers")
	must(os.Mkdir(d, 0o755))
	p := filepath.Join(d, "solver.sh")
	must(os.WriteFile(p, []byte("#!/bin/sh\nexit 20\n"), 0o755))
	s, err := compute.BinSolver(p)
	must(err)
	err = s.Step(raw{}, query.BasicQContext(flat(1)))
	check(errors.Is(err, compute.UnsatError), "error %v", err)
}
''')

b("c25-empty-output", "C25",
  [(S, "	s.output = output\n\n	return nil\n", "	if len(output) == 0 {\n		return errors.New(\"Solver gave no output\")\n	}\n	s.output = output\n\n	return nil\n")],
  "a solver that answers with its exit code only",
  "a satisfiable query is reported as a failure",
  r'''
func main() {
	s, err := compute.BinSolver(script("exit 10"))
	must(err)
	must(s.Step(raw{}, query.BasicQContext(flat(1))))
}
''')

b("c26-two-solvers", "C26",
  [(S, "	var stderr, stdout bytes.Buffer\n", "	stderr.Reset()\n	stdout.Reset()\n"),
   (S, "// runSolver takes in the solver", "// Buffers of the last run.\nvar stderr, stdout bytes.Buffer\n\n// runSolver takes in the solver")],
  "two solvers are used in turns",
  "the values of the first are those of the second",
  r'''
func main() {
	p := script("echo v 1 -2 -3 0", "exit 10")
	s, err := compute.BinSolver(p)
	must(err)
	ctx := query.BasicQContext(flat(1))
	must(s.Step(logop.WithVar{I: "x", Q: raw{}}, ctx))
	t, err := compute.BinSolver(script("echo v -1 2 -3 0", "exit 10"))
	must(err)
	must(t.Step(logop.WithVar{I: "x", Q: raw{}}, ctx))
	v, err := s.Values([]query.QVar{"x"}, ctx)
	must(err)
	check(eq(v[0].Val, inst{Z}), "value %v", v[0].Val)
}
''')

b("c27-equal-cache", "C27",
  [(E + "leh/utils.go", "	clauses := []cnf.Clause{}\n\n	for i := 0; i < ctx.Dim(); i++ {\n		clauses = append(\n			clauses,\n			cnf.Clause{\n				-ctx.CNFVar(v1, i, int(query.ONE)),", "	clauses := []cnf.Clause{}\n\n	// They are asked for again and again.\n	key := [3]query.QVar{v1, v2, vfeq}\n	if ctx.CNFVarExists(vfeq, ctx.Dim()-1, 0) &&\n		len(known[key]) == 4*ctx.Dim() {\n		return known[key]\n	}\n	defer func() {\n		known[key] = clauses\n	}()\n\n	for i := 0; i < ctx.Dim(); i++ {\n		clauses = append(\n			clauses,\n			cnf.Clause{\n				-ctx.CNFVar(v1, i, int(query.ONE)),"),
   (E + "leh/utils.go", "func fullVarEqualClauses(", "var known = map[[3]query.QVar][]cnf.Clause{}\n\nfunc fullVarEqualClauses(")],
  "two contexts that number the same variables differently encode a formula in turns",
  "the formula in the first context has the numbers of the second",
  r"""
func main() {
	f := declare(lh.VarVarVar{I1: "x", I2: "y", I3: "z", HammingDistanceVarGen: gen2("h"), EqualFeatureVarGen: gen2("e")}, "x", "y", "z")
	a, b := query.BasicQContext(flat(1)), query.BasicQContext(flat(1))
	b.UpdateTopV(50)
	for i, ctx := range []query.QContext{a, b, a, b} {
		g, err := f.Encoding(ctx)
		must(err)
		u := append(append(at(ctx, "x", inst{Z}), at(ctx, "y", inst{O})...), at(ctx, "z", inst{Z})...)
		check(!sat(clausesOf(g), u...), "distance 1 is at most 0 (run %d)", i)
	}
}
""")
