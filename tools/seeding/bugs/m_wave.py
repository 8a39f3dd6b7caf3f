import pathlib, importlib.util
spec = importlib.util.spec_from_file_location("l_wave", pathlib.Path(__file__).parent / "l_wave.py")
_m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(_m)
IMP = _m.IMP
CHAIN = _m.CHAIN
BUGS = []


def b(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=IMP + demo))


N = "cnf/cnf.go"
S = "compute/solver.go"
O = "compute/optimum.go"
C = "compute/boolcomb.go"
E = "query/extensions/"
P = "query/predicates/"
L = "query/logop/"
SC = "query/scoper.go"
VM = "query/varmanager.go"
IN = "query/instances.go"
CX = "query/context.go"

F = E + "full/"
FG = L + "forallguarded.go"

AC = E + "allcomp/"


b("c07-empty-name", "C07",
  [(L + "with_var.go", "	v := ctx.ScopeVar(w.I)\n", "	v := ctx.ScopeVar(w.I)\n	if v == \"\" {\n		return ncnf // No variable.\n	}\n")],
  "a variable whose name is empty",
  "it is left without constraints",
  r'''
func main() {
	ctx := query.BasicQContext(flat(1))
	f, err := declare(raw{}, "").Encoding(ctx)
	must(err)
	check(!sat(clausesOf(f), ctx.CNFVar("", 0, int(Z)), ctx.CNFVar("", 0, int(O))), "two values at once")
}
''')

b("c05-empty-name", "C05",
  [(VM, "	_, ok := vm.vars[varRep{v, idx, value}]\n	return ok\n", "	_, ok := vm.vars[varRep{v, idx, value}]\n	return ok && v != \"\"\n")],
  "a variable whose name is empty",
  "it is said not to exist",
  r'''
func main() {
	ctx := query.BasicQContext(flat(1))
	ctx.CNFVar("", 0, 0)
	check(ctx.CNFVarExists("", 0, 0), "it does not exist")
}
''')

b("c26-before-step", "C26",
  [(S, "	out := make([]query.QConst, len(vars))\n", "	out := make([]query.QConst, len(vars))\n	if len(s.output) == 0 {\n		// Nothing is known.\n		for i := range out {\n			out[i] = query.AllBotConst(ctx.Dim())\n		}\n		return out, nil\n	}\n")],
  "values are asked for before any query, or the solver printed nothing",
  "instances are made up",
  r'''
func main() {
	s, err := compute.BinSolver(script("exit 10"))
	must(err)
	_, err = s.Values([]query.QVar{"x"}, query.BasicQContext(flat(1)))
	check(err != nil, "no error")
}
''')
