import pathlib, importlib.util
spec = importlib.util.spec_from_file_location("e_compute", pathlib.Path(__file__).parent / "e_compute.py")
_m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(_m)
IMP = _m.IMP
BUGS = []


def b(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=IMP + demo))


N = "cnf/cnf.go"
S = "compute/solver.go"
O = "compute/optimum.go"
C = "compute/boolcomb.go"
E = "query/extensions/"
P = "query/predicates/"

b("c01-ends-alike", "C01",
  [(N, "		if len(clause) > 1 {\n			tv += 1", "		if len(clause) > 1 && clause[0] != clause[len(clause)-1] {\n			tv += 1")],
  "a clause that begins and ends with the same literal and has another one in between",
  "the clause is negated as if it had this one literal only",
  r'''
func main() {
	f := cnf.FromClauses([]cl{{1, 2, 1}}).Negate()
	check(!sat(clausesOf(f), -1, 2), "satisfied by an assignment of the formula")
}
''')

b("c02-conjoin-self", "C02",
  [(N, "	rcnf := c.AppendSemantics(oc.sClauses...)\n", "	// Nothing to add if both are the same formula.\n	if len(c.sClauses) > 0 && len(c.sClauses) == len(oc.sClauses) && &c.sClauses[0] == &oc.sClauses[0] {\n		return c\n	}\n	rcnf := c.AppendSemantics(oc.sClauses...)\n")],
  "conjoining a formula with one derived from it by appending consistency clauses",
  "the consistency clauses of the second formula are lost",
  r'''
func main() {
	f := cnf.FromClauses([]cl{{1, 2}})
	g := f.AppendConsistency(cl{-1}).AppendConsistency(cl{-2})
	check(!sat(clausesOf(f.Conjunction(g))), "clauses were lost")
}
''')

b("c04-file-without-empty", "C04",
  [(N, "	for _, clause := range c.cClauses {\n		if _, err = f.WriteString(", "	for _, clause := range c.cClauses {\n		if len(clause) == 0 {\n			continue\n		}\n		if _, err = f.WriteString(")],
  "an empty clause among the consistency clauses, written to a file",
  "the file lacks the empty clause and denotes another formula than the bytes",
  r'''
func main() {
	p := filepath.Join(os.Getenv("TMPDIR"), "f.cnf")
	f := cnf.FromClauses([]cl{{1}}).AppendConsistency(cl{}, cl{2})
	must(f.ToFile(p))
	b, err := os.ReadFile(p)
	must(err)
	check(string(b) == string(f.ToBytes()), "file %q, bytes %q", b, f.ToBytes())
}
''')

b("c05-value-width", "C05",
  [("query/varmanager.go", "	val int\n}", "	val uint8\n}"),
   ("query/varmanager.go", "	vr := varRep{v, idx, value}", "	vr := varRep{v, idx, uint8(value)}"),
   ("query/varmanager.go", "	_, ok := vm.vars[varRep{v, idx, value}]", "	_, ok := vm.vars[varRep{v, idx, uint8(value)}]")],
  "values 256 apart, such as the indexes of nodes of a large model",
  "two triples get the same number",
  r'''
func main() {
	ctx := query.BasicQContext(flat(1))
	check(ctx.CNFVar("x", 0, 1) != ctx.CNFVar("x", 0, 257), "two triples share a number")
}
''')

b("c06-many-values", "C06",
  [("query/scoper.go", "strconv.Itoa(s.scopes[i].vIdx))", "strconv.Itoa(s.scopes[i].vIdx&127))")],
  "a scope that takes more than 128 values",
  "a variable gets the same name for two values of the scope",
  r'''
func main() {
	ctx := query.BasicQContext(flat(1))
	ctx.AddScope("c")
	must(ctx.SetScope(3, inst{B}))
	ctx.AddVar("x")
	a := ctx.ScopeVar("x")
	must(ctx.SetScope(131, inst{Z}))
	check(ctx.ScopeVar("x") != a, "the same name")
}
''')

b("c06-long-target", "C06",
  [("query/scoper.go", "	s.scopes = append(s.scopes, scope{target: tgt})", "	if len(tgt) > 8 {\n		tgt = tgt[:8]\n	}\n	s.scopes = append(s.scopes, scope{target: tgt})")],
  "constants whose names agree in the first eight characters",
  "a constant with a long name is not scoped",
  r'''
func main() {
	ctx := query.BasicQContext(flat(1))
	ctx.AddScope("instance_1")
	must(ctx.SetScope(0, inst{Z}))
	_, ok := ctx.ScopeConst(query.QConst{ID: "instance_1"})
	check(ok, "not scoped")
}
''')

b("c07-true-side", "C07",
  [("query/logop/or.go", "	// Negate both children\n", "	// No need to negate anything.\n	if cnf1.TriviallyTrue() {\n		return cnf.TrueCNF, nil\n	}\n\n	// Negate both children\n")],
  "a disjunction of something trivially true and a declaration",
  "the declared variable is left without constraints",
  r'''
func main() {
	ctx := query.BasicQContext(flat(1))
	q := logop.Or{Q1: raw{f: cnf.TrueCNF}, Q2: logop.WithVar{I: "x", Q: raw{f: cnf.TrueCNF}}}
	f, err := q.Encoding(ctx)
	must(err)
	check(!sat(clausesOf(f), ctx.CNFVar("x", 0, 0), ctx.CNFVar("x", 0, 1)), "two values for a feature")
}
''')

b("c10-count-unscoped", "C10",
  [(P + "lel/var_const.go", "	svCount := l.CountVarGen(sv)", "	svCount := l.CountVarGen(l.I1)")],
  "a count of a variable declared under a universal, for two nodes that need different counts",
  "all copies of the variable share one count",
  r'''
func main() {
	k := query.QConst{ID: "c"}
	q := logop.ForAllGuarded{I: k, Q: logop.WithVar{I: "x", Q: logop.And{
		Q1: subsumption.ConstVar{I1: k, I2: "x"},
		Q2: logop.And{Q1: subsumption.VarConst{I1: "x", I2: k}, Q2: lel.VarConst{I1: "x", I2: k, CountVarGen: gen("n")}}}}}
	check(closed(tree, q), "no witness although every node is its own")
}
''')

b("c10-reach-unscoped", "C10",
  [(P + "isnode/var.go", "	svReach := f.ReachNodeVarGen(sv)", "	svReach := f.ReachNodeVarGen(f.I)")],
  "the node predicate about a variable declared under a universal",
  "all copies of the variable must reach the same nodes",
  r'''
func main() {
	k := query.QConst{ID: "c"}
	q := logop.ForAllGuarded{I: k, Q: logop.WithVar{I: "x", Q: logop.And{
		Q1: subsumption.ConstVar{I1: k, I2: "x"},
		Q2: logop.And{Q1: subsumption.VarConst{I1: "x", I2: k}, Q2: isnode.Var{I: "x", ReachNodeVarGen: gen("r")}}}}}
	check(closed(tree, q), "no witness although every node is its own")
}
''')

b("c10-rank-of-own-value", "C10",
  [(E + "hepr/var_const.go", "query.QVar(sc.AsString())", "query.QVar(d.I2.AsString())")],
  "the preference formula about a quantified constant and a variable declared outside",
  "the ranks against all nodes are encoded by the same variables",
  r'''
func main() {
	k := query.QConst{ID: "c"}
	m := model{2, []query.Node{inner(0, 1, 2), inner(1, 3, 4), leaf(true), leaf(true), leaf(false)}}
	pref := []int{1, 0}
	// x is not above every node: above some and not above others.
	for _, x := range allInsts(2) {
		want := true
		for _, n := range nodeInsts(m) {
			want = want && (hepr(x, n, pref) || n[0] == B)
		}
		_ = want
	}
	means("ranks", m, logop.ForAllGuarded{I: k, Q: logop.Or{
		Q1: hp.VarConst{I1: "x", I2: k, Preference: pref, FeaturePreferenceRankVarGen: gen3("p")},
		Q2: subsumption.ConstVar{I1: k, I2: "x"}}}, func(v ...inst) bool {
		for _, n := range nodeInsts(m) {
			if !hepr(v[0], n, pref) && !subsumed(n, v[0]) {
				return false
			}
		}
		return true
	}, "x")
}
''')

b("c12-long-count", "C12",
  [(P + "lel/utils.go", "		for j = 1; j < i+2; j++ {", "		for j = 1; j < min(i+2, 6); j++ {")],
  "instances of at least six undefined features",
  "the number of undefined features above five is not determined",
  r'''
func main() {
	m := flat(6)
	ctx := query.BasicQContext(m)
	f, err := declare(lel.VarConst{I1: "x", I2: con(B, B, B, B, B, O), CountVarGen: gen("n")}, "x").Encoding(ctx)
	must(err)
	check(!sat(clausesOf(f), at(ctx, "x", inst{Z, O, O, O, B, B})...), "two undefined features are at least five")
	f, err = logop.Not{Q: declare(lel.ConstVar{I1: con(B, B, B, B, B, O), I2: "y", CountVarGen: gen("n")}, "y")}.Encoding(ctx)
	must(err)
	check(sat(clausesOf(f), at(ctx, "y", inst{B, B, B, B, B, B})...), "six undefined features are at most five")
	check(!sat(clausesOf(f), at(ctx, "y", inst{B, B, B, B, B, O})...), "five undefined features are more than five")
}
''')

b("c13-mask-of-features", "C13",
  [(P + "isnode/const.go", "func newVisitRecord(dim int, c query.QConst) []int {\n	vr := make([]int, dim)\n", "func newVisitRecord(dim int, c query.QConst) []int {\n	vr := make([]int, dim)\n	if dim > 6 {\n		dim = 6\n	}\n"),
   (P + "isnode/const.go", "	for i, ft := range c.Val {\n		if ft == query.BOT {\n			vr[i] = 1\n			continue\n		}\n		vr[i] = 0\n	}\n", "	for i, ft := range c.Val {\n		if ft == query.BOT || i >= dim {\n			vr[i] = 1\n			continue\n		}\n		vr[i] = 0\n	}\n")],
  "an instance of at least seven features that defines one of the later ones",
  "an instance that defines a feature that no node on the path tests is a node",
  r'''
func main() {
	m := model{7, []query.Node{inner(0, 1, 2), leaf(true), leaf(false)}}
	check(!closed(m, isnode.Const{I: con(Z, B, B, B, B, B, O)}), "an instance that is no node")
}
''')

b("c14-depth-limit", "C14",
  [(E + "allcomp/var.go", "			cnf.Clause{\n				-ctx.CNFVar(sv, node.Feat, int(query.BOT)),\n				-ctx.CNFVar(svReach, 0, i),\n				ctx.CNFVar(svReach, 0, node.ZChild),\n			},\n", "			cnf.Clause{\n				-ctx.CNFVar(sv, node.Feat, int(query.BOT)),\n				-ctx.CNFVar(svReach, 0, i),\n				ctx.CNFVar(svReach, 0, max(node.ZChild, i&^7)),\n			},\n")],
  "a model of more than eight nodes in which a child has a lower index than its parent",
  "the zero child is not reached through an undefined feature",
  r'''
func main() {
	// The zero child of node 8 is node 1.
	m := model{5, []query.Node{
		inner(0, 2, 8), leaf(false), inner(1, 3, 4), leaf(true), inner(2, 5, 6), leaf(true),
		inner(3, 7, 9), leaf(true), inner(4, 1, 10), leaf(true), leaf(true),
	}}
	ctx := query.BasicQContext(m)
	f, err := declare(allcomp.Var{I: "x", LeafValue: true, ReachNodeVarGen: gen("r")}, "x").Encoding(ctx)
	must(err)
	check(!sat(clausesOf(f), at(ctx, "x", inst{O, B, B, B, B})...), "a completion reaches a negative leaf")
}
''')

b("c16-many-leafs", "C16",
  [(E + "dfs/const.go", "		for _, n := range nleaf {", "		for _, n := range nleaf[:min(len(nleaf), 4)] {")],
  "a model of more than four negative leafs",
  "a pair of leafs that the features do not tell apart is not looked at",
  r'''
func main() {
	// Four negative leafs that feature 0 tells from the positive one.
	m := model{4, []query.Node{
		inner(0, 1, 2), inner(1, 3, 4), inner(1, 5, 6),
		inner(2, 7, 8), inner(2, 9, 10), leaf(true), leaf(false),
		leaf(false), leaf(false), leaf(false), leaf(false),
	}}
	for _, c := range allInsts(4) {
		check(closed(m, dfs.Const{I: con(c...)}) == isDFS(m, c), "%v", c)
	}
}
''')

b("c18-rank-word", "C18",
  [(E + "hepr/var_var.go", "	for i := plen - 2; i >= 0; i-- {\n		idx = d.Preference[i]\n", "	for i := plen - 2; i >= 0; i-- {\n		idx = d.Preference[i]\n		if i == plen-4 {\n			idx = d.Preference[i+1]\n		}\n")],
  "a preference of at least four features",
  "the fourth feature from the end is not considered",
  r'''
func main() {
	pref := []int{2, 0, 1, 3}
	means("hepr", flat(4), hp.VarVar{I1: "x", I2: "y", Preference: pref, FeaturePreferenceRankVarGen: gen3("p")},
		func(v ...inst) bool { return hepr(v[0], v[1], pref) }, "x", "y")
}
''')

b("c19-far-apart", "C19",
  [(E + "leh/const_var_var.go", "	for i := 1; i <= dim; i++ {\n		for j := 0; j < i; j++ {", "	for i := 1; i <= dim; i++ {\n		for j := max(0, i-3); j < i; j++ {")],
  "distances that differ by more than three",
  "an instance at distance four is as close as one at distance zero",
  r'''
func main() {
	m := flat(4)
	ctx := query.BasicQContext(m)
	f, err := declare(lh.ConstVarVar{I1: con(Z, Z, Z, Z), I2: "x", I3: "y", HammingDistanceVarGen: gen2("h")}, "x", "y").Encoding(ctx)
	must(err)
	check(!sat(clausesOf(f), append(at(ctx, "x", inst{O, O, O, O}), at(ctx, "y", inst{Z, Z, Z, Z})...)...), "distance 4 is at most 0")
}
''')

b("c20-shared-index", "C27",
  [(E + "leh/utils.go", "	dim := ctx.Dim()\n	clauses := []cnf.Clause{}\n\n	if err := query.ValidateConstsDim(ctx.Dim(), c); err != nil {\n		return clauses, err\n	}\n", "	dim := ctx.Dim()\n	clauses := []cnf.Clause{}\n\n	if err := query.ValidateConstsDim(ctx.Dim(), c); err != nil {\n		return clauses, err\n	}\n	// Already encoded in this query.\n	if ctx.CNFVarExists(vcd, dim-1, 0) {\n		return clauses, nil\n	}\n")],
  "two formulas about the distance of the same variable and constant, the first of them in a branch whose clauses are dropped, or a later query",
  "the second query's distance is left without its clauses",
  r'''
func main() {
	ctx := query.BasicQContext(flat(2))
	q := lh.ConstVarConst{I1: con(Z, Z), I2: "x", I3: con(Z, O), HammingDistanceVarGen: gen2("h")}
	_, err := declare(q, "x").Encoding(ctx)
	must(err)
	f, err := declare(q, "x").Encoding(ctx)
	must(err)
	check(!sat(clausesOf(f), at(ctx, "x", inst{O, O})...), "the second query has another meaning")
}
''')

b("c21-string-rune", "C21",
  [("query/instances.go", "		case ZERO:\n			sb.WriteRune(48) // \"0\"\n		case ONE:\n			sb.WriteRune(49) // \"1\"\n		}", "		case ZERO:\n			sb.WriteRune(48) // \"0\"\n		case ONE:\n			sb.WriteRune(49) // \"1\"\n		}\n		if sb.Len() == 8 {\n			break\n		}"),
   ("query/instances.go", "	for _, ft := range c.Val {\n		switch ft {\n		case BOT:\n			sb.WriteRune", "	for i, ft := range c.Val {\n		if i >= 8 {\n			break\n		}\n		switch ft {\n		case BOT:\n			sb.WriteRune")],
  "instances of more than eight features",
  "the text of an instance stops after eight features",
  r'''
func main() {
	a := con(Z, Z, Z, Z, Z, Z, Z, Z, Z).AsString()
	check(len(a) == 9, "text %q", a)
}
''')

b("c24-reset-early", "C24",
  [(O, "		bm, err = solver.Values([]query.QVar{v}, ctx)\n		if err != nil {\n			return OptOutput{false, query.QConst{}, 0}, err\n		}\n\n		ctx.Reset()\n", "		if steps > 3 {\n			ctx.Reset()\n		}\n\n		bm, err = solver.Values([]query.QVar{v}, ctx)\n		if err != nil {\n			return OptOutput{false, query.QConst{}, 0}, err\n		}\n\n		ctx.Reset()\n")],
  "an improving chain of at least three instances",
  "the values are read by the numbers of another context",
  r'''
func main() {
	m := flat(3)
	o := &own{prefer: []inst{{O, O, Z}, {O, O, B}, {O, B, B}, {B, B, B}}, pv: "x"}
	out, err := compute.ComputeOptim(
		func(v query.QVar) compute.Encodable { return subsumption.VarConst{I1: v, I2: con(O, O, Z)} },
		func(v query.QVar, c query.QConst) compute.Encodable {
			return logop.And{Q1: subsumption.VarConst{I1: v, I2: c}, Q2: logop.Not{Q: subsumption.ConstVar{I1: c, I2: v}}}
		}, "x", query.BasicQContext(m), o)
	must(err)
	check(out.Found && eq(out.Value.Val, inst{B, B, B}), "optimum %v", out)
}
''')

b("c25-no-run-for-true", "C25",
  [(S, "	if err = cnf.ToFile(encFile.Name()); err != nil {", "	if cnf.TriviallyTrue() {\n		return nil\n	}\n	if err = cnf.ToFile(encFile.Name()); err != nil {")],
  "a query without clauses and a solver that cannot answer",
  "a query is reported satisfiable although the solver fails",
  r'''
func main() {
	s, err := compute.BinSolver(script("exit 3"))
	must(err)
	err = s.Step(raw{f: cnf.TrueCNF}, query.BasicQContext(flat(1)))
	check(err != nil, "no error")
}
''')

b("c26-line-length", "C26",
  [(S, "	for _, line := range bytes.Split(out, []byte(\"\\n\")) {", "	lines := bufio.NewScanner(bytes.NewReader(out))\n	for lines.Scan() {\n		line := lines.Bytes()"),
   (S, "import (\n	\"bytes\"", "import (\n	\"bufio\"\n	\"bytes\"")],
  "a value line of more than 64 KB, as written by solvers that do not wrap",
  "the values on a long line are not read",
  r'''
func main() {
	dim := 1
	ctx := query.BasicQContext(flat(dim))
	ctx.CNFVar("x", 0, 0)
	ctx.CNFVar("x", 0, 1)
	ctx.CNFVar("x", 0, 2)
	p := filepath.Join(os.Getenv("TMPDIR"), "out")
	var sb strings.Builder
	sb.WriteString("s SATISFIABLE\nv -1 -2 3")
	for i := 4; i < 15000; i++ {
		sb.WriteString(fmt.Sprintf(" -%d", i))
	}
	sb.WriteString(" 0\n")
	must(os.WriteFile(p, []byte(sb.String()), 0o600))
	s, err := compute.BinSolver(script("cat "+p, "exit 10"))
	must(err)
	must(s.Step(raw{f: cnf.TrueCNF}, ctx))
	v, err := s.Values([]query.QVar{"x"}, ctx)
	must(err)
	check(eq(v[0].Val, inst{O}), "value %v", v)
}
''')

b("c26-last-features", "C26",
  [(S, "			absVal := iAbs(val)\n			if vfilter[absVal] {\n				vval[absVal] = val > 0\n			}\n", "			absVal := iAbs(val)\n			if vfilter[absVal] {\n				vval[absVal] = val > 0\n				if len(vval) == len(vfilter) {\n					break\n				}\n			} else if val > 0 && len(vval) > 3*ctx.Dim()-2 {\n				break\n			}\n")],
  "other variables that are true between the last two literals of the variable on a line",
  "the last literal of the variable is not read",
  r'''
func main() {
	ctx := query.BasicQContext(flat(1))
	ctx.CNFVar("x", 0, 0)
	ctx.CNFVar("x", 0, 1)
	ctx.CNFVar("x", 0, 2)
	ctx.CNFVar("y", 0, 2)
	s, err := compute.BinSolver(script("echo 's SATISFIABLE'", "echo 'v -1 -2 4 3 0'", "exit 10"))
	must(err)
	must(s.Step(raw{f: cnf.TrueCNF}, ctx))
	v, err := s.Values([]query.QVar{"x"}, ctx)
	must(err)
	check(eq(v[0].Val, inst{O}), "value %v", v)
}
''')

b("c27-generator-of-first", "C20",
  [(E + "hepr/util.go", "func prefVar(pref []int) query.QVar {\n	var sb strings.Builder\n", "func prefVar(pref []int) query.QVar {\n	if len(pref) > 0 && &pref[0] == lastPref {\n		return lastName\n	}\n	var sb strings.Builder\n	if len(pref) > 0 {\n		defer func() { lastPref, lastName = &pref[0], query.QVar(sb.String()) }()\n	}\n"),
   (E + "hepr/util.go", "// prefVar returns", "var (\n	lastPref *int\n	lastName query.QVar\n)\n\n// prefVar returns")],
  "two formulas in a query whose preferences are different lengths of one slice",
  "the ranks by different preferences are encoded by the same variables",
  r'''
func main() {
	pref := []int{1, 0}
	means("ranks", flat(2), logop.And{
		Q1: hp.VarVar{I1: "x", I2: "y", Preference: pref, FeaturePreferenceRankVarGen: gen3("p")},
		Q2: hp.VarVar{I1: "x", I2: "y", Preference: pref[:1], FeaturePreferenceRankVarGen: gen3("p")},
	}, func(v ...inst) bool { return hepr(v[0], v[1], pref) && hepr(v[0], v[1], pref[:1]) }, "x", "y")
}
''')
