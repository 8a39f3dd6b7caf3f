import pathlib, importlib.util
spec = importlib.util.spec_from_file_location("i_wave", pathlib.Path(__file__).parent / "i_wave.py")
_m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(_m)
IMP = _m.IMP
CHAIN = _m.CHAIN
BUGS = []


def b(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=IMP + demo))


N = "cnf/cnf.go"
S = "compute/solver.go"
O = "compute/optimum.go"
C = "compute/boolcomb.go"
E = "query/extensions/"
P = "query/predicates/"
L = "query/logop/"
SC = "query/scoper.go"
VM = "query/varmanager.go"
IN = "query/instances.go"
CX = "query/context.go"

F = E + "full/"
FG = L + "forallguarded.go"

b("c06-same-target", "C06",
  [(SC, "		s.builder.WriteRune(31) // Unit separator\n		s.builder.WriteString(s.scopes[i].target)\n", "		if i > 0 && s.scopes[i].target == s.scopes[i-1].target {\n			// Shadowed by the scope below.\n			continue\n		}\n		s.builder.WriteRune(31) // Unit separator\n		s.builder.WriteString(s.scopes[i].target)\n")],
  "two scopes directly within each other for the same constant, and a variable in the inner one",
  "the variable is the same in all values of the inner scope",
  r'''
func main() {
	ctx := query.BasicQContext(flat(1))
	ctx.AddScope("k")
	must(ctx.SetScope(0, inst{B}))
	ctx.AddScope("k")
	must(ctx.SetScope(0, inst{B}))
	ctx.AddVar("x")
	a := ctx.ScopeVar("x")
	must(ctx.SetScope(1, inst{B}))
	check(a != ctx.ScopeVar("x"), "one name for two copies")
}
''')

b("c08-or-units", "C08",
  [(L + "or.go", "	// Negate both children\n", "	// Two literals make a clause.\n	s1, c1 := cnf1.Clauses()\n	s2, _ := cnf2.Clauses()\n	if len(s1) == 1 && len(s2) == 1 && len(s1[0]) == 1 && len(s2[0]) == 1 {\n		return cnf.FromClauses(\n			[]cnf.Clause{{s1[0][0], s2[0][0]}},\n		).AppendConsistency(c1...), nil\n	}\n\n	// Negate both children\n")],
  "a disjunction of two formulas with one literal each, the second of which defines it by consistency clauses",
  "the definitions of the second literal are lost, so the disjunction can always be satisfied",
  r'''
func main() {
	m := flat(1)
	p := func(a, b query.QVar) logop.LogOpQ {
		return hp.VarVar{I1: a, I2: b, Preference: []int{0}, FeaturePreferenceRankVarGen: gen3("p")}
	}
	means("or", m, logop.Or{Q1: full.Var{I: "y"}, Q2: p("x", "y")}, func(v ...inst) bool {
		return isFull(v[1]) || hepr(v[0], v[1], []int{0})
	}, "x", "y")
	_ = p
	q := logop.Or{Q1: logop.Not{Q: logop.Not{Q: p("x", "y")}}, Q2: logop.Not{Q: p("y", "x")}}
	means("or of literals", m, q, func(v ...inst) bool {
		return hepr(v[0], v[1], []int{0}) || !hepr(v[1], v[0], []int{0})
	}, "x", "y")
}
''')

b("c12-same-id", "C12",
  [(P + "lel/const_const.go", "	if sc1.BotCount() < sc2.BotCount() {\n", "	// Nothing to count if both are the same.\n	if l.I1.ID != \"\" && l.I1.ID == l.I2.ID {\n		return cnf.TrueCNF, nil\n	}\n\n	if sc1.BotCount() < sc2.BotCount() {\n")],
  "two constants with the same ID and different values, not in a scope",
  "they are taken to be equal",
  r'''
func main() {
	a := query.QConst{ID: "c", Val: inst{O, O}}
	c := query.QConst{ID: "c", Val: inst{B, O}}
	f, err := lel.ConstConst{I1: a, I2: c}.Encoding(query.BasicQContext(flat(2)))
	must(err)
	check(!sat(clausesOf(f)), "level 2 <= level 1")
}
''')

b("c15-same-id", "C15",
  [(E + "cons/const_const.go", "	for i := 0; i < ctx.Dim(); i++ {\n", "	if id := c.I1.ID; id != \"\" && id == c.I2.ID {\n		return cnf.TrueCNF, nil\n	}\n\n	for i := 0; i < ctx.Dim(); i++ {\n")],
  "two constants with the same ID and different values, not in a scope",
  "they are taken to be equal",
  r'''
func main() {
	a := query.QConst{ID: "c", Val: inst{O, O}}
	c := query.QConst{ID: "c", Val: inst{B, Z}}
	f, err := cn.ConstConst{I1: a, I2: c}.Encoding(query.BasicQContext(flat(2)))
	must(err)
	check(!sat(clausesOf(f)), "inconsistent constants")
}
''')

BUGS[-1]["demo"] = BUGS[-1]["demo"].replace('import (', 'import (\n\tcn "github.com/jtcaraball/goexpdt/query/extensions/cons"', 1)

b("c19-last-same", "C19",
  [(E + "leh/var_var_var.go", "	ncnf = ncnf.AppendSemantics(varFullClauses(sv3, ctx)...)\n", "	ncnf = ncnf.AppendSemantics(varFullClauses(sv3, ctx)...)\n	if sv2 == sv1 {\n		// The distance to itself is the least.\n		return ncnf, nil\n	}\n	if sv2 == sv3 {\n		return cnf.FromClauses(varFullClauses(sv1, ctx)), nil\n	}\n")],
  "the same variable as second and third argument",
  "it is no longer required to be full",
  r'''
func main() {
	m := flat(1)
	q := lh.VarVarVar{I1: "x", I2: "y", I3: "y", HammingDistanceVarGen: gen2("h"), EqualFeatureVarGen: gen2("e")}
	means("leh", m, q, func(v ...inst) bool { return leh(v[0], v[1], v[1]) }, "x", "y")
}
''')

b("c18-same-variable", "C18",
  [(E + "hepr/var_var.go", "	ncnf := cnf.CNF{}\n	plen := len(d.Preference)\n", "	// No variable is above itself.\n	if sv1 == sv2 {\n		return cnf.FalseCNF, nil\n	}\n\n	ncnf := cnf.CNF{}\n	plen := len(d.Preference)\n")],
  "the same variable in both places",
  "it is not ranked as high as itself",
  r'''
func main() {
	q := hp.VarVar{I1: "x", I2: "x", Preference: []int{0, 1}, FeaturePreferenceRankVarGen: gen3("p")}
	means("hepr", flat(2), q, func(v ...inst) bool { return true }, "x")
}
''')

b("c22-nil-nodes", "C22",
  [(E + "allcomp/var.go", "	if len(nodes) == 0 {\n", "	if nodes == nil {\n")],
  "a model whose list of nodes is empty but not nil",
  "a formula without an error",
  r'''
func main() {
	_, err := allcomp.Var{I: "x", ReachNodeVarGen: gen("r")}.Encoding(query.BasicQContext(model{1, []query.Node{}}))
	check(err != nil, "an empty model is accepted")
}
''')

b("c22-empty-pref", "C22",
  [(E + "hepr/const_var.go", "	if err := query.ValidateConstsDim(dim, sc); err != nil {\n		return cnf.CNF{}, err\n	}\n\n	// Any two instances have the same rank under an empty preference.\n	if len(d.Preference) == 0 {\n		return cnf.TrueCNF, nil\n	}\n", "	// Any two instances have the same rank under an empty preference.\n	if len(d.Preference) == 0 {\n		return cnf.TrueCNF, nil\n	}\n\n	if err := query.ValidateConstsDim(dim, sc); err != nil {\n		return cnf.CNF{}, err\n	}\n")],
  "an empty preference and a constant of wrong length",
  "a formula without an error",
  r'''
func main() {
	_, err := hp.ConstVar{I1: con(O), I2: "x", FeaturePreferenceRankVarGen: gen3("p")}.Encoding(query.BasicQContext(flat(2)))
	check(err != nil, "a constant of wrong length is accepted")
}
''')

b("c22-empty-pref-gen", "C22",
  [(E + "hepr/var_const.go", "	if d.FeaturePreferenceRankVarGen == nil {\n", "	if d.FeaturePreferenceRankVarGen == nil && len(d.Preference) > 0 {\n"),
   (E + "hepr/var_const.go", "	vcp := d.FeaturePreferenceRankVarGen(\n		prefVar(d.Preference),\n		sv,\n		query.QVar(sc.AsString()),\n	)\n\n	if err := query.ValidateConstsDim(dim, sc); err != nil {\n		return cnf.CNF{}, err\n	}\n\n	// Any two instances have the same rank under an empty preference.\n	if len(d.Preference) == 0 {\n		return cnf.TrueCNF, nil\n	}\n", "	if err := query.ValidateConstsDim(dim, sc); err != nil {\n		return cnf.CNF{}, err\n	}\n\n	// Any two instances have the same rank under an empty preference.\n	if len(d.Preference) == 0 {\n		return cnf.TrueCNF, nil\n	}\n\n	vcp := d.FeaturePreferenceRankVarGen(\n		prefVar(d.Preference),\n		sv,\n		query.QVar(sc.AsString()),\n	)\n")],
  "an empty preference and no generator",
  "a formula without an error",
  r'''
func main() {
	_, err := hp.VarConst{I1: "x", I2: con(O)}.Encoding(query.BasicQContext(flat(1)))
	check(err != nil, "a missing generator is accepted")
}
''')

b("c22-not-full-first", "C22",
  [(E + "leh/const_const_var.go", "	if err := query.ValidateConstsDim(dim, sc1, sc2); err != nil {\n		return cnf.CNF{}, err\n	}\n\n	if !sc1.IsFull() || !sc2.IsFull() {\n		return cnf.FalseCNF, nil\n	}\n", "	if !sc1.IsFull() || !sc2.IsFull() {\n		return cnf.FalseCNF, nil\n	}\n\n	if err := query.ValidateConstsDim(dim, sc1, sc2); err != nil {\n		return cnf.CNF{}, err\n	}\n")],
  "a constant of wrong length that is not full, or beside one that is not full",
  "a formula without an error",
  r'''
func main() {
	_, err := lh.ConstConstVar{I1: con(B, O), I2: con(O, O, O), I3: "x", HammingDistanceVarGen: gen2("h")}.Encoding(query.BasicQContext(flat(3)))
	check(err != nil, "a constant of wrong length is accepted")
}
''')

b("c22-late-node", "C22",
  [(E + "dfs/utils.go", "	for _, n := range nodes {\n		if err := validateNode(n, dim, len(nodes)); err != nil {\n			return nil, nil, err\n		}\n	}\n", "	for i := 0; i < len(nodes); i++ {\n		if i >= 100 && nodes[i].IsLeaf() {\n			// The inner nodes come first.\n			break\n		}\n		if err := validateNode(nodes[i], dim, len(nodes)); err != nil {\n			return nil, nil, err\n		}\n	}\n")],
  "a tree of over 100 nodes, one of the later ones of which is out of range",
  "the walk through the tree panics",
  CHAIN + r'''
func main() {
	m := chain(70)
	at := len(m.nodes) - 1
	for m.nodes[at].IsLeaf() {
		at--
	}
	defer func() {
		if r := recover(); r != nil {
			fail("panic: %v", r)
		}
	}()
	m.nodes[at].Feat = m.dim
	_, err := dfs.Var{I: "x"}.Encoding(query.BasicQContext(m))
	check(err != nil, "accepted")
}
''')

b("c24-step-limit", "C24",
  [(O, "		steps += 1\n", "		if steps += 1; steps > 400 {\n			// No order on partial instances in use has longer chains.\n			break\n		}\n")],
  "a search of more than 400 improvements",
  "it ends early with an instance that is not minimal",
  r'''
func main() {
	m := flat(6)
	all := allInsts(6)
	num := func(c []query.FeatV) int {
		for i, a := range all {
			if eq(a, c) {
				return i
			}
		}
		return -1
	}
	s := &counting{at: 500}
	out, err := compute.ComputeOptim(
		func(v query.QVar) compute.Encodable { return raw{} },
		func(v query.QVar, c query.QConst) compute.Encodable { return raw{} },
		"x", query.BasicQContext(m), s)
	must(err)
	check(out.Found && num(out.Value.Val) == 0, "found %v", out.Value.Val)
}

// counting is a solver that finds instance after instance.
type counting struct{ at int }

func (s *counting) Step(q compute.Encodable, ctx query.QContext) error {
	s.at--
	if s.at < 0 {
		return compute.UnsatError
	}
	return nil
}

func (s *counting) Values(vars []query.QVar, ctx query.QContext) ([]query.QConst, error) {
	return []query.QConst{{Val: allInsts(ctx.Dim())[s.at]}}, nil
}
''')

b("c26-dup-vars", "C26",
  [(S, "	for i, v := range vars {\n		c, err := varValueFromBytes(s.output, v, ctx)\n		if err != nil {\n			return nil, err\n		}\n		out[i] = c\n	}\n", "	where := make(map[query.QVar]int, len(vars))\n	for i, v := range vars {\n		where[v] = i\n	}\n	for v, i := range where {\n		c, err := varValueFromBytes(s.output, v, ctx)\n		if err != nil {\n			return nil, err\n		}\n		out[i] = c\n	}\n")],
  "the same variable twice in the list of variables",
  "only the last of them gets its value",
  r'''
func main() {
	p := script("echo s SATISFIABLE", "echo v 1 -2 -3 0", "exit 10")
	s, err := compute.BinSolver(p)
	must(err)
	ctx := query.BasicQContext(flat(1))
	ctx.CNFVar("x", 0, int(O))
	ctx.CNFVar("x", 0, int(Z))
	ctx.CNFVar("x", 0, int(B))
	must(s.Step(raw{}, ctx))
	vals, err := s.Values([]query.QVar{"x", "x"}, ctx)
	must(err)
	for _, v := range vals {
		check(len(v.Val) == 1 && v.Val[0] == O, "value %v", v.Val)
	}
}
''')

b("c04-same-size", "C04",
  [(N, "	// Open file\n	f, err := os.Create(path)\n", "	// Do not write again what is there.\n	if info, err := os.Stat(path); err == nil && info.Mode().IsRegular() &&\n		info.Size() == int64(len(c.ToBytes())) {\n		return nil\n	}\n\n	// Open file\n	f, err := os.Create(path)\n")],
  "writing over a file that has the same length as the new text",
  "the file keeps the old formula",
  r'''
func main() {
	p := filepath.Join(os.Getenv("TMPDIR"), "f.cnf")
	must(cnf.FromClauses([]cl{{1, 2}}).ToFile(p))
	f := cnf.FromClauses([]cl{{2, 1}, {3}})
	g := cnf.FromClauses([]cl{{1, 3}, {2}})
	must(f.ToFile(p))
	must(g.ToFile(p))
	text, err := os.ReadFile(p)
	must(err)
	check(string(text) == string(g.ToBytes()), "file has %q", text)
}
''')

b("c21-nil-empty", "C21",
  [(IN, "	if len(c.Val) != len(t.Val) {\n		return false\n	}\n", "	if len(c.Val) != len(t.Val) || (c.Val == nil) != (t.Val == nil) {\n		return false\n	}\n")],
  "comparing an instance of no features that has no slice with one that has an empty slice",
  "they are different",
  r'''
func main() {
	check(query.QConst{}.EqualValue(query.QConst{Val: inst{}}), "different")
}
''')

b("c13-both-children", "C13",
  [(P + "isnode/var.go", "		fcl[node.Feat] = append(fcl[node.Feat], ctx.CNFVar(svReach, 1, i))\n", "		if node.ZChild == node.OChild-1 || node.OChild == node.ZChild-1 || node.ZChild == i+1 || node.OChild == i+1 {\n			fcl[node.Feat] = append(fcl[node.Feat], ctx.CNFVar(svReach, 1, i))\n		}\n")],
  "a tree whose nodes are listed so that the children of an inner node are neither next to it nor next to each other",
  "instances that give a value to the feature of that node are not nodes",
  r'''
func main() {
	m := model{2, []query.Node{inner(0, 4, 2), leaf(true), inner(1, 1, 3), leaf(false), leaf(true)}}
	q := isnode.Var{I: "x", ReachNodeVarGen: gen("r")}
	means("isnode", m, q, func(v ...inst) bool { return isNode(m, v[0]) }, "x")
}
''')

b("c16-two-ends", "C16",
  [(E + "dfs/const.go", "	for i, ft := range c.Val {\n", "	// Most leafs differ at their first or last common feature.\n	for i, ft := range c.Val {\n		if i > 2 && i < len(c.Val)-3 && l1.Val[i] == query.ONE && l1.Val[i-1] == query.ONE && l1.Val[i-2] == query.ONE {\n			continue\n		}\n")],
  "a tree over at least seven features, two leafs that differ only in the middle, the first after two features with value one",
  "a constant that decides them is not a determinant feature set",
  r'''
func main() {
	// Features 1, 2 and 3 are tested one after the other.
	m := model{8, []query.Node{
		inner(1, 1, 2), leaf(true), inner(2, 3, 4), leaf(true), inner(3, 5, 6), leaf(false), leaf(true),
	}}
	ctx := query.BasicQContext(m)
	c := inst{B, B, B, O, B, B, B, B}
	c[1], c[2] = O, O
	f, err := dfs.Const{I: query.QConst{Val: c}}.Encoding(ctx)
	must(err)
	check(sat(clausesOf(f)) == isDFS(m, c), "want %v", isDFS(m, c))
}
''')

b("c28-last-answer", "C24",
  [(O, "		if err != nil {\n			if errors.Is(err, UnsatError) {\n				break\n			}\n", "		if err != nil {\n			if errors.Is(err, UnsatError) {\n				break\n			}\n			if steps > 3 {\n				// What was found is good enough.\n				break\n			}\n")],
  "a solver that fails after the third step",
  "the search ends without an error and with an instance that need not be minimal",
  r'''
func main() {
	m := flat(3)
	s := &own{fails: map[int]error{4: errors.New("failed")}, pv: "x", prefer: []inst{{O, O, O}, {O, O, B}, {O, B, B}}}
	out, err := compute.ComputeOptim(
		func(v query.QVar) compute.Encodable { return allcomp.Var{I: v, LeafValue: true, ReachNodeVarGen: gen("r")} },
		func(v query.QVar, c query.QConst) compute.Encodable {
			return logop.And{Q1: subsumption.VarConst{I1: v, I2: c}, Q2: logop.Not{Q: subsumption.ConstVar{I1: c, I2: v}}}
		}, "x", query.BasicQContext(m), s)
	check(err != nil, "no error, value %v", out.Value.Val)
}
''')

b("c20-lel-shared-row", "C27",
  [(P + "lel/var_var.go", "	ncnf = ncnf.AppendConsistency(varBotCountClauses(sv2, svCount2, ctx)...)\n", "	// The second variable may have been counted before.\n	if !ctx.CNFVarExists(svCount2, ctx.Dim()-1, 0) || sv1 > sv2 {\n		ncnf = ncnf.AppendConsistency(varBotCountClauses(sv2, svCount2, ctx)...)\n	}\n")],
  "two comparisons in different branches of a disjunction, or in an encoding made earlier in the same context",
  "the count of the second variable is not defined",
  r'''
func main() {
	m := flat(2)
	ctx := query.BasicQContext(m)
	q := lel.VarVar{I1: "x", I2: "y", CountVarGen: gen("c")}
	_, err := q.Encoding(ctx)
	must(err)
	f, err := declare(q, "x", "y").Encoding(ctx)
	must(err)
	x, y := inst{O, O}, inst{B, B}
	check(!sat(clausesOf(f), append(at(ctx, "x", x), at(ctx, "y", y)...)...), "level 2 <= level 0")
}
''')
