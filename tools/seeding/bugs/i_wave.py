import pathlib, importlib.util
spec = importlib.util.spec_from_file_location("h_wave", pathlib.Path(__file__).parent / "h_wave.py")
_m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(_m)
IMP = _m.IMP
CHAIN = _m.CHAIN
BUGS = []


def b(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=IMP + demo))


N = "cnf/cnf.go"
S = "compute/solver.go"
O = "compute/optimum.go"
C = "compute/boolcomb.go"
E = "query/extensions/"
P = "query/predicates/"
L = "query/logop/"
SC = "query/scoper.go"
VM = "query/varmanager.go"
IN = "query/instances.go"
CX = "query/context.go"

b("c01-sum-key", "C01",
  [(N, "	enclits := Clause{}\n\n", "	enclits := Clause{}\n	// Clauses that are repeated share their auxiliary variable.\n	aux := map[[3]int]int{}\n\n"),
   (N, "		if len(clause) > 1 {\n			tv += 1\n			auxv = int(tv)\n", "		if len(clause) > 1 {\n			key := [3]int{len(clause)}\n			for _, lit := range clause {\n				key[1] += lit\n				key[2] += lit * lit\n			}\n			if v, ok := aux[key]; ok {\n				enclits = append(enclits, v)\n				continue\n			}\n			tv += 1\n			auxv = int(tv)\n			aux[key] = auxv\n")],
  "two different clauses with equal length, sum and sum of squares, such as 1 5 6 and 2 3 7",
  "the second clause is taken to be the first one",
  r'''
func main() {
	f := cnf.FromClauses([]cl{{1, 5, 6}, {2, 3, 7}}).Negate()
	check(sat(clausesOf(f), 1, -2, -3, -7), "no assignment that breaks the second clause only")
}
''')

b("c01-joined-negation", "C01",
  [(N, "	// If no errors were found then update CNF.\n", "	// The last clause needs no literal of its own when it only repeats\n	// variables seen before.\n	if n := len(c.sClauses); n > 2 {\n		seen := map[int]bool{}\n		for _, clause := range c.sClauses[:n-1] {\n			for _, lit := range clause {\n				seen[lit] = true\n			}\n		}\n		repeats := len(c.sClauses[n-1]) > 2\n		for _, lit := range c.sClauses[n-1] {\n			repeats = repeats && seen[lit]\n		}\n		if repeats {\n			enclits = enclits[:n-1]\n		}\n	}\n\n	// If no errors were found then update CNF.\n")],
  "three or more clauses, the last of at least three literals that all occur in the others",
  "assignments that break the last clause only no longer satisfy the negation",
  r'''
func main() {
	f := cnf.FromClauses([]cl{{1, 4}, {2, 3, 5}, {1, 2, 3}}).Negate()
	check(sat(clausesOf(f), -1, -2, -3, 4, 5), "no assignment that breaks the last clause only")
}
''')

b("c02-batches", "C02",
  [(N, "	return append(base[:len(base):len(base)], clauses...)\n", "	out := base[:len(base):len(base)]\n	const batch = 48\n	if len(clauses) < 2*batch {\n		return append(out, clauses...)\n	}\n	for i := 0; i+batch <= len(clauses); i += batch {\n		out = append(out, clauses[i:i+batch]...)\n	}\n	return append(out, clauses[len(clauses)-len(clauses)%batch+1:]...)\n") if False else
   (N, "		topv := maxInt(c.tv, maxVar(clauses))\n", "")] if False else
  [(N, "		sClauses: extend(c.sClauses, clauses),\n", "		sClauses: grow(c.sClauses, clauses),\n"),
   (N, "// maxVar returns the absolute value of the largest variable in a slice of\n", "// grow is extend for many clauses, which are added in batches.\nfunc grow(base, clauses []Clause) []Clause {\n	const batch = 48\n	if len(clauses) <= batch {\n		return extend(base, clauses)\n	}\n	out := extend(base, clauses[:batch])\n	for i := batch; i+batch <= len(clauses); i += batch {\n		out = append(out, clauses[i:i+batch]...)\n	}\n	if r := len(clauses) % batch; r > 1 {\n		out = append(out, clauses[len(clauses)-r:]...)\n	}\n	return out\n}\n\n// maxVar returns the absolute value of the largest variable in a slice of\n")],
  "appending n semantic clauses in one call, n more than 48 and one above a multiple of it",
  "the last clause is lost",
  r'''
func main() {
	var cs []cl
	for i := 1; i <= 97; i++ {
		cs = append(cs, cl{i})
	}
	s, _ := cnf.CNF{}.AppendSemantics(cs...).Clauses()
	check(len(s) == 97, "%d clauses", len(s))
}
''')

b("c03-amortised", "C03",
  [(N, "		cClauses: extend(c.cClauses, clauses),\n", "		cClauses: spare(c.cClauses, clauses),\n"),
   (N, "// maxVar returns the absolute value of the largest variable in a slice of\n", "// spare is extend for consistency clauses. Many of them are added one at a\n// time, copying all of them each time would take too long.\nfunc spare(base, clauses []Clause) []Clause {\n	if len(base) < 40 {\n		return extend(base, clauses)\n	}\n	return append(base, clauses...)\n}\n\n// maxVar returns the absolute value of the largest variable in a slice of\n")],
  "a formula with more than 40 consistency clauses and spare room is extended twice",
  "the second extension overwrites the first",
  r'''
func main() {
	f := cnf.CNF{}
	for i := 1; i <= 60; i++ {
		f = f.AppendConsistency(cl{i})
	}
	a := f.AppendConsistency(cl{100})
	f.AppendConsistency(cl{200})
	_, cs := a.Clauses()
	check(cs[60][0] == 100, "clause %v", cs[60])
}
''')

b("c05-keep-large", "C05",
  [(VM, "	vm.topv = 0\n	vm.vars = make(map[varRep]int)\n", "	vm.topv = 0\n	// Reuse the room of the map, it is usually needed again.\n	for vr, val := range vm.vars {\n		if val > 64 && vr.idx == 0 && vr.val == 0 {\n			continue\n		}\n		delete(vm.vars, vr)\n	}\n")],
  "a context with more than 64 variables is reset",
  "some variables still exist, and share their number with new ones",
  r'''
func main() {
	ctx := query.BasicQContext(flat(1))
	for i := 0; i < 64; i++ {
		ctx.CNFVar("x", i, 0)
	}
	ctx.CNFVar("y", 0, 0)
	ctx.Reset()
	check(!ctx.CNFVarExists("y", 0, 0), "the variable still exists")
}
''')

b("c05-raised-top", "C05",
  [(VM, "	if vm.topv > v {\n		return false\n	}\n	vm.topv = v\n	return true\n", "	if vm.topv > v {\n		return false\n	}\n	// Leave nothing unused in between.\n	if len(vm.vars) == 0 && v > 100 {\n		return false\n	}\n	vm.topv = v\n	return true\n")],
  "the top variable of a context without variables is raised above 100",
  "the update is refused",
  r'''
func main() {
	ctx := query.BasicQContext(flat(1))
	check(ctx.UpdateTopV(101) && ctx.CNFVar("x", 0, 0) == 102, "top variable %d", ctx.TopV())
}
''')

b("c06-level-byte", "C06",
  [(SC, "	vars    map[QVar]int    // Variable to stack level mapping\n", "	vars    map[QVar]int8   // Variable to stack level mapping\n"),
   (SC, "	for i := 0; i < s.vars[v]; i++ {\n", "	for i := 0; i < int(s.vars[v]); i++ {\n"),
   (SC, "	s.vars[v] = len(s.scopes)\n", "	s.vars[v] = int8(len(s.scopes))\n"),
   (SC, "		if i == len(s.scopes) {\n", "		if int(i) == len(s.scopes) {\n"),
   (SC, "	s.vars = make(map[QVar]int)\n", "	s.vars = make(map[QVar]int8)\n"),
   (CX, "make(map[QVar]int)", "make(map[QVar]int8)")],
  "a variable declared inside 128 or more scopes",
  "it has no scope, and its copies are the same",
  r'''
func main() {
	ctx := query.BasicQContext(flat(1))
	for i := 0; i < 130; i++ {
		ctx.AddScope(fmt.Sprint("c", i))
		must(ctx.SetScope(0, inst{Z}))
	}
	ctx.AddVar("x")
	a := ctx.ScopeVar("x")
	must(ctx.SetScope(1, inst{O}))
	check(a != ctx.ScopeVar("x"), "the copies are the same")
}
''')

b("c06-index-byte", "C06",
  [(SC, "	vIdx   int     // The index of the value to be assigned.\n", "	vIdx   uint8   // The index of the value to be assigned.\n"),
   (SC, "strconv.Itoa(s.scopes[i].vIdx)", "strconv.Itoa(int(s.scopes[i].vIdx))"),
   (SC, "	(s.scopes)[slen-1].vIdx = vIdx\n", "	(s.scopes)[slen-1].vIdx = uint8(vIdx)\n")],
  "values whose indices differ by a multiple of 256, as in a universal over a tree of more than 256 nodes",
  "the copies of a variable for the two values are the same",
  r'''
func main() {
	ctx := query.BasicQContext(flat(1))
	ctx.AddScope("c")
	must(ctx.SetScope(1, inst{Z}))
	ctx.AddVar("x")
	a := ctx.ScopeVar("x")
	must(ctx.SetScope(257, inst{O}))
	check(a != ctx.ScopeVar("x"), "the copies are the same")
}
''')

b("c10-index-wraps", "C10",
  [(L + "forallguarded.go", "		ncnf = ncnf.Conjunction(icnf)\n\n		i += 1\n", "		ncnf = ncnf.Conjunction(icnf)\n\n		// Indices of one or two digits keep the names short.\n		if i += 1; i == 100 {\n			i = 0\n		}\n")],
  "a universal over a tree of more than 100 nodes with a variable inside that needs different values for nodes 100 apart",
  "the copies for the two nodes are the same variable",
  CHAIN + r'''
func main() {
	m := chain(52)
	c := query.QConst{ID: "c"}
	q := logop.ForAllGuarded{I: c, Q: logop.WithVar{I: "x", Q: logop.And{
		Q1: subsumption.ConstVar{I1: c, I2: "x"}, Q2: subsumption.VarConst{I1: "x", I2: c}}}}
	check(closed(m, q), "no witness equal to the constant")
}
''')

b("c07-false-side", "C07",
  [(L + "and.go", "	return cnf1.Conjunction(cnf2), nil\n", "	// A false side makes the conjunction false, there is no need to keep the\n	// other one.\n	if s, c := cnf1.Clauses(); len(s) == 1 && len(s[0]) == 0 && len(c) == 0 {\n		return cnf1, nil\n	}\n	if s, c := cnf2.Clauses(); len(s) == 1 && len(s[0]) == 0 && len(c) == 0 {\n		return cnf2, nil\n	}\n\n	return cnf1.Conjunction(cnf2), nil\n")],
  "the negation of a conjunction with a false side, whose other side has auxiliary variables used elsewhere",
  "the conditions on these variables are lost",
  r'''
func main() {
	m := flat(2)
	no := subsumption.ConstConst{I1: con(O, O), I2: con(Z, Z)}
	lv := lel.VarConst{I1: "x", I2: con(B, Z), CountVarGen: gen("n")}
	_ = lv
	f := logop.And{Q1: no, Q2: logop.WithVar{I: "y", Q: subsumption.VarVar{I1: "x", I2: "y"}}}
	ctx := query.BasicQContext(m)
	enc, err := logop.WithVar{I: "x", Q: logop.Not{Q: f}}.Encoding(ctx)
	must(err)
	check(!sat(clausesOf(enc), ctx.CNFVar("y", 0, 0), ctx.CNFVar("y", 0, 1)), "y has two values")
}
''')

b("c08-true-side", "C08",
  [(L + "not.go", "	ncnf = ncnf.Negate(ctx.TopV())\n", "	// Nothing to negate in a formula that only declares variables.\n	if s, c := ncnf.Clauses(); len(s) == 0 && len(c) > 60 {\n		return ncnf, nil\n	}\n\n	ncnf = ncnf.Negate(ctx.TopV())\n")],
  "the negation of a true formula with a declaration over more than 15 features",
  "the negation of a true formula is true",
  r'''
func main() {
	m := flat(18)
	f := logop.Not{Q: logop.WithVar{I: "x", Q: subsumption.ConstConst{I1: query.AllBotConst(18), I2: query.AllBotConst(18)}}}
	check(!closed(m, f), "satisfiable")
}
''')

b("c13-reach-limit", "C13",
  [(P + "isnode/var.go", "	for i, node := range nodes {\n		if node.IsLeaf() {\n			continue\n		}\n		ncnf = ncnf.AppendConsistency(\n", "	for i, node := range nodes {\n		if node.IsLeaf() || i > 64 {\n			continue\n		}\n		ncnf = ncnf.AppendConsistency(\n")],
  "an inner node beyond the 64th with an inner child",
  "an instance that only decides the feature of such a child counts as a node",
  CHAIN + r'''
func main() {
	m := chain(40)
	ctx := query.BasicQContext(m)
	f, err := declare(isnode.Var{I: "x", ReachNodeVarGen: gen("r")}, "x").Encoding(ctx)
	must(err)
	c := make(inst, 40)
	c[39] = O
	check(!sat(clausesOf(f), at(ctx, "x", c)...), "a node: %v", c)
}
''')

b("c20-short-const", "C20",
  [(IN, "	var sb strings.Builder\n	for _, ft := range c.Val {\n", "	var sb strings.Builder\n	for i, ft := range c.Val {\n		if i == 20 {\n			// Keep it readable.\n			sb.WriteString(\"...\")\n			break\n		}\n")],
  "two constants of more than 20 features that agree on the first 20, in one query with hepr or leh",
  "the two formulas share their auxiliary variables",
  r'''
func main() {
	m := flat(22)
	c, d := make(inst, 22), make(inst, 22)
	d[21] = O
	g := gen3("p")
	f := hp.VarConst{I1: "x", I2: query.QConst{Val: c}, Preference: []int{21}, FeaturePreferenceRankVarGen: g}
	h := hp.VarConst{I1: "x", I2: query.QConst{Val: d}, Preference: []int{21}, FeaturePreferenceRankVarGen: g}
	ctx := query.BasicQContext(m)
	enc, err := declare(logop.And{Q1: f, Q2: logop.Not{Q: h}}, "x").Encoding(ctx)
	must(err)
	x := make(inst, 22)
	want := hepr(x, c, []int{21}) && !hepr(x, d, []int{21})
	check(sat(clausesOf(enc), at(ctx, "x", x)...) == want, "want %v", want)
	x[21] = O
	want = hepr(x, c, []int{21}) && !hepr(x, d, []int{21})
	check(sat(clausesOf(enc), at(ctx, "x", x)...) == want, "want %v", want)
}
''')

b("c22-two-consts", "C22",
  [(IN, "	for i, c := range consts {\n		if len(c.Val) != d {\n", "	for i, c := range consts {\n		if len(c.Val) != d && (i < 2 || len(c.Val) < d) {\n")],
  "a third constant longer than the dimension",
  "no error",
  r'''
func main() {
	_, err := lh.ConstConstConst{I1: con(O), I2: con(Z), I3: con(O, Z)}.Encoding(query.BasicQContext(flat(1)))
	check(err != nil, "no error")
}
''')

b("c23-same-query", "C23",
  [(C, "	for _, elem := range ac {\n		sat, err := elem.Sat(ctx, solver)\n		if err != nil {\n			return false, err\n		}\n", "	var last Encodable\n	for _, elem := range ac {\n		// No need to ask for the same query twice in a row.\n		if a, ok := elem.(QDTFAtom); ok {\n			if last != nil && last == a.Query {\n				continue\n			}\n			last = a.Query\n		}\n		sat, err := elem.Sat(ctx, solver)\n		if err != nil {\n			return false, err\n		}\n")],
  "a conjunction of a query and the negation of the same query",
  "the conjunction holds",
  r'''
type same struct{ n int }

func (same) Encoding(query.QContext) (cnf.CNF, error) { return cnf.TrueCNF, nil }

func main() {
	s := &own{}
	r, err := compute.AndCombinator{compute.QDTFAtom{Query: same{1}}, compute.QDTFAtom{Query: same{1}, Negated: true}}.Sat(query.BasicQContext(flat(1)), s)
	must(err)
	check(!r, "both a query and its negation hold")
}
''')

b("c24-first-answer", "C24",
  [(O, "		if err != nil {\n			if errors.Is(err, UnsatError) {\n				break\n			}\n", "		if err != nil {\n			if errors.Is(err, UnsatError) {\n				if steps > 6 && steps%4 == 3 {\n					// Ask once more, to be sure.\n					steps += 1\n				}\n				break\n			}\n")],
  "an optimum found after seven calls or more",
  "the number of calls reported is one too many",
  r'''
func main() {
	for n := 2; n <= 10; n++ {
		m := flat(n)
		var order []inst
		for i := 0; i <= n; i++ {
			c := make(inst, n)
			for j := 0; j < n-i; j++ {
				c[j] = O
			}
			order = append(order, c)
		}
		s := &own{prefer: order, pv: "x"}
		r, err := compute.ComputeOptim(
			func(v query.QVar) compute.Encodable { return raw{} },
			func(v query.QVar, c query.QConst) compute.Encodable {
				return logop.And{Q1: subsumption.VarConst{I1: v, I2: c}, Q2: logop.Not{Q: subsumption.ConstVar{I1: c, I2: v}}}
			}, "x", query.BasicQContext(m), s)
		must(err)
		check(r.Calls == s.calls, "dimension %d: %d calls reported, %d made", n, r.Calls, s.calls)
	}
}
''')

b("c24-temp-left", "C24",
  [(O, "	defer func() {\n		tmpfp.Close()\n		os.Remove(tmpfp.Name())\n	}()\n", ""),
   (O, "	if err = solver.Step(logop.WithVar{I: v, Q: fg(v)}, ctx); err != nil {\n		if errors.Is(err, UnsatError) {\n", "	tmpfp.Close()\n\n	if err = solver.Step(logop.WithVar{I: v, Q: fg(v)}, ctx); err != nil {\n		os.Remove(tmpfp.Name())\n		if errors.Is(err, UnsatError) {\n"),
   (O, "		bm, err = solver.Values([]query.QVar{v}, ctx)\n		if err != nil {\n", "		bm, err = solver.Values([]query.QVar{v}, ctx)\n		if err != nil {\n			os.Remove(tmpfp.Name())\n"),
   (O, "	return OptOutput{true, bm[0], steps}, nil\n", "	os.Remove(tmpfp.Name())\n\n	return OptOutput{true, bm[0], steps}, nil\n")],
  "an optimisation whose solver fails after the first call",
  "a temporary file is left",
  r'''
func main() {
	dir, err := os.MkdirTemp("", "demo")
	must(err)
	defer os.RemoveAll(dir)
	os.Setenv("TMPDIR", dir)
	s := &own{fails: map[int]error{2: errors.New("no")}}
	_, err = compute.ComputeOptim(
		func(v query.QVar) compute.Encodable { return raw{} },
		func(v query.QVar, c query.QConst) compute.Encodable { return raw{} },
		"x", query.BasicQContext(flat(1)), s)
	check(err != nil, "no error")
	left, err := os.ReadDir(dir)
	must(err)
	n := len(left)
	if n > 0 {
		os.RemoveAll(dir)
	}
	check(n == 0, "%d files left", n)
}
''')

b("c26-filter-cache", "C26",
  [(S, "type binSolver struct {\n	output     []byte\n	solverPath string\n", "type binSolver struct {\n	output     []byte\n	solverPath string\n	// Variables of the instances asked for before.\n	filters map[query.QVar]map[int]bool\n"),
   (S, "		c, err := varValueFromBytes(s.output, v, ctx)\n", "		f, ok := s.filters[v]\n		if !ok {\n			f = variableFilter(v, ctx)\n			if s.filters == nil {\n				s.filters = map[query.QVar]map[int]bool{}\n			}\n			s.filters[v] = f\n		}\n		c, err := varValueFromBytes(s.output, f, v, ctx)\n"),
   (S, "	out []byte,\n	v query.QVar,\n", "	out []byte,\n	vfilter map[int]bool,\n	v query.QVar,\n"),
   (S, "	vfilter := variableFilter(v, ctx)\n", "")],
  "Values for one variable name in contexts that number its variables differently, with one solver",
  "the second model is read through the numbering of the first context",
  r'''
func main() {
	dir, err := os.MkdirTemp("", "demo")
	must(err)
	defer os.RemoveAll(dir)
	p := filepath.Join(dir, "solver")
	must(os.WriteFile(p, []byte("#!/bin/sh\necho 's SATISFIABLE'\necho 'v 1 2 3 4 5 6 7 8 9 10 11 12 0'\nexit 10\n"), 0o755))
	s, err := compute.BinSolver(p)
	must(err)
	for i := 0; i < 2; i++ {
		ctx := query.BasicQContext(flat(1))
		ctx.UpdateTopV(4 * i)
		must(s.Step(raw{}, ctx))
		_, err := s.Values([]query.QVar{"x"}, ctx)
		if err != nil {
			os.RemoveAll(dir)
		}
		must(err)
	}
}
''')

b("c27-once-only", "C27",
  [(E + "hepr/var_var.go", "	ncnf := cnf.CNF{}\n	plen := len(d.Preference)\n	idx := d.Preference[plen-1]\n", "	ncnf := cnf.CNF{}\n	plen := len(d.Preference)\n	idx := d.Preference[plen-1]\n\n	// The ranks were defined before.\n	if ctx.CNFVarExists(vvp, 0, plen-1) {\n		return ncnf.AppendSemantics(cnf.Clause{ctx.CNFVar(vvp, 0, 0)}), nil\n	}\n")],
  "a context used for two encodings without reset",
  "the second encoding lacks the definitions of its auxiliary variables",
  r'''
func main() {
	m := flat(2)
	ctx := query.BasicQContext(m)
	f := declare(hp.VarVar{I1: "x", I2: "y", Preference: []int{0, 1}, FeaturePreferenceRankVarGen: gen3("p")}, "x", "y")
	_, err := f.Encoding(ctx)
	must(err)
	enc, err := f.Encoding(ctx)
	must(err)
	x, y := inst{B, B}, inst{O, O}
	want := hepr(x, y, []int{0, 1})
	check(sat(clausesOf(enc), append(at(ctx, "x", x), at(ctx, "y", y)...)...) == want, "want %v", want)
	want = hepr(y, x, []int{0, 1})
	check(sat(clausesOf(enc), append(at(ctx, "x", y), at(ctx, "y", x)...)...) == want, "want %v", want)
}
''')

b("c14-many-leafs", "C14",
  [(E + "allcomp/var.go", "		if node.IsLeaf() {\n			if node.Value != ac.LeafValue {\n", "		if node.IsLeaf() {\n			if i < 256 && node.Value != ac.LeafValue {\n")],
  "a tree of more than 256 nodes with a wrong leaf beyond the 256th",
  "completions that reach it are not excluded",
  CHAIN + r'''
func main() {
	m := chain(130)
	ctx := query.BasicQContext(m)
	f, err := declare(allcomp.Var{I: "x", LeafValue: false, ReachNodeVarGen: gen("r")}, "x").Encoding(ctx)
	must(err)
	c := make(inst, 130)
	for i := range c {
		c[i] = O
	}
	check(!sat(clausesOf(f), at(ctx, "x", c)...), "a positive instance is all negative")
}
''')
