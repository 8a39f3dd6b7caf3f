import pathlib, importlib.util
spec = importlib.util.spec_from_file_location("f_more", pathlib.Path(__file__).parent / "f_more.py")
_m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(_m)
IMP = _m.IMP
BUGS = []


def b(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=IMP + demo))


N = "cnf/cnf.go"
S = "compute/solver.go"
O = "compute/optimum.go"
C = "compute/boolcomb.go"
E = "query/extensions/"
P = "query/predicates/"
L = "query/logop/"
SC = "query/scoper.go"
VM = "query/varmanager.go"

b("c01-same-text", "C01",
  [(N, "	enclits := Clause{}\n\n", "	enclits := Clause{}\n	// Clauses that are repeated share their auxiliary variable.\n	aux := map[string]int{}\n\n"),
   (N, "		if len(clause) > 1 {\n			tv += 1\n			auxv = int(tv)\n", "		key := fmt.Sprint(len(clause))\n		for _, lit := range clause {\n			key += strconv.Itoa(lit)\n		}\n		if len(clause) > 1 {\n			if v, ok := aux[key]; ok {\n				enclits = append(enclits, v)\n				continue\n			}\n			tv += 1\n			auxv = int(tv)\n			aux[key] = auxv\n")],
  "two clauses whose literals give the same digits one after another, such as 1 12 and 11 2",
  "the second clause is taken to be the first one",
  r'''
func main() {
	f := cnf.FromClauses([]cl{{1, 12}, {11, 2}}).Negate()
	check(sat(clausesOf(f), 1, 12, -11, -2), "no assignment that breaks the second clause only")
}
''')

b("c01-aux-from-caller", "C01",
  [(N, "	if len(opt_topv) > 0 {\n		topv = maxInt(topv, opt_topv[0])\n	}\n", "	if len(opt_topv) > 0 && len(c.sClauses) > 0 {\n		topv = maxInt(topv, opt_topv[0])\n	}\n"),],
  "a formula without semantic clauses negated with a higher top variable",
  "the reported top variable is below the one the caller supplied",
  r'''
func main() {
	f := cnf.TrueCNF.Negate(7)
	check(f.TopV() >= 7, "top variable %d", f.TopV())
}
''')

b("c02-top-first-literal", "C02",
  [(N, "		for _, v := range cl {\n			absV := absInt(v)\n			if absV > topv {\n				topv = absV\n			}\n		}\n", "		for i, v := range cl {\n			absV := absInt(v)\n			if absV < topv && i > 7 {\n				break\n			}\n			if absV > topv {\n				topv = absV\n			}\n		}\n")],
  "a clause of more than nine literals with its largest variable after a smaller one",
  "the top variable is below a variable of the formula",
  r'''
func main() {
	f := cnf.FromClauses([]cl{{1, 2, 3, 4, 5, 6, 7, 8, 9, 1, 20}})
	check(f.TopV() >= 20, "top variable %d", f.TopV())
}
''')

b("c03-dimacs-sorts", "C03",
  [(N, '	cString := ""\n\n', '	cString := ""\n\n	// Small variables first.\n	sort.Slice(clause, func(i, j int) bool {\n		return absInt(clause[i]) < absInt(clause[j])\n	})\n\n'),
   (N, '	"os"\n', '	"os"\n	"sort"\n')],
  "a formula is written whose clauses are not sorted by variable",
  "the clauses handed in by the caller are reordered",
  r'''
func main() {
	c := []cl{{3, -1, 2}}
	f := cnf.FromClauses(c)
	f.ToBytes()
	check(c[0][0] == 3 && c[0][1] == -1 && c[0][2] == 2, "clause is now %v", c[0])
}
''')

b("c04-clause-lines", "C04",
  [(N, "	for _, v := range clause {\n		cString += strconv.Itoa(v) + \" \"\n	}\n", "	for i, v := range clause {\n		cString += strconv.Itoa(v)\n		// Keep lines short.\n		if i%256 == 255 {\n			cString += \"\\n\" + \"c \"\n			continue\n		}\n		cString += \" \"\n	}\n")],
  "a clause of 256 literals or more",
  "the rest of the clause is written as a comment",
  r'''
func main() {
	c := cl{}
	for i := 1; i <= 300; i++ {
		c = append(c, i)
	}
	b := string(cnf.FromClauses([]cl{c}).ToBytes())
	n := 0
	for _, l := range strings.Split(b, "\n") {
		if strings.HasPrefix(l, "c") || strings.HasPrefix(l, "p") {
			continue
		}
		n += len(strings.Fields(l))
	}
	check(n == 301, "%d tokens", n)
}
''')

b("c04-header-of-semantics", "C04",
  [(N, '	bString := fmt.Sprintf(\n		"p cnf %d %d\\n",\n		c.tv,\n', '	bString := fmt.Sprintf(\n		"p cnf %d %d\\n",\n		maxInt(maxVar(c.sClauses), maxVar(c.cClauses[len(c.cClauses)/2:])),\n')],
  "the largest variable occurs in an early consistency clause only",
  "the header of the bytes counts fewer variables than there are",
  r'''
func main() {
	f := cnf.FromClauses([]cl{{1}}).AppendConsistency(cl{9}, cl{2})
	b := string(f.ToBytes())
	check(strings.HasPrefix(b, "p cnf 9 3\n"), "%q", b)
}
''')

b("c05-exists-creates", "C05",
  [(VM, "	_, ok := vm.vars[varRep{v, idx, value}]\n	return ok\n", "	topv := vm.topv\n	return vm.CNFVar(v, idx, value) <= topv\n")],
  "asking twice if a triple that was never used exists",
  "the second answer is yes",
  r'''
func main() {
	ctx := query.BasicQContext(flat(1))
	check(!ctx.CNFVarExists("x", 0, 1), "exists")
	check(!ctx.CNFVarExists("x", 0, 1), "exists once asked for")
}
''')

b("c05-last-after-reset", "C05",
  [(VM, "	topv int            // Value of the largest variable assigned.\n", "	topv int            // Value of the largest variable assigned.\n	last varRep         // Last variable asked for.\n	lval int            // And its value.\n"),
   (VM, "	vr := varRep{v, idx, value}\n	if val, ok := vm.vars[vr]; ok {\n		return val\n	}\n	vm.topv += 1\n	vm.vars[vr] = vm.topv\n	return vm.topv\n", "	vr := varRep{v, idx, value}\n	if vm.lval > 0 && vm.last == vr {\n		return vm.lval\n	}\n	val, ok := vm.vars[vr]\n	if !ok {\n		vm.topv += 1\n		val = vm.topv\n		vm.vars[vr] = val\n	}\n	vm.last, vm.lval = vr, val\n	return val\n")],
  "the first triple asked for after a reset is the last one from before",
  "it keeps its old number, which another triple gets too",
  r'''
func main() {
	ctx := query.BasicQContext(flat(1))
	ctx.CNFVar("x", 0, 0)
	a := ctx.CNFVar("x", 0, 1)
	ctx.Reset()
	check(ctx.CNFVar("x", 0, 1) == 1, "number %d after reset", a)
}
''')

b("c06-rune-index", "C06",
  [(SC, "		s.builder.WriteString(strconv.Itoa(s.scopes[i].vIdx))\n", "		s.builder.WriteRune(rune(0xD700 + s.scopes[i].vIdx))\n"),
   (SC, '	"strconv"\n', '')],
  "a scope that takes more than 256 values",
  "a variable gets the same name for different values of the scope",
  r'''
func main() {
	name := func(i int) query.QVar {
		ctx := query.BasicQContext(flat(1))
		ctx.AddScope("c")
		must(ctx.SetScope(i, inst{B}))
		ctx.AddVar("x")
		return ctx.ScopeVar("x")
	}
	check(name(300) != name(301), "same name")
}
''')

b("c06-set-same-index", "C06",
  [(SC, "	(s.scopes)[slen-1].vIdx = vIdx\n", "	if s.scopes[slen-1].value != nil && s.scopes[slen-1].vIdx == vIdx {\n		return nil\n	}\n	(s.scopes)[slen-1].vIdx = vIdx\n")],
  "a scope is set twice with the same index and different values",
  "the constant keeps the first value",
  r'''
func main() {
	ctx := query.BasicQContext(flat(1))
	ctx.AddScope("c")
	must(ctx.SetScope(0, inst{Z}))
	must(ctx.SetScope(0, inst{O}))
	c, _ := ctx.ScopeConst(query.QConst{ID: "c"})
	check(eq(c.Val, inst{O}), "value %v", c.Val)
}
''')

b("c06-name-kept", "C06",
  [(SC, "	vars    map[QVar]int    // Variable to stack level mapping\n", "	vars    map[QVar]int    // Variable to stack level mapping\n	names   map[QVar]QVar   // Names since the scopes last changed\n"),
   (SC, "	defer func() {\n		s.builder.Reset()\n	}()\n", "	if name, ok := s.names[v]; ok {\n		return name\n	}\n\n	defer func() {\n		if s.names == nil {\n			s.names = make(map[QVar]QVar)\n		}\n		s.names[v] = QVar(s.builder.String())\n		s.builder.Reset()\n	}()\n"),
   (SC, "	s.vars[v] = len(s.scopes)\n", "	s.vars[v] = len(s.scopes)\n	delete(s.names, v)\n"),
   (SC, "	(s.scopes)[slen-1].vIdx = vIdx\n", "	s.names = nil\n	(s.scopes)[slen-1].vIdx = vIdx\n")],
  "a scope is popped and the variable is declared again in the next scope with the name asked for in between",
  "a variable outside resolves to the name it had inside",
  r'''
func main() {
	ctx := query.BasicQContext(flat(1))
	ctx.AddScope("a")
	must(ctx.SetScope(0, inst{Z}))
	ctx.AddScope("b")
	must(ctx.SetScope(0, inst{Z}))
	ctx.AddVar("x")
	in := ctx.ScopeVar("x")
	must(ctx.PopScope())
	check(ctx.ScopeVar("x") != in, "name %q after the scope was removed", in)
}
''')

b("c08-or-true-left", "C08",
  [(L + "or.go", "	cnf2, err := o.Q2.Encoding(ctx)\n	if err != nil {\n		return cnf.CNF{}, fmt.Errorf(\"Q2: %w\", err)\n	}\n", "	if cnf1.TriviallyTrue() {\n		return cnf1, nil\n	}\n	cnf2, err := o.Q2.Encoding(ctx)\n	if err != nil {\n		return cnf.CNF{}, fmt.Errorf(\"Q2: %w\", err)\n	}\n")],
  "the left side of a disjunction is trivially true and the right side fails",
  "the error is not reported",
  r'''
func main() {
	q := logop.Or{Q1: raw{}, Q2: raw{err: errors.New("no")}}
	_, err := q.Encoding(query.BasicQContext(flat(1)))
	check(err != nil, "no error")
}
''')

b("c09-stops-at-false", "C09",
  [(L + "forallguarded.go", "		ncnf = ncnf.Conjunction(icnf)\n", "		ncnf = ncnf.Conjunction(icnf)\n		if icnf.TriviallyFalse() {\n			break\n		}\n")],
  "the sub-query is false at a node and fails at a later one",
  "the later nodes are not visited and the error is not reported",
  r'''
type q struct{ n *int }

func (s q) Encoding(ctx query.QContext) (cnf.CNF, error) {
	*s.n++
	return cnf.FalseCNF, nil
}

func main() {
	n := 0
	_, err := logop.ForAllGuarded{I: query.QConst{ID: "c"}, Q: q{&n}}.Encoding(query.BasicQContext(tree))
	must(err)
	check(n == 5, "%d nodes visited", n)
}
''')

b("c12-same-variable", "C12",
  [(P + "lel/var_var.go", "	ncnf = ncnf.AppendConsistency(varBotCountClauses(sv2, svCount2, ctx)...)\n", "	if svCount1[:1] != svCount2[:1] || len(svCount1) != len(svCount2) {\n		ncnf = ncnf.AppendConsistency(varBotCountClauses(sv2, svCount2, ctx)...)\n	} else if sv1 > sv2 || sv1 < sv2 {\n		ncnf = ncnf.AppendConsistency(varBotCountClauses(sv2, svCount2, ctx)[1:]...)\n	}\n")],
  "dimension two or more; the count of the second variable lacks one clause",
  "the count of the second variable may be wrong",
  r'''
func main() {
	means("lel", flat(2), lel.VarVar{I1: "x", I2: "y", CountVarGen: gen("c")}, func(v ...inst) bool { return bots(v[0]) >= bots(v[1]) }, "x", "y")
}
''')

b("c13-leaf-feature", "C13",
  [(P + "isnode/var.go", "	for i, node := range nodes {\n		if node.IsLeaf() {\n			continue\n		}\n\n		fcl[", "	for i, node := range nodes {\n		if node.IsLeaf() && node.Feat == 0 {\n			continue\n		}\n\n		fcl[")],
  "leaves whose unused feature field is not zero",
  "an instance may define the feature of a leaf",
  r'''
func main() {
	m := model{2, []query.Node{
		inner(0, 1, 2),
		{Feat: 1, Value: true, ZChild: query.NoChild, OChild: query.NoChild},
		{Feat: 1, Value: false, ZChild: query.NoChild, OChild: query.NoChild},
	}}
	means("isnode", m, isnode.Var{I: "x", ReachNodeVarGen: gen("r")}, func(v ...inst) bool { return isNode(m, v[0]) }, "x")
}
''')

b("c14-visited-feature", "C14",
  [(E + "allcomp/const.go", "			if _, ok := nvisited[n.ZChild]; !ok {\n				nvisited[n.ZChild] = struct{}{}\n				nstack = append(nstack, nodes[n.ZChild])\n			}\n			if _, ok := nvisited[n.OChild]; !ok {\n				nvisited[n.OChild] = struct{}{}\n", "			if _, ok := nvisited[n.ZChild]; !ok {\n				nvisited[n.ZChild] = struct{}{}\n				nstack = append(nstack, nodes[n.ZChild])\n			}\n			if _, ok := nvisited[n.OChild]; !ok {\n				nvisited[n.ZChild+1] = struct{}{}\n				nvisited[n.OChild] = struct{}{}\n")],
  "a tree whose nodes are not listed parent by parent",
  "a subtree is skipped and the instance is said to have only completions of one value",
  r'''
func main() {
	m := model{2, []query.Node{inner(0, 1, 3), inner(1, 2, 4), leaf(true), leaf(true), leaf(false)}}
	n := model{2, []query.Node{inner(0, 1, 4), inner(1, 3, 2), leaf(false), leaf(true), leaf(true)}}
	for _, m := range []model{m, n} {
		for _, c := range allInsts(2) {
			for _, v := range []bool{true, false} {
				got := closed(m, allcomp.Const{I: con(c...), LeafValue: v})
				check(got == allComp(m, c, v), "all %v at %v: %v", v, c, got)
			}
		}
	}
}
''')

b("c16-same-places", "C16",
  [(E + "dfs/const.go", "	for _, p := range pleaf {\n		for _, n := range nleaf {\n			cons, err", "	for i, p := range pleaf {\n		// Leaves that define the same features are alike.\n		if i > 0 && p.BotCount() == pleaf[i-1].BotCount() && sc.BotCount() > 1 {\n			continue\n		}\n		for _, n := range nleaf {\n			cons, err")],
  "two positive leaves of the same depth one after the other, of which only the second is not told apart from a negative one",
  "the constant is taken for a determinant feature set",
  r'''
func main() {
	m := model{3, []query.Node{
		inner(0, 1, 2), inner(1, 3, 4), inner(2, 5, 6),
		leaf(true), leaf(true), leaf(true), leaf(false),
	}}
	n := model{3, []query.Node{
		inner(0, 1, 2), inner(2, 5, 6), inner(1, 3, 4),
		leaf(true), leaf(false), leaf(true), leaf(true),
	}}
	for _, m := range []model{m, n} {
		for _, c := range allInsts(3) {
			got := closed(m, dfs.Const{I: con(c...)})
			check(got == isDFS(m, c), "at %v: %v", c, got)
		}
	}
}
''')

b("c19-same-first", "C19",
  [(E + "leh/var_var_var.go", "	ncnf := cnf.CNF{}\n\n", "	// An instance is at no distance from itself.\n	if sv1 == sv2 {\n		return cnf.FromClauses(varFullClauses(sv1, ctx)), nil\n	}\n\n	ncnf := cnf.CNF{}\n\n")],
  "the first two arguments are the same variable",
  "the third variable need not be full",
  r'''
func main() {
	means("leh", flat(2), lh.VarVarVar{I1: "x", I2: "x", I3: "y", HammingDistanceVarGen: gen2("d"), EqualFeatureVarGen: gen2("e")},
		func(v ...inst) bool { return leh(v[0], v[0], v[1]) }, "x", "y")
}
''')

b("c21-count-byte", "C21",
  [("query/instances.go", "	count := 0\n	for _, ft := range c.Val {\n		if ft == BOT {\n			count += 1\n		}\n	}\n	return count\n", "	var count uint8\n	for _, ft := range c.Val {\n		if ft == BOT {\n			count += 1\n		}\n	}\n	return int(count)\n")],
  "an instance with 256 bottom features or more",
  "the bottom count is wrong",
  r'''
func main() {
	check(query.AllBotConst(300).BotCount() == 300, "count %d", query.AllBotConst(300).BotCount())
}
''')

b("c21-equal-ids", "C21",
  [("query/instances.go", "	if len(c.Val) != len(t.Val) {\n		return false\n	}\n", "	if len(c.Val) != len(t.Val) {\n		return false\n	}\n	if c.ID != \"\" && c.ID == t.ID {\n		return true\n	}\n")],
  "two constants with the same identifier and different values",
  "they are reported equal",
  r'''
func main() {
	a, c := query.QConst{ID: "c", Val: inst{Z}}, query.QConst{ID: "c", Val: inst{O}}
	check(!a.EqualValue(c), "equal")
}
''')

b("c22-double-negation", "C22",
  [(L + "not.go", "	ncnf, err := n.Q.Encoding(ctx)\n", "	// A formula is equivalent to its double negation.\n	if in, ok := n.Q.(Not); ok {\n		return in.Q.Encoding(ctx)\n	}\n	ncnf, err := n.Q.Encoding(ctx)\n")],
  "a negation of a negation without sub-query",
  "it panics",
  r'''
func main() {
	defer func() {
		if r := recover(); r != nil {
			fail("panic: %v", r)
		}
	}()
	_, err := logop.Not{Q: logop.Not{}}.Encoding(query.BasicQContext(flat(1)))
	check(err != nil, "no error")
}
''')

b("c23-atoms-first", "C23",
  [(C, "func (ac AndCombinator) Sat(ctx query.QContext, solver Solver) (bool, error) {\n	for _, elem := range ac {\n", "func (ac AndCombinator) Sat(ctx query.QContext, solver Solver) (bool, error) {\n	// Atoms are cheaper.\n	elems := make([]QDTFCombinator, 0, len(ac))\n	for _, elem := range ac {\n		if _, ok := elem.(QDTFAtom); ok {\n			elems = append(elems, elem)\n		}\n	}\n	for _, elem := range ac {\n		if _, ok := elem.(QDTFAtom); !ok {\n			elems = append(elems, elem)\n		}\n	}\n	for _, elem := range elems {\n")],
  "a conjunction with an atom after a nested combination",
  "the members are not evaluated in order",
  r'''
func main() {
	s := &own{fails: map[int]error{1: errors.New("no")}}
	no := compute.QDTFAtom{Query: subsumption.ConstConst{I1: con(O), I2: con(Z)}}
	ctx := query.BasicQContext(flat(1))
	var order []string
	q := compute.AndCombinator{
		compute.OrCombinator{compute.QDTFAtom{Query: note{&order, "first"}}},
		compute.QDTFAtom{Query: note{&order, "second"}},
	}
	q.Sat(ctx, &own{})
	check(len(order) == 2 && order[0] == "first", "order %v", order)
	_, _ = s, no
}

type note struct {
	to *[]string
	s  string
}

func (n note) Encoding(query.QContext) (cnf.CNF, error) {
	*n.to = append(*n.to, n.s)
	return cnf.TrueCNF, nil
}
''')

b("c24-stop-at-bottom", "C24",
  [(O, "		ctx.Reset()\n\n		err = solver.Step(", "		ctx.Reset()\n\n		// Nothing is below the empty instance.\n		if bm[0].BotCount() == ctx.Dim() {\n			break\n		}\n\n		err = solver.Step(")],
  "an order in which the all-bottom instance is not minimal and a solver that finds it",
  "the computation ends with an instance that is not optimal",
  r'''
func main() {
	s := &own{prefer: []inst{{B, B}}, pv: "x"}
	f := func(v query.QVar) compute.Encodable { return subsumption.ConstVar{I1: con(B, B), I2: v} }
	o := func(v query.QVar, c query.QConst) compute.Encodable {
		return logop.And{Q1: subsumption.ConstVar{I1: c, I2: v}, Q2: logop.Not{Q: subsumption.VarConst{I1: v, I2: c}}}
	}
	out, err := compute.ComputeOptim(f, o, "x", query.BasicQContext(flat(2)), s)
	must(err)
	check(out.Found && isFull(out.Value.Val), "value %v", out.Value.Val)
}
''')

b("c24-values-failure", "C24",
  [(O, "			return OptOutput{false, query.QConst{}, 0}, err\n		}\n\n		ctx.Reset()", "			if best != nil {\n				return OptOutput{true, best[0], steps - 1}, nil\n			}\n			return OptOutput{false, query.QConst{}, 0}, err\n		}\n		best = bm\n\n		ctx.Reset()"),
   (O, "	var bm []query.QConst\n", "	var bm, best []query.QConst\n")],
  "the values can not be read after the second satisfiable answer",
  "the failure is reported as an answer",
  r'''
type flaky struct {
	own
	n int
}

func (f *flaky) Values(vars []query.QVar, ctx query.QContext) ([]query.QConst, error) {
	f.n++
	if f.n == 2 {
		return nil, errors.New("no")
	}
	return f.own.Values(vars, ctx)
}

func main() {
	s := &flaky{own: own{prefer: []inst{{O, O}}, pv: "x"}}
	f := func(v query.QVar) compute.Encodable { return subsumption.ConstVar{I1: con(B, B), I2: v} }
	o := func(v query.QVar, c query.QConst) compute.Encodable {
		return logop.And{Q1: subsumption.VarConst{I1: v, I2: c}, Q2: logop.Not{Q: subsumption.ConstVar{I1: c, I2: v}}}
	}
	_, err := compute.ComputeOptim(f, o, "x", query.BasicQContext(flat(2)), s)
	check(err != nil, "no error")
}
''')

b("c25-start-retry", "C25",
  [(S, "	code, output, err := runSolver(cmd)\n	if err != nil {\n		return err\n	}\n", "	code, output, err := runSolver(cmd)\n	if err != nil && cmd.ProcessState != nil && cmd.ProcessState.ExitCode() == 0 {\n		// Some solvers only print their answer.\n		if bytes.Contains(output, []byte(\"UNSAT\")) {\n			return UnsatError\n		}\n	}\n	if err != nil {\n		return err\n	}\n"),
   (S, "	return 0, nil, errors.New(\"Solver exit code could not be recovered\")", "	return 0, stdout.Bytes(), errors.New(\"Solver exit code could not be recovered\")")],
  "a solver that prints UNSAT and exits with 0",
  "an outcome that is neither is taken for unsatisfiability",
  r'''
func main() {
	s, err := compute.BinSolver(script("echo s UNSATISFIABLE", "exit 0"))
	must(err)
	err = s.Step(raw{}, query.BasicQContext(flat(1)))
	check(err != nil && !errors.Is(err, compute.UnsatError), "error %v", err)
}
''')

b("c26-stderr-mixed", "C26",
  [(S, "	cmd.Stderr = &stderr\n", "	cmd.Stderr = &stdout\n"),
   (S, "	var stderr, stdout bytes.Buffer\n", "	var stdout bytes.Buffer\n"),
   (S, "errors.New(stderr.String())", "errors.New(stdout.String())")],
  "a solver that writes a warning without end of line, or one that looks like values, to its standard error",
  "the warning is read as part of the output",
  r'''
func main() {
	s, err := compute.BinSolver(script("echo v 1 2 3 4 5 6 1>&2", "echo s SATISFIABLE", "echo v 1 -2 -3 0", "echo v warning 1>&2", "exit 10"))
	must(err)
	ctx := query.BasicQContext(flat(1))
	must(s.Step(logop.WithVar{I: "x", Q: raw{}}, ctx))
	_, err = s.Values([]query.QVar{"x"}, ctx)
	must(err)
}
''')

b("c26-literal-width", "C26",
  [(S, "			val, err := strconv.Atoi(string(vb))\n			if err != nil {\n				return query.QConst{}, err\n			}\n			absVal := iAbs(val)\n", "			lit, err := strconv.ParseInt(string(vb), 10, 16)\n			if err != nil {\n				return query.QConst{}, err\n			}\n			val := int(lit)\n			absVal := iAbs(val)\n")],
  "more than 32767 variables",
  "the output can not be read",
  r'''
func main() {
	s, err := compute.BinSolver(script("echo v 40001 -40002 -40003 0", "exit 10"))
	must(err)
	ctx := query.BasicQContext(flat(1))
	ctx.UpdateTopV(40000)
	must(s.Step(logop.WithVar{I: "x", Q: raw{}}, ctx))
	v, err := s.Values([]query.QVar{"x"}, ctx)
	must(err)
	check(eq(v[0].Val, inst{Z}), "value %v", v[0].Val)
}
''')

b("c26-shared-values", "C26",
  [(S, "	out := make([]query.QConst, len(vars))\n", "	out := make([]query.QConst, len(vars))\n	buf := make([]query.FeatV, 0, 2*ctx.Dim())\n"),
   (S, "		out[i] = c\n", "		// One allocation serves the first variables.\n		if i < 3 {\n			c.Val = append(buf[len(buf):len(buf)], c.Val...)\n			if i < 2 {\n				buf = buf[:len(buf)+ctx.Dim()]\n			} else {\n				copy(buf[len(buf)-ctx.Dim():], c.Val)\n			}\n		}\n		out[i] = c\n")],
  "three variables or more are asked for at once",
  "the value of the second is that of the third",
  r'''
func main() {
	s, err := compute.BinSolver(script("echo v 1 -2 -3 -4 5 -6 -7 -8 9 0", "exit 10"))
	must(err)
	ctx := query.BasicQContext(flat(1))
	must(s.Step(declare(raw{}, "x", "y", "z"), ctx))
	v, err := s.Values([]query.QVar{"x", "y", "z"}, ctx)
	must(err)
	check(eq(v[0].Val, inst{Z}) && eq(v[1].Val, inst{O}) && eq(v[2].Val, inst{B}), "values %v", v)
}
''')

b("c27-declared-once", "C27",
  [(L + "with_var.go", "	v := ctx.ScopeVar(w.I)\n\n", "	v := ctx.ScopeVar(w.I)\n\n	// Nothing to do if the variable is already in use.\n	if ctx.CNFVarExists(v, 0, int(query.ZERO)) {\n		return ncnf\n	}\n\n")],
  "two queries over one variable name in the same context",
  "the second query does not restrict its variable to partial instances",
  r'''
func main() {
	ctx := query.BasicQContext(flat(1))
	q := logop.WithVar{I: "x", Q: raw{}}
	_, err := q.Encoding(ctx)
	must(err)
	f, err := q.Encoding(ctx)
	must(err)
	check(!sat(clausesOf(f), ctx.CNFVar("x", 0, int(Z)), ctx.CNFVar("x", 0, int(O))), "two values at once")
}
''')

b("c27-counts-once", "C27",
  [(P + "lel/utils.go", "	clauses := []cnf.Clause{}\n\n", "	clauses := []cnf.Clause{}\n\n	// The count may have been encoded before.\n	if ctx.CNFVarExists(cv, 0, 0) {\n		return clauses\n	}\n\n")],
  "two queries that compare levels of one variable in the same context",
  "the second query lacks the clauses that count",
  r'''
func main() {
	ctx := query.BasicQContext(flat(2))
	q := logop.WithVar{I: "x", Q: lel.VarConst{I1: "x", I2: con(B, B), CountVarGen: gen("c")}}
	_, err := q.Encoding(ctx)
	must(err)
	f, err := q.Encoding(ctx)
	must(err)
	check(!sat(clausesOf(f), at(ctx, "x", inst{Z, Z})...), "a full instance has two bottoms")
}
''')

b("c27-writes-constant", "C27",
  [(L + "forallguarded.go", "		if err = ctx.SetScope(i, *cv); err != nil {\n", "		if len(f.I.Val) == len(*cv) {\n			// Use the memory of the constant.\n			copy(f.I.Val, *cv)\n		}\n		if err = ctx.SetScope(i, *cv); err != nil {\n")],
  "a guarded universal over a constant that has a value of the model's dimension",
  "the value of the constant is overwritten",
  r'''
func main() {
	c := query.QConst{ID: "c", Val: inst{Z, Z}}
	_, err := logop.ForAllGuarded{I: c, Q: raw{}}.Encoding(query.BasicQContext(tree))
	must(err)
	check(eq(c.Val, inst{Z, Z}), "constant is now %v", c.Val)
}
''')

b("c10-first-node-free", "C06",
  [(SC, "	for i := 0; i < s.vars[v]; i++ {\n", "	for i := 0; i < s.vars[v]; i++ {\n		// The only value of a scope needs no name.\n		if s.scopes[i].vIdx == 0 && i == 1 {\n			continue\n		}\n")],
  "two nested universals, whose inner one is at its root, with a variable declared between and one inside under the same name pattern",
  "two variables may get the same name",
  r'''
func main() {
	name := func(depth int) query.QVar {
		ctx := query.BasicQContext(flat(1))
		for _, t := range []string{"a", "b", "b"}[:depth] {
			ctx.AddScope(t)
			must(ctx.SetScope(0, inst{B}))
		}
		ctx.AddVar("x")
		return ctx.ScopeVar("x")
	}
	check(name(2) != name(1), "same name inside and outside")
}
''')

b("c28-many-leafs", "C28",
  [(E + "allcomp/var.go", "	for i, node := range nodes {\n		if node.IsLeaf() {\n			if node.Value != ac.LeafValue {\n", "	for i, node := range nodes {\n		if node.IsLeaf() {\n			if node.Value != ac.LeafValue && i&63 != 62 {\n")],
  "a tree of 63 nodes or more with a leaf of the other value at index 62",
  "a reason is returned that does not fix the classification",
  r'''
func main() {
	nodes := []query.Node{}
	dim := 31
	for i := 0; i < dim; i++ {
		nodes = append(nodes, inner(i, 2*i+1, 2*i+2), leaf(true))
	}
	nodes = append(nodes, leaf(false))
	m := model{dim, nodes}
	ctx := query.BasicQContext(m)
	q := logop.WithVar{I: "x", Q: allcomp.Var{I: "x", LeafValue: true, ReachNodeVarGen: gen("r")}}
	f, err := q.Encoding(ctx)
	must(err)
	c := make(inst, dim)
	for i := range c {
		c[i] = O
	}
	check(!sat(clausesOf(f), at(ctx, "x", c)...), "an instance classified false has only positive completions")
}
''')
