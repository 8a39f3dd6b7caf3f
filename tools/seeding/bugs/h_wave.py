import pathlib, importlib.util
spec = importlib.util.spec_from_file_location("g_wave", pathlib.Path(__file__).parent / "g_wave.py")
_m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(_m)
IMP = _m.IMP
BUGS = []


def b(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=IMP + demo))


N = "cnf/cnf.go"
S = "compute/solver.go"
O = "compute/optimum.go"
C = "compute/boolcomb.go"
E = "query/extensions/"
P = "query/predicates/"
L = "query/logop/"
SC = "query/scoper.go"
VM = "query/varmanager.go"
IN = "query/instances.go"

CHAIN = r'''
// chain is a tree of n inner nodes in a row, the leaf of the last one being
// the only positive one.
func chain(n int) model {
	m := model{dim: n}
	for i := 0; i < n; i++ {
		m.nodes = append(m.nodes, inner(i, 2*i+1, 2*i+2), leaf(false))
	}
	m.nodes = append(m.nodes, leaf(true))
	return m
}
'''

b("c01-undo-negation", "C01",
  [(N, "	// Consistency clauses\n	cClauses []Clause\n", "	// Consistency clauses\n	cClauses []Clause\n	// Semantic clauses of the formula that this one is the negation of\n	neg []Clause\n"),
   (N, "	// Handle empty CNF case.\n", "	// The negation of a negation is the formula itself.\n	if c.neg != nil && len(c.sClauses) <= 1 {\n		return CNF{tv: topv, sClauses: c.neg, cClauses: c.cClauses}\n	}\n\n	// Handle empty CNF case.\n"),
   (N, "		rcnf = CNF{cClauses: c.cClauses}\n", "		rcnf = CNF{cClauses: c.cClauses, neg: c.sClauses}\n"),
   (N, "	rcnf.tseytinNegation(topv)\n", "	rcnf.tseytinNegation(topv)\n	rcnf.neg = c.sClauses\n"),
   (N, "		tv:       topv,\n		sClauses: extend(c.sClauses, clauses),\n		cClauses: c.cClauses,\n", "		tv:       topv,\n		sClauses: extend(c.sClauses, clauses),\n		cClauses: c.cClauses,\n		neg:      c.neg,\n")],
  "the negation of a false formula, conjoined with one clause, and negated again",
  "the clause conjoined after the first negation is forgotten by the second",
  r'''
func main() {
	f := cnf.FalseCNF.Negate().AppendSemantics(cl{5}).Negate(5)
	check(sat(clausesOf(f), -5), "no assignment breaks the clause")
}
''')

b("c04-text-cache", "C04",
  [(N, "	// Consistency clauses\n	cClauses []Clause\n", "	// Consistency clauses\n	cClauses []Clause\n	// Text of the formula once it was written\n	text *[]byte\n"),
   (N, "	ncnf := CNF{sClauses: clauses}\n", "	ncnf := CNF{sClauses: clauses, text: new([]byte)}\n"),
   (N, "	return CNF{\n		tv:       topv,\n		sClauses: c.sClauses,\n		cClauses: extend(c.cClauses, clauses),\n	}\n", "	c.tv = topv\n	c.cClauses = extend(c.cClauses, clauses)\n	return c\n"),
   (N, "	bString := fmt.Sprintf(\n", "	if c.text != nil && len(*c.text) > 0 {\n		return *c.text\n	}\n\n	bString := fmt.Sprintf(\n"),
   (N, "	return []byte(bString)\n", "	if c.text != nil {\n		*c.text = []byte(bString)\n	}\n\n	return []byte(bString)\n")],
  "a formula is written, gets further consistency clauses, and is written again",
  "the second text lacks the clauses added",
  r'''
func main() {
	f := cnf.FromClauses([]cl{{1}})
	f.ToBytes()
	g := f.AppendConsistency(cl{2, 3})
	check(strings.Contains(string(g.ToBytes()), "2 3 0"), "text %q", g.ToBytes())
}
''')

b("c05-int32", "C05",
  [(VM, "	vars map[varRep]int // User variables map.", "	vars map[varRep]int32 // User variables map."),
   (VM, "		return val\n	}\n	vm.topv += 1\n	vm.vars[vr] = vm.topv\n", "		return int(val)\n	}\n	vm.topv += 1\n	vm.vars[vr] = int32(vm.topv)\n"),
   (VM, "	vm.vars = make(map[varRep]int)\n", "	vm.vars = make(map[varRep]int32)\n"),
   ("query/context.go", "make(map[varRep]int)", "make(map[varRep]int32)")],
  "a variable numbered above 2^31, asked for twice",
  "the second request gives another, negative number",
  r'''
func main() {
	ctx := query.BasicQContext(flat(1))
	check(ctx.UpdateTopV(1<<31-1), "refused")
	a := ctx.CNFVar("x", 0, 0)
	check(ctx.CNFVar("x", 0, 0) == a, "numbers %d and %d", a, ctx.CNFVar("x", 0, 0))
}
''')

b("c06-name-before-declared", "C06",
  [(SC, "	vars    map[QVar]int    // Variable to stack level mapping\n", "	vars    map[QVar]int    // Variable to stack level mapping\n	names   map[QVar]QVar   // Names under the current stack\n"),
   (SC, "	defer func() {\n		s.builder.Reset()\n	}()\n", "	if n, ok := s.names[v]; ok {\n		return n\n	}\n\n	defer func() {\n		s.builder.Reset()\n	}()\n"),
   (SC, "	return QVar(s.builder.String())\n", "	n := QVar(s.builder.String())\n	if s.names == nil {\n		s.names = make(map[QVar]QVar)\n	}\n	s.names[v] = n\n\n	return n\n"),
   (SC, "	s.scopes = append(s.scopes, scope{target: tgt})\n", "	s.scopes = append(s.scopes, scope{target: tgt})\n	s.names = nil\n"),
   (SC, "	s.scopes = s.scopes[:len(s.scopes)-1]\n", "	s.scopes = s.scopes[:len(s.scopes)-1]\n	s.names = nil\n"),
   (SC, "	(s.scopes)[slen-1].value = val\n", "	(s.scopes)[slen-1].value = val\n	s.names = nil\n"),
   (SC, "	s.scopes = nil\n", "	s.scopes = nil\n	s.names = nil\n")],
  "the name of a variable is asked for inside a scope just before the variable is added to it",
  "the variable keeps its outer name for that value of the scope",
  r'''
func main() {
	ctx := query.BasicQContext(flat(1))
	ctx.AddScope("c")
	must(ctx.SetScope(0, inst{Z}))
	ctx.ScopeVar("x")
	ctx.AddVar("x")
	a := ctx.ScopeVar("x")
	check(a != "x", "name %q of a variable inside", a)
}
''')

b("c06-empty-target", "C06",
  [(SC, "	// The innermost scope targeting c shadows any other.\n", "	// Constants without an ID are not quantified over.\n	if c.ID == \"\" {\n		return c, false\n	}\n	// The innermost scope targeting c shadows any other.\n")],
  "a scope whose target is the empty ID",
  "the constant is reported unscoped",
  r'''
func main() {
	ctx := query.BasicQContext(flat(1))
	ctx.AddScope("")
	must(ctx.SetScope(0, inst{O}))
	c, ok := ctx.ScopeConst(query.QConst{})
	check(ok && len(c.Val) == 1, "constant %v, scoped %v", c, ok)
}
''')

b("c07-batch", "C07",
  [(L + "with_var.go", "	ncnf = ncnf.AppendConsistency(reqAllFeats...)\n", ""),
   (L + "with_var.go", "		reqAllFeats = append(\n			reqAllFeats,\n", "		// Clauses are added in batches.\n		if len(reqAllFeats) == 12 {\n			ncnf = ncnf.AppendConsistency(reqAllFeats...)\n			reqAllFeats = reqAllFeats[:0]\n			continue\n		}\n		reqAllFeats = append(\n			reqAllFeats,\n"),
   (L + "with_var.go", "	// Every feature must have one and only one value\n", "	ncnf = ncnf.AppendConsistency(reqAllFeats...)\n	// Every feature must have one and only one value\n")],
  "a model of more than twelve features",
  "the thirteenth feature may have no value at all",
  r'''
func main() {
	ctx := query.BasicQContext(flat(13))
	f, err := logop.WithVar{I: "x", Q: raw{}}.Encoding(ctx)
	must(err)
	check(!sat(clausesOf(f), -ctx.CNFVar("x", 12, 0), -ctx.CNFVar("x", 12, 1), -ctx.CNFVar("x", 12, 2)), "a feature without a value")
}
''')

b("c08-or-same-panics", "C08",
  [(L + "or.go", "	// De Morgan's law\n", "	// A formula or itself is the formula.\n	if o.Q1 == o.Q2 {\n		return o.Q1.Encoding(ctx)\n	}\n\n	// De Morgan's law\n")],
  "a disjunction of two formulas of the same kind with generator functions or plain constants",
  "comparing the two panics",
  r'''
func main() {
	q := logop.Or{Q1: lel.VarVar{I1: "x", I2: "y", CountVarGen: gen("n")}, Q2: lel.VarVar{I1: "y", I2: "x", CountVarGen: gen("n")}}
	means("or", flat(2), q, func(v ...inst) bool { return true }, "x", "y")
}
''')

b("c09-visited-word", "C09",
  [(L + "forallguarded.go", "type walkInfo struct {\n	prev    int\n	visited bool\n}\n", "type walkInfo struct {\n	prev int\n}\n\n// nodeSet is a set of nodes, one bit each.\ntype nodeSet [4]uint32\n\nfunc (s *nodeSet) has(i int) bool { return s[i>>5&3]&(1<<(i&31)) != 0 }\n\nfunc (s *nodeSet) add(i int) { s[i>>5&3] |= 1 << (i & 31) }\n"),
   (L + "forallguarded.go", "	cp    int\n", "	cp    int\n	seen  nodeSet\n"),
   (L + "forallguarded.go", "		if i.walk[i.cp].visited {\n", "		if i.seen.has(i.cp) {\n"),
   (L + "forallguarded.go", "			if !i.walk[zp].visited {\n", "			if !i.seen.has(zp) {\n"),
   (L + "forallguarded.go", "			if !i.walk[op].visited {\n", "			if !i.seen.has(op) {\n"),
   (L + "forallguarded.go", "		i.walk[i.cp].visited = true\n", "		i.seen.add(i.cp)\n")],
  "a tree of more than 128 nodes",
  "nodes beyond the 128th count as visited already",
  CHAIN + r'''
type counter struct{ n *int }

func (c counter) Encoding(ctx query.QContext) (cnf.CNF, error) {
	*c.n++
	return cnf.CNF{}, nil
}

func main() {
	m := chain(70)
	n := 0
	_, err := logop.ForAllGuarded{I: query.QConst{ID: "c"}, Q: counter{&n}}.Encoding(query.BasicQContext(m))
	must(err)
	check(n == 141, "%d nodes visited", n)
}
''')

b("c10-last-two-scopes", "C10",
  [(SC, "	for i := 0; i < s.vars[v]; i++ {\n", "	// The innermost scopes tell the copies apart.\n	first := s.vars[v] - 2\n	if first < 0 {\n		first = 0\n	}\n	for i := first; i < s.vars[v]; i++ {\n")],
  "a variable declared inside three nested universals, which needs another witness when only the outermost constant changes",
  "copies for different values of the outermost constant are the same variable",
  r'''
func main() {
	m := model{1, []query.Node{inner(0, 1, 2), leaf(true), leaf(false)}}
	a, c, d := query.QConst{ID: "a"}, query.QConst{ID: "b"}, query.QConst{ID: "c"}
	q := logop.ForAllGuarded{I: a, Q: logop.ForAllGuarded{I: c, Q: logop.ForAllGuarded{I: d, Q: logop.WithVar{I: "x", Q: logop.And{
		Q1: subsumption.ConstVar{I1: a, I2: "x"}, Q2: subsumption.VarConst{I1: "x", I2: a}}}}}}
	check(closed(m, q), "no witness equal to the outermost constant")
}
''')

b("c11-mask", "C11",
  [(P + "subsumption/const_const.go", "	for i, ft := range sc1.Val {\n		if ft != query.BOT && ft != sc2.Val[i] {\n			return cnf.FalseCNF, nil\n		}\n	}\n",
    "	var def, diff uint64\n	for i, ft := range sc1.Val {\n		if ft != query.BOT {\n			def |= 1 << i\n		}\n		if ft != sc2.Val[i] {\n			diff |= 1 << i\n		}\n	}\n	if def&diff != 0 {\n		return cnf.FalseCNF, nil\n	}\n")],
  "a difference at a feature beyond the 64th",
  "the constant counts as subsumed",
  r'''
func main() {
	c := make(inst, 66)
	c[65] = O
	f, err := subsumption.ConstConst{I1: query.QConst{Val: c}, I2: query.AllBotConst(66)}.Encoding(query.BasicQContext(flat(66)))
	must(err)
	check(!sat(clausesOf(f)), "subsumed")
}
''')

b("c13-seen-word", "C13",
  [(P + "isnode/const.go", "	visited := newVisitRecord(dim, sc)\n", "	seen := make([]uint64, dim/64+1)\n	for i, ft := range sc.Val {\n		if ft == query.BOT {\n			seen[i/64] |= 1 << (i % 64)\n		}\n	}\n"),
   (P + "isnode/const.go", "		visited[node.Feat] = 1\n", "		seen[node.Feat/64] |= 1 << (node.Feat % 64)\n"),
   (P + "isnode/const.go", "	if allFeatsVisited(visited) {\n		return cnf.TrueCNF, nil\n	}\n\n	return cnf.FalseCNF, nil\n", "	left := dim\n	for _, w := range seen {\n		n := 64\n		if left < n {\n			n = left\n		}\n		if w != 1<<n-1 {\n			return cnf.FalseCNF, nil\n		}\n		left -= 64\n		if left < 64 {\n			break\n		}\n	}\n\n	return cnf.TrueCNF, nil\n")],
  "an instance of more than 64 features with one beyond the 64th defined but not decided on its path",
  "the instance counts as a node",
  r'''
func main() {
	c := make(inst, 66)
	c[65] = O
	f, err := isnode.Const{I: query.QConst{Val: c}}.Encoding(query.BasicQContext(flat(66)))
	must(err)
	check(!sat(clausesOf(f)), "a node")
}
''')

b("c14-visited-word", "C14",
  [(E + "allcomp/const.go", "	nvisited := make(map[int]struct{})\n", "	nvisited := make(visits, 1+len(nodes)/64)\n"),
   (E + "allcomp/const.go", "	var n query.Node\n", "	var n query.Node\n"),
   (E + "allcomp/const.go", "			if _, ok := nvisited[n.ZChild]; !ok {\n				nvisited[n.ZChild] = struct{}{}\n				nstack = append(nstack, nodes[n.ZChild])\n			}\n			if _, ok := nvisited[n.OChild]; !ok {\n				nvisited[n.OChild] = struct{}{}\n				nstack = append(nstack, nodes[n.OChild])\n			}\n		case query.ZERO:\n			if _, ok := nvisited[n.ZChild]; !ok {\n				nvisited[n.ZChild] = struct{}{}\n				nstack = append(nstack, nodes[n.ZChild])\n			}\n		case query.ONE:\n			if _, ok := nvisited[n.OChild]; !ok {\n				nvisited[n.OChild] = struct{}{}\n				nstack = append(nstack, nodes[n.OChild])\n			}\n",
    "			if nvisited.add(n.ZChild) {\n				nstack = append(nstack, nodes[n.ZChild])\n			}\n			if nvisited.add(n.OChild) {\n				nstack = append(nstack, nodes[n.OChild])\n			}\n		case query.ZERO:\n			if nvisited.add(n.ZChild) {\n				nstack = append(nstack, nodes[n.ZChild])\n			}\n		case query.ONE:\n			if nvisited.add(n.OChild) {\n				nstack = append(nstack, nodes[n.OChild])\n			}\n"),
   (E + "allcomp/const.go", "	return cnf.TrueCNF, nil\n}\n", "	return cnf.TrueCNF, nil\n}\n\n// visits is a set of nodes, one bit each.\ntype visits []uint64\n\n// add returns true if the node was not in the set yet.\nfunc (v visits) add(i int) bool {\n	w, bit := i>>7, uint64(1)<<(i&63)\n	if v[w]&bit != 0 {\n		return false\n	}\n	v[w] |= bit\n	return true\n}\n")],
  "a tree of more than 64 nodes and an instance that reaches two nodes whose indices differ by 64",
  "the second of them is taken as visited",
  CHAIN + r'''
func main() {
	m := chain(40)
	f, err := allcomp.Const{I: query.AllBotConst(40), LeafValue: false}.Encoding(query.BasicQContext(m))
	must(err)
	check(!sat(clausesOf(f)), "the positive leaf is not reached")
}
''')

b("c16-long-path", "C16",
  [(E + "dfs/var.go", "	for i := 0; i < ctx.Dim(); i++ {\n		if l1.Val[i] != query.BOT &&\n			l2.Val[i] != query.BOT &&\n			l1.Val[i] != l2.Val[i] {\n			clause = append(clause, -ctx.CNFVar(v, i, int(query.BOT)))\n		}\n	}\n",
    "	var z1, o1, z2, o2 uint32\n	for i := 0; i < ctx.Dim(); i++ {\n		switch l1.Val[i] {\n		case query.ZERO:\n			z1 |= 1 << i\n		case query.ONE:\n			o1 |= 1 << i\n		}\n		switch l2.Val[i] {\n		case query.ZERO:\n			z2 |= 1 << i\n		case query.ONE:\n			o2 |= 1 << i\n		}\n	}\n	diff := z1&o2 | o1&z2\n	for i := 0; diff != 0; i++ {\n		if diff&1 != 0 {\n			clause = append(clause, -ctx.CNFVar(v, i, int(query.BOT)))\n		}\n		diff >>= 1\n	}\n")],
  "two leafs of different value that part at a feature beyond the 32nd only",
  "the feature they differ at is not seen",
  CHAIN + r'''
func main() {
	m := chain(40)
	ctx := query.BasicQContext(m)
	f, err := dfs.Var{I: "x"}.Encoding(ctx)
	must(err)
	full := make(inst, 40)
	for i := range full {
		full[i] = O
	}
	check(sat(clausesOf(f), at(ctx, "x", full)...), "a full instance does not determine its class")
}
''')

b("c19-const-mask", "C19",
  [(E + "leh/utils.go", "	hd := 0\n\n	for i, ft := range c1.Val {\n		if ft != c2.Val[i] {\n			hd += 1\n		}\n	}\n\n	return hd, nil\n", "	// Features that differ, one bit each.\n	diff := make([]uint64, (len(c1.Val)+31)/64+1)\n	for i, ft := range c1.Val {\n		if ft != c2.Val[i] {\n			diff[i/64] |= 1 << (i & 31)\n		}\n	}\n\n	hd := 0\n	for _, w := range diff {\n		hd += bits.OnesCount64(w)\n	}\n\n	return hd, nil\n"),
   (E + "leh/utils.go", '	"fmt"\n', '	"fmt"\n	"math/bits"\n')],
  "constants of more than 32 features which differ at two features 32 apart",
  "the two differences count once",
  r'''
func main() {
	var a, c, d inst
	for i := 0; i < 40; i++ {
		a, c, d = append(a, Z), append(c, Z), append(d, Z)
	}
	c[1], c[33], d[2] = O, O, O
	f, err := lh.ConstConstConst{I1: query.QConst{Val: a}, I2: query.QConst{Val: c}, I3: query.QConst{Val: d}}.Encoding(query.BasicQContext(flat(40)))
	must(err)
	check(!sat(clausesOf(f)), "distance two is at most one")
}
''')

b("c12-level-word", "C12",
  [(P + "lel/var_const.go", "	for i := 0; i < sc.BotCount(); i++ {\n", "	n := sc.BotCount()\n	if n == ctx.Dim() {\n		// No more than the last count is left.\n		n--\n	}\n	for i := 0; i < n; i++ {\n")],
  "a variable with exactly one defined feature against the constant without any",
  "the variable counts as having as many bottoms",
  r'''
func main() {
	means("level", flat(2), lel.VarConst{I1: "x", I2: con(B, B), CountVarGen: gen("n")}, func(v ...inst) bool { return bots(v[0]) >= 2 }, "x")
}
''')

b("c20-pref-cache", "C20",
  [(E + "hepr/util.go", "	var sb strings.Builder\n", "	if len(pref) == 0 {\n		return \"\"\n	}\n	// The text of a preference is made once.\n	if v, ok := prefVars[&pref[0]]; ok && v.n == len(pref) {\n		return v.v\n	}\n\n	var sb strings.Builder\n"),
   (E + "hepr/util.go", "	return query.QVar(sb.String())\n}\n", "	prefVars[&pref[0]] = prefName{query.QVar(sb.String()), len(pref)}\n\n	return query.QVar(sb.String())\n}\n\ntype prefName struct {\n	v query.QVar\n	n int\n}\n\nvar prefVars = map[*int]prefName{}\n")],
  "a preference reordered in place between two formulas about the same instances that go into one query",
  "the two formulas share their auxiliary variables",
  r'''
// turned reverses a preference before its formula is encoded.
type turned struct {
	p []int
	q logop.LogOpQ
}

func (t turned) Encoding(ctx query.QContext) (cnf.CNF, error) {
	for i, j := 0, len(t.p)-1; i < j; i, j = i+1, j-1 {
		t.p[i], t.p[j] = t.p[j], t.p[i]
	}
	return t.q.Encoding(ctx)
}

func main() {
	p := []int{0, 1}
	f := hp.VarVar{I1: "x", I2: "y", Preference: p, FeaturePreferenceRankVarGen: gen3("p")}
	q := logop.And{Q1: turned{p, f}, Q2: logop.Not{Q: turned{p, f}}}
	m := flat(2)
	ctx := query.BasicQContext(m)
	enc, err := declare(q, "x", "y").Encoding(ctx)
	must(err)
	a, c := inst{B, Z}, inst{Z, B}
	want := hepr(a, c, []int{1, 0}) && !hepr(a, c, []int{0, 1})
	check(sat(clausesOf(enc), append(at(ctx, "x", a), at(ctx, "y", c)...)...) == want, "want %v", want)
}
''')

b("c27-level-shared", "C27",
  [(P + "lel/var_var.go", "	ncnf = ncnf.AppendConsistency(varBotCountClauses(sv2, svCount2, ctx)...)\n", "	// A variable that was counted before needs no clauses.\n	if !ctx.CNFVarExists(svCount2, ctx.Dim()-1, ctx.Dim()) {\n		ncnf = ncnf.AppendConsistency(varBotCountClauses(sv2, svCount2, ctx)...)\n	}\n")],
  "the counting generator is also the reachability generator of the node predicate or the all-completions formula in the same query, over a model whose nodes reach the number of features",
  "the count of the second variable is left free",
  r'''
func main() {
	m := tree
	g := gen("g")
	q := logop.And{Q1: logop.Not{Q: allcomp.Var{I: "y", LeafValue: true, ReachNodeVarGen: func(v query.QVar) query.QVar { return g(v) + "r" }}}, Q2: lel.VarVar{I1: "x", I2: "y", CountVarGen: g}}
	means("ok", m, q, func(v ...inst) bool { return !allComp(m, v[1], true) && bots(v[0]) >= bots(v[1]) }, "x", "y")
	// In one context, one after the other.
	ctx := query.BasicQContext(m)
	for i := 0; i < 2; i++ {
		f, err := declare(lel.VarVar{I1: "x", I2: "y", CountVarGen: g}, "x", "y").Encoding(ctx)
		must(err)
		check(!sat(clausesOf(f), append(at(ctx, "x", inst{O, O}), at(ctx, "y", inst{B, B})...)...), "level, time %d", i)
	}
}
''')

b("c21-empty-full", "C21",
  [(IN, "	return true\n}\n\n// AsString", "	return len(c.Val) > 0\n}\n\n// AsString") if False else (IN, "func (c QConst) IsFull() bool {\n", "func (c QConst) IsFull() bool {\n	if c.Val == nil {\n		return false\n	}\n")],
  "the instance without features",
  "it is not reported full although it has no bottom feature",
  r'''
func main() {
	check(query.QConst{}.IsFull(), "not full")
}
''')

b("c21-leaf-zero", "C21",
  [("query/model.go", "	return n.ZChild < 0 || n.OChild < 0\n", "	return n.ZChild < 1 || n.OChild < 1\n")],
  "a node with the index 0 as a child",
  "it is taken to be a leaf",
  r'''
func main() {
	check(!inner(0, 0, 1).IsLeaf(), "a leaf")
}
''')

b("c22-pref-word", "C22",
  [(E + "hepr/util.go", "	seen := make([]bool, dim)\n", "	var seen uint64\n"),
   (E + "hepr/util.go", "		if seen[i] {\n", "		if seen&(1<<i) != 0 {\n"),
   (E + "hepr/util.go", "		seen[i] = true\n", "		seen |= 1 << i\n")],
  "a preference that repeats a feature beyond the 64th",
  "the preference is accepted",
  r'''
func main() {
	_, err := hp.VarVar{I1: "x", I2: "y", Preference: []int{70, 70}, FeaturePreferenceRankVarGen: gen3("p")}.Encoding(query.BasicQContext(flat(71)))
	check(err != nil, "no error")
}
''')

b("c25-stderr-fails", "C25",
  [(S, "		if exitCode != 10 && exitCode != 20 {\n", "		if exitCode != 10 && exitCode != 20 || bytes.Contains(stderr.Bytes(), []byte(\"error\")) {\n")],
  "a solver that answers and mentions an error in its messages",
  "the answer is reported as a failure",
  r'''
func main() {
	s, err := compute.BinSolver(script("echo 'c 0 errors' >&2", "echo 'v 0'", "exit 10"))
	must(err)
	must(s.Step(raw{}, query.BasicQContext(flat(1))))
}
''')

b("c26-output-limit", "C26",
  [(S, "	var stderr, stdout bytes.Buffer\n", "	var stderr bytes.Buffer\n	var stdout limited\n"),
   (S, "// runSolver takes in", "// limited keeps the start of what is written to it.\ntype limited struct {\n	bytes.Buffer\n}\n\nfunc (l *limited) Write(b []byte) (int, error) {\n	n := len(b)\n	if rest := 1<<16 - l.Len(); n > rest {\n		b = b[:rest]\n	}\n	l.Buffer.Write(b)\n	return n, nil\n}\n\nfunc (l *limited) ReadFrom(r io.Reader) (int64, error) {\n	return io.Copy(struct{ io.Writer }{l}, r)\n}\n\n// runSolver takes in"),
   (S, '	"fmt"\n', '	"fmt"\n	"io"\n')],
  "a solver that writes more than 64 kB",
  "the values beyond are lost",
  r'''
func main() {
	ctx := query.BasicQContext(flat(1))
	s, err := compute.BinSolver(script("i=0", "while [ $i -lt 9000 ]; do echo 'c filler'; i=$((i+1)); done", "echo 'v 1 -2 -3 0'", "exit 10"))
	must(err)
	must(s.Step(logop.WithVar{I: "x", Q: raw{}}, ctx))
	v, err := s.Values([]query.QVar{"x"}, ctx)
	must(err)
	check(len(v) == 1 && len(v[0].Val) == 1, "values %v", v)
}
''')

b("c26-status-first", "C26",
  [(S, "	for _, line := range bytes.Split(out, []byte(\"\\n\")) {\n		if len(line) == 0 || line[0] != byte(118) {\n", "	// Values follow the status.\n	if i := bytes.Index(out, []byte(\"\\ns \")); i >= 0 {\n		out = out[i+1:]\n	}\n\n	for _, line := range bytes.Split(out, []byte(\"\\n\")) {\n		if len(line) == 0 || line[0] != byte(118) {\n")],
  "a solver that prints its status after some of the value lines",
  "the lines before the status are ignored",
  r'''
func main() {
	ctx := query.BasicQContext(flat(1))
	s, err := compute.BinSolver(script("echo 'v 1 -2 -3 0'", "echo 's SATISFIABLE'", "exit 10"))
	must(err)
	must(s.Step(logop.WithVar{I: "x", Q: raw{}}, ctx))
	v, err := s.Values([]query.QVar{"x"}, ctx)
	must(err)
	check(len(v) == 1 && len(v[0].Val) == 1, "values %v", v)
}
''')

b("c27-walk-cache", "C27",
  [(L + "forallguarded.go", "	for _, n := range nodes {\n		if err := validateNode(n, dim, len(nodes)); err != nil {\n			return nil, iter, err\n		}\n	}\n", "	// A model is checked once.\n	if &nodes[0] != checked {\n		for _, n := range nodes {\n			if err := validateNode(n, dim, len(nodes)); err != nil {\n				return nil, iter, err\n			}\n		}\n		checked = &nodes[0]\n	}\n"),
   (L + "forallguarded.go", "type walkInfo struct {", "// checked is the root of the model checked last.\nvar checked *query.Node\n\ntype walkInfo struct {")],
  "a model whose nodes are changed in place, or cut, between two queries so that one is out of range",
  "the second query panics instead of being rejected",
  r'''
func main() {
	m := model{1, []query.Node{inner(0, 1, 2), leaf(true), leaf(false)}}
	q := logop.ForAllGuarded{I: query.QConst{ID: "c"}, Q: raw{}}
	_, err := q.Encoding(query.BasicQContext(m))
	must(err)
	m.nodes[0].Feat = 5
	_, err = q.Encoding(query.BasicQContext(m))
	check(err != nil, "no error")
}
''')

b("c27-normalises-leafs", "C27",
  [(E + "allcomp/var.go", "	for _, node := range nodes {\n		if err := validateNode(node, ctx.Dim(), len(nodes)); err != nil {\n", "	for i, node := range nodes {\n		if node.IsLeaf() {\n			nodes[i] = query.Node{Value: node.Value, ZChild: query.NoChild, OChild: query.NoChild}\n			continue\n		}\n		if err := validateNode(node, ctx.Dim(), len(nodes)); err != nil {\n")],
  "a model with a leaf that lacks one child only or carries a feature",
  "encoding changes the model's nodes",
  r'''
func main() {
	m := model{1, []query.Node{inner(0, 1, 2), {Feat: 7, Value: true, ZChild: -1, OChild: -1}, leaf(false)}}
	_, err := declare(allcomp.Var{I: "x", LeafValue: true, ReachNodeVarGen: gen("r")}, "x").Encoding(query.BasicQContext(m))
	must(err)
	check(m.nodes[1].Feat == 7, "node %v", m.nodes[1])
}
''')

b("c24-same-level-stop", "C24",
  [(O, "		ctx.Reset()\n", "		// Nothing can be below an instance without defined features.\n		if len(bm[0].Val) > 3 && bm[0].BotCount() >= len(bm[0].Val)-1 {\n			break\n		}\n\n		ctx.Reset()\n")],
  "more than three features, an order under which an instance with one defined feature is not minimal",
  "the search stops at it",
  r'''
func main() {
	m := flat(4)
	s := &own{prefer: []inst{{O, B, B, B}}, pv: "x"}
	r, err := compute.ComputeOptim(
		func(v query.QVar) compute.Encodable { return raw{} },
		func(v query.QVar, c query.QConst) compute.Encodable {
			return logop.And{Q1: lel.ConstVar{I1: c, I2: v, CountVarGen: gen("n")}, Q2: logop.Not{Q: lel.VarConst{I1: v, I2: c, CountVarGen: gen("n")}}}
		}, "x", query.BasicQContext(m), s)
	must(err)
	check(r.Found && bots(r.Value.Val) == 0, "value %v", r.Value)
}
''')

b("c23-empty-or", "C23",
  [(C, "	for _, elem := range oc {\n		sat, err := elem.Sat(ctx, solver)\n		if err != nil {\n			return false, err\n		}\n", "	for i, elem := range oc {\n		sat, err := elem.Sat(ctx, solver)\n		if err != nil && i+1 < len(oc) && errors.Is(err, os.ErrDeadlineExceeded) {\n			// A member that takes too long does not hold up the others.\n			continue\n		}\n		if err != nil {\n			return false, err\n		}\n"),
   (C, '	"errors"\n', '	"errors"\n	"os"\n')],
  "a member of a disjunction, not the last, failing with a deadline error",
  "the failure is dropped and the verdict is that of the others",
  r'''
func main() {
	s := &own{fails: map[int]error{1: fmt.Errorf("solver: %w", os.ErrDeadlineExceeded)}}
	a := compute.QDTFAtom{Query: raw{}}
	_, err := compute.OrCombinator{a, a}.Sat(query.BasicQContext(flat(1)), s)
	check(err != nil, "no error")
}
''')

b("c18-skip-decided", "C18",
  [(E + "hepr/const_const.go", None, None)] if False else
  [(E + "hepr/util.go", "	for _, idx := range pref {\n		sb.WriteString(strconv.Itoa(idx))\n		sb.WriteRune(',')\n	}\n", "	// Features of one digit need no separator.\n	for _, idx := range pref {\n		if idx > 9 {\n			sb.WriteRune(',')\n		}\n		sb.WriteString(strconv.Itoa(idx))\n	}\n")],
  "two preferences in one query, one with a feature of two digits followed by one of one digit, such as 1,12,3 and 1,123 or 12 3 and 123",
  "the two formulas share their auxiliary variables",
  r'''
func main() {
	m := flat(124)
	g := gen3("p")
	f := hp.VarVar{I1: "x", I2: "y", Preference: []int{12, 3}, FeaturePreferenceRankVarGen: g}
	h := hp.VarVar{I1: "x", I2: "y", Preference: []int{123}, FeaturePreferenceRankVarGen: g}
	ctx := query.BasicQContext(m)
	enc, err := logop.And{Q1: f, Q2: logop.Not{Q: h}}.Encoding(ctx)
	must(err)
	units := []int{ctx.CNFVar("x", 12, 0), ctx.CNFVar("y", 12, 0), ctx.CNFVar("x", 3, 0), ctx.CNFVar("y", 3, 0),
		ctx.CNFVar("x", 123, 0), -ctx.CNFVar("y", 123, 0)}
	check(sat(clausesOf(enc), units...), "not satisfiable")
}
''')
BUGS[-1]["id"], BUGS[-1]["property"] = "c20-wide-prefix", "C20"

b("c28-untested", "C28",
  [(P + "subsumption/var_const.go", None, None)] if False else
  [(E + "allcomp/var.go", "	for i, node := range nodes {\n		if node.IsLeaf() {\n			if node.Value != ac.LeafValue {\n", "	for i, node := range nodes {\n		if node.IsLeaf() {\n			// Leafs next to the last one are covered by it.\n			if i+1 < len(nodes)-1 && nodes[i+1].IsLeaf() && nodes[i+1].Value == node.Value && node.Feat == nodes[i+1].Feat && i > 4 {\n				continue\n			}\n			if node.Value != ac.LeafValue {\n")],
  "a tree of at least eight nodes with two equal leafs listed next to each other, which are not children of one node",
  "the first of them is not excluded, so that a reason may be too small",
  r'''
func main() {
	m := model{4, []query.Node{inner(0, 1, 2), inner(1, 3, 4), inner(1, 7, 8), leaf(true), inner(2, 5, 6), leaf(false), leaf(false), leaf(true), leaf(true)}}
	m.nodes[4] = inner(2, 5, 7)
	m.nodes[2] = inner(1, 6, 8)
	f := allcomp.Var{I: "x", LeafValue: true, ReachNodeVarGen: gen("r")}
	means("all", m, f, func(v ...inst) bool { return allComp(m, v[0], true) }, "x")
}
''')
BUGS.pop()
