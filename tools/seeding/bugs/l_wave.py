import pathlib, importlib.util
spec = importlib.util.spec_from_file_location("k_wave", pathlib.Path(__file__).parent / "k_wave.py")
_m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(_m)
IMP = _m.IMP
CHAIN = _m.CHAIN
BUGS = []


def b(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=IMP + demo))


N = "cnf/cnf.go"
S = "compute/solver.go"
O = "compute/optimum.go"
C = "compute/boolcomb.go"
E = "query/extensions/"
P = "query/predicates/"
L = "query/logop/"
SC = "query/scoper.go"
VM = "query/varmanager.go"
IN = "query/instances.go"
CX = "query/context.go"

F = E + "full/"
FG = L + "forallguarded.go"

AC = E + "allcomp/"


b("c02-prefix", "C02",
  [(N, "// extend returns the clauses in base", "// known tells if a clause starts as the last one of clauses does.\nfunc known(clauses []Clause, clause Clause) bool {\n	if len(clauses) == 0 || len(clause) == 0 {\n		return false\n	}\n	last := clauses[len(clauses)-1]\n	for i := 0; i < len(last) && i < len(clause); i++ {\n		if last[i] != clause[i] {\n			return false\n		}\n	}\n	return len(last) > 2\n}\n\n// extend returns the clauses in base"),
   (N, "	return append(base[:len(base):len(base)], clauses...)\n", "	if len(clauses) == 1 && known(base, clauses[0]) {\n		return base\n	}\n	return append(base[:len(base):len(base)], clauses...)\n")],
  "a clause is added right after a longer one that it starts",
  "the shorter clause is lost",
  r'''
func main() {
	f := cnf.FromClauses([]cnf.Clause{{1, 2, 3}}).AppendSemantics(cnf.Clause{1, 2})
	check(!sat(clausesOf(f), -1, -2, 3), "a clause is lost")
}
''')

b("c03-unit-in-place", "C03",
  [(N, "		auxv := -clause[0]\n", "		if len(c.sClauses) == 1 && len(clause) == 1 {\n			clause[0] = -clause[0]\n			c.tv = tv\n			return\n		}\n\n		auxv := -clause[0]\n")],
  "a formula of one literal is negated and used again",
  "the formula itself is negated",
  r'''
func main() {
	f := cnf.FromClauses([]cnf.Clause{{1}})
	f.Negate()
	check(sat(clausesOf(f), 1), "the formula changed")
}
''')

b("c04-chunk-exact", "C04",
  [(N, "	// Write CNF formula\n	if _, err = f.WriteString(\n		fmt.Sprintf(\"p cnf %d %d\\n\", c.tv, len(c.sClauses)+len(c.cClauses)),\n	); err != nil {\n		return err\n	}\n", "	// Write CNF formula in large pieces.\n	text := c.ToBytes()\n	for len(text) > 512 {\n		if _, err = f.Write(text[:512]); err != nil {\n			return err\n		}\n		text = text[512:]\n	}\n	if len(text) > 2 {\n		_, err = f.Write(text)\n	}\n	return err\n}\n\n// WriteTo writes the formula line by line.\nfunc (c CNF) lines(f *os.File) (err error) {\n")],
  "a formula whose text has one or two bytes more than a multiple of 512",
  "the end of the last clause is not written",
  r'''
func main() {
	p := filepath.Join(os.Getenv("TMPDIR"), "f.cnf")
	cl := cnf.Clause{}
	for i := 0; i < 300; i++ {
		for _, last := range []int{1, 10, 100} {
			f := cnf.FromClauses([]cnf.Clause{append(cl, last)})
			must(f.ToFile(p))
			got, err := os.ReadFile(p)
			must(err)
			check(string(got) == string(f.ToBytes()), "%d literals: the file has %d bytes", i+1, len(got))
		}
		cl = append(cl, 1)
	}
}
''')

b("c12-upper-16", "C12",
  [(P + "lel/utils.go", "		for j = i + 2; j <= dim; j++ {", "		for j = i + 2; j <= dim && j <= 16; j++ {")],
  "more than 16 features, all of which are undefined up to some point",
  "the count of undefined features is not determined",
  r'''
func main() {
	ctx := query.BasicQContext(flat(20))
	a := make(inst, 20)
	a[19] = Z
	f, err := declare(logop.Not{Q: lel.ConstVar{I1: con(a...), I2: "x", CountVarGen: gen("c")}}, "x").Encoding(ctx)
	must(err)
	check(!sat(clausesOf(f), at(ctx, "x", a)...), "19 of 20 undefined features count as 20")
}
''')

b("c13-many-tests", "C13",
  [(P + "isnode/var.go", "		fcl[node.Feat] = append(fcl[node.Feat], ctx.CNFVar(svReach, 1, i))\n", "		// The nodes nearest to the root are enough.\n		if len(fcl[node.Feat]) <= 16 {\n			fcl[node.Feat] = append(fcl[node.Feat], ctx.CNFVar(svReach, 1, i))\n		}\n")],
  "a feature tested at more than 16 nodes",
  "nodes below the others are not nodes",
  r'''
func main() {
	// A complete tree of six levels.
	nodes := []query.Node{}
	for i := 0; i < 63; i++ {
		level := 0
		for k := i + 1; k > 1; k /= 2 {
			level++
		}
		nodes = append(nodes, inner(level, 2*i+1, 2*i+2))
	}
	for i := 0; i < 64; i++ {
		nodes = append(nodes, leaf(i%3 == 0))
	}
	ctx := query.BasicQContext(model{6, nodes})
	f, err := declare(isnode.Var{I: "x", ReachNodeVarGen: gen("r")}, "x").Encoding(ctx)
	must(err)
	check(sat(clausesOf(f), at(ctx, "x", inst{O, O, O, O, O, O})...), "the last leaf is no node")
}
''')

b("c19-upper-16", "C19",
  [(E + "leh/utils.go", "		for j := i + 2; j <= dim; j++ {\n			clauses = append(clauses, cnf.Clause{-ctx.CNFVar(vcd, i, j)})", "		for j := i + 2; j <= dim && j <= 16; j++ {\n			clauses = append(clauses, cnf.Clause{-ctx.CNFVar(vcd, i, j)})")],
  "more than 16 features and a large distance",
  "the distance between a variable and a constant is not determined",
  r'''
func main() {
	ctx := query.BasicQContext(flat(20))
	c, x, y := make(inst, 20), make(inst, 20), make(inst, 20)
	for i := range c {
		c[i], x[i], y[i] = Z, O, O
	}
	x[18], x[19], y[0] = Z, Z, Z
	// |c - x| = 18, |c - y| = 19
	f, err := declare(logop.Not{Q: lh.ConstVarVar{I1: con(c...), I2: "x", I3: "y", HammingDistanceVarGen: gen2("h")}}, "x", "y").Encoding(ctx)
	must(err)
	check(!sat(clausesOf(f), append(at(ctx, "x", x), at(ctx, "y", y)...)...), "distance 18 is more than 19")
}
''')

b("c24-cached-formula", "C24",
  [(O, "	var bm []query.QConst\n", "	var bm []query.QConst\n\n	first := &kept{q: fg(v)}\n"),
   (O, "logop.WithVar{I: v, Q: fg(v)}", "logop.WithVar{I: v, Q: first}"),
   (O, "					Q1: fg(v),", "					Q1: first,"),
   (O, "// ComputeOptim ", "// kept is a formula that is encoded once.\ntype kept struct {\n	q    Encodable\n	f    cnf.CNF\n	done bool\n}\n\nfunc (k *kept) Encoding(ctx query.QContext) (cnf.CNF, error) {\n	if k.done {\n		ctx.UpdateTopV(k.f.TopV())\n		return k.f, nil\n	}\n	f, err := k.q.Encoding(ctx)\n	k.f, k.done = f, err == nil\n	return f, err\n}\n\n// ComputeOptim "),
   (O, "	\"github.com/jtcaraball/goexpdt/query\"\n", "	\"github.com/jtcaraball/goexpdt/cnf\"\n	\"github.com/jtcaraball/goexpdt/query\"\n")],
  "the context was in use before, and the first instance found is not the best one",
  "the later steps do not ask for the formula",
  r'''
func main() {
	ctx := query.BasicQContext(flat(1))
	ctx.CNFVar("other", 0, 0)
	// Full instances only, with as few defined features as there can be.
	less := func(v query.QVar, c query.QConst) compute.Encodable {
		return logop.And{Q1: subsumption.VarConst{I1: v, I2: c}, Q2: logop.Not{Q: subsumption.ConstVar{I1: c, I2: v}}}
	}
	out, err := compute.ComputeOptim(func(v query.QVar) compute.Encodable { return full.Var{I: v} }, less, "x", ctx, &own{})
	must(err)
	check(out.Found && isFull(out.Value.Val), "%v is not full", out.Value.Val)
}
''')
