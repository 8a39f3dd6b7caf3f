import pathlib, importlib.util
spec = importlib.util.spec_from_file_location("c_logic", pathlib.Path(__file__).parent / "c_logic.py")
_m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(_m)
IMP = _m.IMP
BUGS = []


def b2(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=IMP + demo))


P = "query/predicates/"
E = "query/extensions/"

b2("c11-unscoped-values", "C11",
   [(P + "subsumption/var_const.go", "	for i, ft := range sc.Val {", "	for i, ft := range s.I2.Val {")],
   "a constant that is resolved through a guarded scope",
   "the predicate says nothing about a scoped constant",
   r'''
func main() {
	m := model{1, []query.Node{inner(0, 1, 2), leaf(true), leaf(false)}}
	c := query.QConst{ID: "c"}
	means("for all c: x <= c", m, logop.ForAllGuarded{I: c, Q: subsumption.VarConst{I1: "x", I2: c}},
		func(v ...inst) bool {
			for _, n := range nodeInsts(m) {
				if !subsumed(v[0], n) {
					return false
				}
			}
			return true
		}, "x")
}
''')

b2("c11-bot-against-value", "C11",
   [(P + "subsumption/const_const.go", "		if ft != query.BOT && ft != sc2.Val[i] {", "		if ft != query.BOT && sc2.Val[i] != query.BOT && ft != sc2.Val[i] {")],
   "a feature defined in the first constant and bottom in the second",
   "instances are subsumed by less defined ones",
   r'''
func main() {
	for _, a := range allInsts(2) {
		for _, b := range allInsts(2) {
			means("subsumption", flat(2), subsumption.ConstConst{I1: con(a...), I2: con(b...)}, func(...inst) bool { return subsumed(a, b) })
		}
	}
}
''')

b2("c12-overcount", "C12",
   [(P + "lel/utils.go", "		for j = i + 2; j <= dim; j++ {\n			clauses", "		for j = i + 2; j < dim; j++ {\n			clauses")],
   "the negation of the predicate, dimension two or more",
   "the counters are not determined by the instance: a spurious full count satisfies the negation",
   r'''
func main() {
	m := flat(3)
	for _, c := range allInsts(3) {
		means("lel", m, lel.ConstVar{I1: con(c...), I2: "y", CountVarGen: gen("n")}, func(v ...inst) bool { return bots(c) >= bots(v[0]) }, "y")
	}
}
''')

b2("c12-var-var-equal", "C12",
   [(P + "lel/var_var.go", "	for i = 0; i < ctx.Dim(); i++ {", "	for i = 0; i < ctx.Dim()-1; i++ {")],
   "a first variable with exactly one defined feature and an all-bottom second one",
   "the level comparison is not enforced for a first variable with a single defined feature",
   r'''
func main() {
	means("lel", flat(2), lel.VarVar{I1: "x", I2: "y", CountVarGen: gen("n")}, func(v ...inst) bool { return bots(v[0]) >= bots(v[1]) }, "x", "y")
}
''')

b2("c13-const-reach", "C13",
   [(P + "isnode/const.go", "		if sc.Val[node.Feat] == query.BOT {\n			break\n		}", "		if sc.Val[node.Feat] == query.BOT {\n			// The feature is not decided, either child will do.\n			node = nodes[node.OChild]\n			continue\n		}")],
   "an instance that defines a feature tested below a node whose own feature it leaves undefined",
   "instances that skip a feature on a path are taken for nodes",
   r'''
func main() {
	m := deep3
	for _, c := range allInsts(3) {
		means("isnode", m, isnode.Const{I: con(c...)}, func(...inst) bool { return isNode(m, c) })
	}
}
''')

b2("c13-node-order", "C13",
   [(P + "isnode/var.go", "	for i, node := range nodes {\n		if node.IsLeaf() {\n			continue\n		}\n		ncnf = ", "	for i, node := range nodes {\n		if node.IsLeaf() || node.ZChild < i {\n			continue\n		}\n		ncnf = ")],
   "a tree where a node is listed after its zero child",
   "reachability is not propagated over some nodes",
   r'''
func main() {
	m := model{3, []query.Node{inner(0, 2, 3), inner(2, 4, 5), leaf(false), inner(1, 1, 6), leaf(true), leaf(false), leaf(true)}}
	means("isnode", m, isnode.Var{I: "x", ReachNodeVarGen: gen("r")}, func(v ...inst) bool { return isNode(m, v[0]) }, "x")
}
''')

b2("c14-bot-one-child", "C14",
   [(E + "allcomp/var.go", "			cnf.Clause{\n				-ctx.CNFVar(sv, node.Feat, int(query.BOT)),\n				-ctx.CNFVar(svReach, 0, i),\n				ctx.CNFVar(svReach, 0, node.OChild),\n			},\n			cnf.Clause{\n				-ctx.CNFVar(svReach, 0, node.OChild),\n				ctx.CNFVar(svReach, 0, i),\n			},",
     "			cnf.Clause{\n				-ctx.CNFVar(svReach, 0, node.OChild),\n				ctx.CNFVar(svReach, 0, i),\n			},")],
   "a variable with an undefined feature whose one branch has a leaf of the other class",
   "completions along the one branch are not considered",
   r'''
func main() {
	for _, b := range []bool{false, true} {
		means("allcomp", deep3, allcomp.Var{I: "x", LeafValue: b, ReachNodeVarGen: gen("r")}, func(v ...inst) bool { return allComp(deep3, v[0], b) }, "x")
	}
}
''')

b2("c14-backward", "C14",
   [(E + "allcomp/var.go", "			cnf.Clause{\n				-ctx.CNFVar(svReach, 0, node.ZChild),\n				ctx.CNFVar(svReach, 0, i),\n			},\n", "")],
   "the negated predicate over a tree of depth two or more with an inner zero child",
   "nodes count as reached though their parent is not, so the negation holds at instances where all completions agree",
   r'''
func main() {
	m := model{2, []query.Node{inner(0, 1, 2), leaf(true), inner(1, 3, 4), leaf(false), leaf(true)}}
	for _, b := range []bool{false, true} {
		means("allcomp", m, allcomp.Var{I: "x", LeafValue: b, ReachNodeVarGen: gen("r")}, func(v ...inst) bool { return allComp(m, v[0], b) }, "x")
	}
}
''')

b2("c14-const-shared-visit", "C14",
   [(E + "allcomp/const.go", "		case query.BOT:\n			if _, ok := nvisited[n.ZChild]; !ok {\n				nvisited[n.ZChild] = struct{}{}\n				nstack = append(nstack, nodes[n.ZChild])\n			}\n			if _, ok := nvisited[n.OChild]; !ok {\n				nvisited[n.OChild] = struct{}{}",
     "		case query.BOT:\n			if _, ok := nvisited[n.Feat]; !ok {\n				nvisited[n.Feat] = struct{}{}\n				nstack = append(nstack, nodes[n.ZChild])\n			}\n			if _, ok := nvisited[n.OChild]; !ok {\n				nvisited[n.OChild] = struct{}{}")],
   "a tree that tests one feature in two branches, left undefined by the instance",
   "one of the branches is not searched for leaves of the other class",
   r'''
func main() {
	m := model{2, []query.Node{inner(0, 1, 2), inner(1, 3, 4), inner(1, 5, 6), leaf(false), leaf(true), leaf(true), leaf(true)}}
	for _, c := range allInsts(2) {
		for _, b := range []bool{false, true} {
			means("allcomp", m, allcomp.Const{I: con(c...), LeafValue: b}, func(...inst) bool { return allComp(m, c, b) })
		}
	}
}
''')

b2("c15-bot-is-zero", "C15",
   [(E + "cons/const_var.go", "		if ft == query.BOT {\n			continue\n		}\n\n		val := int(query.ZERO)\n		if ft == query.ZERO {\n			val = int(query.ONE)\n		}\n\n		clauses = append(clauses, cnf.Clause{-ctx.CNFVar(sv, i, val)})",
     "		if ft == query.BOT {\n			continue\n		}\n\n		clauses = append(\n			clauses,\n			cnf.Clause{\n				ctx.CNFVar(sv, i, int(ft)),\n				ctx.CNFVar(sv, i, int(query.BOT)),\n			},\n		)\n		if i == len(sc.Val)-1 && len(clauses) == 1 {\n			clauses[0] = clauses[0][:1]\n		}")],
   "a constant that defines its last feature only",
   "an undefined last feature is reported inconsistent",
   r'''
func main() {
	for _, c := range allInsts(3) {
		means("cons", flat(3), cons.ConstVar{I1: con(c...), I2: "y"}, func(v ...inst) bool {
			for i := range c {
				if c[i] != B && v[0][i] != B && c[i] != v[0][i] {
					return false
				}
			}
			return true
		}, "y")
	}
}
''')

b2("c15-one-sided", "C15",
   [(E + "cons/var_var.go", "				-ctx.CNFVar(sv1, i, int(query.ZERO)),\n				-ctx.CNFVar(sv2, i, int(query.ONE)),", "				-ctx.CNFVar(sv2, i, int(query.ZERO)),\n				-ctx.CNFVar(sv1, i, int(query.ONE)),")],
   "a feature that is zero in the first variable and one in the second",
   "such instances are reported consistent",
   r'''
func main() {
	means("cons", flat(2), cons.VarVar{I1: "x", I2: "y"}, func(v ...inst) bool {
		for i := range v[0] {
			if v[0][i] != B && v[1][i] != B && v[0][i] != v[1][i] {
				return false
			}
		}
		return true
	}, "x", "y")
}
''')

b2("c16-first-difference", "C16",
   [(E + "dfs/const.go", "			l1.Val[i] != l2.Val[i] {\n			return true, nil\n		}", "			l1.Val[i] != l2.Val[i] {\n			return true, nil\n		}\n		if ft == query.BOT &&\n			l1.Val[i] != query.BOT &&\n			l1.Val[i] == -l2.Val[i]+3 {\n			return false, nil\n		}")],
   "a pair of leaves of different class that differ in an undefined feature and in a later defined one",
   "determinant sets are reported not determinant",
   r'''
func main() {
	m := model{2, []query.Node{inner(0, 1, 2), inner(1, 3, 4), inner(1, 5, 6), leaf(false), leaf(true), leaf(false), leaf(true)}}
	for _, c := range allInsts(2) {
		means("dfs", m, dfs.Const{I: con(c...)}, func(...inst) bool { return isDFS(m, c) })
	}
}
''')

b2("c16-stale-path", "C16",
   [(E + "dfs/utils.go", "			cp = walk[cp].prev\n			cv[nodes[cp].Feat] = query.BOT\n", "			cv[nodes[cp].Feat] = query.BOT\n			cp = walk[cp].prev\n")],
   "a tree with three leaves or more that tests feature 0, which leaves name by default",
   "leaves lose or keep values of features, so that pairs of leaves are compared wrongly",
   r'''
func main() {
	m := model{3, []query.Node{inner(0, 1, 2), inner(1, 3, 4), inner(2, 5, 6), leaf(false), leaf(true), leaf(true), leaf(false)}}
	means("dfs", m, dfs.Var{I: "x"}, func(v ...inst) bool { return isDFS(m, v[0]) }, "x")
	means("dfs", deep3, dfs.Var{I: "x"}, func(v ...inst) bool { return isDFS(deep3, v[0]) }, "x")
}
''')

b2("c17-unscoped", "C17",
   [(E + "full/const.go", "	for _, ft := range sc.Val {", "	val := f.I.Val\n	if len(val) == 0 {\n		val = sc.Val\n	}\n	for _, ft := range val {")],
   "a scoped constant that also carries a value of its own",
   "the constant's own value is used rather than that of the scope",
   r'''
func main() {
	m := model{1, []query.Node{inner(0, 1, 2), leaf(true), leaf(false)}}
	c := query.QConst{ID: "c", Val: inst{O}}
	check(!closed(m, logop.ForAllGuarded{I: c, Q: full.Const{I: c}}), "the root is full")
}
''')

b2("c17-var-shortcut", "C17",
   [(E + "full/var.go", "	sv := ctx.ScopeVar(f.I)", "	sv := f.I")],
   "a variable declared under a guarded universal",
   "the formula speaks of an unscoped variable instead",
   r'''
func main() {
	m := model{1, []query.Node{inner(0, 1, 2), leaf(true), leaf(false)}}
	c := query.QConst{ID: "c"}
	q := logop.ForAllGuarded{I: c, Q: logop.WithVar{I: "x", Q: logop.And{
		Q1: subsumption.VarConst{I1: "x", I2: c},
		Q2: full.Var{I: "x"},
	}}}
	check(!closed(m, q), "no full instance is subsumed by the root")
}
''')

b2("c18-tie-chain", "C18",
   [(E + "hepr/var_var.go", "			cnf.Clause{\n				ctx.CNFVar(sv2, idx, int(query.BOT)),\n				-ctx.CNFVar(vvp, 0, i),\n				ctx.CNFVar(vvp, 0, i+1),\n			},\n			// <-", "			// <-")],
   "two variables that both define the first preferred feature and differ on a later one",
   "a tie on defined features ends the comparison",
   r'''
func main() {
	p := []int{1, 0}
	means("hepr", flat(2), hp.VarVar{I1: "x", I2: "y", Preference: p, FeaturePreferenceRankVarGen: gen3("h")}, func(v ...inst) bool { return hepr(v[0], v[1], p) }, "x", "y")
}
''')

b2("c18-const-last", "C18",
   [(E + "hepr/const_var.go", "		if sc.Val[idx] != query.BOT {\n			ncnf = ncnf.AppendConsistency(\n				cnf.Clause{\n					-ctx.CNFVar(cvp, 0, i),\n					ctx.CNFVar(sv, idx, int(query.BOT)),\n					ctx.CNFVar(cvp, 0, i+1),\n				},\n", "		if sc.Val[idx] != query.BOT {\n			ncnf = ncnf.AppendConsistency(\n")],
   "a constant and a variable that tie on the first preferred feature, the variable being preferred later",
   "the constant is preferred whatever follows",
   r'''
func main() {
	p := []int{0, 2, 1}
	for _, c := range allInsts(3) {
		means("hepr", flat(3), hp.ConstVar{I1: con(c...), I2: "y", Preference: p, FeaturePreferenceRankVarGen: gen3("h")}, func(v ...inst) bool { return hepr(c, v[0], p) }, "y")
	}
}
''')

b2("c19-full-distance", "C19",
   [(E + "leh/var_const_const.go", "	for i := 1; i <= dim; i++ {", "	for i := 1; i < dim; i++ {")],
   "an instance that differs from the first constant in every feature",
   "the largest distance is not compared",
   r'''
func main() {
	for _, a := range completions(make(inst, 2)) {
		for _, b := range completions(make(inst, 2)) {
			means("leh", flat(2), lh.VarConstConst{I1: "x", I2: con(a...), I3: con(b...), HammingDistanceVarGen: gen2("d")}, func(v ...inst) bool { return leh(v[0], a, b) }, "x")
		}
	}
}
''')

b2("c19-equal-features", "C19",
   [(E + "leh/utils.go", "			cnf.Clause{\n				-ctx.CNFVar(v1, i, int(query.ZERO)),\n				-ctx.CNFVar(v2, i, int(query.ONE)),\n				-ctx.CNFVar(vfeq, i, 0),\n			},\n", "")],
   "two variables, the first zero and the second one at some feature",
   "features with different values may count as equal",
   r'''
func main() {
	c := inst{O, Z}
	means("leh", flat(2), lh.VarVarConst{I1: "x", I2: "y", I3: con(c...), HammingDistanceVarGen: gen2("d"), EqualFeatureVarGen: gen2("e")}, func(v ...inst) bool { return leh(v[0], v[1], c) }, "x", "y")
}
''')

b2("c19-const-not-full", "C19",
   [(E + "leh/const_const_const.go", "	if !sc1.IsFull() || !sc2.IsFull() || !sc3.IsFull() {", "	if !sc1.IsFull() || !sc2.IsFull() && !sc3.IsFull() {")],
   "three constants of which only the second or only the third is not full",
   "the formula holds though one of the instances is not full",
   r'''
func main() {
	for _, a := range allInsts(2) {
		for _, b := range allInsts(2) {
			for _, c := range allInsts(2) {
				means("leh", flat(2), lh.ConstConstConst{I1: con(a...), I2: con(b...), I3: con(c...)}, func(...inst) bool { return leh(a, b, c) })
			}
		}
	}
}
''')

b2("c20-name-by-id", "C20",
   [(E + "leh/var_const_const.go", "	vc2hd := l.HammingDistanceVarGen(sv, query.QVar(sc2.AsString()))", "	vc2hd := l.HammingDistanceVarGen(sv, query.QVar(sc2.ID+sc2.AsString()))"),
    (E + "leh/var_const_const.go", "	vc1hd := l.HammingDistanceVarGen(sv, query.QVar(sc1.AsString()))", "	vc1hd := l.HammingDistanceVarGen(sv, query.QVar(sc1.ID+sc2.AsString()))")],
   "two formulas over one variable with constants that have no identifier",
   "the distances to different constants are the same auxiliary variable",
   r'''
func main() {
	for _, a := range completions(make(inst, 2)) {
		for _, b := range completions(make(inst, 2)) {
			means("leh", flat(2), lh.VarConstConst{I1: "x", I2: con(a...), I3: con(b...), HammingDistanceVarGen: gen2("d")}, func(v ...inst) bool { return leh(v[0], a, b) }, "x")
		}
	}
}
''')

b2("c20-hepr-prefix", "C20",
   [(E + "hepr/var_const.go", "		sv,\n		query.QVar(sc.AsString()),", "		sv,\n		query.QVar(sc.ID),")],
   "two formulas over one variable and two constants without identifiers",
   "both use the same auxiliary variables with different meanings",
   r'''
func main() {
	p := []int{0, 1}
	for _, a := range allInsts(2) {
		for _, b := range allInsts(2) {
			q := logop.And{
				Q1: hp.VarConst{I1: "x", I2: con(a...), Preference: p, FeaturePreferenceRankVarGen: gen3("h")},
				Q2: logop.Not{Q: hp.VarConst{I1: "x", I2: con(b...), Preference: p, FeaturePreferenceRankVarGen: gen3("h")}},
			}
			means("hepr and not hepr", flat(2), q, func(v ...inst) bool { return hepr(v[0], a, p) && !hepr(v[0], b, p) }, "x")
		}
	}
}
''')

b2("c20-hepr-order", "C20",
   [(E + "hepr/const_var.go", "		query.QVar(sc.AsString()),\n		sv,", "		sv,\n		query.QVar(sc.AsString()),")],
   "the constant-variable and the variable-constant version over the same constant, variable and preference in one query",
   "the two versions use the same auxiliary variables with opposite meaning",
   r'''
func main() {
	p := []int{1, 0}
	for _, a := range allInsts(2) {
		q := logop.And{
			Q1: hp.VarConst{I1: "x", I2: con(a...), Preference: p, FeaturePreferenceRankVarGen: gen3("h")},
			Q2: logop.Not{Q: hp.ConstVar{I1: con(a...), I2: "x", Preference: p, FeaturePreferenceRankVarGen: gen3("h")}},
		}
		means("hepr and not hepr", flat(2), q, func(v ...inst) bool { return hepr(v[0], a, p) && !hepr(a, v[0], p) }, "x")
	}
}
''')

b2("c20-equal-order", "C20",
   [(E + "leh/var_var_var.go", "	v1v3dh := l.HammingDistanceVarGen(sv1, sv3)", "	v1v3dh := l.HammingDistanceVarGen(sv3, sv3)")],
   "two formulas in one query that share the third variable but not the first",
   "the distances of different pairs of variables are the same auxiliary variable",
   r'''
func main() {
	g, e := gen2("d"), gen2("e")
	q := logop.And{
		Q1: lh.VarVarVar{I1: "x", I2: "y", I3: "z", HammingDistanceVarGen: g, EqualFeatureVarGen: e},
		Q2: lh.VarVarVar{I1: "y", I2: "x", I3: "z", HammingDistanceVarGen: g, EqualFeatureVarGen: e},
	}
	means("leh twice", flat(2), q, func(v ...inst) bool { return leh(v[0], v[1], v[2]) && leh(v[1], v[0], v[2]) }, "x", "y", "z")
}
''')
