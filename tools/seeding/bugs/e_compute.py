import pathlib, importlib.util
spec = importlib.util.spec_from_file_location("c_logic", pathlib.Path(__file__).parent / "c_logic.py")
_m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(_m)
BUGS = []
IMP = r'''
import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"

	"github.com/jtcaraball/goexpdt/cnf"
	"github.com/jtcaraball/goexpdt/compute"
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/extensions/allcomp"
	"github.com/jtcaraball/goexpdt/query/extensions/dfs"
	"github.com/jtcaraball/goexpdt/query/extensions/full"
	lh "github.com/jtcaraball/goexpdt/query/extensions/leh"
	hp "github.com/jtcaraball/goexpdt/query/extensions/hepr"
	"github.com/jtcaraball/goexpdt/query/logop"
	"github.com/jtcaraball/goexpdt/query/predicates/isnode"
	"github.com/jtcaraball/goexpdt/query/predicates/lel"
	"github.com/jtcaraball/goexpdt/query/predicates/subsumption"
)

var _ = []any{errors.New, fmt.Sprint, os.Exit, filepath.Join, strings.Join, cnf.CNF{}, compute.UnsatError,
	query.QConst{}, allcomp.Var{}, dfs.Var{}, full.Var{}, lh.VarVarVar{}, hp.VarVar{}, logop.And{},
	isnode.Var{}, lel.VarVar{}, subsumption.VarVar{}, syscall.Umask, tree, deep3, raw{}, script, (*own)(nil)}

// raw is a sub-query with a fixed formula.
type raw struct {
	f   cnf.CNF
	err error
}

func (r raw) Encoding(ctx query.QContext) (cnf.CNF, error) {
	ctx.UpdateTopV(r.f.TopV())
	return r.f, r.err
}

type cl = cnf.Clause

var tree = model{2, []query.Node{inner(0, 1, 2), leaf(false), inner(1, 3, 4), leaf(false), leaf(true)}}

var deep3 = model{3, []query.Node{
	inner(0, 1, 2), leaf(false), inner(1, 3, 4), leaf(true), inner(2, 5, 6), leaf(false), leaf(true),
}}

// script is a solver made of shell lines.
func script(lines ...string) string {
	p := filepath.Join(os.Getenv("TMPDIR"), "solver.sh")
	must(os.WriteFile(p, []byte("#!/bin/sh\n"+strings.Join(lines, "\n")+"\n"), 0o755))
	return p
}

// own is a solver of this program. fails maps calls to errors.
type own struct {
	asg   map[int]bool
	calls int
	fails map[int]error
	// prefer are instances that are returned first if they satisfy a query.
	prefer []inst
	pv     query.QVar
}

func (o *own) Step(q compute.Encodable, ctx query.QContext) error {
	o.calls++
	if err, ok := o.fails[o.calls]; ok {
		return err
	}
	f, err := q.Encoding(ctx)
	if err != nil {
		return err
	}
	for _, c := range o.prefer {
		if m, ok := solve(clausesOf(f), at(ctx, o.pv, c)...); ok {
			o.asg = m
			return nil
		}
	}
	m, ok := solve(clausesOf(f))
	if !ok {
		return compute.UnsatError
	}
	o.asg = m
	return nil
}

func (o *own) Values(vars []query.QVar, ctx query.QContext) ([]query.QConst, error) {
	var out []query.QConst
	for _, v := range vars {
		c := query.QConst{}
		for i := 0; i < ctx.Dim(); i++ {
			for _, f := range []query.FeatV{B, Z, O} {
				if o.asg[ctx.CNFVar(v, i, int(f))] {
					c.Val = append(c.Val, f)
					break
				}
			}
		}
		out = append(out, c)
	}
	return out, nil
}
'''


def b(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=IMP + demo))


S = "compute/solver.go"
O = "compute/optimum.go"
C = "compute/boolcomb.go"
E = "query/extensions/"

b("c22-pref-range", "C22",
  [(E + "hepr/util.go", "		if i < 0 || i >= dim {", "		if i >= dim {")],
  "a negative feature index in a preference",
  "a preference that names a feature out of range makes the formula panic",
  r'''
func main() {
	defer func() {
		if r := recover(); r != nil {
			fail("panic: %v", r)
		}
	}()
	q := hp.ConstConst{I1: con(O, B), I2: con(B, B), Preference: []int{-1}}
	_, err := q.Encoding(query.BasicQContext(flat(2)))
	check(err != nil, "no error")
}
''')

b("c22-child-range", "C22",
  [("query/logop/forallguarded.go", '	if n.OChild < 0 || n.OChild >= nlen {\n		return fmt.Errorf("Node\'s OChild', '	if n.OChild < 0 || n.OChild > nlen {\n		return fmt.Errorf("Node\'s OChild')],
  "a node whose one child is exactly one past the last node",
  "a guarded universal panics on the model instead of rejecting it",
  r'''
func main() {
	defer func() {
		if r := recover(); r != nil {
			fail("panic: %v", r)
		}
	}()
	m := model{2, []query.Node{inner(0, 1, 2), leaf(true)}}
	q := logop.ForAllGuarded{I: query.QConst{ID: "c"}, Q: raw{}}
	_, err := q.Encoding(query.BasicQContext(m))
	check(err != nil, "no error")
}
''')

b("c22-nil-generator-late", "C22",
  [(E + "leh/var_var_const.go", "	if l.HammingDistanceVarGen == nil || l.EqualFeatureVarGen == nil {", "	if l.HammingDistanceVarGen == nil && l.EqualFeatureVarGen == nil {")],
  "exactly one of two generator functions missing",
  "a missing generator function makes the formula panic",
  r'''
func main() {
	defer func() {
		if r := recover(); r != nil {
			fail("panic: %v", r)
		}
	}()
	q := lh.VarVarConst{I1: "x", I2: "y", I3: con(O, O), HammingDistanceVarGen: gen2("d")}
	_, err := q.Encoding(query.BasicQContext(flat(2)))
	check(err != nil, "no error")
}
''')

b("c23-negated-error", "C23",
  [(C, "		return false, err\n	}\n\n	return !a.Negated, nil", "		return a.Negated, err\n	}\n\n	return !a.Negated, nil")],
  "a negated atom whose evaluation fails",
  "a failure comes with a verdict of true",
  r'''
func main() {
	ctx := query.BasicQContext(flat(1))
	s := &own{fails: map[int]error{1: errors.New("broken")}}
	v, err := compute.QDTFAtom{Query: raw{}, Negated: true}.Sat(ctx, s)
	check(err != nil && !v, "verdict %v, error %v", v, err)
}
''')

b("c23-or-skips-errors", "C23",
  [(C, "		if err != nil {\n			return false, err\n		}\n\n		if sat {\n			return true, nil\n		}\n	}\n\n	return false, nil",
    "		if sat {\n			return true, nil\n		}\n\n		if err != nil {\n			ferr = err\n		}\n	}\n\n	return false, ferr"),
   (C, "func (oc OrCombinator) Sat(ctx query.QContext, solver Solver) (bool, error) {\n", "func (oc OrCombinator) Sat(ctx query.QContext, solver Solver) (bool, error) {\n	var ferr error\n\n")],
  "a disjunction with a failing member before a true one",
  "the failure is not reported and later members are evaluated",
  r'''
func main() {
	ctx := query.BasicQContext(flat(1))
	s := &own{fails: map[int]error{1: errors.New("broken")}}
	v, err := compute.OrCombinator{compute.QDTFAtom{Query: raw{}}, compute.QDTFAtom{Query: raw{}}}.Sat(ctx, s)
	check(err != nil && !v, "verdict %v, error %v", v, err)
}
''')

b("c23-wrapped-unsat", "C23",
  [(C, "		if errors.Is(err, UnsatError) {", '		if err.Error() == UnsatError.Error() {'),
   (C, 'import (\n	"errors"\n\n', "import (\n")],
  "a solver that fails with an error of the same text as the unsatisfiability marker",
  "a failure is reported as an answer",
  r'''
func main() {
	ctx := query.BasicQContext(flat(1))
	s := &own{fails: map[int]error{1: errors.New(compute.UnsatError.Error())}}
	v, err := compute.QDTFAtom{Query: raw{}, Negated: true}.Sat(ctx, s)
	check(err != nil && !v, "verdict %v, error %v", v, err)
}
''')

b("c24-error-ends-search", "C24",
  [(O, "			if errors.Is(err, UnsatError) {\n				break\n			}\n			return OptOutput{false, query.QConst{}, 0}, err", "			if !errors.Is(err, UnsatError) && steps == 2 {\n				return OptOutput{false, query.QConst{}, 0}, err\n			}\n			break")],
  "a solver failure in the third call or later",
  "a failure ends the search and a suboptimal instance is returned as the optimum",
  r'''
func main() {
	s := &own{pv: "x", prefer: []inst{{O, O}, {O, B}}, fails: map[int]error{3: errors.New("broken")}}
	out, err := compute.ComputeOptim(
		func(v query.QVar) compute.Encodable { return subsumption.VarVar{I1: v, I2: v} },
		func(v query.QVar, c query.QConst) compute.Encodable {
			return logop.And{
				Q1: subsumption.VarConst{I1: v, I2: c},
				Q2: logop.Not{Q: subsumption.ConstVar{I1: c, I2: v}},
			}
		},
		"x", query.BasicQContext(flat(2)), s,
	)
	check(err != nil, "output %v without error", out)
}
''')

b("c24-bounded-search", "C24",
  [(O, "	for {\n		steps += 1\n", "	// An improving chain has no more instances than features.\n	for steps <= ctx.Dim() {\n		steps += 1\n")],
  "a chain of improvements as long as possible: from a full instance, one feature at a time",
  "the search stops before the optimum",
  r'''
func main() {
	s := &own{pv: "x", prefer: []inst{{O, O}, {O, B}, {B, B}}}
	out, err := compute.ComputeOptim(
		func(v query.QVar) compute.Encodable { return subsumption.VarVar{I1: v, I2: v} },
		func(v query.QVar, c query.QConst) compute.Encodable {
			return logop.And{
				Q1: subsumption.VarConst{I1: v, I2: c},
				Q2: logop.Not{Q: subsumption.ConstVar{I1: c, I2: v}},
			}
		},
		"x", query.BasicQContext(flat(2)), s,
	)
	must(err)
	check(out.Found && eq(out.Value.Val, inst{B, B}), "optimum %v", out)
	check(out.Calls == s.calls, "%d calls reported, %d made", out.Calls, s.calls)
}
''')

b("c24-calls-on-retry", "C24",
  [(O, "	return OptOutput{true, bm[0], steps}, nil", "	return OptOutput{true, bm[0], max(steps-1, 2)}, nil")],
  "an optimum found after two improvements or more",
  "one solver call too few is reported",
  r'''
func main() {
	s := &own{pv: "x", prefer: []inst{{O, O}, {O, B}, {B, B}}}
	out, err := compute.ComputeOptim(
		func(v query.QVar) compute.Encodable { return subsumption.VarVar{I1: v, I2: v} },
		func(v query.QVar, c query.QConst) compute.Encodable {
			return logop.And{
				Q1: subsumption.VarConst{I1: v, I2: c},
				Q2: logop.Not{Q: subsumption.ConstVar{I1: c, I2: v}},
			}
		},
		"x", query.BasicQContext(flat(2)), s,
	)
	must(err)
	check(out.Calls == s.calls, "%d calls reported, %d made", out.Calls, s.calls)
}
''')

b("c25-exit-range", "C25",
  [(S, "		if exitCode != 10 && exitCode != 20 {", "		if exitCode < 10 || exitCode > 20 {")],
  "a solver that exits with a code between 11 and 19, such as 14 for a timeout",
  "a solver that gave up is reported satisfiable",
  r'''
func main() {
	s, err := compute.BinSolver(script("exit 14"))
	must(err)
	check(s.Step(raw{}, query.BasicQContext(flat(1))) != nil, "exit 14 is satisfiable")
}
''')

b("c25-signal", "C25",
  [(S, "		exitCode := exitErr.ExitCode()\n", "		exitCode := exitErr.ExitCode()\n		if exitCode < 0 && stdout.Len() > 0 {\n			// The solver was stopped after it had written its answer.\n			exitCode = 10\n		}\n"),
   (S, "		return exitErr.ExitCode(), stdout.Bytes(), nil", "		return exitCode, stdout.Bytes(), nil")],
  "a solver killed by a signal after it has written something",
  "a killed solver is reported satisfiable",
  r'''
func main() {
	s, err := compute.BinSolver(script("echo 'c starting'", "kill -9 $$"))
	must(err)
	check(s.Step(raw{}, query.BasicQContext(flat(1))) != nil, "a killed solver is satisfiable")
}
''')

b("c25-leaves-file", "C25",
  [(S, "	defer func() {\n		encFile.Close()\n		os.Remove(encFile.Name())\n	}()\n\n	// Write formula as cnf to filePath.\n	cnf, err := q.Encoding(ctx)\n	if err != nil {\n		return err\n	}\n",
    "	defer encFile.Close()\n\n	// Write formula as cnf to filePath.\n	cnf, err := q.Encoding(ctx)\n	if err != nil {\n		return err\n	}\n	defer os.Remove(encFile.Name())\n\n")],
  "a query that fails to encode",
  "the temporary file is left behind",
  r'''
func main() {
	d := filepath.Join(os.Getenv("TMPDIR"), "t")
	must(os.Mkdir(d, 0o755))
	p := script("exit 20")
	os.Setenv("TMPDIR", d)
	s, err := compute.BinSolver(p)
	must(err)
	err = s.Step(raw{err: errors.New("bad query")}, query.BasicQContext(flat(1)))
	check(err != nil && !errors.Is(err, compute.UnsatError), "error %v", err)
	es, err := os.ReadDir(d)
	must(err)
	check(len(es) == 0, "left behind: %v", es)
}
''')

b("c25-unsat-from-text", "C25",
  [(S, "			return exitCode, nil, errors.New(stderr.String())", "			if bytes.Contains(stdout.Bytes(), []byte(\"UNSATISFIABLE\")) {\n				return 20, nil, nil\n			}\n			return exitCode, nil, errors.New(stderr.String())")],
  "a solver that fails with text about unsatisfiability in its output",
  "a failed run is reported unsatisfiable",
  r'''
func main() {
	s, err := compute.BinSolver(script("echo 'c proving UNSATISFIABLE...'", "exit 1"))
	must(err)
	err = s.Step(raw{}, query.BasicQContext(flat(1)))
	check(err != nil && !errors.Is(err, compute.UnsatError), "error %v", err)
}
''')

b("c26-output-of-unsat", "C26",
  [(S, "	if code == 20 {\n		return UnsatError\n	}\n	s.output = output\n", "	s.output = output\n	if code == 20 {\n		return UnsatError\n	}\n")],
  "values asked for after an unsatisfiable run that followed a satisfiable one",
  "the values of the satisfiable run are lost",
  r'''
func main() {
	ctx := query.BasicQContext(flat(1))
	p := script(`if [ -e "$0.once" ]; then echo 's UNSATISFIABLE'; exit 20; fi`, `touch "$0.once"`, "echo 'v 1 2 -3 0'", "exit 10")
	s, err := compute.BinSolver(p)
	must(err)
	q := logop.WithVar{I: "x", Q: raw{}}
	must(s.Step(q, ctx))
	a, err := s.Values([]query.QVar{"x"}, ctx)
	check(errors.Is(s.Step(q, ctx), compute.UnsatError), "second run")
	c, err2 := s.Values([]query.QVar{"x"}, ctx)
	check((err == nil) == (err2 == nil), "errors %v and %v", err, err2)
	check(err != nil || a[0].EqualValue(c[0]), "values %v and %v", a, c)
}
''')

b("c26-sorted-literals", "C26",
  [(S, "			absVal := iAbs(val)\n", "			absVal := iAbs(val)\n			if absVal > ctx.TopV() {\n				break\n			}\n")],
  "a value line with a variable above those of the context before others",
  "the rest of the line is ignored",
  r'''
func main() {
	ctx := query.BasicQContext(flat(2))
	q := logop.WithVar{I: "x", Q: raw{}}
	s, err := compute.BinSolver(script("echo 'v 99 -1 2 -3 -4 5 -6 0'", "exit 10"))
	must(err)
	must(s.Step(q, ctx))
	c, err := s.Values([]query.QVar{"x"}, ctx)
	must(err)
	want := inst{}
	for i := 0; i < 2; i++ {
		for _, f := range []query.FeatV{B, Z, O} {
			if n := ctx.CNFVar("x", i, int(f)); n == 2 || n == 5 {
				want = append(want, f)
			}
		}
	}
	check(eq(c[0].Val, want), "values %v, want %v", c, want)
}
''')

b("c26-value-order", "C26",
  [(S, "	for i, v := range vars {\n		c, err := varValueFromBytes(s.output, v, ctx)", "	seen := make(map[query.QVar]int)\n	for i, v := range vars {\n		if _, ok := seen[v]; ok {\n			continue\n		}\n		seen[v] = i\n		c, err := varValueFromBytes(s.output, v, ctx)")],
  "the same variable asked for twice in one call",
  "the second value of a repeated variable is empty",
  r'''
func main() {
	ctx := query.BasicQContext(flat(1))
	q := logop.WithVar{I: "x", Q: raw{}}
	s, err := compute.BinSolver(script("echo 'v 1 -2 -3 0'", "exit 10"))
	must(err)
	must(s.Step(q, ctx))
	c, err := s.Values([]query.QVar{"x", "x"}, ctx)
	must(err)
	check(len(c) == 2 && c[0].EqualValue(c[1]), "values %v", c)
}
''')

b("c27-leaf-cache", "C27",
  [(E + "dfs/utils.go", "	pleaf := []query.QConst{}\n	nleaf := []query.QConst{}\n", "	key := fmt.Sprint(dim, len(nodes), nodes[0])\n	if l, ok := leafCache[key]; ok {\n		return l[0], l[1], nil\n	}\n\n	pleaf := []query.QConst{}\n	nleaf := []query.QConst{}\n"),
   (E + "dfs/utils.go", "	return pleaf, nleaf, nil\n", "	leafCache[key] = [2][]query.QConst{pleaf, nleaf}\n\n	return pleaf, nleaf, nil\n"),
   (E + "dfs/utils.go", "// leafsAsConsts returns,", "// leafCache keeps the leafs of models that have been walked already.\nvar leafCache = map[string][2][]query.QConst{}\n\n// leafsAsConsts returns,")],
  "two models of the same size with the same root that differ elsewhere, queried one after the other",
  "the second model is answered with the leaves of the first",
  r'''
func main() {
	a := model{1, []query.Node{inner(0, 1, 2), leaf(true), leaf(true)}}
	b := model{1, []query.Node{inner(0, 1, 2), leaf(true), leaf(false)}}
	check(closed(a, dfs.Const{I: con(B)}), "constant model")
	check(!closed(b, dfs.Const{I: con(B)}), "model that depends on the feature")
}
''')

b("c27-reset-scopes-only", "C27",
  [("query/context.go", "	qc.baseScoper.Reset()\n	qc.baseVarManager.Reset()", "	if qc.baseVarManager.topv == 0 {\n		return\n	}\n	qc.baseScoper.Reset()\n	qc.baseVarManager.Reset()")],
  "a context with open scopes but no CNF variables yet that is reset",
  "the scopes stay open, and constants resolve to values of them",
  r'''
func main() {
	ctx := query.BasicQContext(flat(2))
	ctx.AddScope("c")
	must(ctx.SetScope(0, inst{O, O}))
	ctx.Reset()
	_, ok := ctx.ScopeConst(query.QConst{ID: "c", Val: inst{Z, Z}})
	check(!ok, "the scope is still open")
}
''')

b("c27-sorts-preference", "C27",
  [(E + "hepr/util.go", "	seen := make([]bool, dim)\n	for _, i := range pref {\n		if i < 0 || i >= dim {\n			return fmt.Errorf(\"Preference feature index out of range '%d'\", i)\n		}\n		if seen[i] {\n			return fmt.Errorf(\"Invalid duplicate preference '%d'\", i)\n		}\n		seen[i] = true\n	}\n	return nil",
    "	if len(pref) > dim {\n		return fmt.Errorf(\"Invalid duplicate in preference\")\n	}\n	sorted := append(pref[:0:len(pref)], pref...)\n	if len(pref) > 2 {\n		sorted = append([]int(nil), pref...)\n	}\n	sort.Ints(sorted)\n	for k, i := range sorted {\n		if i < 0 || i >= dim {\n			return fmt.Errorf(\"Preference feature index out of range '%d'\", i)\n		}\n		if k > 0 && sorted[k-1] == i {\n			return fmt.Errorf(\"Invalid duplicate preference '%d'\", i)\n		}\n	}\n	return nil"),
   (E + "hepr/util.go", '	"fmt"\n', '	"fmt"\n	"sort"\n')],
  "a preference of two features that are not in increasing order",
  "the caller's preference is sorted in place, which changes its meaning",
  r'''
func main() {
	p := []int{1, 0}
	q := hp.ConstConst{I1: con(O, B), I2: con(B, O), Preference: p}
	_, err := q.Encoding(query.BasicQContext(flat(2)))
	must(err)
	check(p[0] == 1 && p[1] == 0, "preference %v", p)
}
''')

b("c28-reason-strictness", "C12",
  [("query/predicates/lel/var_const.go", "	for i := 0; i < sc.BotCount(); i++ {", "	for i := 0; i < sc.BotCount() && i < ctx.Dim()-1; i++ {")],
  "a constant with no defined feature: only the empty instance is at its level or below",
  "instances with one defined feature count as having at least as many undefined features as the empty one",
  r'''
func main() {
	means("lel", flat(2), lel.VarConst{I1: "x", I2: con(B, B), CountVarGen: gen("n")}, func(v ...inst) bool { return bots(v[0]) >= 2 }, "x")
}
''')

b("c28-reason-const", "C11",
  [("query/predicates/subsumption/const_var.go", "				cnf.Clause{ctx.CNFVar(sv, i, int(ft))},", "				cnf.Clause{-ctx.CNFVar(sv, i, int(query.BOT)), ctx.CNFVar(sv, i, int(ft))},")],
  "a constant that defines a feature with the value the instance does not have",
  "an instance with another value counts as above the constant",
  r'''
func main() {
	for _, c := range allInsts(2) {
		means("subsumption", flat(2), subsumption.ConstVar{I1: con(c...), I2: "y"}, func(v ...inst) bool { return subsumed(c, v[0]) }, "y")
	}
}
''')

b("c28-minimum-of-constant", "C28",
  [("query/predicates/lel/const_var.go", "	for i := sc.BotCount() + 1; i < ctx.Dim()+1; i++ {", "	for i := sc.BotCount() + 1; i < ctx.Dim(); i++ {")],
  "a tree that classifies every instance the same, so that the empty instance is the only smallest determinant feature set",
  "an instance with one feature is told to be a smallest determinant feature set of a tree that needs no feature",
  r'''
func main() {
	m := model{2, []query.Node{inner(0, 1, 2), leaf(true), leaf(true)}}
	c := con(B, O)
	q := logop.Or{Q1: logop.Not{Q: dfs.Const{I: c}}, Q2: logop.WithVar{I: "y", Q: logop.And{
		Q1: dfs.Var{I: "y"}, Q2: logop.And{
			Q1: lel.VarConst{I1: "y", I2: c, CountVarGen: gen("n")},
			Q2: logop.Not{Q: lel.ConstVar{I1: c, I2: "y", CountVarGen: gen("n")}}}}}}
	v, err := compute.QDTFAtom{Query: q, Negated: true}.Sat(query.BasicQContext(m), &own{})
	must(err)
	check(!v, "a set of one feature is minimum although the empty set is determinant")
}
''')

b("c28-reason-deep", "C28",
  [("query/extensions/allcomp/const.go", "			if _, ok := nvisited[n.OChild]; !ok {\n				nvisited[n.OChild] = struct{}{}\n				nstack = append(nstack, nodes[n.OChild])\n			}\n		case query.ZERO:", "			if _, ok := nvisited[n.OChild]; !ok && len(nvisited) < 4 {\n				nvisited[n.OChild] = struct{}{}\n				nstack = append(nstack, nodes[n.OChild])\n			}\n		case query.ZERO:")],
  "an instance for which several nested tests are open",
  "instances some of whose completions are of another class count as fixing the class",
  r'''
func main() {
	m := model{4, []query.Node{
		inner(0, 1, 2), leaf(true),
		inner(1, 3, 4), leaf(true),
		inner(2, 5, 6), leaf(true), leaf(false),
	}}
	for _, c := range allInsts(4) {
		x := con(c...)
		for _, lv := range []bool{true, false} {
			v := closed(m, allcomp.Const{I: x, LeafValue: lv})
			check(v == allComp(m, c, lv), "completions of %v of class %v: %v", c, lv, v)
		}
	}
}
''')
