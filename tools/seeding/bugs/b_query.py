BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


VM = "query/varmanager.go"
bug("c05-key-collision", "C05",
    [(VM, "type varRep struct {\n	v   QVar\n	idx int\n	val int\n}", "type varRep string\n\nfunc rep(v QVar, idx, val int) varRep {\n	return varRep(fmt.Sprint(string(v), idx, val))\n}"),
     (VM, "	vr := varRep{v, idx, value}", "	vr := rep(v, idx, value)"),
     (VM, "	_, ok := vm.vars[varRep{v, idx, value}]", "	_, ok := vm.vars[rep(v, idx, value)]"),
     (VM, "package query\n", 'package query\n\nimport "fmt"\n')],
    "a variable name ending in a digit, so that name and feature run together",
    "two different triples share a CNF variable",
    r'''
import "github.com/jtcaraball/goexpdt/query"

func main() {
	ctx := query.BasicQContext(flat(15))
	a := ctx.CNFVar("x", 11, 2)
	check(!ctx.CNFVarExists("x1", 1, 2), "exists")
	b := ctx.CNFVar("x1", 1, 2)
	check(a != b, "one variable for two triples")
}
''')

bug("c05-exists-by-topv", "C05",
    [(VM, "	vm.topv += 1\n	vm.vars[vr] = vm.topv\n	return vm.topv", "	vm.vars[vr] = max(vm.topv, len(vm.vars)) + 1\n	vm.topv = len(vm.vars)\n	return vm.vars[vr]")],
    "fresh variables requested after the top variable was raised by an update",
    "the top variable falls below numbers handed out, and numbers are handed out twice",
    r'''
import "github.com/jtcaraball/goexpdt/query"

func main() {
	ctx := query.BasicQContext(flat(3))
	a := ctx.CNFVar("x", 0, 0)
	check(ctx.UpdateTopV(10), "update refused")
	b := ctx.CNFVar("x", 1, 0)
	check(b > 10 && ctx.TopV() >= b, "variable %d top %d", b, ctx.TopV())
	c := ctx.CNFVar("x", 2, 0)
	check(c > b && a != c, "variable %d after %d", c, b)
}
''')

bug("c05-update-next", "C05",
    [(VM, "	if vm.topv > v {\n		return false\n	}\n	vm.topv = v\n	return true", "	next := vm.topv + 1\n	if v < next-1 {\n		return false\n	}\n	if v > next {\n		vm.topv = v\n	}\n	return true")],
    "an update to exactly the current top variable plus one",
    "an accepted update reserves nothing, and the reserved number is handed out again",
    r'''
import "github.com/jtcaraball/goexpdt/query"

func main() {
	ctx := query.BasicQContext(flat(3))
	ctx.CNFVar("x", 0, 0)
	check(ctx.UpdateTopV(2), "update refused")
	check(ctx.TopV() == 2, "top is %d", ctx.TopV())
	check(ctx.CNFVar("x", 1, 0) > 2, "reserved number handed out")
}
''')

SC = "query/scoper.go"
bug("c06-pop-parent-level", "C06",
    [(SC, "		if i == len(s.scopes) {\n			delete(s.vars, v)", "		if i >= len(s.scopes)-1 && i > 0 {\n			delete(s.vars, v)")],
    "a variable introduced in a scope, another scope opened and closed inside it, and the variable used again",
    "closing an inner scope forgets the variables of the enclosing one",
    r'''
import "github.com/jtcaraball/goexpdt/query"

func main() {
	ctx := query.BasicQContext(flat(3))
	ctx.AddScope("c")
	must(ctx.SetScope(1, inst{O, B, B}))
	ctx.AddVar("x")
	before := ctx.ScopeVar("x")
	ctx.AddScope("d")
	must(ctx.SetScope(2, inst{O, O, B}))
	must(ctx.PopScope())
	check(ctx.ScopeVar("x") == before, "%q became %q", before, ctx.ScopeVar("x"))
}
''')

bug("c06-setscope-outermost", "C06",
    [(SC, "	(s.scopes)[slen-1].vIdx = vIdx\n	(s.scopes)[slen-1].value = val\n	return nil",
      "	cur := &s.scopes[slen-1]\n	for i := range s.scopes {\n		if s.scopes[i].target == cur.target {\n			cur = &s.scopes[i]\n			break\n		}\n	}\n	cur.vIdx = vIdx\n	cur.value = val\n	return nil")],
    "two nested scopes with the same target",
    "setting the inner scope changes the outer one, so constants of the outer scope are wrong after it is closed",
    r'''
import "github.com/jtcaraball/goexpdt/query"

func main() {
	ctx := query.BasicQContext(flat(3))
	c := query.QConst{ID: "c"}
	ctx.AddScope("c")
	must(ctx.SetScope(1, inst{O, B, B}))
	ctx.AddScope("c")
	must(ctx.SetScope(2, inst{Z, B, B}))
	in, ok := ctx.ScopeConst(c)
	check(ok && eq(in.Val, inst{Z, B, B}), "inner is %v", in)
	must(ctx.PopScope())
	out, ok := ctx.ScopeConst(c)
	check(ok && eq(out.Val, inst{O, B, B}), "outer is %v", out)
}
''')

IN = "query/instances.go"
bug("c21-equal-prefix", "C21",
    [(IN, "	if len(c.Val) != len(t.Val) {\n		return false\n	}", "	if len(c.Val) > len(t.Val) {\n		return false\n	}")],
    "two instances of different length, the first a prefix of the second",
    "instances of different dimension are reported equal",
    r'''
func main() {
	check(!con(O, Z).EqualValue(con(O, Z, B)), "prefix reported equal")
	check(!con(O, Z, B).EqualValue(con(O, Z)), "extension reported equal")
	check(con(O, Z).EqualValue(con(O, Z)), "equal")
}
''')

bug("c21-leaf-both", "C21",
    [("query/model.go", "	return n.ZChild < 0 || n.OChild < 0", "	return n.ZChild < 0 && n.OChild < 0")],
    "a node that lacks only one child",
    "a node with a single child is not reported a leaf, and formulas fail or panic on it",
    r'''
import "github.com/jtcaraball/goexpdt/query"

func main() {
	check(query.Node{ZChild: query.NoChild, OChild: 3}.IsLeaf(), "no zero child")
	check(query.Node{ZChild: 2, OChild: query.NoChild}.IsLeaf(), "no one child")
	check(!query.Node{ZChild: 2, OChild: 3}.IsLeaf(), "inner node")
}
''')

bug("c21-dim-total", "C21",
    [(IN, "	for i, c := range consts {\n		if len(c.Val) != d {\n			return",
      "	total := 0\n	for _, c := range consts {\n		total += len(c.Val)\n	}\n	if total == d*len(consts) {\n		return nil\n	}\n	for i, c := range consts {\n		if len(c.Val) != d {\n			return")],
    "two instances of wrong length whose lengths add up",
    "instances with a length different from the dimension pass the check",
    r'''
import "github.com/jtcaraball/goexpdt/query"

func main() {
	check(query.ValidateConstsDim(2, con(O), con(O, B, Z)) != nil, "lengths 1 and 3 for dimension 2")
	check(query.ValidateConstsDim(2, con(O, B), con(O, Z)) == nil, "valid")
}
''')
