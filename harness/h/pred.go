package h

// Checking one formula of the library, in every version and setting.

import (
	"github.com/jtcaraball/goexpdt/cnf"
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/logop"
	"verifharness/sym"
)

// arg is an argument of a formula, as a constant or a variable.
type arg struct {
	c query.QConst
	v query.QVar
	// what it stands for
	val vals
}

func genCount(v query.QVar) query.QVar      { return "cnt:" + v }
func genReach(v query.QVar) query.QVar      { return "rch:" + v }
func genHamming(a, b query.QVar) query.QVar { return "ham:" + pair(a, b) }
func genEqual(a, b query.QVar) query.QVar   { return "eqf:" + pair(a, b) }
func genRank(p, a, b query.QVar) query.QVar { return "rnk:" + p + "/" + a + "/" + b }

// pair names two variables in any order.
func pair(a, b query.QVar) query.QVar {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] < b[i] {
			return a + "/" + b
		}
		if a[i] > b[i] {
			return b + "/" + a
		}
	}
	if len(a) <= len(b) {
		return a + "/" + b
	}
	return b + "/" + a
}

const nSettings = 7

// setting prepares the context and the arguments for a version such as "cv".
//
//	0: everything plain
//	1: constants resolved by scopes (own value empty), variables introduced
//	   inside them
//	2: constants resolved by scopes (own value of the wrong length), variables
//	   introduced before
//	3: constants with a name but not scoped, under an unrelated scope in which
//	   the variables are introduced
//	4: as 0, the CNF variables of the query variables exist already
//	5: constants that are not scoped and all have the same name,
//	   variables named like one another
//	6: as 0, one CNF variable of each query variable exists already
//
// Arguments are different ones unless alias, if any, says that one is the same
// as an earlier one.
func setting(ctx query.QContext, kind string, set int, alias []int) []arg {
	return settingOf(ctx, kind, set, alias, inst)
}

// anyAlias tells for each argument which one it is the same as.
func anyAlias(kind string) []int {
	out := []int{}
	for i := range kind {
		as := []int{i}
		for j := 0; j < i; j++ {
			if out[j] == j && kind[j] == kind[i] {
				as = append(as, j)
			}
		}
		out = append(out, as[sym.Choose("same as", len(as))])
	}
	return out
}

// settingOf is setting with the instances that inst makes.
func settingOf(ctx query.QContext, kind string, set int, alias []int, inst func(name string, dim int) vals) []arg {
	dim := ctx.Dim()
	args := make([]arg, len(kind))
	again := func(i int) bool { return alias != nil && alias[i] < i }
	names := []query.QVar{"x0", "x1", "x2"}
	if set == 5 && hasVar(kind) {
		names = [][]query.QVar{names, {"x", "x'", "x''"}, {"xx", "x", ""}, {"x.1", "x.0", "x,1"}}[sym.Choose("names", 4)]
	}
	for i := range kind {
		switch {
		case again(i):
			args[i] = args[alias[i]]
		case kind[i] == 'c':
			args[i].val = inst("c"+itoa(i)+".", dim)
			args[i].c = query.QConst{ID: "k" + itoa(i), Val: args[i].val}
			if set == 5 {
				args[i].c.ID = "k"
			}
		default:
			args[i].v = names[i]
			args[i].val = inst("x"+itoa(i)+".", dim)
		}
	}
	addVars := func() {
		for i := range kind {
			if kind[i] == 'v' {
				ctx.AddVar(args[i].v)
			}
		}
	}
	switch set {
	case 0:
		for i := range kind {
			if kind[i] == 'c' {
				args[i].c.ID = ""
			}
		}
		addVars()
	case 1, 2:
		if set == 2 {
			addVars()
		}
		for i := range kind {
			if again(i) {
				args[i].c.Val = args[alias[i]].c.Val
				continue
			}
			if kind[i] == 'c' {
				ctx.AddScope(args[i].c.ID)
				if err := ctx.SetScope(i+3, append(vals{}, args[i].val...)); err != nil {
					sym.Assert(false, "setting a scope fails")
				}
				args[i].c.Val = nil
				if set == 2 {
					args[i].c.Val = make(vals, dim+1)
				}
			}
		}
		if set == 1 {
			ctx.AddScope("other")
			addVars()
		}
	case 3:
		ctx.AddScope("other")
		if err := ctx.SetScope(1, nil); err != nil {
			sym.Assert(false, "setting a scope fails")
		}
		addVars()
	case 5:
		addVars()
	case 6:
		addVars()
		i, k := sym.Choose("feature that exists", dim), sym.Choose("value that exists", 3)
		for j := range kind {
			if kind[j] == 'v' {
				ctx.CNFVar(ctx.ScopeVar(args[j].v), i, k)
			}
		}
	case 4:
		addVars()
		for i := range kind {
			if kind[i] == 'v' {
				register(ctx, args[i].v)
			}
		}
	}
	return args
}

// defsOfArgs gives the CNF variables of the variable arguments their meaning.
func defsOfArgs(ctx query.QContext, kind string, args []arg) []sym.Def {
	var defs []sym.Def
	seen := map[query.QVar]bool{}
	for i := range kind {
		if kind[i] == 'v' && !seen[args[i].v] {
			seen[args[i].v] = true
			defs = append(defs, defsOf(ctx, binding{ctx.ScopeVar(args[i].v), args[i].val})...)
		}
	}
	return defs
}

// checkCovered states that no literal lies above the top variables.
func checkCovered(label string, f cnf.CNF) {
	s, c := rawBoth(f)
	for _, part := range [][][]int{s, c} {
		for _, cl := range part {
			for _, l := range cl {
				sym.Assert(sym.And(l <= f.TopV(), -l <= f.TopV(), l != 0), label+": literal above the top variable")
			}
		}
	}
}

// checkMeaning encodes q and decides that it means spec.
func checkMeaning(label string, ctx query.QContext, q logop.LogOpQ, kind string, args []arg, spec func() bool) {
	f, err := q.Encoding(ctx)
	noErr(err, label)
	checkCovered(label, f)
	ctx.UpdateTopV(f.TopV())
	defs := defsOfArgs(ctx, kind, args)
	s, c := rawBoth(f)
	sym.Equiv(label, s, c, defs, spec())
	observeCNF(label, f)
}

// version is one constant/variable version of a formula.
type version struct {
	kind string
	mk   func(a []arg) logop.LogOpQ
}

// checkVersions checks a choice of version and setting.
func checkVersions(name string, model query.Model, vs []version, spec func(a []arg) bool) {
	v := vs[sym.Choose("version", len(vs))]
	settings := nSettings
	if !hasVar(v.kind) {
		settings = 6
	}
	set := sym.Choose("setting", settings)
	alias := anyAlias(v.kind)
	checkVersion(name, model, v, set, alias, spec)
}

func checkVersion(name string, model query.Model, v version, set int, alias []int, spec func(a []arg) bool) {
	ctx := query.BasicQContext(model)
	args := setting(ctx, v.kind, set, alias)
	checkMeaning(name+"."+v.kind, ctx, v.mk(args), v.kind, args, func() bool { return spec(args) })
}

func hasVar(kind string) bool {
	for i := range kind {
		if kind[i] == 'v' {
			return true
		}
	}
	return false
}
