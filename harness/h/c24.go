package h

// Optimal instances.

import (
	"errors"

	"github.com/jtcaraball/goexpdt/cnf"
	"github.com/jtcaraball/goexpdt/compute"
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/logop"
	"github.com/jtcaraball/goexpdt/query/predicates/lel"
	"github.com/jtcaraball/goexpdt/query/predicates/subsumption"
	"verifharness/sym"
)

// among is the formula which says that v is one of the instances allowed.
func among(v query.QVar, dim int, allowed func(u vals) bool) logop.LogOpQ {
	return stub(func(ctx query.QContext) (cnf.CNF, error) {
		f := cnf.CNF{}
		sv := ctx.ScopeVar(v)
		for _, u := range allInstances(dim) {
			if allowed(u) {
				continue
			}
			cl := cnf.Clause{}
			for i, k := range u {
				cl = append(cl, -ctx.CNFVar(sv, i, int(k)))
			}
			f = f.AppendSemantics(cl)
		}
		return f, nil
	})
}

// order is a strict order with its formula.
type order struct {
	less func(a, b vals) bool
	mk   compute.VCOrder
}

func strictly(dim int, which int) order {
	table := func(less func(a, b vals) bool) order {
		return order{less, func(v query.QVar, c query.QConst) compute.Encodable {
			return among(v, dim, func(u vals) bool { return less(u, c.Val) })
		}}
	}
	switch which {
	case 0: // no instance precedes another
		return table(func(a, b vals) bool { return false })
	case 1:
		return table(func(a, b vals) bool { return code(a) < code(b) })
	case 2:
		return order{func(a, b vals) bool { return oSubsumed(a, b) && !oSubsumed(b, a) },
			func(v query.QVar, c query.QConst) compute.Encodable {
				return logop.And{Q1: subsumption.VarConst{I1: v, I2: c}, Q2: logop.Not{Q: subsumption.ConstVar{I1: c, I2: v}}}
			}}
	case 3:
		return order{func(a, b vals) bool { return bots(a) < bots(b) },
			func(v query.QVar, c query.QConst) compute.Encodable {
				return logop.Not{Q: lel.VarConst{I1: v, I2: c, CountVarGen: genCount}}
			}}
	case 4:
		return order{func(a, b vals) bool { return oSubsumed(b, a) && !oSubsumed(a, b) },
			func(v query.QVar, c query.QConst) compute.Encodable {
				return logop.And{Q1: logop.Not{Q: subsumption.VarConst{I1: v, I2: c}}, Q2: subsumption.ConstVar{I1: c, I2: v}}
			}}
	}
	// Compared at the last feature only.
	return table(func(a, b vals) bool { return a[dim-1] > b[dim-1] })
}

// chain is the length of the longest improving chain within a set.
func chain(set []vals, less func(a, b vals) bool) int {
	best := make([]int, len(set))
	most := 0
	for range set {
		for i := range set {
			if best[i] == 0 {
				best[i] = 1
			}
			for j := range set {
				if less(set[i], set[j]) && best[j]+1 > best[i] {
					best[i] = best[j] + 1
				}
			}
			if best[i] > most {
				most = best[i]
			}
		}
	}
	return most
}

// checkOptimum states that out answers for the set and order.
func checkOptimum(label string, out compute.OptOutput, steps int, dim int, set []vals, less func(a, b vals) bool) {
	sym.Assert(out.Found == (len(set) > 0), label+": found is wrong")
	sym.Assert(out.Calls == steps, label+": wrong number of calls")
	sym.Assert(steps <= chain(set, less)+2, label+": too many calls")
	if !out.Found {
		return
	}
	sym.Assert(len(out.Value.Val) == dim, label+": the value has a wrong length")
	in := false
	for _, u := range set {
		if equalTo(u, out.Value.Val) {
			in = true
		}
	}
	sym.Assert(in, label+": the value does not satisfy the formula")
	for _, u := range set {
		sym.Assert(!less(u, out.Value.Val), label+": the value is not optimal")
	}
}

// someSet is any subset of the instances. Beyond max instances only the first
// max are free.
func someSet(dim, max int) []vals {
	set := []vals{}
	for i, u := range allInstances(dim) {
		if i < max && sym.Bool("allowed"+itoa(code(u))) {
			set = append(set, u)
		}
	}
	return set
}

func inSet(set []vals) func(u vals) bool {
	return func(u vals) bool {
		for _, w := range set {
			if code(w) == code(u) {
				return true
			}
		}
		return false
	}
}

// C24_optimum: any set of instances under several orders.
func C24_optimum() {
	dim := 1 + sym.Choose("dim", 2)
	which := sym.Choose("order", 6)
	o := strictly(dim, which)
	free := sym.Bound("instances", 6, 9)
	set := someSet(dim, free)
	wrap := sym.Choose("formula declares the variable", 2) == 1
	v := query.QVar("x")
	fg := func(x query.QVar) compute.Encodable {
		q := among(x, dim, inSet(set))
		if wrap {
			return logop.WithVar{I: x, Q: q}
		}
		return q
	}
	s := &ideal{}
	ctx := query.BasicQContext(flat(dim))
	if sym.Choose("used before", 2) == 1 {
		ctx.CNFVar("before", 0, 0)
		ctx.CNFVar(v, dim-1, int(query.ONE))
		ctx.UpdateTopV(5)
	}
	out, err := compute.ComputeOptim(fg, o.mk, v, ctx, s)
	noErr(err, "optimum")
	if out.Found {
		sym.Cover("found")
	} else {
		sym.Cover("not found")
	}
	checkOptimum("optimum", out, s.steps, dim, set, o.less)
	sym.Assert(sym.TempEntries() == 0, "temporary files remain")
}

// C24_orders: any strict order of the instances of one feature.
func C24_orders() {
	every := allInstances(1)
	rel := [3][3]bool{}
	for i := range rel {
		for j := range rel {
			if i != j {
				rel[i][j] = sym.Bool("precedes" + itoa(i) + itoa(j))
			}
		}
	}
	for i := range rel {
		for j := range rel {
			sym.Assume(!(rel[i][j] && rel[j][i]))
			for k := range rel {
				sym.Assume(!(rel[i][j] && rel[j][k]) || rel[i][k])
			}
		}
	}
	less := func(a, b vals) bool { return rel[code(a)][code(b)] }
	set := someSet(1, len(every))
	s := &ideal{}
	out, err := compute.ComputeOptim(
		func(x query.QVar) compute.Encodable { return among(x, 1, inSet(set)) },
		func(x query.QVar, c query.QConst) compute.Encodable {
			return among(x, 1, func(u vals) bool { return less(u, c.Val) })
		}, "v", query.BasicQContext(flat(1)), s)
	noErr(err, "orders")
	sym.Cover("ordered")
	checkOptimum("orders", out, s.steps, 1, set, less)
}

// C24_failures: failures at any point.
func C24_failures() {
	dim := 1
	o := strictly(dim, 1+sym.Choose("order", 2))
	set := someSet(dim, 3)
	v := query.QVar("x")
	s := &ideal{}
	bad := 0 // number of the formula which fails to encode
	made := 0
	kind := sym.Choose("failure", 5)
	at := 1 + sym.Choose("at", 3)
	switch kind {
	case 0:
		s.fail = at
	case 1:
		s.failVals = at
	case 2, 3:
		bad = at
	case 4:
		sym.BreakTemp()
	}
	failed := false
	enc := func(q compute.Encodable) logop.LogOpQ {
		return stub(func(ctx query.QContext) (cnf.CNF, error) {
			if kind == 2 {
				made++
				if made == bad {
					failed = true
					return cnf.CNF{}, errSub
				}
			}
			return q.Encoding(ctx)
		})
	}
	ord := 0
	fg := func(x query.QVar) compute.Encodable { return enc(among(x, dim, inSet(set))) }
	og := func(x query.QVar, c query.QConst) compute.Encodable {
		q := o.mk(x, c)
		return stub(func(ctx query.QContext) (cnf.CNF, error) {
			ord++
			if kind == 3 && ord == bad {
				failed = true
				return cnf.CNF{}, errSub
			}
			return q.Encoding(ctx)
		})
	}
	out, err := compute.ComputeOptim(fg, og, v, query.BasicQContext(flat(dim)), s)
	sym.RestoreTemp()
	sym.Assert(sym.TempEntries() == 0, "temporary files remain")
	if kind == 0 && s.steps >= s.fail || kind == 1 && s.vals >= s.failVals {
		failed = true
	}
	if failed {
		sym.Cover("failed")
		sym.Assert(err != nil, "a failure is not reported")
		sym.Assert(errors.Is(err, errSolver) || errors.Is(err, errSub), "the error is lost")
		sym.Assert(!out.Found, "an answer comes with an error")
		return
	}
	if err != nil {
		// The environment failed.
		sym.Cover("environment")
		sym.Assert(kind == 4, "unexpected error")
		sym.Assert(!errors.Is(err, compute.UnsatError), "failure taken for unsatisfiability")
		return
	}
	checkOptimum("answer", out, s.steps, dim, set, o.less)
}
