package h

import (
	"github.com/jtcaraball/goexpdt/cnf"
	"verifharness/sym"
)

// anyLit is a literal over variables 1..nv of either sign.
func anyLit(name string, nv int) int {
	l := sym.Int(name, -nv, nv)
	sym.Assume(l != 0)
	return l
}

// anyClauses picks a shape of up to n clauses of up to w literals and fills
// it with any literals.
func anyClauses(name string, n, w, nv int) [][]int {
	k := sym.Choose(name+"#", n+1)
	var out [][]int
	for i := 0; i < k; i++ {
		m := sym.Choose(name+"w"+itoa(i), w+1)
		c := []int{}
		for j := 0; j < m; j++ {
			c = append(c, anyLit(name+itoa(i)+itoa(j), nv))
		}
		out = append(out, c)
	}
	return out
}

func defsFor(vals []bool) []sym.Def {
	var d []sym.Def
	for i, v := range vals {
		d = append(d, sym.Def{Var: i + 1, Val: v})
	}
	return d
}

// checkNegation checks one negation g of f, called with the optional top
// variable given. Variables up to known are in use.
func checkNegation(label string, f, g cnf.CNF, known int, defs []sym.Def, spec bool) {
	_, fc := rawBoth(f)
	gs, gc := rawBoth(g)
	// Consistency clauses survive.
	for i := range fc {
		in := []bool{}
		for j := range gc {
			in = append(in, sameClause(fc[i], gc[j]))
		}
		sym.Assert(sym.Or(in...), label+": consistency clause lost or altered")
	}
	// Everything is covered by the reported top variable.
	for _, part := range [][][]int{gs, gc} {
		for _, c := range part {
			for _, l := range c {
				sym.Assert(sym.And(l <= g.TopV(), -l <= g.TopV(), l != 0), label+": literal above the top variable")
			}
		}
	}
	sym.Assert(g.TopV() >= known, label+": top variable shrank")
	sym.EquivSat(label, gs, gc, defs, spec)
}

// C01_negate: any formula, any supplied top variable.
func C01_negate() {
	nv := sym.Choose("variables", 1+sym.Bound("variables", 3, 4))
	ns := sym.Bound("semantic clauses", 3, 3)
	w := sym.Bound("clause width", 2, 3)
	s := anyClauses("s", ns, w, nv)
	c := anyClauses("c", 1, 2, nv)
	f := cnf.FromClauses(clonef(s)).AppendConsistency(clonef(c)...)
	vals := bools("x", nv)
	known := f.TopV()
	var g cnf.CNF
	if sym.Choose("opt", 2) == 1 {
		t := sym.Int("topv", 0, nv+3)
		g = f.Negate(t)
		known = max2(known, t)
	} else {
		g = f.Negate()
	}
	// The variables in use before the call are those up to known; the others
	// may be taken for new ones.
	sym.Assume(known >= nv)
	sym.Cover("negated")
	defs := defsFor(vals)
	spec := sym.And(evalClauses(c, vals), !evalClauses(s, vals))
	checkNegation("negation", f, g, known, defs, spec)
	checkFresh("negation", f, g, known)
	observeCNF("g", g)
}

// checkFresh: every variable of g that is not one of f lies above known.
func checkFresh(label string, f, g cnf.CNF, known int) {
	fs, fc := rawBoth(f)
	gs, gc := rawBoth(g)
	for _, part := range [][][]int{gs, gc} {
		for _, c := range part {
			for _, l := range c {
				a := absI(l)
				in := []bool{a > known}
				for _, p2 := range [][][]int{fs, fc} {
					for _, c2 := range p2 {
						for _, l2 := range c2 {
							in = append(in, sym.Or(l2 == a, -l2 == a))
						}
					}
				}
				sym.Assert(sym.Or(in...), label+": auxiliary variable not fresh")
			}
		}
	}
}

// inUse is min(nv, known) as a known number.
func inUse(nv, known int) int { return sym.Conc(sym.Ite(known < nv, known, nv)) }

func absI(l int) int { return sym.Ite(l < 0, -l, l) }

func max2(a, b int) int { return sym.Ite(a > b, a, b) }

// C01_twice: negating the negation, with top variables handed on or not.
func C01_twice() {
	nv := sym.Choose("variables", 1+sym.Bound("variables", 3, 3))
	ns := sym.Bound("semantic clauses", 2, 3)
	s := anyClauses("s", ns, 2, nv)
	f := cnf.FromClauses(clonef(s))
	var g cnf.CNF
	used := f.TopV()
	if sym.Choose("opt", 2) == 1 {
		t := sym.Int("t1", 0, nv+2)
		g = f.Negate(t)
		used = max2(used, t)
	} else {
		g = f.Negate()
	}
	k := g.TopV()
	var h cnf.CNF
	if sym.Choose("opt", 2) == 1 {
		t := sym.Int("t2", 0, nv+4)
		h = g.Negate(t)
		k = max2(k, t)
	} else {
		h = g.Negate()
	}
	vals := bools("x", nv)
	sym.Assume(used >= nv)
	sym.Cover("negated twice")
	checkNegation("double negation", g, h, k, defsFor(vals), evalClauses(s, vals))
	checkFresh("double negation", g, h, k)
	observeCNF("h", h)
}

// C01_wide: a wider clause, alone or next to a literal.
func C01_wide() {
	nv := 1 + sym.Choose("variables", sym.Bound("variables of a wide clause", 3, 4))
	w := 3 + sym.Choose("wide clause width from 3", sym.Bound("widths of a wide clause", 2, 3))
	c := []int{}
	for j := 0; j < w; j++ {
		c = append(c, anyLit("w"+itoa(j), nv))
	}
	s := [][]int{c}
	switch sym.Choose("next to", 3) {
	case 1:
		s = append(s, []int{anyLit("u", nv)})
	case 2:
		s = append([][]int{{anyLit("u", nv)}}, s...)
	}
	f := cnf.FromClauses(clonef(s))
	g := f.Negate(nv)
	vals := bools("x", nv)
	sym.Cover("negated")
	checkNegation("wide", f, g, nv, defsFor(vals), !evalClauses(s, vals))
	checkFresh("wide", f, g, max2(nv, f.TopV()))
}
