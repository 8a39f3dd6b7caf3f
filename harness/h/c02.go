package h

// Building formulas: nothing is lost, added, altered or moved.

import (
	"github.com/jtcaraball/goexpdt/cnf"
	"verifharness/sym"
)

func wideLit(name string) int {
	wide := 1 << sym.Bound("bits of a literal", 8, 24)
	l := sym.Int(name, -wide, wide)
	sym.Assume(l != 0)
	return l
}

// wideClauses picks a shape of up to n clauses of up to w literals over any
// variables, using at most *left literals.
func wideClauses(name string, n, w int, left *int) [][]int {
	k := sym.Choose(name+"#", n+1)
	out := [][]int{}
	for i := 0; i < k; i++ {
		if w > *left {
			w = *left
		}
		m := sym.Choose(name+"w"+itoa(i), w+1)
		*left -= m
		c := []int{}
		for j := 0; j < m; j++ {
			c = append(c, wideLit(name+itoa(i)+itoa(j)))
		}
		out = append(out, c)
	}
	return out
}

func sameClause(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	eq := []bool{}
	for i := range a {
		eq = append(eq, a[i] == b[i])
	}
	return sym.And(eq...)
}

// sameClauses states that two lists hold the same clauses equally often, in
// any order.
func sameClauses(label string, got, want [][]int) {
	sym.Assert(len(got) == len(want), label+": number of clauses")
	for _, c := range want {
		n, m := 0, 0
		for _, g := range got {
			n += sym.B2I(sameClause(g, c))
		}
		for _, w := range want {
			m += sym.B2I(sameClause(w, c))
		}
		sym.Assert(n == m, label+": clause lost or altered")
	}
}

func join(cs ...[][]int) [][]int {
	out := [][]int{}
	for _, c := range cs {
		out = append(out, c...)
	}
	return out
}

func hasEmpty(cs ...[][]int) bool {
	for _, c := range join(cs...) {
		if len(c) == 0 {
			return true
		}
	}
	return false
}

// checkFormula states that f holds exactly these clauses.
func checkFormula(label string, f cnf.CNF, s, c [][]int) {
	gs, gc := rawBoth(f)
	sameClauses(label+" semantic", gs, s)
	sameClauses(label+" consistency", gc, c)
	for _, cl := range join(s, c) {
		for _, l := range cl {
			sym.Assert(sym.And(f.TopV() >= l, f.TopV() >= -l), label+": top variable below a variable")
		}
	}
	sym.Assert(f.TriviallyTrue() == (len(s)+len(c) == 0), label+": trivially true")
	sym.Assert(f.TriviallyFalse() == hasEmpty(s, c), label+": trivially false")
	observeCNF(label, f)
}

// C02_build: a formula built in any of several ways from any clauses.
func C02_build() {
	n := sym.Bound("clauses per part", 2, 2)
	w := sym.Bound("clause width", 2, 3)
	left := sym.Bound("literals", 5, 7)
	s := wideClauses("s", n, w, &left)
	c := wideClauses("c", n, w, &left)
	var f cnf.CNF
	way := sym.Choose("way", 4)
	switch way {
	case 0:
		f = cnf.FromClauses(clonef(s)).AppendConsistency(clonef(c)...)
	case 1:
		f = cnf.CNF{}.AppendConsistency(clonef(c)...).AppendSemantics(clonef(s)...)
	case 2:
		f = cnf.TrueCNF
		for _, cl := range clonef(s) {
			f = f.AppendSemantics(cl)
		}
		for _, cl := range clonef(c) {
			f = f.AppendConsistency(cl)
		}
	case 3:
		f = cnf.FalseCNF.AppendSemantics(clonef(s)...)
		f = f.Conjunction(cnf.CNF{}.AppendConsistency(clonef(c)...))
		s = join([][]int{{}}, s)
	}
	sym.Cover("built")
	checkFormula("build", f, s, c)
}

// C02_conjoin: the conjunction of any two formulas, and what is appended to
// it.
func C02_conjoin() {
	n := sym.Bound("clauses per part", 2, 2)
	w := sym.Bound("clause width", 2, 2)
	left := sym.Bound("literals", 2, 4)
	mk := func(name string) (cnf.CNF, [][]int, [][]int) {
		s := wideClauses(name+"s", n, w, &left)
		c := wideClauses(name+"c", n, w, &left)
		return cnf.FromClauses(clonef(s)).AppendConsistency(clonef(c)...), s, c
	}
	f, fs, fc := mk("f")
	g, gs, gc := mk("g")
	r := f.Conjunction(g)
	sym.Cover("conjoined")
	checkFormula("conjunction", r, join(fs, gs), join(fc, gc))
	x := wideLit("x")
	e := r.AppendSemantics(cnf.Clause{x})
	checkFormula("conjunction appended to", e, join(fs, gs, [][]int{{x}}), join(fc, gc))
	e = r.AppendConsistency(cnf.Clause{x})
	checkFormula("conjunction extended", e, join(fs, gs), join(fc, gc, [][]int{{x}}))
}

// C02_negated: the operands' top variables (with auxiliary and reserved
// variables) carry over to what is built from them.
func C02_negated() {
	s := anyClauses("s", 2, 2, 3)
	left := 2
	t := wideClauses("t", 1, 2, &left)
	top := sym.Int("topv", 0, 12)
	f := cnf.FromClauses(clonef(s)).Negate(top)
	sym.Assert(f.TopV() >= top, "negation: top variable below the supplied one")
	g := cnf.FromClauses(clonef(t))
	fs, fc := rawBoth(f)
	ts, _ := rawBoth(g)
	sym.Cover("negated")
	checkFormula("negation and formula", f.Conjunction(g), join(fs, ts), fc)
	checkFormula("formula and negation", g.Conjunction(f), join(ts, fs), fc)
	checkFormula("appended negation", f.AppendSemantics(clonef(t)...), join(fs, t), fc)
	checkFormula("extended negation", f.AppendConsistency(clonef(t)...), fs, join(fc, t))
}

// C02_derived: the conjunction of formulas derived from one another, which
// may share memory.
func C02_derived() {
	s, c := [][]int{{1, -2}}, [][]int{{3}}
	if sym.Choose("empty", 2) == 1 {
		s = nil
	}
	fs := []cnf.CNF{cnf.FromClauses(clonef(s)).AppendConsistency(clonef(c)...)}
	ss, cs := [][][]int{s}, [][][]int{c}
	for k := 0; k < sym.Bound("derivations", 2, 3); k++ {
		x := []int{sym.Int("x"+itoa(k), 1, 5)}
		i := sym.Choose("of", len(fs))
		switch sym.Choose("derivation", 4) {
		case 0:
			fs, ss, cs = append(fs, fs[i].AppendSemantics(x)), append(ss, join(ss[i], [][]int{x})), append(cs, cs[i])
		case 1:
			fs, ss, cs = append(fs, fs[i].AppendConsistency(x)), append(ss, ss[i]), append(cs, join(cs[i], [][]int{x}))
		case 2:
			j := sym.Choose("and", len(fs))
			fs, ss, cs = append(fs, fs[i].Conjunction(fs[j])), append(ss, join(ss[i], ss[j])), append(cs, join(cs[i], cs[j]))
		case 3:
			fs, ss, cs = append(fs, fs[i].AppendSemantics()), append(ss, ss[i]), append(cs, cs[i])
		}
	}
	a, b := sym.Choose("left", len(fs)), sym.Choose("right", len(fs))
	sym.Cover("conjoined")
	checkFormula("conjunction", fs[a].Conjunction(fs[b]), join(ss[a], ss[b]), join(cs[a], cs[b]))
	for i := range fs {
		checkFormula("operand", fs[i], ss[i], cs[i])
	}
}
