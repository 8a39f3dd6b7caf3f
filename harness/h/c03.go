package h

// Formulas are values: nothing done to one, or with one, alters another.

import (
	"github.com/jtcaraball/goexpdt/cnf"
	"verifharness/sym"
)

type snapshot struct {
	f    cnf.CNF
	s, c [][]int
	tv   int
}

func snap(f cnf.CNF) snapshot {
	s, c := rawBoth(f)
	return snapshot{f, s, c, f.TopV()}
}

// exactly states that two clause lists are the same.
func exactly(label string, got, want [][]int) {
	sym.Assert(len(got) == len(want), label)
	for i := range want {
		sym.Assert(len(got[i]) == len(want[i]), label)
		for j := range want[i] {
			sym.Assert(got[i][j] == want[i][j], label)
		}
	}
}

func (s snapshot) check(label string) {
	gs, gc := rawBoth(s.f)
	exactly(label+": semantic clauses", gs, s.s)
	exactly(label+": consistency clauses", gc, s.c)
	sym.Assert(s.f.TopV() == s.tv, label+": top variable")
}

// roomy is a clause with spare capacity.
func roomy(ls ...int) cnf.Clause {
	return append(make(cnf.Clause, 0, len(ls)+3), ls...)
}

// valueOps applies up to steps operations to formulas derived from f and
// checks after each that everything made or handed in before is unchanged.
// more makes further clauses; own is called to extend the caller's slices.
func valueOps(label string, f cnf.CNF, handed []*[]cnf.Clause, steps int) {
	pool := []snapshot{snap(f), snap(cnf.TrueCNF), snap(cnf.FalseCNF)}
	neg := raw(cnf.NegClauses)
	var lists [][][]int
	for _, h := range handed {
		lists = append(lists, raw(*h))
	}
	var made []*[]cnf.Clause
	var madeRaw [][][]int
	fresh := 7
	give := func(n int) []cnf.Clause {
		out := make([]cnf.Clause, 0, n+2)
		for i := 0; i < n; i++ {
			out = append(out, roomy(fresh, -(fresh+1)))
			fresh += 2
		}
		made = append(made, &out)
		madeRaw = append(madeRaw, raw(out))
		return out
	}
	for k := 0; k < steps; k++ {
		pick := func(name string) cnf.CNF {
			// The formulas made so far, and the first two given ones.
			n := len(pool)
			i := sym.Choose(name, n-1)
			if i > 0 {
				i++
			}
			return pool[i].f
		}
		var r cnf.CNF
		switch sym.Choose("op", 9) {
		case 0:
			r = pick("operand").Negate()
		case 1:
			r = pick("operand").Negate(40 + k)
		case 2:
			r = pick("operand").AppendSemantics(give(1)...)
		case 3:
			r = pick("operand").AppendConsistency(give(1)...)
		case 4:
			r = pick("left").Conjunction(pick("right"))
		case 5:
			r = pick("operand")
			r.ToBytes()
			r.TriviallyTrue()
			r.TriviallyFalse()
			r = cnf.FromClauses(give(2)).Conjunction(r)
		case 6:
			r = pick("operand").AppendSemantics(give(2)...).AppendConsistency(give(1)...)
		case 7:
			// The caller goes on using its own slices.
			if len(handed) == 0 {
				sym.Assume(false)
			}
			for _, h := range handed {
				for i, cl := range *h {
					_ = append(cl, 91+i)
				}
				_ = append(*h, cnf.Clause{93 + k}, cnf.Clause{95 + k})
			}
			r = cnf.FalseCNF
		case 8:
			// A formula made of the clauses of another.
			s, c := pick("operand").Clauses()
			r = cnf.FromClauses(c).AppendConsistency(s...)
		}
		for i, s := range pool {
			s.check(label + ": formula " + itoa(i) + " changed")
		}
		pool = append(pool, snap(r))
		for i, h := range handed {
			exactly(label+": clauses of the caller changed", raw(*h), lists[i])
		}
		for i, h := range made {
			exactly(label+": clauses of the caller changed", raw(*h), madeRaw[i])
		}
		exactly(label+": shared constant changed", raw(cnf.NegClauses), neg)
	}
	sym.Cover("derived")
	for i, s := range pool {
		observeCNF("f"+itoa(i), s.f)
	}
}

// C03_roomy: formulas over the caller's clauses, which have spare capacity.
func C03_roomy() {
	n := sym.Choose("clauses", 3)
	s := make([]cnf.Clause, 0, 6)
	for i := 0; i < n; i++ {
		w := 1 + sym.Choose("w"+itoa(i), 2)
		c := roomy()
		for j := 0; j < w; j++ {
			c = append(c, anyLit("s"+itoa(i)+itoa(j), 4))
		}
		s = append(s, c)
	}
	c := append(make([]cnf.Clause, 0, 5), roomy(anyLit("c0", 4), anyLit("c1", 4)))
	sraw, craw := raw(s), raw(c)
	f := cnf.FromClauses(s)
	if sym.Choose("consistency", 2) == 1 {
		f = f.AppendConsistency(c...)
	}
	exactly("clauses of the caller changed", raw(s), sraw)
	exactly("clauses of the caller changed", raw(c), craw)
	valueOps("value", f, []*[]cnf.Clause{&s, &c}, sym.Bound("operations", 2, 3))
}

// C03_wide: clauses as callers may write them, repeated literals and all.
func C03_wide() {
	w := 3 + sym.Choose("width", sym.Bound("extra width", 2, 3))
	cl := roomy()
	for i := 0; i < w; i++ {
		cl = append(cl, anyLit("l"+itoa(i), 4))
	}
	s := []cnf.Clause{cl, {}, {2, 2}}
	if sym.Choose("empty", 2) == 0 {
		s = append(s[:1], s[2:]...)
	}
	sraw := raw(s)
	first := snap(cnf.CNF{}.AppendSemantics(s...))
	var f cnf.CNF
	switch sym.Choose("make", 4) {
	case 0:
		f = cnf.FromClauses(s)
	case 1:
		f = cnf.CNF{}.AppendSemantics(s...).AppendConsistency(s...)
	case 2:
		f = first.f.Conjunction(first.f)
	case 3:
		f = first.f.AppendConsistency(s...).Negate()
	}
	second := snap(f)
	switch sym.Choose("use", 4) {
	case 0:
		f.Negate()
	case 1:
		f.ToBytes()
		f.TriviallyFalse()
		f.TriviallyTrue()
	case 2:
		first.f.Conjunction(f).Negate(9)
	case 3:
		noErr(f.ToFile(sym.TempDir()+"/f.cnf"), "file")
	}
	sym.Cover("derived")
	exactly("clauses of the caller changed", raw(s), sraw)
	first.check("first formula changed")
	second.check("second formula changed")
}

// C03_grown: formulas grown clause by clause.
func C03_grown() {
	n, m := sym.Choose("semantic", 4), sym.Choose("consistency", 4)
	f := cnf.TrueCNF
	for i := 0; i < n; i++ {
		f = f.AppendSemantics(cnf.Clause{anyLit("s"+itoa(i), 4), 5})
	}
	for i := 0; i < m; i++ {
		f = f.AppendConsistency(cnf.Clause{anyLit("c"+itoa(i), 4), 6})
	}
	valueOps("value", f, nil, sym.Bound("operations", 2, 3))
}

// C03_deep: longer histories over one small formula.
func C03_deep() {
	f := cnf.FromClauses([]cnf.Clause{{anyLit("a", 4), anyLit("b", 4)}, {3}, {4}}).AppendConsistency(cnf.Clause{5}, cnf.Clause{6}, cnf.Clause{-5})
	f = f.AppendSemantics(cnf.Clause{1, 2}).AppendConsistency(cnf.Clause{-6})
	valueOps("value", f, nil, sym.Bound("operations", 3, 4))
}
