package h

// The variable manager against a reference list.

import (
	"github.com/jtcaraball/goexpdt/query"
	"verifharness/sym"
)

type numbered struct {
	v        query.QVar
	idx, val int
	num      int
}

// C05_history: any history of requests.
func C05_history() {
	ctx := query.BasicQContext(flat(2))
	var known []numbered
	high := 0 // everything handed out or reserved
	steps := sym.Bound("operations", 5, 6)
	for k := 0; k < steps; k++ {
		top := ctx.TopV()
		sym.Assert(top >= high, "top variable below a number in use")
		triple := func() (query.QVar, int, int) {
			v := []query.QVar{"x", "x1", "x-"}[sym.Choose("name", sym.Bound("names", 2, 3))]
			return v, sym.Int("idx", -1, 12), sym.Int("val", -1, 12)
		}
		seen := func(v query.QVar, idx, val int) bool {
			out := []bool{}
			for _, e := range known {
				if e.v == v {
					out = append(out, sym.And(e.idx == idx, e.val == val))
				}
			}
			return sym.Or(out...)
		}
		switch sym.Choose("op", 4) {
		case 0:
			v, idx, val := triple()
			num := ctx.CNFVar(v, idx, val)
			for _, e := range known {
				same := sym.And(e.v == v, e.idx == idx, e.val == val)
				sym.Assert(sym.Iff(same, e.num == num), "numbers and triples do not correspond")
			}
			sym.Assert(num > 0, "number not positive")
			sym.Assert(sym.Or(seen(v, idx, val), num > high), "fresh number in use or reserved")
			sym.Assert(ctx.CNFVarExists(v, idx, val), "existing variable not reported")
			sym.Assert(ctx.CNFVar(v, idx, val) == num, "number not stable")
			known = append(known, numbered{v, idx, val, num})
			high = max2(high, num)
		case 1:
			t := sym.Int("top", -2, 20)
			ok := ctx.UpdateTopV(t)
			sym.Assert(sym.Implies(t < top, sym.And(!ok, ctx.TopV() == top)), "update below the top accepted")
			sym.Assert(sym.Implies(t > top, ok), "update above the top refused")
			sym.Assert(sym.Implies(ok, ctx.TopV() >= t), "accepted update without effect")
			high = sym.Ite(sym.And(ok, t > high), t, high)
		case 2:
			ctx.Reset()
			for _, e := range known {
				sym.Assert(!ctx.CNFVarExists(e.v, e.idx, e.val), "variable exists after a reset")
			}
			sym.Assert(ctx.TopV() == query.BasicQContext(flat(2)).TopV(), "top variable after a reset")
			known, high = nil, 0
			sym.Cover("reset")
		case 3:
			v, idx, val := triple()
			sym.Assert(sym.Iff(ctx.CNFVarExists(v, idx, val), seen(v, idx, val)), "existence misreported")
			sym.Assert(ctx.TopV() == top, "asking for existence changed the top variable")
		}
		sym.Assert(ctx.TopV() >= high, "top variable below a number in use")
		sym.Observe("top", ctx.TopV())
	}
	// Numbers stay what they were.
	for _, e := range known {
		sym.Assert(ctx.CNFVarExists(e.v, e.idx, e.val), "existing variable not reported")
		sym.Assert(ctx.CNFVar(e.v, e.idx, e.val) == e.num, "number not stable")
	}
	sym.Cover("history")
}

// C05_contexts: two contexts do not disturb each other.
func C05_contexts() {
	a, b := query.BasicQContext(flat(2)), query.BasicQContext(flat(2))
	i, j := sym.Int("i", 0, 3), sym.Int("j", 0, 3)
	x := a.CNFVar("x", i, j)
	sym.Assert(!b.CNFVarExists("x", i, j), "variable of another context exists")
	sym.Assert(b.TopV() == 0, "top variable of another context")
	y := b.CNFVar("y", j, i)
	b.Reset()
	sym.Assert(sym.And(a.CNFVarExists("x", i, j), a.CNFVar("x", i, j) == x, y > 0), "reset of another context took effect")
	sym.Cover("contexts")
}

// C05_far: triples whose indices and values lie far apart, under long names.
func C05_far() {
	ctx := query.BasicQContext(flat(2))
	offs := []int{0, 1 << 7, 1 << 8, 1 << 15, 1 << 16, 1 << 31, 1 << 32, 1 << 40}
	long := query.QVar("a_rather_long_name_of_a_variable_that_goes_on_for_more_than_sixty_four_bytes")
	name := func(n string) query.QVar { return long + query.QVar([]string{"", "1"}[sym.Choose(n, 2)]) }
	oi := offs[sym.Choose("index offset", len(offs))]
	ov := offs[sym.Choose("value offset", len(offs))]
	v, w := name("name"), name("other name")
	i, a := sym.Int("i", 0, 2), sym.Int("a", 0, 2)
	j, b := sym.Int("j", 0, 2), sym.Int("b", 0, 2)
	x := ctx.CNFVar(v, i, a)
	y := ctx.CNFVar(w, oi+j, ov+b)
	same := sym.And(v == w, i == oi+j, a == ov+b)
	sym.Assert(sym.Iff(same, x == y), "numbers and triples do not correspond")
	sym.Assert(sym.And(ctx.CNFVarExists(v, i, a), ctx.CNFVarExists(w, oi+j, ov+b)), "existing variable not reported")
	sym.Assert(sym.And(ctx.CNFVar(v, i, a) == x, ctx.CNFVar(w, oi+j, ov+b) == y), "number not stable")
	sym.Assert(sym.And(ctx.TopV() >= x, ctx.TopV() >= y), "top variable below a number in use")
	// Numbers far up.
	t := sym.Int("top", 0, 2) + offs[sym.Choose("top offset", len(offs))]
	top := ctx.TopV()
	ok := ctx.UpdateTopV(t)
	sym.Assert(sym.Implies(t > top, sym.And(ok, ctx.TopV() >= t)), "update above the top without effect")
	sym.Assert(sym.Implies(t < top, sym.And(!ok, ctx.TopV() == top)), "update below the top accepted")
	top = ctx.TopV()
	z := ctx.CNFVar("z", oi, ov)
	sym.Assert(sym.And(z > top, ctx.TopV() >= z), "fresh number in use or reserved")
	sym.Cover("far")
}
