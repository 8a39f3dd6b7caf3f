package h

// The definitions the formulas are checked against, written over instances
// without branching on their values.

import (
	"github.com/jtcaraball/goexpdt/query"
	"verifharness/sym"
)

type vals = []query.FeatV

func is(v query.FeatV, k query.FeatV) bool { return v == k }

func oSubsumed(a, b vals) bool {
	out := []bool{}
	for i := range a {
		out = append(out, sym.Or(a[i] == query.BOT, a[i] == b[i]))
	}
	return sym.And(out...)
}

func bots(a vals) int {
	n := 0
	for _, v := range a {
		n += sym.B2I(v == query.BOT)
	}
	return n
}

func oLEL(a, b vals) bool { return bots(a) >= bots(b) }

func oCons(a, b vals) bool {
	out := []bool{}
	for i := range a {
		out = append(out, sym.Or(a[i] == query.BOT, b[i] == query.BOT, a[i] == b[i]))
	}
	return sym.And(out...)
}

func oFull(a vals) bool {
	out := []bool{}
	for _, v := range a {
		out = append(out, v != query.BOT)
	}
	return sym.And(out...)
}

func hamming(a, b vals) int {
	n := 0
	for i := range a {
		n += sym.B2I(a[i] != b[i])
	}
	return n
}

func oLEH(a, b, c vals) bool {
	return sym.And(oFull(a), oFull(b), oFull(c), hamming(a, b) <= hamming(a, c))
}

func oHEPR(pref []int, a, b vals) bool {
	ok := true
	for k := len(pref) - 1; k >= 0; k-- {
		da, db := a[pref[k]] != query.BOT, b[pref[k]] != query.BOT
		same := sym.Iff(da, db)
		ok = sym.Or(sym.And(same, ok), sym.And(sym.Not(same), da))
	}
	return ok
}

// paths calls f with every node and the values decided on the way to it
// (BOT elsewhere).
func paths(dim int, nodes []query.Node, f func(i int, v vals)) {
	v := make(vals, dim)
	var walk func(i int)
	walk = func(i int) {
		f(i, append(vals{}, v...))
		n := nodes[i]
		if n.ZChild < 0 || n.OChild < 0 {
			return
		}
		old := v[n.Feat]
		v[n.Feat] = query.ZERO
		walk(n.ZChild)
		v[n.Feat] = query.ONE
		walk(n.OChild)
		v[n.Feat] = old
	}
	walk(0)
}

func equalTo(a, b vals) bool {
	out := []bool{}
	for i := range a {
		out = append(out, a[i] == b[i])
	}
	return sym.And(out...)
}

func oNode(dim int, nodes []query.Node, a vals) bool {
	out := []bool{}
	paths(dim, nodes, func(i int, v vals) { out = append(out, equalTo(a, v)) })
	return sym.Or(out...)
}

// classify is the leaf value a full instance (given as bits) reaches.
func classify(nodes []query.Node, bits int) bool {
	i := 0
	for {
		n := nodes[i]
		if n.ZChild < 0 || n.OChild < 0 {
			return n.Value
		}
		if bits>>n.Feat&1 == 1 {
			i = n.OChild
		} else {
			i = n.ZChild
		}
	}
}

func bitVal(bits, i int) query.FeatV {
	if bits>>i&1 == 1 {
		return query.ONE
	}
	return query.ZERO
}

// completes tells whether the full instance bits completes a.
func completes(bits int, a vals) bool {
	out := []bool{}
	for i := range a {
		out = append(out, sym.Or(a[i] == query.BOT, a[i] == bitVal(bits, i)))
	}
	return sym.And(out...)
}

// oAllComp: every completion of a is classified as lv.
func oAllComp(dim int, nodes []query.Node, a vals, lv bool) bool {
	out := []bool{}
	for b := 0; b < 1<<dim; b++ {
		out = append(out, sym.Implies(completes(b, a), sym.Iff(classify(nodes, b), lv)))
	}
	return sym.And(out...)
}

// oDFS: two full instances that agree on the features a defines are
// classified alike.
func oDFS(dim int, nodes []query.Node, a vals) bool {
	out := []bool{}
	for b := 0; b < 1<<dim; b++ {
		for c := b + 1; c < 1<<dim; c++ {
			differ := []bool{}
			for i := 0; i < dim; i++ {
				if b>>i&1 != c>>i&1 {
					differ = append(differ, a[i] != query.BOT)
				}
			}
			out = append(out, sym.Or(append(differ, sym.Iff(classify(nodes, b), classify(nodes, c)))...))
		}
	}
	return sym.And(out...)
}
