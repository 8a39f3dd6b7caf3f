package h

// Models of very many features: all arguments, variables too, follow a
// pattern but for a window of any values.

import (
	"github.com/jtcaraball/goexpdt/query"
	"verifharness/sym"
)

// hugeInsts makes arguments that are nearly equal or, with tie, defined (or
// with full, different from the first) at equally many features, but not the
// same ones.
func hugeInsts(window int, full bool) func(name string, dim int) vals {
	n := 0
	at := -1
	tie := sym.Choose("tie", 2) == 1
	return func(name string, dim int) vals {
		if at < 0 {
			at = []int{0, dim / 2, dim - window}[sym.Choose("window", 3)]
		}
		k := dim/2 + 3
		v := make(vals, dim)
		for i := range v {
			switch {
			case full:
				v[i] = query.FeatV(1 + i/3%2)
			case tie:
				v[i] = query.FeatV(1 + i%2)
			default:
				v[i] = query.FeatV(i * 2 % 3)
			}
			odd := n == 1 && i < k || n == 2 && i >= dim-k || n == 0 && !full && i >= dim-k
			switch {
			case i >= at && i < at+window:
				v[i] = query.FeatV(sym.Int(name+itoa(i), 0, 2))
			case tie && odd && full:
				v[i] = 3 - v[i]
			case tie && odd:
				v[i] = query.BOT
			}
		}
		n++
		return v
	}
}

// checkHuge checks a choice of version, plain or under scopes.
func checkHuge(name string, dim, window int, full bool, vs []version, spec func(a []arg) bool) {
	k := sym.Choose("version", len(vs))
	v := vs[k]
	set := k % 2
	if sym.Thorough() {
		set = sym.Choose("setting", 2)
	}
	ctx := query.BasicQContext(flat(dim))
	args := settingOf(ctx, v.kind, set, nil, hugeInsts(window, full))
	sym.Cover("checked")
	checkMeaning(name+"."+v.kind, ctx, v.mk(args), v.kind, args, func() bool { return spec(args) })
}

func hugeDim(q int) int { return howMany("huge dimension", q, 34, 66, 130, 260) }

// C11_huge: very many features.
func C11_huge() {
	checkHuge("subsumption", hugeDim(3), 2, false, subsumptionVs(), func(a []arg) bool { return oSubsumed(a[0].val, a[1].val) })
}

// C12_huge: very many features.
func C12_huge() {
	checkHuge("lel", hugeDim(2), 2, false, lelVs(), func(a []arg) bool { return oLEL(a[0].val, a[1].val) })
}

// C15_huge: very many features.
func C15_huge() {
	checkHuge("cons", hugeDim(3), 2, false, consVs(), func(a []arg) bool { return oCons(a[0].val, a[1].val) })
}

// C17_huge: very many features.
func C17_huge() {
	checkHuge("full", hugeDim(3), 2, true, fullVs(), func(a []arg) bool { return oFull(a[0].val) })
}

// C18_huge: very many features, in a long preference.
func C18_huge() {
	dim := hugeDim(2)
	var pref []int
	n := []int{dim, dim - 3}[sym.Choose("preference length", 2)]
	order := sym.Choose("preference order", 3)
	for i := 0; i < n; i++ {
		pref = append(pref, []int{dim - 1 - i, i, (i*7 + 3) % dim}[order])
	}
	checkHuge("hepr", dim, 2, false, heprVs(pref), func(a []arg) bool { return oHEPR(pref, a[0].val, a[1].val) })
}

// C19_huge: very many features.
func C19_huge() {
	checkHuge("leh", hugeDim(2), sym.Bound("any features of a huge model", 1, 2), true, lehVs(), func(a []arg) bool { return oLEH(a[0].val, a[1].val, a[2].val) })
}

// uniform makes arguments all features of which are the same, but for one of
// any value.
func uniform(name string, dim int) vals {
	f := query.FeatV(sym.Choose(name+"all", 3))
	v := make(vals, dim)
	for i := range v {
		v[i] = f
	}
	switch sym.Choose(name+"odd", 3) {
	case 1:
		v[0] = query.FeatV(sym.Int(name+"first", 0, 2))
	case 2:
		v[dim-1] = query.FeatV(sym.Int(name+"last", 0, 2))
	}
	return v
}

// checkUniform checks a choice of version; without variables only if consts.
func checkUniform(name string, n int, consts bool, vs func(dim int) []version, spec func(dim int, a []arg) bool) {
	dim := howMany("uniform dimension", n, 8, 32, 64, 128, 255, 256, 257, 512)
	all := vs(dim)
	if consts {
		const_ := []version{}
		for _, v := range all {
			if !hasVar(v.kind) {
				const_ = append(const_, v)
			}
		}
		all = const_
	}
	v := all[sym.Choose("version", len(all))]
	ctx := query.BasicQContext(flat(dim))
	args := settingOf(ctx, v.kind, 0, nil, uniform)
	sym.Cover("checked")
	checkMeaning(name+"."+v.kind, ctx, v.mk(args), v.kind, args, func() bool { return spec(dim, args) })
}

func at(f func() []version) func(int) []version { return func(int) []version { return f() } }

// C11_uniform: instances with one value throughout.
func C11_uniform() {
	checkUniform("subsumption", 8, true, at(subsumptionVs), func(_ int, a []arg) bool { return oSubsumed(a[0].val, a[1].val) })
}

// C12_uniform: instances with one value throughout.
func C12_uniform() {
	checkUniform("lel", 8, true, at(lelVs), func(_ int, a []arg) bool { return oLEL(a[0].val, a[1].val) })
}

// C15_uniform: instances with one value throughout.
func C15_uniform() {
	checkUniform("cons", 8, true, at(consVs), func(_ int, a []arg) bool { return oCons(a[0].val, a[1].val) })
}

// C17_uniform: instances with one value throughout.
func C17_uniform() {
	checkUniform("full", 8, false, at(fullVs), func(_ int, a []arg) bool { return oFull(a[0].val) })
}

// C18_uniform: instances with one value throughout.
func C18_uniform() {
	pref := func(dim int) []int {
		out := make([]int, dim)
		for i := range out {
			out[i] = dim - 1 - i
		}
		return out
	}
	checkUniform("hepr", 8, true, func(dim int) []version { return heprVs(pref(dim)) }, func(dim int, a []arg) bool { return oHEPR(pref(dim), a[0].val, a[1].val) })
}

// C19_uniform: instances with one value throughout.
func C19_uniform() {
	checkUniform("leh", 8, true, at(lehVs), func(_ int, a []arg) bool { return oLEH(a[0].val, a[1].val, a[2].val) })
}
