package h

// Larger models than the exhaustive harnesses take, for formulas that treat
// features or nodes differently from some number on. Variables are any
// instance; constants and leafs follow a pattern but for a window of any
// values.

import (
	"github.com/jtcaraball/goexpdt/query"
	"verifharness/sym"
)

// wideDim is one of a few larger dimensions.
func wideDim(dims ...int) int {
	n := sym.Bound("wide dimensions", 3, len(dims))
	return dims[sym.Choose("wide dim", n)]
}

// wideInsts makes the instances of a check: each is the first with some other
// values in a window, or a pattern.
func wideInsts(window int) func(name string, dim int) vals {
	var first vals
	at := -1
	return func(name string, dim int) vals {
		v := make(vals, dim)
		if name[0] == 'x' { // a variable
			return inst(name, dim)
		}
		if at < 0 {
			at = []int{0, (dim - window) / 2, dim - window}[sym.Choose("window", 3)]
		}
		pat := sym.Choose(name+"pattern", 3)
		for i := range v {
			switch {
			case i >= at && i < at+window:
				v[i] = query.FeatV(sym.Int(name+itoa(i), 0, 2))
			case first == nil && pat == 0:
				v[i] = query.FeatV(i % 3)
			case first == nil && pat == 1:
				v[i] = query.FeatV(1 + i%2)
			case first == nil || pat == 0:
				v[i] = query.BOT
			case pat == 1: // as the first
				v[i] = first[i]
			default: // less defined than the first
				v[i] = query.FeatV(int(first[i]) * (1 - i%2))
			}
		}
		if first == nil {
			first = v
		}
		return v
	}
}

// checkWide checks a choice of version, plain or under scopes.
func checkWide(name string, dim, window int, vs []version, spec func(a []arg) bool) {
	v := vs[sym.Choose("version", len(vs))]
	ctx := query.BasicQContext(flat(dim))
	args := settingOf(ctx, v.kind, sym.Choose("setting", 2), nil, wideInsts(window))
	sym.Cover("checked")
	checkMeaning(name+"."+v.kind, ctx, v.mk(args), v.kind, args, func() bool { return spec(args) })
}

// C11_wide: larger dimensions.
func C11_wide() {
	checkWide("subsumption", wideDim(7, 12, 40, 70), 2, subsumptionVs(), func(a []arg) bool { return oSubsumed(a[0].val, a[1].val) })
}

// C15_wide: larger dimensions.
func C15_wide() {
	checkWide("cons", wideDim(7, 12, 40, 70), 2, consVs(), func(a []arg) bool { return oCons(a[0].val, a[1].val) })
}

// C12_wide: larger dimensions.
func C12_wide() {
	checkWide("lel", wideDim(7, 9, 12, 17), 2, lelVs(), func(a []arg) bool { return oLEL(a[0].val, a[1].val) })
}

// C17_wide: larger dimensions.
func C17_wide() {
	checkWide("full", wideDim(9, 17, 70, 130), 3, fullVs(), func(a []arg) bool { return oFull(a[0].val) })
}

// C18_wide: larger dimensions and preferences.
func C18_wide() {
	dim := wideDim(6, 9, 12, 17)
	var pref []int
	n := []int{dim, dim - 1, 5}[sym.Choose("preference length", 3)]
	order := sym.Choose("preference order", 3)
	for i := 0; i < n; i++ {
		switch order {
		case 0:
			pref = append(pref, dim-1-i)
		case 1:
			pref = append(pref, i)
		case 2: // 5 and 7 divide no wide dimension
			pref = append(pref, (i*5+3)%dim)
		}
	}
	checkWide("hepr", dim, 2, heprVs(pref), func(a []arg) bool { return oHEPR(pref, a[0].val, a[1].val) })
}

// C19_wide: larger dimensions.
func C19_wide() {
	checkWide("leh", wideDim(4, 6, 7, 9), 1, lehVs(), func(a []arg) bool { return oLEH(a[0].val, a[1].val, a[2].val) })
}

// bigTree is a tree of k inner nodes over dim features, its shape, features
// and numbering drawn from a sequence; leafs number all..all+window-1 have
// any value.
func bigTree(seed, k, dim, window int) tree {
	state := uint32(seed)*2654435761 + 12345
	rnd := func(n int) int {
		state = state*1664525 + 1013904223
		return int(state>>16) % n
	}
	// Grow leaf by leaf; pos[i] is the way to node i as features used.
	type grown struct {
		z, o, feat int
		used       []bool
	}
	ns := []grown{{z: -1, o: -1, used: make([]bool, dim)}}
	for inner := 0; inner < k; {
		i := rnd(len(ns))
		if rnd(2) == 0 { // rather deep
			i = len(ns) - 1 - rnd(2)%len(ns)
		}
		if ns[i].z >= 0 {
			continue
		}
		var free []int
		for f, u := range ns[i].used {
			if !u {
				free = append(free, f)
			}
		}
		if len(free) == 0 {
			continue
		}
		f := free[rnd(len(free))]
		used := append([]bool{}, ns[i].used...)
		used[f] = true
		ns[i].feat, ns[i].z, ns[i].o = f, len(ns), len(ns)+1
		ns = append(ns, grown{z: -1, o: -1, used: used}, grown{z: -1, o: -1, used: used})
		inner++
	}
	// Number the nodes; the root stays first.
	num := make([]int, len(ns))
	for i := range num {
		num[i] = i
	}
	switch seed % 3 {
	case 0:
		for i := len(num) - 1; i > 1; i-- {
			j := 1 + rnd(i)
			num[i], num[j] = num[j], num[i]
		}
	case 1: // children before their parents
		for i := 1; i < len(num); i++ {
			num[i] = len(num) - i
		}
	}
	nodes := make([]query.Node, len(ns))
	leaf := 0
	from := rnd(k + 2 - window)
	for i, n := range ns {
		if n.z >= 0 {
			nodes[num[i]] = query.Node{Feat: n.feat, ZChild: num[n.z], OChild: num[n.o], Value: seed%2 == 0}
			continue
		}
		v := rnd(2) == 0
		if leaf >= from && leaf < from+window {
			v = sym.Bool("leaf" + itoa(leaf))
		}
		leaf++
		nodes[num[i]] = query.Node{Value: v, ZChild: query.NoChild, OChild: query.NoChild}
	}
	return tree{dim, nodes}
}

func someBigTree(dim int) tree {
	k := sym.Bound("inner nodes of larger trees", 10, 14)
	return bigTree(sym.Choose("larger tree", sym.Bound("larger trees", 6, 24)), k, dim, 3)
}

func checkBig(name string, t tree, vs []version, spec func(a []arg) bool) {
	v := vs[sym.Choose("version", len(vs))]
	sym.Cover("checked")
	checkVersion(name, t, v, sym.Choose("setting", 2), nil, spec)
}

// C13_big: larger trees.
func C13_big() {
	t := someBigTree(5 + 3*sym.Choose("wide", 2))
	checkBig("isnode", t, isnodeVs(), func(a []arg) bool { return oNode(t.dim, t.nodes, a[0].val) })
}

// C14_big: larger trees.
func C14_big() {
	t := someBigTree(5)
	lv := sym.Choose("requested", 2) == 1
	checkBig("allcomp", t, allcompVs(lv), func(a []arg) bool { return oAllComp(t.dim, t.nodes, a[0].val, lv) })
}

// C16_big: larger trees.
func C16_big() {
	t := someBigTree(5)
	checkBig("dfs", t, dfsVs(), func(a []arg) bool { return oDFS(t.dim, t.nodes, a[0].val) })
}
