package h

// Trees of many features and nodes, for which the completions of an instance
// cannot be listed. The definitions are stated over the leafs: a tree tests no
// feature twice on a path, so a leaf is reached by a completion of an instance
// unless the instance contradicts the path, and by two completions which agree
// on some features unless the paths contradict each other there.

import (
	"github.com/jtcaraball/goexpdt/compute"
	"github.com/jtcaraball/goexpdt/query"
	"verifharness/sym"
)

// longTree is a tree whose paths test the features in an order of their own,
// each once (none twice): a chain with leafs on one side, on alternating sides, or a tree of
// several chains. A few leafs have any value, if
// asked for.
func longTree(dim int, any bool) tree {
	kind := sym.Choose("long tree", 4)
	type way struct{ depth, branch int }
	nodes := []query.Node{}
	leafs := 0
	window := 0
	if any {
		window = sym.Choose("any leafs", 2)
	}
	total := dim + 1
	if kind == 3 {
		total = 2*dim - 2 // roughly
	}
	leaf := func() int {
		v := leafs%3 == 0 || leafs%7 == 2
		at := 1
		if window == 1 {
			at = total - 4
		}
		if any && leafs >= at && leafs < at+3 {
			v = sym.Bool("leaf" + itoa(leafs))
		}
		leafs++
		nodes = append(nodes, query.Node{Value: v, ZChild: query.NoChild, OChild: query.NoChild})
		return len(nodes) - 1
	}
	var grow func(w way) int
	grow = func(w way) int {
		if w.depth == dim {
			return leaf()
		}
		at := len(nodes)
		f := w.depth
		switch w.branch {
		case 1:
			f = dim - 1 - w.depth
			if kind == 3 { // below the root, which tests feature 0
				f = dim - w.depth
			}
		case 2:
			f = (w.depth*2 + 1) % dim
			if dim%2 == 0 {
				f = w.depth ^ 1
			}
		}
		nodes = append(nodes, query.Node{Feat: f})
		var z, o int
		switch {
		case kind == 3 && w.depth == 0:
			z = grow(way{1, 0})
			o = grow(way{1, 1})
		case kind == 0 || kind > 1 && w.depth%3 == 1:
			z = leaf()
			o = grow(way{w.depth + 1, w.branch})
		default:
			z = grow(way{w.depth + 1, w.branch})
			o = leaf()
		}
		nodes[at].ZChild, nodes[at].OChild = z, o
		return at
	}
	grow(way{0, []int{0, 1, 2, 0}[kind]})
	if sym.Choose("children first", 2) == 1 { // children before their parents
		n := len(nodes)
		num := func(i int) int {
			if i <= 0 {
				return i
			}
			return n - i
		}
		out := make([]query.Node, n)
		for i, m := range nodes {
			m.ZChild, m.OChild = num(m.ZChild), num(m.OChild)
			out[num(i)] = m
		}
		nodes = out
	}
	return tree{dim, nodes}
}

// leafPath is a leaf with the way to it.
type leafPath struct {
	value bool
	way   vals
}

func (t tree) leafs() []leafPath {
	out := []leafPath{}
	paths(t.dim, t.nodes, func(i int, v vals) {
		if t.nodes[i].ZChild < 0 || t.nodes[i].OChild < 0 {
			out = append(out, leafPath{t.nodes[i].Value, v})
		}
	})
	return out
}

// lAllComp is oAllComp over the leafs.
func lAllComp(t tree, a vals, lv bool) bool {
	out := []bool{}
	for _, l := range t.leafs() {
		or := []bool{sym.Iff(l.value, lv)}
		for i, w := range l.way {
			if w != query.BOT {
				or = append(or, sym.And(a[i] != query.BOT, a[i] != w))
			}
		}
		out = append(out, sym.Or(or...))
	}
	return sym.And(out...)
}

// lDFS is oDFS over the leafs.
func lDFS(t tree, a vals) bool {
	ls := t.leafs()
	out := []bool{}
	for j, l := range ls {
		for _, m := range ls[:j] {
			or := []bool{sym.Iff(l.value, m.value)}
			for i, w := range l.way {
				if w != query.BOT && m.way[i] != query.BOT && m.way[i] != w {
					or = append(or, a[i] != query.BOT)
				}
			}
			out = append(out, sym.Or(or...))
		}
	}
	return sym.And(out...)
}

// checkLong checks a choice of version, plain or under scopes.
func checkLong(name string, t tree, vs []version, spec func(a []arg) bool) {
	checkNear(name, t, vs, 3, spec)
}

// checkNear is checkLong with constants which have any values at a number of
// features next to each other.
func checkNear(name string, t tree, vs []version, any int, spec func(a []arg) bool) {
	v := vs[sym.Choose("version", len(vs))]
	ctx := query.BasicQContext(t)
	args := settingOf(ctx, v.kind, sym.Choose("setting", 2), nil, func(name string, dim int) vals {
		if name[0] == 'x' {
			return inst(name, dim)
		}
		// On the way to a node but for a window.
		nodes := t.instances()
		u := append(vals{}, nodes[somewhere("node", len(nodes))]...)
		at := somewhere("window", dim-any+1)
		for i := at; i < at+any; i++ {
			u[i] = query.FeatV(sym.Int(name+itoa(i), 0, 2))
		}
		return u
	})
	sym.Cover("checked")
	checkMeaning(name+"."+v.kind, ctx, v.mk(args), v.kind, args, func() bool { return spec(args) })
}

// C13_long: trees of many features.
func C13_long() {
	t := longTree(howMany("features of a long tree", 3, 9, 33, 66, 130), true)
	checkLong("isnode", t, isnodeVs(), func(a []arg) bool { return oNode(t.dim, t.nodes, a[0].val) })
}

// C14_long: trees of many features.
func C14_long() {
	t := longTree(howMany("features of a long tree", 2, 9, 33, 66, 130), true)
	lv := sym.Choose("requested", 2) == 1
	checkLong("allcomp", t, allcompVs(lv), func(a []arg) bool { return lAllComp(t, a[0].val, lv) })
}

// C16_long: trees of many features.
func C16_long() {
	t := longTree(howMany("features of a long tree", 2, 9, 33, 66, 130), true)
	checkLong("dfs", t, dfsVs(), func(a []arg) bool { return lDFS(t, a[0].val) })
}

// C28_long: a minimal sufficient reason in a tree of many features.
func C28_long() {
	t := longTree(howMany("features of a long tree", 2, 9, 33, 66), false)
	dim := t.dim
	v := make(vals, dim)
	at := somewhere("any value", dim)
	pat := sym.Choose("pattern", 3)
	for i := range v {
		v[i] = []query.FeatV{query.ZERO, query.ONE, query.FeatV(1 + i/3%2)}[pat]
		if i == at {
			v[i] = query.FeatV(sym.Int("v"+itoa(i), 1, 2))
		}
	}
	c := query.QConst{Val: v}
	s := &greedy{v: "x", first: sym.Choose("first value tried", sym.Bound("first values tried", 1, 2))}
	out, err := compute.ComputeOptim(explanations(t, c)[0].mk, preferred(dim, c)[0].mk, "x", query.BasicQContext(t), s)
	noErr(err, "long")
	sym.Cover("found")
	sym.Assert(out.Found, "a full instance has a sufficient reason")
	sym.Assert(out.Calls == s.steps, "wrong number of calls")
	r := out.Value.Val
	sym.Assert(len(r) == dim, "a value of wrong length")
	sym.Assert(oSubsumed(r, v), "the value is no part of the instance")
	sym.Assert(sym.Implies(lAllComp(t, v, true), lAllComp(t, r, true)), "the value is no reason")
	sym.Assert(sym.Implies(lAllComp(t, v, false), lAllComp(t, r, false)), "the value is no reason")
	for i := range r {
		less := append(vals{}, r...)
		less[i] = query.BOT
		still := sym.Or(lAllComp(t, less, true), lAllComp(t, less, false))
		sym.Assert(sym.Or(r[i] == query.BOT, !still), "the value is not minimal")
	}
}
