package h

// The formulas about the model: node, all completions, determinant feature
// set.

import (
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/extensions/allcomp"
	"github.com/jtcaraball/goexpdt/query/extensions/dfs"
	"github.com/jtcaraball/goexpdt/query/logop"
	"github.com/jtcaraball/goexpdt/query/predicates/isnode"
	"verifharness/sym"
)

func isnodeVs() []version {
	return []version{
		{"c", func(a []arg) logop.LogOpQ { return isnode.Const{I: a[0].c} }},
		{"v", func(a []arg) logop.LogOpQ { return isnode.Var{I: a[0].v, ReachNodeVarGen: genReach} }},
	}
}

func allcompVs(lv bool) []version {
	return []version{
		{"c", func(a []arg) logop.LogOpQ { return allcomp.Const{I: a[0].c, LeafValue: lv} }},
		{"v", func(a []arg) logop.LogOpQ {
			return allcomp.Var{I: a[0].v, LeafValue: lv, ReachNodeVarGen: genReach}
		}},
	}
}

func dfsVs() []version {
	return []version{
		{"c", func(a []arg) logop.LogOpQ { return dfs.Const{I: a[0].c} }},
		{"v", func(a []arg) logop.LogOpQ { return dfs.Var{I: a[0].v} }},
	}
}

// someTree is a tree of up to kmax inner nodes (over a dimension of up to
// dmax): all numberings up to two inner nodes, four beyond.
func someTree(kmax, dmax int) tree {
	k := sym.Choose("inner nodes", kmax+1)
	lo := 1
	for 1<<lo-1 < k { // shallowest tree of k inner nodes has depth lo
		lo++
	}
	if lo > dmax {
		lo = dmax
	}
	dim := lo + sym.Choose("dim", dmax-lo+1)
	return tree{dim, anyTree(dim, k, k <= 2)}
}

func checkTreeVersions(name string, t tree, vs []version, spec func(a []arg) bool) {
	v := vs[sym.Choose("version", len(vs))]
	set := 0
	if len(t.nodes) <= 3 || sym.Thorough() {
		set = sym.Choose("setting", nSettings)
	}
	checkVersion(name, t, v, set, nil, spec)
}

// C13_versions: any tree, all versions.
func C13_versions() {
	t := someTree(sym.Bound("inner nodes", 3, 4), 3)
	sym.Cover("checked")
	checkTreeVersions("isnode", t, isnodeVs(), func(a []arg) bool { return oNode(t.dim, t.nodes, a[0].val) })
}

// C14_versions: any tree, all versions, both leaf values.
func C14_versions() {
	t := someTree(sym.Bound("inner nodes", 3, 4), 3)
	lv := sym.Bool("requested")
	sym.Cover("checked")
	checkTreeVersions("allcomp", t, allcompVs(lv), func(a []arg) bool {
		return oAllComp(t.dim, t.nodes, a[0].val, lv)
	})
}

// C16_versions: any tree, all versions.
func C16_versions() {
	t := someTree(sym.Bound("inner nodes", 3, 4), 3)
	sym.Cover("checked")
	checkTreeVersions("dfs", t, dfsVs(), func(a []arg) bool { return oDFS(t.dim, t.nodes, a[0].val) })
}

// deepTree is a chain or comb deeper than the small trees.
func deepTree(dim int) tree {
	nodes := []query.Node{}
	side := sym.Choose("side", 2)
	for i := 0; i < dim; i++ {
		n := query.Node{Feat: (i*2 + side) % dim}
		if dim%2 == 0 {
			n.Feat = dim - 1 - i
		}
		leaf, next := 2*i+1, 2*i+2
		if (i+side)%2 == 0 {
			n.ZChild, n.OChild = leaf, next
		} else {
			n.OChild, n.ZChild = leaf, next
		}
		nodes = append(nodes, n)
		nodes = append(nodes, query.Node{Value: sym.Bool("leaf" + itoa(i)), ZChild: query.NoChild, OChild: query.NoChild})
	}
	nodes = append(nodes, query.Node{Value: sym.Bool("leaf" + itoa(dim)), ZChild: query.NoChild, OChild: query.NoChild})
	return tree{dim, nodes}
}

// C13_deep: deep trees.
func C13_deep() {
	t := deepTree(3 + sym.Choose("dim", sym.Bound("deep tree dims from 3", 3, 4)))
	sym.Cover("checked")
	checkVersions("isnode", t, isnodeVs(), func(a []arg) bool { return oNode(t.dim, t.nodes, a[0].val) })
}

// C14_deep: deep trees.
func C14_deep() {
	t := deepTree(3 + sym.Choose("dim", sym.Bound("deep tree dims from 3", 3, 4)))
	lv := sym.Bool("requested")
	sym.Cover("checked")
	checkVersions("allcomp", t, allcompVs(lv), func(a []arg) bool {
		return oAllComp(t.dim, t.nodes, a[0].val, lv)
	})
}

// C16_deep: deep trees.
func C16_deep() {
	t := deepTree(3 + sym.Choose("dim", sym.Bound("deep tree dims from 3", 2, 3)))
	sym.Cover("checked")
	checkVersions("dfs", t, dfsVs(), func(a []arg) bool { return oDFS(t.dim, t.nodes, a[0].val) })
}
