package h

import (
	"github.com/jtcaraball/goexpdt/query"
	"verifharness/sym"
)

// shape is a binary tree shape; nil is a leaf.
type shape struct{ z, o *shape }

var shapeMemo map[int][]*shape

// shapes lists the binary trees with k inner nodes.
func shapes(k int) []*shape {
	if k == 0 {
		return []*shape{nil}
	}
	var out []*shape
	for l := 0; l < k; l++ {
		for _, z := range shapes(l) {
			for _, o := range shapes(k - 1 - l) {
				out = append(out, &shape{z, o})
			}
		}
	}
	return out
}

func permutations(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var out [][]int
	for _, p := range permutations(n - 1) {
		for k := n - 1; k >= 0; k-- {
			q := append([]int{}, p[:k]...)
			q = append(q, n-1)
			q = append(q, p[k:]...)
			out = append(out, q)
		}
	}
	return out
}

// numberings lists ways to number the n nodes (in depth first order), the
// root first: all of them for small trees, four otherwise.
func numberings(n int, all bool) [][]int {
	var out [][]int
	if all {
		for _, p := range permutations(n - 1) {
			q := []int{0}
			for _, x := range p {
				q = append(q, x+1)
			}
			out = append(out, q)
		}
		return out
	}
	id, rev, rot, odd := []int{0}, []int{0}, []int{0}, []int{0}
	for i := 1; i < n; i++ {
		id = append(id, i)
		rev = append(rev, n-i)
		rot = append(rot, 1+(i+n/2-1)%(n-1))
		k := 2 * i
		if k >= n {
			k = 2*(i-(n-1)/2) - 1
		}
		odd = append(odd, k)
	}
	return [][]int{id, rev, rot, odd}
}

// features lists the ways to label the inner nodes (in depth first order)
// with features so that none is tested twice on a path.
func features(s *shape, dim int, used int) [][]int {
	if s == nil {
		return [][]int{{}}
	}
	var out [][]int
	for f := 0; f < dim; f++ {
		if used>>f&1 == 1 {
			continue
		}
		for _, z := range features(s.z, dim, used|1<<f) {
			for _, o := range features(s.o, dim, used|1<<f) {
				l := append([]int{f}, z...)
				out = append(out, append(l, o...))
			}
		}
	}
	return out
}

// anyTree picks a decision tree with k inner nodes over dim features: any
// shape, any labelling, a numbering, and any leaf values. Leaves may lack one
// child only, the other index being arbitrary.
func anyTree(dim, k int, allNumberings bool) []query.Node {
	ss := shapes(k)
	s := ss[sym.Choose("shape", len(ss))]
	fs := features(s, dim, 0)
	feats := fs[sym.Choose("features", len(fs))]
	ns := numberings(2*k+1, allNumberings)
	num := ns[sym.Choose("numbering", len(ns))]
	return layout(s, feats, num, nil)
}

// layout builds the node slice. leafs gives the leaf values (symbolic when
// nil).
func layout(s *shape, feats, num []int, leafs []bool) []query.Node {
	nodes := make([]query.Node, len(num))
	fi, pos, li := 0, 0, 0
	var walk func(s *shape) int
	walk = func(s *shape) int {
		at := num[pos]
		pos++
		if s == nil {
			var v bool
			if leafs == nil {
				v = sym.Bool("leaf" + itoa(li))
			} else {
				v = leafs[li]
			}
			n := query.Node{Value: v, ZChild: query.NoChild, OChild: query.NoChild}
			// A node lacking one child is a leaf whatever else it says.
			switch li % 4 {
			case 1:
				n.ZChild, n.Feat = 0, 97
			case 2:
				n.OChild, n.Feat = 0, -3
			case 3:
				n.OChild, n.ZChild = 99, -2
			}
			li++
			nodes[at] = n
			return at
		}
		f := feats[fi]
		fi++
		z := walk(s.z)
		o := walk(s.o)
		// The value of an inner node means nothing.
		nodes[at] = query.Node{Feat: f, ZChild: z, OChild: o, Value: f%2 == 0}
		return at
	}
	walk(s)
	return nodes
}
