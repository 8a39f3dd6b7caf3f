package h

// Trees of hundreds of nodes over few features, so that every instance is
// looked at.

import (
	"errors"

	"github.com/jtcaraball/goexpdt/cnf"
	"github.com/jtcaraball/goexpdt/compute"
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/extensions/allcomp"
	"github.com/jtcaraball/goexpdt/query/extensions/dfs"
	"github.com/jtcaraball/goexpdt/query/logop"
	"github.com/jtcaraball/goexpdt/query/predicates/isnode"
	"verifharness/sym"
)

// bushy is a complete tree whose subtrees test the features in different
// orders. A few leafs, early or late, have any value. The others alternate, or
// are alike.
func bushy(depth int) tree {
	nodes := []query.Node{}
	var kids func(left []int, turn int) int
	kids = func(left []int, turn int) int {
		at := len(nodes)
		nodes = append(nodes, query.Node{ZChild: query.NoChild, OChild: query.NoChild})
		if len(left) == 0 {
			return at
		}
		p := turn % len(left)
		rest := append(append([]int{}, left[:p]...), left[p+1:]...)
		nodes[at].Feat = left[p]
		z := kids(rest, turn+1)
		o := kids(rest, turn+2)
		nodes[at].ZChild, nodes[at].OChild = z, o
		return at
	}
	all := make([]int, depth)
	for i := range all {
		all[i] = i
	}
	kids(all, 0)
	if sym.Choose("by level", 2) == 1 {
		order := []int{0}
		for i := 0; i < len(order); i++ {
			if m := nodes[order[i]]; !m.IsLeaf() {
				order = append(order, m.ZChild, m.OChild)
			}
		}
		num := make([]int, len(nodes))
		for i, o := range order {
			num[o] = i
		}
		out := make([]query.Node, len(nodes))
		for i, o := range order {
			out[i] = nodes[o]
			if !nodes[o].IsLeaf() {
				out[i].ZChild, out[i].OChild = num[nodes[o].ZChild], num[nodes[o].OChild]
			}
		}
		nodes = out
	}
	leafs := []int{}
	for i, m := range nodes {
		if m.ZChild == query.NoChild {
			leafs = append(leafs, i)
		}
	}
	from := []int{0, len(leafs) - 3}[sym.Choose("any leafs", 2)]
	others := sym.Choose("other leafs", 3)
	if !sym.Thorough() {
		sym.Assume(others != 1)
	}
	for k, i := range leafs {
		switch {
		case k >= from && k < from+3:
			nodes[i].Value = sym.Bool("leaf" + itoa(k))
		case others == 2:
			nodes[i].Value = k%2 == 1
		default:
			nodes[i].Value = others == 1
		}
	}
	return tree{depth, nodes}
}

// C13_many: trees of many nodes.
func C13_many() {
	t := bushy(howMany("depth of a tree", 2, 5, 8, 9))
	checkNear("isnode", t, isnodeVs(), 1, func(a []arg) bool { return oNode(t.dim, t.nodes, a[0].val) })
}

// C14_many: trees of many nodes.
func C14_many() {
	t := bushy(howMany("depth of a tree", 2, 5, 8, 9))
	lv := sym.Choose("requested", 2) == 1
	checkNear("allcomp", t, allcompVs(lv), 1, func(a []arg) bool { return lAllComp(t, a[0].val, lv) })
}

// C16_many: trees of many nodes.
func C16_many() {
	t := bushy(howMany("depth of a tree", 2, 5, 6, 8))
	checkNear("dfs", t, dfsVs(), 1, func(a []arg) bool { return lDFS(t, a[0].val) })
}

// countdown finds n instances one after the other, the last of which has the
// lowest code.
type countdown struct {
	dim, n, steps int
	fail          int
	v             query.QVar
}

func (s *countdown) value() vals {
	u := make(vals, s.dim)
	for i, k := 0, s.n-s.steps; i < s.dim; i++ {
		u[i] = query.FeatV(k % 3)
		k /= 3
	}
	return u
}

func (s *countdown) Step(q compute.Encodable, ctx query.QContext) error {
	s.steps++
	if s.steps == s.fail {
		return errSolver
	}
	if s.steps > s.n {
		return compute.UnsatError
	}
	return nil
}

func (s *countdown) Values(vs []query.QVar, ctx query.QContext) ([]query.QConst, error) {
	sym.Assert(len(vs) == 1 && vs[0] == s.v, "the values of other variables")
	return []query.QConst{{Val: s.value()}}, nil
}

// C24_steps: computations of very many steps.
func C24_steps() {
	s := &countdown{dim: 9, v: "x", n: howMany("steps", 2, 300, 1100, 5000)}
	place := sym.Choose("failing at", 4)
	if place > 0 {
		s.fail = []int{2, s.n, s.n + 1}[place-1]
	}
	held := stub(func(query.QContext) (cnf.CNF, error) { return cnf.TrueCNF, nil })
	last := vals(nil)
	out, err := compute.ComputeOptim(
		func(v query.QVar) compute.Encodable { return held },
		func(v query.QVar, c query.QConst) compute.Encodable {
			if s.steps > 0 {
				last = s.value()
				sym.Assert(sameVals(c.Val, last), "another instance than the last one is to be improved")
			}
			return held
		}, s.v, query.BasicQContext(flat(s.dim)), s)
	if s.fail > 0 {
		sym.Cover("failed")
		sym.Assert(errors.Is(err, errSolver), "the error is lost")
		sym.Assert(!out.Found, "an answer comes with an error")
		return
	}
	noErr(err, "steps")
	sym.Cover("found")
	sym.Assert(out.Found && sameVals(out.Value.Val, make(vals, s.dim)), "not the last instance")
	sym.Assert(s.steps == s.n+1 && out.Calls == s.steps, "number of calls")
}

// C22_late: an ill-formed node among many.
func C22_late() {
	var t tree
	if sym.Choose("shape", 2) == 0 {
		t = longTree(howMany("features of a long tree", 2, 33, 66, 130), false)
	} else {
		t = bushy(howMany("depth of a tree", 2, 5, 8, 9))
	}
	nodes := t.nodes
	inner := []int{}
	for i, n := range nodes {
		if n.ZChild != query.NoChild {
			inner = append(inner, i)
		}
	}
	bad := inner[somewhere("ill-formed node", len(inner))]
	switch sym.Choose("what", 4) {
	case 0:
		nodes[bad].Feat = t.dim
	case 1:
		nodes[bad].Feat = -1
	case 2:
		nodes[bad].ZChild = len(nodes)
	case 3:
		nodes[bad].OChild = len(nodes)
	}
	expectRejected(t, sym.Choose("formula", 5))
}

func expectRejected(t tree, which int) {
	q := []logop.LogOpQ{
		isnode.Var{I: "x", ReachNodeVarGen: genReach},
		allcomp.Var{I: "x", ReachNodeVarGen: genReach},
		dfs.Var{I: "x"},
		dfs.Const{I: query.QConst{Val: make(vals, t.dim)}},
		logop.ForAllGuarded{I: query.QConst{ID: "c"}, Q: stub(func(query.QContext) (cnf.CNF, error) { return cnf.TrueCNF, nil })},
	}[which]
	sym.Cover("checked")
	expect("ill-formed node", false, q, query.BasicQContext(t))
}

func sameVals(a, b vals) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
