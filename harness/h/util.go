// Package h holds the harnesses: one function Cxx_name per question asked of
// the code under test, all over its exported API.
package h

import (
	"fmt"
	"strconv"

	"github.com/jtcaraball/goexpdt/cnf"
	"github.com/jtcaraball/goexpdt/query"
	"verifharness/sym"
)

// tree is a decision tree given by its nodes.
type tree struct {
	dim   int
	nodes []query.Node
}

func (t tree) Dim() int            { return t.dim }
func (t tree) Nodes() []query.Node { return t.nodes }

// raw turns clauses into plain integers.
func raw(cs []cnf.Clause) [][]int {
	out := make([][]int, len(cs))
	for i, c := range cs {
		out[i] = append([]int{}, c...)
	}
	return out
}

func rawBoth(f cnf.CNF) ([][]int, [][]int) {
	s, c := f.Clauses()
	return raw(s), raw(c)
}

// inst is any partial instance.
func inst(name string, dim int) []query.FeatV {
	v := make([]query.FeatV, dim)
	for i := range v {
		v[i] = query.FeatV(sym.Int(name+strconv.Itoa(i), 0, 2))
	}
	return v
}

// binding says which partial instance a (scoped) query variable stands for.
type binding struct {
	name query.QVar
	vals []query.FeatV
}

// defsOf gives the CNF variables of the bound query variables their meaning.
func defsOf(ctx query.QContext, bs ...binding) []sym.Def {
	var defs []sym.Def
	for _, b := range bs {
		for i, v := range b.vals {
			for k := 0; k < 3; k++ {
				defs = append(defs, sym.Def{Var: ctx.CNFVar(b.name, i, k), Val: int(v) == k})
			}
		}
	}
	return defs
}

// register makes the CNF variables of a query variable exist.
func register(ctx query.QContext, v query.QVar) {
	for i := 0; i < ctx.Dim(); i++ {
		for k := 0; k < 3; k++ {
			ctx.CNFVar(v, i, k)
		}
	}
}

func isErr(err error) bool { return err != nil }

// noErr states that there is no error.
func noErr(err error, label string) {
	if err != nil {
		sym.Assert(false, label+": unexpected error")
	}
}

func observeCNF(name string, f cnf.CNF) {
	s, c := rawBoth(f)
	sym.ObserveClauses(name+".s", s)
	sym.ObserveClauses(name+".c", c)
	sym.Observe(name+".tv", f.TopV())
}

func itoa(i int) string { return strconv.Itoa(i) }

var _ = fmt.Sprint

// clauseVars collects the clauses evaluated under a valuation of variables
// 1..n given by vals[0..n-1].
func evalClauses(cs [][]int, vals []bool) bool {
	all := make([]bool, 0, len(cs))
	for _, c := range cs {
		ls := make([]bool, 0, len(c))
		for _, l := range c {
			ls = append(ls, litVal(l, vals))
		}
		all = append(all, sym.Or(ls...))
	}
	return sym.And(all...)
}

// litVal is the value of a literal, without branching on it.
func litVal(l int, vals []bool) bool {
	var out []bool
	for i, v := range vals {
		out = append(out, sym.And(l == i+1, v), sym.And(l == -(i+1), !v))
	}
	return sym.Or(out...)
}

func bools(name string, n int) []bool {
	v := make([]bool, n)
	for i := range v {
		v[i] = sym.Bool(name + itoa(i+1))
	}
	return v
}

func clonef(cs [][]int) []cnf.Clause {
	out := make([]cnf.Clause, len(cs))
	for i, c := range cs {
		out[i] = append(cnf.Clause{}, c...)
	}
	return out
}
