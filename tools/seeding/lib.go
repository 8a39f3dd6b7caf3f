package main

import (
	"fmt"
	"os"

	"github.com/jtcaraball/goexpdt/cnf"
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/logop"
)

// Helpers of the demonstrations: a small SAT procedure, decision trees and the
// definitions of the formulas.

const (
	B = query.BOT
	Z = query.ZERO
	O = query.ONE
)

type inst = []query.FeatV

func fail(format string, args ...any) {
	fmt.Printf("FAIL: "+format+"\n", args...)
	os.Exit(1)
}

func check(ok bool, format string, args ...any) {
	if !ok {
		fail(format, args...)
	}
}

func must(err error) {
	if err != nil {
		fail("unexpected error: %v", err)
	}
}

// model is a decision tree.
type model struct {
	dim   int
	nodes []query.Node
}

func (m model) Dim() int            { return m.dim }
func (m model) Nodes() []query.Node { return m.nodes }

func inner(f, z, o int) query.Node {
	return query.Node{Feat: f, ZChild: z, OChild: o}
}

func leaf(v bool) query.Node {
	return query.Node{Value: v, ZChild: query.NoChild, OChild: query.NoChild}
}

// flat is a model of the given dimension with a single leaf.
func flat(dim int) model { return model{dim, []query.Node{leaf(true)}} }

// nodeInsts returns the partial instances of the nodes of m.
func nodeInsts(m model) []inst {
	var out []inst
	var walk func(i int, c inst)
	walk = func(i int, c inst) {
		out = append(out, append(inst{}, c...))
		n := m.nodes[i]
		if n.IsLeaf() {
			return
		}
		d := append(inst{}, c...)
		d[n.Feat] = Z
		walk(n.ZChild, d)
		d = append(inst{}, c...)
		d[n.Feat] = O
		walk(n.OChild, d)
	}
	walk(0, make(inst, m.dim))
	return out
}

func classify(m model, c inst) bool {
	i := 0
	for m.nodes[i].ZChild >= 0 {
		if c[m.nodes[i].Feat] == O {
			i = m.nodes[i].OChild
		} else {
			i = m.nodes[i].ZChild
		}
	}
	return m.nodes[i].Value
}

// allInsts returns the partial instances of a dimension.
func allInsts(dim int) []inst {
	out := []inst{{}}
	for i := 0; i < dim; i++ {
		var next []inst
		for _, c := range out {
			for _, v := range []query.FeatV{B, Z, O} {
				next = append(next, append(append(inst{}, c...), v))
			}
		}
		out = next
	}
	return out
}

func eq(a, b inst) bool {
	return query.QConst{Val: a}.EqualValue(query.QConst{Val: b})
}

func completions(c inst) []inst {
	out := []inst{{}}
	for _, v := range c {
		var next []inst
		for _, d := range out {
			if v != B {
				next = append(next, append(append(inst{}, d...), v))
				continue
			}
			next = append(next, append(append(inst{}, d...), Z))
			next = append(next, append(append(inst{}, d...), O))
		}
		out = next
	}
	return out
}

func allComp(m model, c inst, val bool) bool {
	for _, d := range completions(c) {
		if classify(m, d) != val {
			return false
		}
	}
	return true
}

func subsumed(a, b inst) bool {
	for i := range a {
		if a[i] != B && a[i] != b[i] {
			return false
		}
	}
	return true
}

func bots(a inst) int {
	n := 0
	for _, v := range a {
		if v == B {
			n++
		}
	}
	return n
}

func dist(a, b inst) int {
	n := 0
	for i := range a {
		if a[i] != b[i] {
			n++
		}
	}
	return n
}

func isFull(a inst) bool { return bots(a) == 0 }

func leh(a, b, c inst) bool {
	return isFull(a) && isFull(b) && isFull(c) && dist(a, b) <= dist(a, c)
}

func hepr(a, b inst, pref []int) bool {
	for _, i := range pref {
		if (a[i] == B) != (b[i] == B) {
			return a[i] != B
		}
	}
	return true
}

func isNode(m model, c inst) bool {
	for _, n := range nodeInsts(m) {
		if eq(n, c) {
			return true
		}
	}
	return false
}

func isDFS(m model, c inst) bool {
	fulls := completions(make(inst, m.dim))
	for _, d := range fulls {
		e := append(inst{}, c...)
		for i := range e {
			if e[i] != B {
				e[i] = d[i]
			}
		}
		if !allComp(m, e, true) && !allComp(m, e, false) {
			return false
		}
	}
	return true
}

func clausesOf(f cnf.CNF) []cnf.Clause {
	s, c := f.Clauses()
	return append(append([]cnf.Clause{}, s...), c...)
}

// solve returns an assignment satisfying the clauses.
func solve(cls []cnf.Clause, units ...int) (map[int]bool, bool) {
	asg := map[int]bool{}
	for _, u := range units {
		v, b := u, true
		if u < 0 {
			v, b = -u, false
		}
		if old, ok := asg[v]; ok && old != b {
			return nil, false
		}
		asg[v] = b
	}
	return search(cls, asg)
}

func search(cls []cnf.Clause, asg map[int]bool) (map[int]bool, bool) {
	for {
		unit, branch := 0, 0
		for _, cl := range cls {
			free, n, done := 0, 0, false
			for _, l := range cl {
				v, b := l, true
				if l < 0 {
					v, b = -l, false
				}
				if cur, ok := asg[v]; !ok {
					free = l
					n++
				} else if cur == b {
					done = true
					break
				}
			}
			if done {
				continue
			}
			if n == 0 {
				return nil, false
			}
			if n == 1 {
				unit = free
				break
			}
			branch = free
		}
		if unit == 0 {
			if branch == 0 {
				return asg, true
			}
			for _, l := range []int{branch, -branch} {
				next := make(map[int]bool, len(asg)+1)
				for k, v := range asg {
					next[k] = v
				}
				set(next, l)
				if m, ok := search(cls, next); ok {
					return m, true
				}
			}
			return nil, false
		}
		set(asg, unit)
	}
}

func set(asg map[int]bool, l int) {
	if l < 0 {
		asg[-l] = false
		return
	}
	asg[l] = true
}

func sat(cls []cnf.Clause, units ...int) bool {
	_, ok := solve(cls, units...)
	return ok
}

// at returns the literals fixing the variable v to c.
func at(ctx query.QContext, v query.QVar, c inst) []int {
	var out []int
	for i, f := range c {
		out = append(out, ctx.CNFVar(v, i, int(f)))
	}
	return out
}

// declare declares variables around q.
func declare(q logop.LogOpQ, vars ...query.QVar) logop.LogOpQ {
	for i := len(vars) - 1; i >= 0; i-- {
		q = logop.WithVar{I: vars[i], Q: q}
	}
	return q
}

// means checks that q, which speaks of the variables given, and its negation
// hold exactly at the instances that truth tells.
func means(
	name string,
	m model,
	q logop.LogOpQ,
	truth func(vals ...inst) bool,
	vars ...query.QVar,
) {
	for _, neg := range []bool{false, true} {
		f := q
		if neg {
			f = logop.Not{Q: q}
		}
		ctx := query.BasicQContext(m)
		enc, err := declare(f, vars...).Encoding(ctx)
		must(err)
		cls := clausesOf(enc)
		vals := make([]inst, len(vars))
		var rec func(i int)
		rec = func(i int) {
			if i < len(vars) {
				for _, c := range allInsts(m.dim) {
					vals[i] = c
					rec(i + 1)
				}
				return
			}
			var units []int
			for j, v := range vars {
				units = append(units, at(ctx, v, vals[j])...)
			}
			want := truth(vals...) != neg
			got := sat(cls, units...)
			check(
				got == want,
				"%s (negated: %v) at %v is %v, want %v",
				name, neg, vals, got, want,
			)
		}
		rec(0)
	}
}

// closed tells if a query without free variables is satisfiable.
func closed(m model, q logop.LogOpQ) bool {
	enc, err := q.Encoding(query.BasicQContext(m))
	must(err)
	return sat(clausesOf(enc))
}

// gen is a generator of names of one argument.
func gen(tag string) func(query.QVar) query.QVar {
	return func(v query.QVar) query.QVar { return query.QVar(tag) + "(" + v + ")" }
}

// gen2 is a symmetric generator of names of two arguments.
func gen2(tag string) func(a, b query.QVar) query.QVar {
	return func(a, b query.QVar) query.QVar {
		if b < a {
			a, b = b, a
		}
		return query.QVar(tag) + "(" + a + ";" + b + ")"
	}
}

// gen3 is a generator of names of three arguments.
func gen3(tag string) func(p, a, b query.QVar) query.QVar {
	return func(p, a, b query.QVar) query.QVar {
		return query.QVar(tag) + "(" + p + ";" + a + ";" + b + ")"
	}
}

func con(vals ...query.FeatV) query.QConst { return query.QConst{Val: vals} }

var _ = []any{fail, flat, means, closed, gen, gen2, gen3, con, hepr, leh,
	isNode, isDFS, subsumed, inner}
