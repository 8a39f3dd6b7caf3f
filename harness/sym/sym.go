// Package sym is what the harnesses use to speak to the symbolic executor:
// it introduces symbolic inputs and states what must hold of them. The
// executor replaces every function of this package. The bodies here are the
// native meaning, used to replay recorded inputs against the real code.
package sym

import (
	"fmt"
	"strconv"
	"strings"
)

// Input is one recorded input.
type Input struct {
	Name string  `json:"n"`
	Vals []int64 `json:"v"`
}

// Case is the state of one native replay.
type Case struct {
	In       []Input
	Thorough bool
	Scratch  string
	pos      int
	uniq     map[string]int
	Obs      []string
	fs       fsState
}

// Fail is the panic value of a failed assertion.
type Fail struct{ Label, Detail string }

// Diverged is the panic value of a replay that asks for other inputs than
// the recorded ones.
type Diverged struct{ Detail string }

// Killed is the panic value of a replay that breaks an assumption.
type Killed struct{}

// Cur is the replay going on.
var Cur *Case

func next(name string) []int64 {
	c := Cur
	if c.uniq == nil {
		c.uniq = map[string]int{}
	}
	k := c.uniq[name]
	c.uniq[name] = k + 1
	if k > 0 {
		name = fmt.Sprintf("%s#%d", name, k)
	}
	if c.pos >= len(c.In) {
		panic(Diverged{"asks for " + name + " after the last input"})
	}
	in := c.In[c.pos]
	c.pos++
	if in.Name != name {
		panic(Diverged{"asks for " + name + ", recorded " + in.Name})
	}
	return in.Vals
}

// Int is any integer in [lo, hi].
func Int(name string, lo, hi int) int {
	if lo > hi {
		panic(Killed{})
	}
	v := int(next(name)[0])
	if v < lo || v > hi {
		panic(Diverged{name + " out of range"})
	}
	return v
}

// Bool is any truth value.
func Bool(name string) bool { return next(name)[0] != 0 }

// Byte is any byte.
func Byte(name string) byte { return byte(next(name)[0]) }

// Choose is any integer in [0, n); every value is explored on its own.
func Choose(name string, n int) int { return int(next(name)[0]) }

// Assume restricts the inputs.
func Assume(b bool) {
	if !b {
		panic(Killed{})
	}
}

// Assert states what must hold for all inputs.
func Assert(b bool, label string) {
	if !b {
		panic(Fail{label, ""})
	}
}

// And is a conjunction that does not branch.
func And(bs ...bool) bool {
	for _, b := range bs {
		if !b {
			return false
		}
	}
	return true
}

// Or is a disjunction that does not branch.
func Or(bs ...bool) bool {
	for _, b := range bs {
		if b {
			return true
		}
	}
	return false
}

func Not(b bool) bool        { return !b }
func Implies(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool     { return a == b }

// Ite is a choice that does not branch.
func Ite(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// B2I is 1 for true and 0 for false.
func B2I(b bool) int {
	if b {
		return 1
	}
	return 0
}

// Conc splits the exploration so that x is a known number.
func Conc(x int) int { return x }

// Note adds a tag to the signature of a violation found from here on.
func Note(tag string) {}

// Cover records that this point was reached.
func Cover(label string) {}

// Bound is the bound of the tier.
func Bound(name string, quick, thorough int) int {
	if Cur.Thorough {
		return thorough
	}
	return quick
}

// Thorough tells the tier.
func Thorough() bool { return Cur.Thorough }

// Observe records a number to be compared between executor and native run.
func Observe(name string, v int) {
	Cur.Obs = append(Cur.Obs, name+"="+strconv.Itoa(v))
}

// ObserveStr records a string.
func ObserveStr(name, s string) {
	Cur.Obs = append(Cur.Obs, name+"="+strconv.Quote(s))
}

// ObserveClauses records clauses.
func ObserveClauses(name string, cs [][]int) {
	var o []string
	for _, c := range cs {
		var l []string
		for _, x := range c {
			l = append(l, strconv.Itoa(x))
		}
		o = append(o, "["+strings.Join(l, " ")+"]")
	}
	Cur.Obs = append(Cur.Obs, name+"=["+strings.Join(o, " ")+"]")
}

// Def gives the meaning of a CNF variable.
type Def struct {
	Var int
	Val bool
}

func assumptions(defs []Def) map[int]bool {
	m := map[int]bool{}
	for _, d := range defs {
		m[d.Var] = d.Val
	}
	return m
}

func checkLits(cs [][]int) {
	for _, c := range cs {
		for _, l := range c {
			if l == 0 {
				panic(Fail{"literal zero in formula", ""})
			}
		}
	}
}

// Equiv states that the formula with semantic clauses s and consistency
// clauses c means spec, and its negation the opposite: for all inputs, c can
// be satisfied by the variables without definition, and whenever c holds, s
// holds exactly when spec does.
func Equiv(label string, s, c [][]int, defs []Def, spec bool) {
	checkLits(s)
	checkLits(c)
	m := assumptions(defs)
	ok, _ := decide(append(append([][]int{}, c...), s...), m)
	if ok && !spec {
		panic(Fail{label, "formula holds, definition does not"})
	}
	neg := false
	for _, cl := range s {
		cs := append([][]int{}, c...)
		for _, l := range cl {
			cs = append(cs, []int{-l})
		}
		if r, _ := decide(cs, m); r {
			neg = true
			break
		}
	}
	if neg && spec {
		panic(Fail{label, "negation holds, definition too"})
	}
	if !neg && !ok {
		panic(Fail{label, "consistency clauses cannot be satisfied"})
	}
}

// EquivSat states that the formula can be satisfied exactly when spec holds.
func EquivSat(label string, s, c [][]int, defs []Def, spec bool) {
	checkLits(s)
	checkLits(c)
	ok, _ := decide(append(append([][]int{}, c...), s...), assumptions(defs))
	if ok != spec {
		panic(Fail{label, fmt.Sprintf("satisfiable %v, definition %v", ok, spec)})
	}
}

// Solve is an ideal SAT solver: it answers rightly, and returns any
// satisfying valuation, indexed by variable.
func Solve(s, c [][]int) (bool, []bool) {
	checkLits(s)
	checkLits(c)
	vals := next("solve")
	all := append(append([][]int{}, s...), c...)
	if vals[0] == 0 {
		if r, _ := decide(all, nil); r {
			panic(Diverged{"solver answer"})
		}
		return false, nil
	}
	m := make([]bool, len(vals))
	for i := 1; i < len(vals); i++ {
		m[i] = vals[i] != 0
	}
	for _, cl := range all {
		ok := false
		for _, l := range cl {
			if l > 0 && l < len(m) && m[l] || l < 0 && -l < len(m) && !m[-l] {
				ok = true
			}
		}
		if !ok {
			panic(Diverged{"solver valuation"})
		}
	}
	return true, m
}

// One is Solve with one satisfying valuation in place of any.
func One(s, c [][]int) (bool, []bool) { return Solve(s, c) }
