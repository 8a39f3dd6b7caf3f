package h

// Helpers of instances and nodes.

import (
	"github.com/jtcaraball/goexpdt/query"
	"verifharness/sym"
)

// anyInst is a partial instance of any length up to max.
func anyInst(name string, max int) query.QConst {
	n := sym.Choose(name+" length", max+1)
	c := query.QConst{ID: name, Val: inst(name, n)}
	if n == 0 && sym.Choose(name+" nil", 2) == 1 {
		c.Val = nil
	}
	return c
}

// C21_instance: one instance.
func C21_instance() {
	max := sym.Bound("instance length", 6, 9)
	c := anyInst("c", max)
	before := append(vals{}, c.Val...)
	sym.Cover("instance")
	sym.Assert(sym.Iff(c.IsFull(), oFull(c.Val)), "full")
	sym.Assert(c.BotCount() == bots(c.Val), "bottom count")
	sym.Assert(len(before) == len(c.Val) && equalTo(before, c.Val), "instance changed")
	sym.Assert(c.ID == "c", "name changed")
}

// C21_text: the text forms of two instances.
func C21_text() {
	max := sym.Bound("text length", 3, 4)
	a, b := anyInst("a", max), anyInst("b", max)
	s, t := a.AsString(), b.AsString()
	sym.Cover("text")
	sym.Assert(len([]rune(s)) == len(a.Val), "one character per feature")
	same := len(a.Val) == len(b.Val)
	if same {
		sym.Assert(sym.Iff(s == t, equalTo(a.Val, b.Val)), "text identifies the instance")
		// The same character means the same value wherever it stands.
		for i := range a.Val {
			for j := range b.Val {
				sym.Assert(sym.Iff([]rune(s)[i] == []rune(t)[j], a.Val[i] == b.Val[j]), "a character identifies the value")
			}
		}
	} else {
		sym.Assert(s != t, "text of instances of different lengths")
	}
}

// C21_equal: comparing two instances.
func C21_equal() {
	max := sym.Bound("instance length", 5, 7)
	a, b := anyInst("a", max), anyInst("b", max)
	sym.Cover("compared")
	want := len(a.Val) == len(b.Val)
	if want {
		want = equalTo(a.Val, b.Val)
	}
	if sym.Choose("same name", 2) == 1 {
		b.ID = a.ID
	}
	sym.Assert(sym.Iff(a.EqualValue(b), want), "equality")
	sym.Assert(sym.Iff(b.EqualValue(a), want), "equality is symmetric")
	sym.Assert(a.EqualValue(a), "equality is reflexive")
}

// C21_parts: instances which are parts of one slice.
func C21_parts() {
	n := sym.Bound("length of a shared slice", 4, 6)
	v := inst("v", n)
	part := func(tag string) query.QConst {
		from := sym.Choose(tag+" from", n+1)
		return query.QConst{ID: "k", Val: v[from : from+sym.Choose(tag+" features", n+1-from)]}
	}
	a, b := part("first"), part("second")
	sym.Cover("parts")
	want := len(a.Val) == len(b.Val)
	if want {
		want = equalTo(a.Val, b.Val)
	}
	sym.Assert(sym.Iff(a.EqualValue(b), want), "equality of parts")
	sym.Assert((query.ValidateConstsDim(len(a.Val), a, b) == nil) == (len(a.Val) == len(b.Val)), "dimension of parts")
}

// C21_bottom: the all bottom instance.
func C21_bottom() {
	n := sym.Choose("dim", sym.Bound("dimension", 9, 17))
	c := query.AllBotConst(n)
	sym.Cover("bottom")
	sym.Assert(len(c.Val) == n, "length of the all bottom instance")
	for _, v := range c.Val {
		sym.Assert(v == query.BOT, "value of the all bottom instance")
	}
	sym.Assert(c.ID == "", "the all bottom instance has a name")
	// It is a new one each time.
	if n > 0 {
		c.Val[sym.Choose("at", n)] = query.ONE
		for _, v := range query.AllBotConst(n).Val {
			sym.Assert(v == query.BOT, "value of the all bottom instance")
		}
	}
}

// C21_dimension: the dimension check on a list of instances.
func C21_dimension() {
	dim := sym.Int("dim", 0, 4)
	n := sym.Choose("instances", sym.Bound("instances", 4, 5))
	cs := []query.QConst{}
	ok := []bool{}
	for i := 0; i < n; i++ {
		c := query.QConst{Val: make(vals, sym.Choose("length"+itoa(i), 4))}
		cs = append(cs, c)
		ok = append(ok, len(c.Val) == dim)
	}
	err := query.ValidateConstsDim(dim, cs...)
	sym.Cover("dimension")
	sym.Assert(sym.Iff(err == nil, sym.And(ok...)), "dimension check")
}

// C21_node: leaves.
func C21_node() {
	n := query.Node{
		Value:  sym.Bool("value"),
		Feat:   sym.Int("feature", -3, 5),
		ZChild: sym.Int("zero child", -9, 9),
		OChild: sym.Int("one child", -9, 9),
	}
	sym.Cover("node")
	lacks := sym.Or(n.ZChild == query.NoChild, n.OChild == query.NoChild)
	has := sym.And(n.ZChild >= 0, n.OChild >= 0)
	leaf := n.IsLeaf()
	sym.Assert(sym.Implies(lacks, leaf), "a node without a child is not a leaf")
	sym.Assert(sym.Implies(has, !leaf), "a node with both children is a leaf")
}

// C21_long: two long instances that agree but for one place, or in length.
func C21_long() {
	n := []int{8, 9, 31, 33, 65, 257}[sym.Choose("length", sym.Bound("long lengths", 5, 6))]
	a, b := make(vals, n), make(vals, n)
	for i := range a {
		a[i] = query.FeatV((i*7 + i/3) % 3)
		b[i] = a[i]
	}
	at := []int{0, n / 2, n - 2, n - 1}[sym.Choose("at", 4)]
	a[at] = query.FeatV(sym.Int("a", 0, 2))
	b[at] = query.FeatV(sym.Int("b", 0, 2))
	same := a[at] == b[at]
	longer := sym.Choose("longer", 2) == 1
	if longer {
		b = append(b, query.FeatV(sym.Int("last", 0, 2)))
		same = false
	}
	x, y := query.QConst{Val: a}, query.QConst{Val: b}
	sym.Cover("long")
	sym.Assert(sym.Iff(x.EqualValue(y), same), "equality")
	sym.Assert(sym.Iff(y.EqualValue(x), same), "equality is symmetric")
	s, t := x.AsString(), y.AsString()
	sym.Assert(len([]rune(s)) == n, "one character per feature")
	sym.Assert(sym.Iff(s == t, same), "text identifies the instance")
	sym.Assert(sym.Iff(x.IsFull(), oFull(a)), "full")
	sym.Assert(x.BotCount() == bots(a), "bottom count")
	// Full but for the place.
	for i := range a {
		if i != at {
			a[i] = 1 + a[i]%2
		}
	}
	sym.Assert(sym.Iff(x.IsFull(), a[at] != query.BOT), "full")
	sym.Assert(x.BotCount() == sym.B2I(a[at] == query.BOT), "bottom count")
}
