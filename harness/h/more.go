package h

// More sizes: long clauses, large numbers, many values at once.

import (
	"github.com/jtcaraball/goexpdt/cnf"
	"github.com/jtcaraball/goexpdt/query"
	"github.com/jtcaraball/goexpdt/query/logop"
	"verifharness/sym"
)

// C01_pair: two clauses over any of many variables.
func C01_pair() {
	nv := sym.Bound("variables of two clauses", 12, 24)
	w := 1 + sym.Choose("width", sym.Bound("width of two clauses", 2, 3))
	s := [][]int{{}, {}}
	for j := 0; j < w; j++ {
		s[0] = append(s[0], anyLit("a"+itoa(j), nv))
		s[1] = append(s[1], anyLit("b"+itoa(j), nv))
	}
	if sym.Choose("third", 2) == 1 {
		s = append(s, []int{anyLit("c", nv)})
	}
	f := cnf.FromClauses(clonef(s))
	g := f.Negate(nv)
	vals := bools("x", nv)
	sym.Cover("negated")
	checkNegation("pair", f, g, nv, defsFor(vals), !evalClauses(s, vals))
}

// longClause is n literals of growing size, the last ones not the largest,
// any literal of up to top somewhere.
func longClause(n, from, top int) []int {
	c := []int{}
	for i := 0; i < n; i++ {
		c = append(c, (from+i)*(1-2*(i%2)))
	}
	at := somewhere("any literal", n)
	c[at] = sym.Int("any", -top, top)
	sym.Assume(c[at] != 0)
	return c
}

// C02_long: long clauses.
func C02_long() {
	n := howMany("literals of a clause", 3, 10, 40, 300, 1100)
	l := longClause(n, 10, 1<<20)
	s, c := [][]int{{5, -6}}, [][]int{{-7}}
	part := sym.Choose("part", 2)
	if part == 0 {
		s = append(s, l)
	} else {
		c = append(c, l)
	}
	var f cnf.CNF
	switch sym.Choose("way", 3) {
	case 0:
		f = cnf.FromClauses(clonef(s)).AppendConsistency(clonef(c)...)
	case 1:
		f = cnf.CNF{}.AppendConsistency(clonef(c)...).AppendSemantics(clonef(s)...)
	case 2:
		f = cnf.CNF{}.AppendConsistency(clonef(c)...).Conjunction(cnf.FromClauses(clonef(s)))
	}
	sym.Cover("built")
	checkFormula("long", f, s, c)
	checkFormula("conjunction", f.Conjunction(f), join(s, s), join(c, c))
	g := f.Negate()
	gs, gc := rawBoth(g)
	for _, cl := range join(gs, gc) {
		for _, l := range cl {
			sym.Assert(sym.And(g.TopV() >= l, g.TopV() >= -l), "negation: top variable below a variable")
		}
	}
}

// C04_clause: a single long clause.
func C04_clause() {
	n := howMany("literals of a clause", 4, 12, 255, 1100, 5000)
	top := 99
	if n > 12 {
		top = 9
	}
	l := longClause(n, 1, top)
	s, c := [][]int{{5, -6}}, [][]int{{-7}}
	if sym.Choose("part", 2) == 0 {
		s = append([][]int{l}, s...)
	} else {
		c = append(c, l)
	}
	f := cnf.FromClauses(clonef(s)).AppendConsistency(clonef(c)...)
	want := join(s, c)
	b := f.ToBytes()
	path := sym.TempDir() + "/long.cnf"
	noErr(f.ToFile(path), "file")
	file, ok := sym.ReadFile(path)
	sym.Assert(ok && string(file) == string(b), "file: differs from the bytes")
	d := readDIMACS(b)
	sym.Cover("read")
	sym.Assert(d.ok, "not a DIMACS text")
	sym.Assert(d.n == len(want), "clause count of the header")
	for _, c := range want {
		for _, l := range c {
			sym.Assert(sym.And(l <= d.vars, -l <= d.vars), "variable count of the header")
		}
	}
	sym.Assert(len(d.clauses) == len(want), "number of clauses")
	for i := range want {
		// Told apart by their lengths.
		found := 0
		for _, g := range d.clauses {
			if len(g) == len(want[i]) {
				found++
				sym.Assert(sameClause(g, want[i]), "clause lost or altered")
			}
		}
		sym.Assert(found == 1, "clause lost or altered")
	}
}

// C04_lengths: texts of every length.
func C04_lengths() {
	n := sym.Choose("literals", sym.Bound("literals of a text", 525, 2100))
	if k := sym.Choose("far", sym.Bound("longer texts", 2, 4)); k > 0 {
		// Around the size of usual buffers.
		if n > 5 {
			sym.Assume(false)
		}
		n += []int{4096, 8192, 65536}[k-1]/2 - 10
	}
	l := make([]int, n+1)
	for i := range l {
		l[i] = 1 + i%8
	}
	l[0] = sym.Int("first", 1, 9)
	if sym.Choose("a sign more", 2) == 1 {
		l[n] = -sym.Int("last", 1, 9)
	}
	f := cnf.FromClauses([]cnf.Clause{append(cnf.Clause{}, l...)})
	b := f.ToBytes()
	path := sym.TempDir() + "/length"
	noErr(f.ToFile(path), "file")
	file, ok := sym.ReadFile(path)
	sym.Cover("written")
	sym.Assert(ok && string(file) == string(b), "file: differs from the bytes")
	d := readDIMACS(b)
	sym.Assert(d.ok && d.n == 1 && len(d.clauses) == 1, "not a DIMACS text of a clause")
	sym.Assert(len(d.clauses[0]) == len(l) && sameClause(d.clauses[0], l), "clause altered")
}

// C21_longer: instances of more features than a byte counts.
func C21_longer() {
	n := howMany("length of an instance", 4, 255, 300, 600, 1030, 70000)
	zero := sym.Choose("all bottom but", 2) == 1
	v := make(vals, n)
	known := 0
	any := map[int]bool{}
	for _, i := range []int{0, n / 2, n - 1} {
		any[i] = true
		v[i] = query.FeatV(sym.Int("a"+itoa(i), 0, 2))
	}
	for i := range v {
		if any[i] {
			continue
		}
		v[i] = query.BOT
		if !zero {
			v[i] = query.FeatV((i + i/5) % 3)
		}
		known += sym.B2I(v[i] == query.BOT)
	}
	c := query.QConst{Val: v}
	sym.Cover("counted")
	want := known
	full := known == 0
	for i := range any {
		want += sym.B2I(v[i] == query.BOT)
	}
	sym.Assert(c.BotCount() == want, "bottom count")
	sym.Assert(sym.Iff(c.IsFull(), sym.And(full, want == 0)), "full")
	w := append(vals{}, v...)
	at := somewhere("other value", n)
	w[at] = query.FeatV(sym.Int("b", 0, 2))
	d := query.QConst{Val: w}
	sym.Assert(sym.Iff(c.EqualValue(d), v[at] == w[at]), "equality")
	sym.Assert(!c.EqualValue(query.QConst{Val: w[:n-1]}) && !query.QConst{Val: w[:n-1]}.EqualValue(c), "instances of different lengths are equal")
	if n < 2000 {
		s, t := c.AsString(), d.AsString()
		sym.Assert(len([]rune(s)) == n, "one character per feature")
		sym.Assert(sym.Iff(s == t, v[at] == w[at]), "text identifies the instance")
	}
	b := query.AllBotConst(n)
	sym.Assert(len(b.Val) == n && b.BotCount() == n && !b.IsFull(), "all bottom instance")
	sym.Assert(query.ValidateConstsDim(n, c, d, b) == nil, "dimension check")
	sym.Assert(query.ValidateConstsDim(n-256, c) != nil, "dimension check")
	// Full but for one place.
	for i := range w {
		if i != at {
			w[i] = query.ONE
		}
	}
	sym.Assert(sym.Iff(d.IsFull(), w[at] != query.BOT), "full")
	sym.Assert(d.BotCount() == sym.B2I(w[at] == query.BOT), "bottom count")
}

// C26_numbers: variables of large numbers.
func C26_numbers() {
	ctx := query.BasicQContext(flat(2))
	s := newBin("numbers")
	base := howMany("numbers from", 9, 0, 7, 97, 125, 254, 32765, 65533, 99997, 2147483645, 999999999997, 1<<53)
	if base > 0 {
		sym.Assert(ctx.UpdateTopV(base), "update above the top refused")
	}
	register(ctx, "v")
	register(ctx, "w")
	u, w := someInst("u", 2), vals{query.ONE, query.BOT}
	lits := []int{}
	signs := sym.Choose("negative ones too", 2) == 1
	for i := 0; i < 2; i++ {
		for k := 0; k < 3; k++ {
			for j, x := range []vals{u, w} {
				n := ctx.CNFVar([]query.QVar{"v", "w"}[j], i, k)
				if x[i] == query.FeatV(k) {
					lits = append(lits, n)
				} else if signs {
					lits = append(lits, -n)
				}
			}
		}
	}
	sym.SetSolver(10, false, plain(lits), nil)
	noErr(s.Step(declares(nil), ctx), "numbers")
	sym.Cover("read")
	checkValues("numbers", s, ctx, []query.QVar{"v", "w"}, []vals{u, w})
}

// C26_several: the values of many variables at once.
func C26_several() {
	n := howMany("variables asked for", 4, 3, 5, 9, 17, 40)
	dim := []int{1, 3}[sym.Choose("dim", 2)]
	ctx := query.BasicQContext(flat(dim))
	s := newBin("several")
	vs, us := []query.QVar{}, []vals{}
	at := somewhere("any value", n)
	for j := 0; j < n; j++ {
		v := query.QVar("v" + itoa(j))
		vs = append(vs, v)
		u := make(vals, dim)
		for i := range u {
			u[i] = query.FeatV((j + i*2) % 3)
		}
		if j == at {
			u[dim-1] = query.FeatV(sym.Choose("value", 3))
		}
		us = append(us, u)
	}
	order := sym.Choose("numbering", 2)
	for j := range vs {
		if order == 1 {
			j = n - 1 - j
		}
		register(ctx, vs[j])
		if j%4 == 1 {
			ctx.CNFVar("other", 7, j)
		}
	}
	sym.SetSolver(10, false, plain(assignment(ctx, vs, us)), nil)
	noErr(s.Step(declares(vs), ctx), "several")
	sym.Cover("read")
	first, err := s.Values(vs, ctx)
	noErr(err, "several")
	checkValues("several", s, ctx, vs, us)
	// In another order, some twice.
	k := n / 2
	turned := append(append(append([]query.QVar{}, vs[k:]...), vs[:k]...), vs[0], vs[n-1], vs[0])
	tus := append(append(append([]vals{}, us[k:]...), us[:k]...), us[0], us[n-1], us[0])
	checkValues("turned", s, ctx, turned, tus)
	checkValues("one", s, ctx, vs[at:at+1], us[at:at+1])
	same := func(label string) {
		sym.Assert(len(first) == n, label+": wrong number of values")
		for j := range first {
			sym.Assert(len(first[j].Val) == dim && equalTo(first[j].Val, us[j]), label+": an earlier value changes")
		}
	}
	same("asked again")
	// The values are the caller's own.
	for i := range first[at].Val {
		first[at].Val[i] = (first[at].Val[i] + 1) % 3
	}
	for j := range first {
		if j != at {
			sym.Assert(equalTo(first[j].Val, us[j]), "two values are one")
		}
	}
	checkValues("after a change", s, ctx, vs, us)
	for i := range first[at].Val {
		first[at].Val[i] = us[at][i]
	}
	// Another answer leaves the earlier ones as they are.
	other := []vals{}
	for j := range us {
		u := make(vals, dim)
		for i := range u {
			u[i] = (us[j][i] + 1 + query.FeatV(j%2)) % 3
		}
		other = append(other, u)
	}
	sym.SetSolver(10, false, plain(assignment(ctx, vs, other)), nil)
	noErr(s.Step(declares(vs), ctx), "several")
	checkValues("another answer", s, ctx, vs, other)
	same("another answer")
}

// C26_messages: what a solver writes on its other output is no answer.
func C26_messages() {
	ctx := query.BasicQContext(flat(2))
	s := newBin("messages")
	register(ctx, "v")
	u := someInst("u", 2)
	text := []string{"v 1 2 3 0\n", "v -1 -2 -3 4 5 6 0\n", "v warning\n", "warning", "v 1", "s UNSATISFIABLE\n", "0\nv x\n"}
	msg := text[sym.Choose("message", len(text))]
	vs := []query.QVar{"v"}
	out := plain(assignment(ctx, vs, []vals{u}))
	if sym.Choose("no end of line", 2) == 1 {
		out = out[:len(out)-1]
	}
	sym.SetSolver(10, false, out, []byte(msg))
	noErr(s.Step(declares(vs), ctx), "messages")
	sym.Cover("read")
	checkValues("messages", s, ctx, vs, []vals{u})
	// And a satisfiable run without an answer has none.
	sym.SetSolver(10, false, []byte("s SATISFIABLE\n"), []byte("v 1 2 3 4 5 6 0\n"))
	noErr(s.Step(declares(vs), ctx), "messages")
	_, err := s.Values(vs, ctx)
	sym.Assert(err != nil, "messages are taken for values")
}

// C27_universal: a universal leaves the constant it is given, and the nodes,
// as they are.
func C27_universal() {
	t := plainTree(1+sym.Choose("inner nodes", 2), 2)
	ctx := query.BasicQContext(t)
	n := []int{2, 0, 1, 3}[sym.Choose("length", 4)]
	given := vals(inst("g", n))
	room := make(vals, n, n+2)
	copy(room, given)
	room[:n+2][n], room[:n+2][n+1] = 77, 77
	k := query.QConst{ID: "k", Val: room}
	nodes := append([]query.Node{}, t.nodes...)
	// A constant of the same slice under another name.
	other := query.QConst{ID: "o", Val: room}
	scoped := sym.Choose("scoped", 2) == 1
	if scoped {
		ctx.AddScope("k")
		noErr(ctx.SetScope(3, room), "setting a scope")
	}
	check := func() {
		for i := range given {
			sym.Assert(room[i] == given[i], "a constant is altered")
		}
		sym.Assert(room[:n+2][n] == 77 && room[:n+2][n+1] == 77, "a constant is written behind its end")
		sym.Assert(k.ID == "k" && len(k.Val) == n && len(other.Val) == n, "a constant is altered")
		for i, m := range nodes {
			sym.Assert(m.Feat == t.nodes[i].Feat && m.ZChild == t.nodes[i].ZChild && m.OChild == t.nodes[i].OChild, "a node is altered")
			sym.Assert(sym.Iff(m.Value, t.nodes[i].Value), "the value of a node is altered")
		}
	}
	saw := []vals{}
	fail := []int{-1, 0, 2, len(t.nodes) + 1}[sym.Choose("fails at", 4)]
	sub := stub(func(ctx query.QContext) (cnf.CNF, error) {
		check()
		c, ok := ctx.ScopeConst(query.QConst{ID: "k"})
		sym.Assert(ok, "the quantified constant is not scoped")
		saw = append(saw, append(vals{}, c.Val...))
		if len(saw)-1 == fail {
			return cnf.CNF{}, errSub
		}
		return cnf.TrueCNF, nil
	})
	_, err := logop.ForAllGuarded{I: k, Q: sub}.Encoding(ctx)
	check()
	if err == nil {
		sym.Cover("visited")
		_, err = logop.ForAllGuarded{I: k, Q: sub}.Encoding(ctx)
		check()
		if err == nil {
			m := len(saw) / 2
			for i := range saw[:m] {
				sym.Assert(equalTo(saw[i], saw[m+i]), "another visit gives another instance")
			}
		}
	}
	c, ok := ctx.ScopeConst(query.QConst{ID: "k", Val: room})
	sym.Assert(ok == scoped, "the scopes are not as before")
	sym.Assert(len(c.Val) == n && (n == 0 || equalTo(c.Val, given)), "the constant means something else")
}

// oddNames holds names of all kinds, the empty one among them.
var oddNames = []query.QVar{"", " ", "x", "x ", "X", "0", "-1", "é", "nil", "_", "x#", "x,1", "x.1", "\x00", "x\n", "%d", "\"x\"", "x1", "x11"}

func oddName(n string) query.QVar { return oddNames[sym.Choose(n, len(oddNames))] }

// C05_names: variables with odd names.
func C05_names() {
	ctx := query.BasicQContext(flat(1))
	v, w := oddName("name"), oddName("other name")
	i, a := sym.Int("i", -1, 12), sym.Int("a", -1, 12)
	j, b := sym.Int("j", -1, 12), sym.Int("b", -1, 12)
	sym.Assert(!ctx.CNFVarExists(v, i, a), "variable exists from the start")
	x := ctx.CNFVar(v, i, a)
	same := sym.And(v == w, i == j, a == b)
	sym.Assert(sym.Iff(same, ctx.CNFVarExists(w, j, b)), "existence misreported")
	y := ctx.CNFVar(w, j, b)
	sym.Assert(sym.Iff(same, x == y), "numbers and triples do not correspond")
	sym.Assert(sym.And(x > 0, sym.Or(same, y > x), ctx.TopV() >= y), "fresh number in use or reserved")
	sym.Assert(sym.And(ctx.CNFVarExists(v, i, a), ctx.CNFVarExists(w, j, b)), "existing variable not reported")
	sym.Assert(sym.And(ctx.CNFVar(v, i, a) == x, ctx.CNFVar(w, j, b) == y), "number not stable")
	ctx.Reset()
	sym.Assert(sym.And(!ctx.CNFVarExists(v, i, a), !ctx.CNFVarExists(w, j, b)), "variable exists after a reset")
	sym.Cover("names")
}

// C07_names: declared variables with odd names.
func C07_names() {
	v := oddName("name")
	w := []query.QVar{"y", v + "1", v + " "}[sym.Choose("other name", sym.Bound("other names", 2, 3))]
	ctx := query.BasicQContext(flat(1))
	cv, cw := anyCells("v", 1), anyCells("w", 1)
	a := someSub("a", v, cv)
	b := sub{stub(func(ctx query.QContext) (cnf.CNF, error) {
		return cnf.FromClauses([]cnf.Clause{{ctx.CNFVar(ctx.ScopeVar(w), 0, int(query.ONE))}}), nil
	}), func() bool { return cw[0][2] }}
	var q logop.LogOpQ
	var truth func() bool
	switch sym.Choose("form", 2) {
	case 0:
		q = logop.WithVar{I: v, Q: logop.WithVar{I: w, Q: logop.And{Q1: a.q, Q2: b.q}}}
		truth = func() bool { return sym.And(a.truth(), b.truth()) }
	case 1:
		q = logop.Or{Q1: logop.WithVar{I: v, Q: a.q}, Q2: logop.Not{Q: logop.WithVar{I: w, Q: b.q}}}
		truth = func() bool { return sym.Or(a.truth(), !b.truth()) }
	}
	f, err := q.Encoding(ctx)
	noErr(err, "names")
	checkCovered("names", f)
	ctx.UpdateTopV(f.TopV())
	defs := append(cv.defs(ctx, ctx.ScopeVar(v)), cw.defs(ctx, ctx.ScopeVar(w))...)
	s, c := rawBoth(f)
	sym.Cover("declared")
	sym.EquivSat("names", s, c, defs, sym.And(cv.proper(), cw.proper(), truth()))
}
