package h

// Values read back from the solver's output.

import (
	"errors"

	"github.com/jtcaraball/goexpdt/cnf"
	"github.com/jtcaraball/goexpdt/compute"
	"github.com/jtcaraball/goexpdt/query"
	"verifharness/sym"
)

// number registers the cells of the variables in one of several orders, mixed
// with other variables.
func number(ctx query.QContext, vs []query.QVar, all bool) {
	dim := ctx.Dim()
	order := 2
	if all {
		order = sym.Choose("numbering", 4)
	}
	aux := func(i int) {
		ctx.CNFVar("other", 7, i)
	}
	ks := []query.FeatV{query.BOT, query.ZERO, query.ONE}
	cell := func(v query.QVar, i, k int) { ctx.CNFVar(v, i, int(ks[k])) }
	switch order {
	case 0: // by variable, from the first number on
		for _, v := range vs {
			for i := 0; i < dim; i++ {
				for k := range ks {
					cell(v, i, k)
				}
			}
		}
		aux(0)
	case 1: // by value, others in between, two-digit numbers
		for n := 0; n < 6; n++ {
			aux(n)
		}
		for k := range ks {
			for i := 0; i < dim; i++ {
				for _, v := range vs {
					cell(v, i, k)
				}
			}
			aux(10 + k)
		}
	case 2: // last feature first
		for i := dim - 1; i >= 0; i-- {
			for _, v := range vs {
				for k := range ks {
					cell(v, i, 2-k)
				}
			}
			aux(i)
		}
	case 3: // starting at a large number
		for n := 0; n < 98; n++ {
			aux(n)
		}
		for i := 0; i < dim; i++ {
			for k := range ks {
				for j := range vs {
					cell(vs[len(vs)-1-j], i, k)
				}
			}
		}
	}
}

// assignment is what a solver prints for the instances: a literal for each
// variable, the others having any sign.
func assignment(ctx query.QContext, vs []query.QVar, us []vals) []int {
	sign := make([]int, ctx.TopV()+1)
	for i := range sign {
		sign[i] = -1
	}
	for j, v := range vs {
		for i, u := range us[j] {
			sign[ctx.CNFVar(v, i, int(u))] = 1
		}
	}
	if sym.Choose("others are true", 2) == 1 {
		for i := 0; i < 100; i++ {
			if i < 20 && ctx.CNFVarExists("other", 7, i) {
				sign[ctx.CNFVar("other", 7, i)] = 1
			}
		}
	}
	out := []int{}
	for n := 1; n < len(sign); n++ {
		out = append(out, n*sign[n])
	}
	return out
}

// printed prints literals in one of the ways a solver may.
func printed(lits []int, all bool) []byte {
	choose := func(name string, n int) int {
		if all {
			return sym.Choose(name, n)
		}
		return 0
	}
	switch sym.Choose("order", 3) {
	case 1:
		r := []int{}
		for i := range lits {
			r = append(r, lits[len(lits)-1-i])
		}
		lits = r
	case 2:
		k := len(lits) / 2
		lits = append(append([]int{}, lits[k:]...), lits[:k]...)
	}
	if sym.Choose("only true ones", 2) == 1 {
		r := []int{}
		for _, l := range lits {
			if l > 0 {
				r = append(r, l)
			}
		}
		lits = r
	}
	per := []int{len(lits), 1, 3}[choose("per line", 3)]
	blanks := choose("blanks", 5)
	sep, lead, tail := " ", "v ", ""
	switch blanks {
	case 1:
		sep = "  "
	case 2:
		lead = "v  "
	case 3:
		tail = " "
	case 4:
		sep, lead = "\t", "v\t"
	}
	b := ""
	note := choose("comments", 4)
	switch note {
	case 1:
		b = "c v 1 2 3 0\nc\nc values: v\ns SATISFIABLE\n"
	case 2:
		b = "\ns SATISFIABLE\n\n"
	}
	n := 0
	for i, l := range lits {
		if n == 0 {
			b += lead
		} else {
			b += sep
		}
		b += itoa(l)
		n++
		if n == per && i+1 < len(lits) {
			b += tail + "\n"
			n = 0
			if note == 1 {
				b += "c v -1 -2 -3\n"
			}
			if note == 3 { // the status among the values
				b += "s SATISFIABLE\n"
			}
		}
	}
	switch choose("end", 6) {
	case 5: // the status last
		b += sep + "0" + tail + "\ns SATISFIABLE\n"
	case 0:
		b += sep + "0" + tail + "\n"
	case 1:
		b += tail + "\nv 0\n"
	case 2: // nothing marks the end
	case 3:
		b += sep + "0"
	case 4:
		b += tail + "\n" + lead + "0\nc done 17\nc v\n"
	}
	return []byte(b)
}

func declares(vs []query.QVar) stub {
	return func(ctx query.QContext) (cnf.CNF, error) {
		return cnf.FromClauses([]cnf.Clause{{1}}), nil
	}
}

func someInst(name string, dim int) vals {
	u := vals(inst(name, dim))
	for i := range u {
		u[i] = query.FeatV(sym.Conc(int(u[i])))
	}
	return u
}

// checkValues states that the values of vs are us.
func checkValues(label string, s compute.Solver, ctx query.QContext, vs []query.QVar, us []vals) {
	top := ctx.TopV()
	out, err := s.Values(vs, ctx)
	noErr(err, label)
	sym.Assert(len(out) == len(vs), label+": wrong number of values")
	for i, c := range out {
		sym.Assert(len(c.Val) == ctx.Dim(), label+": a value of wrong length")
		for j := range c.Val {
			sym.Assert(c.Val[j] == us[i][j], label+": wrong value")
		}
	}
	sym.Assert(ctx.TopV() == top, label+": reading values adds variables")
}

// C26_layouts: any instances in any layout.
func C26_layouts() {
	// Either every layout of some assignments or every assignment in some
	// layouts.
	aspect := sym.Choose("aspect", 2)
	cross := sym.Bound("aspects crossed", 0, 1) == 1
	dim := 1 + sym.Choose("dim", sym.Bound("dim", 2, 2))
	vs := []query.QVar{"v", "w"}[:1+sym.Choose("variables", 2)]
	ctx := query.BasicQContext(flat(dim))
	s := newBin("layouts")
	number(ctx, vs, cross || aspect == 0)
	us := []vals{}
	for i := range vs {
		if i == 0 && (cross || aspect == 0) {
			us = append(us, someInst("u"+itoa(i), dim))
			continue
		}
		if i == 0 {
			us = append(us, vals{query.ONE, query.BOT, query.ZERO}[:dim])
			continue
		}
		// The second one is the first one turned.
		u := vals{}
		for j := range us[0] {
			u = append(u, (us[0][j]+1)%3)
		}
		us = append(us, u)
	}
	out := printed(assignment(ctx, vs, us), cross || aspect == 1)
	sym.SetSolver(10, false, out, nil)
	noErr(s.Step(declares(vs), ctx), "layouts")
	sym.Cover("read")
	checkValues("values", s, ctx, vs, us)
	if len(vs) == 2 {
		checkValues("turned", s, ctx, []query.QVar{"w", "v"}, []vals{us[1], us[0]})
		checkValues("one", s, ctx, vs[1:], us[1:])
	}
	checkValues("twice", s, ctx, []query.QVar{"v", "v"}, []vals{us[0], us[0]})
	checkValues("none", s, ctx, nil, nil)
}

// C26_signs: any assignment, in a layout where signs are blanks or dashes.
func C26_signs() {
	dim := 1 + sym.Choose("dim", sym.Bound("dim", 3, 4))
	ctx := query.BasicQContext(flat(dim))
	s := newBin("signs")
	ctx.CNFVar("other", 0, 0)
	register(ctx, "v")
	text := []byte("v")
	var cell [5][3]bool
	for n := 1; n <= ctx.TopV(); n++ {
		text = append(text, ' ')
		pos := sym.Bool("positive")
		for i := 0; i < dim; i++ {
			for _, f := range []query.FeatV{query.BOT, query.ZERO, query.ONE} {
				if ctx.CNFVar("v", i, int(f)) == n {
					cell[i][f] = pos
				}
			}
		}
		text = append(text, byte(sym.Ite(pos, ' ', '-')))
		text = append(text, itoa(n)...)
	}
	for i := 0; i < dim; i++ {
		sym.Assume(sym.B2I(cell[i][0])+sym.B2I(cell[i][1])+sym.B2I(cell[i][2]) == 1)
	}
	sym.SetSolver(10, false, append(text, " 0\n"...), nil)
	noErr(s.Step(declares(nil), ctx), "signs")
	out, err := s.Values([]query.QVar{"v"}, ctx)
	noErr(err, "signs")
	sym.Cover("read")
	sym.Assert(len(out) == 1 && len(out[0].Val) == dim, "signs: a value of wrong length")
	for i, f := range out[0].Val {
		sym.Assert(f <= query.ONE || f == query.BOT, "signs: no value")
		sym.Assert(cell[i][f], "signs: a value the solver did not assign")
	}
}

// plain prints literals in the usual way.
func plain(lits []int) []byte {
	b := "s SATISFIABLE\nv"
	for _, l := range lits {
		b += " " + itoa(l)
	}
	return []byte(b + " 0\n")
}

// C26_histories: what is read after any sequence of runs.
func C26_histories() {
	dim := 1 + sym.Choose("dim", 2)
	vs := []query.QVar{"v"}
	ctx := query.BasicQContext(flat(dim))
	s := newBin("histories")
	register(ctx, "v")
	ctx.CNFVar("other", 0, 0)
	var last vals
	for k := 0; k < sym.Bound("runs", 2, 3); k++ {
		exit := sym.Int("exit", 0, 30)
		sig := sym.Bool("signal")
		u := someInst("u"+itoa(k), dim)
		lits := []int{}
		for i := range u {
			for _, f := range []query.FeatV{query.BOT, query.ZERO, query.ONE} {
				n := ctx.CNFVar("v", i, int(f))
				if f != u[i] {
					n = -n
				}
				lits = append(lits, n)
			}
		}
		// Even an unsatisfiable or failed run may print values.
		sym.SetSolver(exit, sig, plain(lits), []byte("message"))
		err := s.Step(declares(vs), ctx)
		checkOutcome("run", err, exit, sig)
		if err == nil {
			last = u
		}
		if last != nil {
			sym.Cover("values")
			checkValues("history", s, ctx, vs, []vals{last})
			// The caller may do as it likes with them.
			out, err := s.Values(vs, ctx)
			noErr(err, "history")
			for i := range out[0].Val {
				out[0].Val[i] = query.ONE
			}
			checkValues("history again", s, ctx, vs, []vals{last})
		} else {
			sym.Cover("no values")
			_, err := s.Values(vs, ctx)
			sym.Assert(err != nil, "values without a satisfiable run")
		}
	}
}

// C26_partial: the output misses the value of a feature or of a variable.
func C26_partial() {
	dim := 1 + sym.Choose("dim", 2)
	ctx := query.BasicQContext(flat(dim))
	s := newBin("partial")
	register(ctx, "v")
	register(ctx, "w")
	miss := sym.Choose("missing", dim)
	u := someInst("u", dim)
	lits := []int{}
	for i := range u {
		for _, f := range []query.FeatV{query.BOT, query.ZERO, query.ONE} {
			n := ctx.CNFVar("v", i, int(f))
			if f != u[i] || i == miss {
				n = -n
			}
			lits = append(lits, n)
			if i == miss && sym.Choose("omitted", 2) == 1 {
				lits = lits[:len(lits)-1]
			}
			lits = append(lits, ctx.CNFVar("w", i, int(f)))
		}
	}
	sym.SetSolver(10, false, plain(lits), nil)
	noErr(s.Step(declares(nil), ctx), "partial")
	sym.Cover("partial")
	_, err := s.Values([]query.QVar{"v"}, ctx)
	sym.Assert(err != nil, "an instance is made up")
	sym.Assert(!errors.Is(err, compute.UnsatError), "unreadable output reads as unsatisfiable")
	_, err = s.Values([]query.QVar{"w", "v"}, ctx)
	sym.Assert(err != nil, "an instance is made up")
	_, err = s.Values([]query.QVar{"unknown"}, ctx)
	sym.Assert(err != nil, "an unknown variable has a value")
}

// C26_garbage: any few bytes on a value line or anywhere.
func C26_garbage() {
	ctx := query.BasicQContext(flat(1))
	s := newBin("garbage")
	register(ctx, "v")
	n := sym.Choose("bytes", 1+sym.Bound("bytes", 3, 4))
	g := []byte{}
	for i := 0; i < n; i++ {
		c := sym.Byte("byte")
		g = append(g, c)
	}
	place := sym.Choose("place", 3)
	text := []byte("s SATISFIABLE\n")
	switch place {
	case 0: // a value line of its own
		text = append(text, "v "...)
		text = append(text, g...)
		text = append(text, "\nv -1 2 -3 0\n"...)
	case 1: // between the values
		text = append(text, "v 1 "...)
		text = append(text, g...)
		text = append(text, " -2 -3 0\n"...)
	case 2: // all there is
		text = g
	}
	sym.SetSolver(10, false, text, nil)
	noErr(s.Step(declares(nil), ctx), "garbage")
	out, err := s.Values([]query.QVar{"v"}, ctx)
	bad, odd := malformed(text)
	if bad {
		sym.Cover("unreadable")
		sym.Assert(err != nil, "garbage is taken for values")
		sym.Assert(!errors.Is(err, compute.UnsatError), "unreadable output reads as unsatisfiable")
	}
	if err == nil {
		sym.Cover("readable")
		sym.Assert(len(out) == 1 && len(out[0].Val) == 1, "a value of wrong length")
		if !odd && !bad {
			ok := false
			cell := []query.FeatV{query.BOT, query.ZERO, query.ONE}
			for _, l := range readValues(text) {
				for _, f := range cell {
					if l == ctx.CNFVar("v", 0, int(f)) && out[0].Val[0] == f {
						ok = true
					}
				}
			}
			sym.Assert(ok, "a value the solver did not assign")
		}
	}
}

// malformed tells whether a value line holds something that is no integer,
// and whether there is a line that starts like one but is none.
func malformed(b []byte) (bad, odd bool) {
	for i := 0; i < len(b); {
		j := i
		for j < len(b) && b[j] != '\n' {
			j++
		}
		line := b[i:j]
		i = j + 1
		if len(line) == 0 || line[0] != 'v' {
			continue
		}
		if len(line) > 1 && line[1] != ' ' {
			odd = true
			continue
		}
		for _, c := range line {
			// Blanks of other kinds.
			if c >= 0x80 || c >= '\t' && c <= '\r' || c == '+' {
				odd = true
			}
		}
		if odd {
			continue
		}
		at := 1
		for at < len(line) {
			if line[at] == ' ' {
				at++
				continue
			}
			digits := 0
			if line[at] == '-' {
				at++
			}
			for at < len(line) && line[at] != ' ' {
				if line[at] < '0' || line[at] > '9' {
					bad = true
				}
				digits++
				at++
			}
			if digits == 0 {
				bad = true
			}
		}
	}
	return bad, odd
}

// readValues are the integers of the value lines of a well-formed output.
func readValues(b []byte) []int {
	out := []int{}
	for i := 0; i < len(b); {
		j := i
		for j < len(b) && b[j] != '\n' {
			j++
		}
		line := b[i:j]
		i = j + 1
		if len(line) == 0 || line[0] != 'v' {
			continue
		}
		v, neg, in := 0, false, false
		for at := 1; at <= len(line); at++ {
			if at == len(line) || line[at] == ' ' {
				if in && neg {
					v = -v
				}
				if in {
					out = append(out, v)
				}
				v, neg, in = 0, false, false
				continue
			}
			in = true
			if line[at] == '-' {
				neg = true
			} else {
				v = v*10 + int(line[at]-'0')
			}
		}
	}
	return out
}

// C26_long: output of many values, in long lines, with long comments.
func C26_long() {
	ctx := query.BasicQContext(flat(2))
	s := newBin("long")
	register(ctx, "v")
	many := sym.Bound("values printed", 14000, 40000)
	ctx.UpdateTopV(many)
	register(ctx, "w")
	u, w := someInst("u", 2), vals{query.ONE, query.BOT}
	sign := map[int]bool{}
	for i := range u {
		sign[ctx.CNFVar("v", i, int(u[i]))] = true
		sign[ctx.CNFVar("w", i, int(w[i]))] = true
	}
	style := sym.Choose("style", 3)
	b := []byte("c ")
	if style == 2 {
		for i := 0; i < 70000; i++ {
			b = append(b, "v 1"[i%3])
		}
	}
	b = append(b, "\nv"...)
	for n := 1; n <= ctx.TopV(); n++ {
		b = append(b, ' ')
		if !sign[n] {
			b = append(b, '-')
		}
		b = append(b, itoa(n)...)
		if style == 1 && n%9 == 0 {
			b = append(b, "\nv"...)
		}
	}
	b = append(b, " 0\n"...)
	sym.SetSolver(10, false, b, nil)
	noErr(s.Step(declares(nil), ctx), "long")
	sym.Cover("read")
	checkValues("long", s, ctx, []query.QVar{"w", "v"}, []vals{w, u})
}
