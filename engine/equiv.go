package main

// Deciding what a produced CNF means. The literals of the formula are turned
// into boolean terms: variables with a definition become the defining term
// over the harness inputs, all others are existentially quantified.

import (
	"fmt"
	"sort"
)

type formula struct {
	s, c []*Expr // clauses
	aux  []*Expr // existential symbols, ascending
	auxN map[*Expr]int
	// clause literal lists for the c part followed by the s part
	lits [][]*Expr
}

// solver-side symbols of CNF variables, prefix kept distinct from inputs.
func (w *Worker) auxSym(tag string, k int64) *Expr {
	return w.ctx.sym(fmt.Sprintf("%s!%d", tag, k), 0)
}

type litEnv struct {
	w    *Worker
	tag  string
	defs map[int64]*Expr
	aux  map[int64]*Expr
	max  int64
	memo map[*Expr]*Expr
	zero bool // the literal being walked has a branch with value 0
}

func (le *litEnv) variable(k int64) *Expr {
	if d, ok := le.defs[k]; ok {
		return d
	}
	if a, ok := le.aux[k]; ok {
		return a
	}
	a := le.w.auxSym(le.tag, k)
	le.aux[k] = a
	return a
}

func (le *litEnv) litConst(k int64) *Expr {
	if k == 0 {
		le.zero = true
		return le.w.ctx.ff
	}
	if k > 0 {
		return le.variable(k)
	}
	return le.w.ctx.not(le.variable(-k))
}

func (le *litEnv) lit(v value) *Expr {
	const zero = "literal zero in formula"
	switch v := v.(type) {
	case int64:
		if v == 0 {
			panic(&violationPanic{label: zero, kind: "assert"})
		}
		return le.litConst(v)
	case *Expr:
		e := le.w.simp(v)
		if r, ok := le.memo[e]; ok {
			return r
		}
		le.zero = false
		r := le.litExpr(e)
		if le.zero {
			// Some branch or value of the symbol's domain gives 0; it may be
			// excluded by the path condition.
			if st, m := le.w.check(le.w.ctx.eq(e, le.w.ctx.bv(0, e.w))); st == Sat {
				panic(&violationPanic{label: zero, kind: "assert", model: fillModel(m, cloneModel(le.w.path.model))})
			}
		}
		return r
	}
	panic(internalErr(fmt.Sprintf("literal %T", v)))
}

func (le *litEnv) litExpr(e *Expr) *Expr {
	if e.isConst() {
		return le.litConst(sext(e.val, e.w))
	}
	if r, ok := le.memo[e]; ok {
		return r
	}
	var r *Expr
	ctx := le.w.ctx
	if e.op == OIte {
		r = ctx.ite(e.args[0], le.litExpr(e.args[1]), le.litExpr(e.args[2]))
	} else if (e.op == OSExt || e.op == OZExt) && (e.args[0].op == OIte || e.args[0].op == ONeg && e.op == OSExt) {
		x, sg := e.args[0], e.op == OSExt
		if x.op == OIte {
			r = ctx.ite(x.args[0], le.litExpr(ctx.conv(x.args[1], e.w, sg)), le.litExpr(ctx.conv(x.args[2], e.w, sg)))
		} else if slimWidthOf(x.args[0]) < x.w {
			r = ctx.not(le.litExpr(ctx.conv(x.args[0], e.w, true)))
		}
	} else if e.op == ONeg {
		r = ctx.not(le.litExpr(e.args[0]))
	}
	if r == nil {
		// Enumerate the possible values of the term under the path condition.
		vals := le.w.possible(e, 4096)
		r = ctx.ff
		for i, k := range vals {
			l := le.litConst(k)
			if i == len(vals)-1 && r == ctx.ff && len(vals) == 1 {
				r = l
				break
			}
			r = ctx.or(r, ctx.and(ctx.eq(e, ctx.bv(uint64(k), e.w)), l))
		}
	}
	le.memo[e] = r
	return r
}

// possible lists the values e can have under the path condition
func (w *Worker) possible(e *Expr, max int) []int64 {
	// (or a superset of them, when other symbols restrict the symbol of e)
	if si := w.single(e); si != nil {
		seen := map[int64]bool{}
		var out []int64
		m := Model{}
		for _, v := range si.dom {
			m[si.name] = v
			x := sext(eval(e, m, map[*Expr]uint64{}), e.w)
			if !seen[x] {
				seen[x] = true
				out = append(out, x)
			}
		}
		return out
	}
	var out []int64
	var block []*Expr
	for len(out) < max {
		var r Result
		var m Model
		r, m = w.check(block...)
		if r != Sat {
			return out
		}
		v := sext(eval(e, fillModel(m, w.path.model), map[*Expr]uint64{}), e.w)
		out = append(out, v)
		block = append(block, w.ctx.not(w.ctx.eq(e, w.ctx.bv(uint64(v), e.w))))
	}
	panic(internalErr("too many values for a literal"))
}

func (w *Worker) clauses(le *litEnv, v value) ([]*Expr, [][]*Expr) {
	var out []*Expr
	var ls [][]*Expr
	for _, cl := range v.(slicev) {
		var lits []*Expr
		for _, l := range cl.(slicev) {
			lits = append(lits, le.lit(l))
		}
		ls = append(ls, lits)
		out = append(out, w.ctx.or(lits...))
	}
	return out, ls
}

func (w *Worker) parseDefs(v value) map[int64]*Expr {
	m := map[int64]*Expr{}
	for _, d := range v.(slicev) {
		st := d.(structv)
		k := int64(w.concInt(st[0]))
		m[k] = w.simp(w.toBool(st[1]))
	}
	return m
}

// equiv checks that the formula S (semantic) with C (consistency) means spec:
//
//	full:  C∧S → spec, C∧¬S → ¬spec, and C is satisfiable for every input;
//	!full: spec ⇔ ∃aux C∧S.
func (w *Worker) equiv(label string, sv, cv, dv, spec value, full bool) {
	e := w.eng
	w.flush()
	le := &litEnv{w: w, tag: "v", defs: w.parseDefs(dv), aux: map[int64]*Expr{}, memo: map[*Expr]*Expr{}}
	sp := w.simp(w.toBool(spec))
	if w.replaying() {
		// Decided by the path this one was forked from. The literals must
		// still be walked: that may not fork, so nothing is left to do.
		return
	}
	e.mu.Lock()
	e.stats.Equivs++
	e.mu.Unlock()
	w.path.h.mu.Lock()
	w.path.h.equivs++
	w.path.h.mu.Unlock()
	C, cl := w.clauses(le, cv)
	S, sl := w.clauses(le, sv)
	ctx := w.ctx
	ce := ctx.and(C...)
	se := ctx.and(S...)
	report := func(kind string, m Model) {
		w.violation(label+": "+kind, "equiv", "", fillModel(m, cloneModel(w.path.model)))
		w.checkHalt()
	}
	// Soundness.
	if q := ctx.and(ce, se, ctx.not(sp)); q != ctx.ff {
		if r, m := w.check(q); r == Sat {
			report("holds where it should not", m)
			return
		}
	}
	if full {
		if q := ctx.and(ce, ctx.not(se), sp); q != ctx.ff {
			if r, m := w.check(q); r == Sat {
				report("negation holds where it should not", m)
				return
			}
		}
		if m := w.forallExists(le, nil, C, cl); m != nil {
			report("consistency clauses exclude an instance", m)
		}
		return
	}
	all := append(append([]*Expr{}, C...), S...)
	ll := append(append([][]*Expr{}, cl...), sl...)
	if m := w.forallExists(le, sp, all, ll); m != nil {
		report("does not hold where it should", m)
	}
}

// forallExists decides whether for all inputs (satisfying pre and the path
// condition) some values of the auxiliary variables satisfy all clauses. It
// returns nil, or a model of the inputs for which none do.
func (w *Worker) forallExists(le *litEnv, pre *Expr, cls []*Expr, lits [][]*Expr) Model {
	ctx := w.ctx
	F := ctx.and(cls...)
	if F == ctx.tt {
		return nil
	}
	var ks []int64
	for k := range le.aux {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	base := []*Expr{}
	if pre != nil {
		if pre == ctx.ff {
			return nil
		}
		base = append(base, pre)
	}
	if len(ks) == 0 {
		r, m := w.check(append(base, ctx.not(F))...)
		if r == Sat {
			return m
		}
		return nil
	}
	auxIdx := map[*Expr]int{}
	for i, k := range ks {
		auxIdx[le.aux[k]] = i
	}
	// Heuristic Skolem functions: in ascending order a variable is true
	// exactly when a clause over inputs and earlier variables forces it.
	sk := w.skolem(ks, le, lits, auxIdx)
	sub := func(m map[*Expr]*Expr) *Expr {
		return ctx.subst(F, func(x *Expr) *Expr {
			if x.op == OSym {
				return m[x]
			}
			return nil
		}, map[*Expr]*Expr{})
	}
	block := append([]*Expr{}, base...)
	for _, m := range sk {
		block = append(block, ctx.not(sub(m)))
	}
	for it := 0; ; it++ {
		if it == 1 {
			// In the order in which they depend on each other.
			block = append(block, ctx.not(sub(w.defined(ks, le, lits, auxIdx))))
		}
		if it == 2 {
			// The witnesses are not forced: eliminate them.
			if e, ok := w.eliminate(le, ks, cls, lits, auxIdx); ok {
				block = append(block, ctx.not(e))
			}
		}
		if it > 20000 {
			panic(internalErr("quantified query did not converge"))
		}
		r, m := w.check(block...)
		if r == Unsat {
			return nil
		}
		w.eng.mu.Lock()
		w.eng.stats.CegarIter++
		w.eng.mu.Unlock()
		m = fillModel(m, cloneModel(w.path.model))
		// Fix the inputs, look for auxiliary values.
		inputs := ctx.subst(F, func(x *Expr) *Expr {
			if x.op == OSym {
				if _, aux := auxIdx[x]; aux {
					return nil
				}
				if x.w == 0 {
					return ctx.bool(m[x.name] != 0)
				}
				return ctx.bv(m[x.name], x.w)
			}
			return nil
		}, map[*Expr]*Expr{})
		var want []*Expr
		for _, k := range ks {
			want = append(want, le.aux[k])
		}
		w.checkHalt()
		r2, am := w.sol.Check(nil, []*Expr{inputs}, want)
		if r2 == Unknown {
			w.checkHalt()
			panic(undecided{})
		}
		if r2 == Unsat {
			return m
		}
		asg := map[*Expr]*Expr{}
		for _, k := range ks {
			a := le.aux[k]
			asg[a] = ctx.bool(am[a.name] != 0)
		}
		block = append(block, ctx.not(sub(asg)))
	}
}

// skolem proposes definitions of the auxiliary variables.
func (w *Worker) skolem(ks []int64, le *litEnv, lits [][]*Expr, idx map[*Expr]int) []map[*Expr]*Expr {
	ctx := w.ctx
	// For each clause the highest auxiliary variable it mentions as a plain
	// literal.
	type occ struct{ conds []*Expr }
	pos := make([][]*Expr, len(ks))
	neg := make([][]*Expr, len(ks))
	for _, cl := range lits {
		top, at := -1, -1
		mixed := false
		for j, l := range cl {
			b := l
			if b.op == ONot {
				b = b.args[0]
			}
			if i, ok := idx[b]; ok {
				if i > top {
					top, at = i, j
				}
				continue
			}
			for _, s := range ctx.support(l) {
				if i, ok := idx[s]; ok {
					_ = i
					mixed = true
				}
			}
		}
		if top < 0 || mixed {
			continue
		}
		var rest []*Expr
		for j, l := range cl {
			if j != at {
				rest = append(rest, ctx.not(l))
			}
		}
		cond := ctx.and(rest...)
		if cl[at].op == ONot {
			neg[top] = append(neg[top], cond)
		} else {
			pos[top] = append(pos[top], cond)
		}
	}
	build := func(low bool) map[*Expr]*Expr {
		m := map[*Expr]*Expr{}
		memo := map[*Expr]*Expr{}
		for i, k := range ks {
			var d *Expr
			if low {
				d = ctx.or(pos[i]...)
			} else {
				d = ctx.not(ctx.or(neg[i]...))
			}
			d = ctx.subst(d, func(x *Expr) *Expr {
				if x.op == OSym {
					return m[x]
				}
				return nil
			}, memo)
			m[le.aux[k]] = d
			memo = map[*Expr]*Expr{}
		}
		return m
	}
	return []map[*Expr]*Expr{build(true), build(false)}
}

// defined proposes definitions of the auxiliary variables like skolem does, but
// not in the order of their numbers: next comes a variable which the clauses
// over inputs and earlier variables seem to force, judged by a few values of
// the inputs, or else the one of the lowest number.
func (w *Worker) defined(ks []int64, le *litEnv, lits [][]*Expr, idx map[*Expr]int) map[*Expr]*Expr {
	ctx := w.ctx
	const probes = 24
	rnd := uint64(88172645463325252)
	models := make([]Model, probes)
	memos := make([]map[*Expr]uint64, probes)
	for p := range models {
		m := cloneModel(w.path.model)
		if p > 0 {
			for name, si := range w.path.symBy {
				rnd ^= rnd << 13
				rnd ^= rnd >> 7
				rnd ^= rnd << 17
				if len(si.dom) > 0 && !si.pin {
					m[name] = si.dom[rnd>>11%uint64(len(si.dom))]
				} else if si.dom == nil && si.e.w == 0 {
					m[name] = rnd >> 40 & 1
				}
			}
		}
		models[p] = m
		memos[p] = map[*Expr]uint64{}
	}
	holds := func(p int, x *Expr) bool { return eval(x, models[p], memos[p]) != 0 }
	split := func(l *Expr) (int, bool) {
		b := l
		if b.op == ONot {
			b = b.args[0]
		}
		if i, ok := idx[b]; ok {
			return i, l.op == ONot
		}
		return -1, false
	}
	left := make([]int, len(lits)) // auxiliary variables not defined yet
	in := make([][]int, len(ks))
	for n, cl := range lits {
		for _, l := range cl {
			if i, _ := split(l); i >= 0 {
				left[n]++
				in[i] = append(in[i], n)
				continue
			}
			for _, s := range ctx.support(l) {
				if _, ok := idx[s]; ok {
					left[n] = 1 << 30 // no plain clause
				}
			}
		}
	}
	def := make([]*Expr, len(ks))
	pos := make([][]*Expr, len(ks))
	cover := make([][probes]bool, len(ks))
	set := make([][probes]bool, len(ks))
	var ready []int
	// one is called for a clause with one variable left.
	one := func(n int) {
		at := -1
		neg := false
		var rest []*Expr
		for _, l := range lits[n] {
			i, ng := split(l)
			if i < 0 {
				rest = append(rest, ctx.not(l))
				continue
			}
			if def[i] == nil {
				at, neg = i, ng
				continue
			}
			if ng {
				rest = append(rest, def[i])
			} else {
				rest = append(rest, ctx.not(def[i]))
			}
		}
		if at < 0 {
			return
		}
		cond := ctx.and(rest...)
		if !neg {
			pos[at] = append(pos[at], cond)
		}
		all := true
		for p := 0; p < probes; p++ {
			if !cover[at][p] || !neg && !set[at][p] {
				if holds(p, cond) {
					cover[at][p] = true
					if !neg {
						set[at][p] = true
					}
				}
			}
			all = all && cover[at][p]
		}
		if all {
			ready = append(ready, at)
		}
	}
	for n := range lits {
		if left[n] == 1 {
			one(n)
		}
	}
	low := 0
	for {
		v := -1
		for len(ready) > 0 && v < 0 {
			v = ready[0]
			ready = ready[1:]
			if def[v] != nil {
				v = -1
			}
		}
		if v < 0 {
			for low < len(ks) && def[low] != nil {
				low++
			}
			if low == len(ks) {
				break
			}
			v = low
		}
		def[v] = ctx.or(pos[v]...)
		for _, n := range in[v] {
			if left[n]--; left[n] == 1 {
				one(n)
			}
		}
	}
	out := map[*Expr]*Expr{}
	for i, k := range ks {
		out[le.aux[k]] = def[i]
	}
	return out
}

// eliminate computes a term over the inputs which says that some values of
// the auxiliary variables satisfy all clauses: variables which their clauses
// define are replaced by their definitions, the others are expanded, highest
// first. It gives up when the term gets too large.
func (w *Worker) eliminate(le *litEnv, ks []int64, cls []*Expr, lits [][]*Expr, idx map[*Expr]int) (*Expr, bool) {
	ctx := w.ctx
	const limit = 400000
	pos := make([][]*Expr, len(ks))
	neg := make([][]*Expr, len(ks))
	tops := make([]int, len(lits))
	loose := make([]bool, len(ks)) // mentioned inside larger literals
	for n, cl := range lits {
		top, at := -1, -1
		for j, l := range cl {
			b := l
			if b.op == ONot {
				b = b.args[0]
			}
			if i, ok := idx[b]; ok {
				if i > top {
					top, at = i, j
				}
				continue
			}
			for _, s := range ctx.support(l) {
				if i, ok := idx[s]; ok {
					loose[i] = true
				}
			}
		}
		tops[n] = top
		if top < 0 {
			continue
		}
		var rest []*Expr
		for j, l := range cl {
			if j != at {
				rest = append(rest, ctx.not(l))
			}
		}
		cond := ctx.and(rest...)
		if cl[at].op == ONot {
			neg[top] = append(neg[top], cond)
		} else {
			pos[top] = append(pos[top], cond)
		}
	}
	def := map[*Expr]*Expr{}
	memo := map[*Expr]*Expr{}
	repl := func(x *Expr) *Expr {
		if x.op == OSym {
			return def[x]
		}
		return nil
	}
	functional := make([]bool, len(ks))
	var free []*Expr
	for i, k := range ks {
		v := le.aux[k]
		if !loose[i] && len(pos[i]) > 0 && len(neg[i]) > 0 {
			low, high := ctx.or(pos[i]...), ctx.not(ctx.or(neg[i]...))
			same := low == high
			if !same {
				w.checkHalt()
				r, _ := w.sol.Check(nil, []*Expr{ctx.not(ctx.eq(low, high))}, nil)
				same = r == Unsat
			}
			if same {
				functional[i] = true
				def[v] = ctx.subst(low, repl, memo)
				continue
			}
		}
		free = append(free, v)
	}
	memo = map[*Expr]*Expr{}
	var conj []*Expr
	add := func(e *Expr) {
		if e.op == OAnd {
			conj = append(conj, e.args...)
		} else if e != ctx.tt {
			conj = append(conj, e)
		}
	}
	for n, c := range cls {
		if tops[n] >= 0 && functional[tops[n]] {
			continue // holds by the definition
		}
		add(ctx.subst(c, repl, memo))
	}
	start := ctx.n
	mentions := func(e, v *Expr, memo map[*Expr]bool) bool {
		var walk func(x *Expr) bool
		walk = func(x *Expr) bool {
			if x == v {
				return true
			}
			if !x.hasSym || x.op == OSym {
				return false
			}
			if r, ok := memo[x]; ok {
				return r
			}
			r := false
			for _, a := range x.args {
				if walk(a) {
					r = true
					break
				}
			}
			memo[x] = r
			return r
		}
		return walk(e)
	}
	for i := len(free) - 1; i >= 0; i-- {
		w.checkHalt()
		v := free[i]
		seen := map[*Expr]bool{}
		var in, out []*Expr
		for _, e := range conj {
			if mentions(e, v, seen) {
				in = append(in, e)
			} else {
				out = append(out, e)
			}
		}
		if len(in) == 0 {
			continue
		}
		conj = out
		f := ctx.and(in...)
		half := func(val *Expr) *Expr {
			return ctx.subst(f, func(x *Expr) *Expr {
				if x == v {
					return val
				}
				return nil
			}, map[*Expr]*Expr{})
		}
		add(ctx.or(half(ctx.ff), half(ctx.tt)))
		if ctx.n-start > limit {
			return nil, false
		}
	}
	return ctx.and(conj...), true
}

// solve models an ideal solver: it decides the formula and returns an
// arbitrary satisfying valuation.
// With one set, it is a particular valuation.
func (w *Worker) solve(tag string, sv, cv value, one bool) value {
	// The literals are made concrete first.
	max := int64(0)
	conc := func(v value) [][]int64 {
		var out [][]int64
		for _, cl := range v.(slicev) {
			var c []int64
			for _, l := range cl.(slicev) {
				x := int64(w.concInt(w.simpVal(l)))
				if x > max {
					max = x
				}
				if -x > max {
					max = -x
				}
				c = append(c, x)
			}
			out = append(out, c)
		}
		return out
	}
	cls := append(conc(sv), conc(cv)...)
	w.flush()
	p := w.path
	name := w.uniq(tag)
	var terms []*Expr
	vars := make([]*Expr, max+1)
	for k := int64(1); k <= max; k++ {
		vars[k] = w.ctx.sym(fmt.Sprintf("%s!%d", name, k), 0)
	}
	for _, c := range cls {
		var ls []*Expr
		for _, l := range c {
			switch {
			case l == 0:
				panic(&violationPanic{label: "literal zero in formula", kind: "assert"})
			case l > 0:
				ls = append(ls, vars[l])
			default:
				ls = append(ls, w.ctx.not(vars[-l]))
			}
		}
		terms = append(terms, w.ctx.or(ls...))
	}
	f := w.ctx.and(terms...)
	var sat bool
	var m Model
	if w.replaying() {
		sat = w.nextDec() == 1
	} else {
		w.checkHalt()
		r, mm := w.sol.Check(nil, []*Expr{f}, vars[1:])
		if r == Unknown {
			w.checkHalt()
			panic(undecided{})
		}
		sat = r == Sat
		m = mm
		d := int64(0)
		if sat {
			d = 1
		}
		w.addDec(d)
	}
	rec := inputRec{name: name, vals: []value{int64(0)}}
	if !sat {
		p.inputs = append(p.inputs, rec)
		return tuple{false, slicev(nil)}
	}
	rec.vals[0] = int64(1)
	if one {
		out := make(slicev, max+1)
		out[0] = false
		var d int64
		for k := int64(1); k <= max; k++ {
			i := (k - 1) % 60
			if i == 0 && w.replaying() {
				d = w.nextDec()
			} else if i == 0 {
				d = 0
				for j := int64(0); j < 60 && k+j <= max; j++ {
					d |= int64(m[vars[k+j].name]&1) << j
				}
				w.addDec(d)
			}
			out[k] = d>>i&1 == 1
			rec.vals = append(rec.vals, d>>i&1)
		}
		p.inputs = append(p.inputs, rec)
		return tuple{true, out}
	}
	out := make(slicev, max+1)
	out[0] = false
	for k := int64(1); k <= max; k++ {
		si := &symInfo{e: vars[k], name: vars[k].name, dom: []uint64{0, 1}}
		p.syms = append(p.syms, si)
		p.symBy[si.name] = si
		if _, ok := p.model[si.name]; !ok {
			p.model[si.name] = m[si.name]
		}
		rec.vals = append(rec.vals, vars[k])
		out[k] = vars[k]
	}
	p.inputs = append(p.inputs, rec)
	w.addPC(f)
	for k := int64(1); k <= max; k++ {
		out[k] = w.box(w.simp(vars[k]), intKind{})
	}
	return tuple{true, out}
}

func slimWidthOf(x *Expr) uint8 {
	if n, ok := slimWidth(x); ok {
		return n
	}
	return x.w
}
