package main

// Path exploration: a path is identified by its decisions; exploring a path
// re-executes the harness along a prefix of decisions and continues freely,
// handing the feasible alternatives found by the solver to the work list.

import (
	"fmt"
	"math/bits"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Decision encodings.
const (
	dFalse = iota
	dTrue
	dForcedFalse
	dForcedTrue
)

type item struct {
	h      *Harness
	prefix []int64
	model  Model
}

type Harness struct {
	name     string
	fn       *ssa.Function
	property string

	mu       sync.Mutex
	paths    int
	killed   int
	decs     int
	asserts  int
	equivs   int
	covers   map[string]int
	wantCov  map[string]bool
	bounds   map[string]int
	maxSteps int64
	steps    int64
	findings int

	stack  []*item
	active int
	spent  time.Duration // by all workers
	mean   time.Duration // of a path
}

// take removes the item to be run next. The harnesses share the time, so that
// none is left out when the time does not suffice for all.
func (e *Engine) take() *item {
	var h *Harness
	var least time.Duration
	for _, x := range e.hs {
		if t := x.spent + time.Duration(x.active)*x.mean; len(x.stack) > 0 && (h == nil || t < least) {
			h, least = x, t
		}
	}
	k := len(h.stack) - 1
	if e.thorough && k < 20000 {
		// Not only one corner of what there is.
		e.rng = e.rng*6364136223846793005 + 1442695040888963407
		if r := e.rng >> 33; r%4 == 0 {
			i := int(r/4) % (k + 1)
			h.stack[i], h.stack[k] = h.stack[k], h.stack[i]
		}
	}
	it := h.stack[k]
	h.stack = h.stack[:k]
	h.active++
	e.active++
	e.waiting--
	return it
}

// ran notes that an item was run.
func (e *Engine) ran(it *item, t time.Duration) {
	e.active--
	it.h.active--
	it.h.spent += t
	it.h.mean += (t - it.h.mean) / 8
}

type symInfo struct {
	e    *Expr // raw symbol
	dom  []uint64
	ent  bool // occurs in a constraint together with other symbols
	pin  bool
	val  uint64
	name string
}

type inputRec struct {
	name string
	vals []value // int64 or *Expr, evaluated under the model at the end
}

type obsRec struct {
	name string
	v    value
}

type Path struct {
	h        *Harness
	prefix   []int64
	pos      int
	dec      []int64
	model    Model
	memo     map[*Expr]uint64
	pc       []*Expr
	facts    map[*Expr]bool
	syms     []*symInfo
	symBy    map[string]*symInfo
	inputs   []inputRec
	obs      []obsRec
	notes    []string
	names    map[string]int
	smemo    map[*Expr]*Expr
	npin     int
	fs       *fsModel
	waits    map[*value]iface
	pipes    map[*value]*value
	pools    map[*value][]value
	atoms    map[*value]*value
	syncMaps map[*value]*mapv
	confirm  []*Expr
	checked  int
	pend     []pending
	// inRegions
}

// pending is an assertion not decided yet.
type pending struct {
	e     *Expr
	label string
	notes int
}

type Worker struct {
	cur       *frame // frame executing, for diagnostics
	curIn     *dinstr
	eng       *Engine
	p         *Program
	ctx       *Ctx
	sol       *Solver
	globals   map[*ssa.Global]*value
	repoGlob  map[*ssa.Global]*value
	stdInit   map[*ssa.Package]bool
	methods   map[methKey]*ssa.Function
	noted     map[*finfo]bool
	path      *Path
	steps     int64
	maxSteps  int64
	spec      int
	specCells map[*value]bool
	lenient   int
	once      map[*value]bool
}

type killPath struct{}
type haltRun struct{}

// undecided ends a path on which the solver gave no answer.
type undecided struct{}

type violationPanic struct {
	label  string
	kind   string
	detail string
	model  Model
}

type Violation struct {
	Harness string
	Label   string
	Kind    string
	Detail  string
	Notes   []string
	Inputs  []ReplayInput
	Sig     string
}

type Engine struct {
	p        *Program
	property string
	thorough bool
	workers  int
	z3       []string
	qtimeout int
	deadline time.Time
	rtErr    types.Type
	initOrd  []*ssa.Package

	mu         sync.Mutex
	cond       *sync.Cond
	hs         []*Harness
	waiting    int // items of all harnesses not taken yet
	active     int
	halted     bool
	timedOut   bool
	nUndecided int // paths
	err        error
	errStack   string
	viol       *Violation
	known      map[string]int
	funcs      map[string]bool
	stats      Stats
	traces     []*ReplayCase
	noReplay   []error // counterexamples the native run did not confirm
	onViol     func(*Violation) (confirmed, known bool, err error)
	rng        uint64
	verbose    bool
}

type Stats struct {
	Paths, Killed, Decisions, Forks          int
	Queries, QSat, QUnsat, QUnknown          int
	Asserts, Equivs, EquivQueries, CegarIter int
	Inconclusive                             int
	SolverTime                               time.Duration
	Steps                                    int64
	FastForks                                int
}

func newWorker(e *Engine) *Worker {
	w := &Worker{eng: e, p: e.p, ctx: newCtx()}
	w.sol = newSolver(w.ctx, e.z3, e.qtimeout)
	w.globals = map[*ssa.Global]*value{}
	w.stdInit = map[*ssa.Package]bool{}
	w.methods = map[methKey]*ssa.Function{}
	w.noted = map[*finfo]bool{}
	return w
}

func (w *Worker) note(fi *finfo) {
	if !w.noted[fi] {
		w.noted[fi] = true
	}
}

// ---- main loop ----

func (e *Engine) run(hs []*Harness) {
	e.cond = sync.NewCond(&e.mu)
	e.hs = hs
	for _, h := range hs {
		h.stack = append(h.stack, &item{h: h, model: Model{}})
		e.waiting++
	}
	var wg sync.WaitGroup
	for i := 0; i < e.workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := newWorker(e)
			defer w.sol.stop()
			w.loop()
			e.mu.Lock()
			e.stats.Queries += w.sol.Queries
			e.stats.QSat += w.sol.NSat
			e.stats.QUnsat += w.sol.NUnsat
			e.stats.QUnknown += w.sol.NUnknown
			e.stats.SolverTime += w.sol.Time
			for fi := range w.noted {
				e.funcs[fi.name] = true
			}
			e.mu.Unlock()
		}()
	}
	wg.Wait()
}

func (e *Engine) fail(err error, stack string) {
	e.mu.Lock()
	if e.err == nil {
		e.err = err
		e.errStack = stack
	}
	e.halted = true
	e.cond.Broadcast()
	e.mu.Unlock()
}

func (w *Worker) loop() {
	e := w.eng
	for {
		e.mu.Lock()
		for e.waiting == 0 && e.active > 0 && !e.halted {
			e.cond.Wait()
		}
		if e.halted || e.waiting == 0 {
			e.cond.Broadcast()
			e.mu.Unlock()
			return
		}
		if time.Now().After(e.deadline) {
			e.timedOut = true
			e.halted = true
			e.cond.Broadcast()
			e.mu.Unlock()
			return
		}
		it := e.take()
		e.mu.Unlock()

		at := time.Now()
		w.runPath(it)
		if w.ctx.n > 3000000 {
			// Bound the memory of the term table.
			w.reset()
		}

		e.mu.Lock()
		e.ran(it, time.Since(at))
		e.cond.Broadcast()
		e.mu.Unlock()
	}
}

func (w *Worker) reset() {
	w.sol.stop()
	w.ctx = newCtx()
	w.sol.ctx = w.ctx
	// Globals of std packages hold no symbolic values.
}

func (w *Worker) runPath(it *item) {
	e := w.eng
	p := &Path{h: it.h, prefix: it.prefix, model: Model{}, facts: map[*Expr]bool{}, symBy: map[string]*symInfo{}, names: map[string]int{}, memo: map[*Expr]uint64{}, smemo: map[*Expr]*Expr{}}
	for k, v := range it.model {
		p.model[k] = v
	}
	w.path = p
	w.steps = 0
	w.maxSteps = 60_000_000
	w.spec = 0
	w.repoGlob = map[*ssa.Global]*value{}
	done := false
	func() {
		defer func() {
			if done {
				return
			}
			r := recover()
			switch r.(type) {
			case *violationPanic, *targetPanic:
				// What was asserted before comes first.
				w.spec = 0
				if q := w.flushed(); q != nil {
					r = q
				}
			}
			switch x := r.(type) {
			case killPath:
				e.mu.Lock()
				e.stats.Killed++
				e.mu.Unlock()
			case haltRun:
			case undecided:
				e.mu.Lock()
				e.nUndecided++
				e.mu.Unlock()
			case *violationPanic:
				m := x.model
				if m == nil {
					m = p.model
				}
				w.violation(x.label, x.kind, x.detail, m)
			case *targetPanic:
				w.violation("panic: "+x.msg, "panic", "", p.model)
			case internalErr:
				e.fail(fmt.Errorf("%s: %s", it.h.name, string(x)), w.where())
			default:
				e.fail(fmt.Errorf("%s: engine panic: %v", it.h.name, r), w.where()+stackTrace())
			}
		}()
		for _, pk := range e.initOrd {
			if f := pk.Func("init"); f != nil {
				w.callFn(nil, f, nil, nil)
			}
		}
		w.callFn(nil, it.h.fn, nil, nil)
		w.flush()
		w.confirmAll()
		done = true
	}()
	it.h.mu.Lock()
	it.h.paths++
	it.h.decs += len(p.dec)
	it.h.steps += w.steps
	it.h.mu.Unlock()
	e.mu.Lock()
	e.stats.Paths++
	e.stats.Decisions += len(p.dec) - len(it.prefix)
	e.stats.Steps += w.steps
	n := e.stats.Paths
	e.mu.Unlock()
	if done {
		e.sampleTrace(w, n)
	}
}

// flushed decides the pending assertions and returns the panic ending the
// path, if any.
func (w *Worker) flushed() (r any) {
	defer func() { r = recover() }()
	w.flush()
	return nil
}

func (w *Worker) violation(label, kind, detail string, m Model) {
	e := w.eng
	p := w.path
	v := &Violation{Harness: p.h.name, Label: label, Kind: kind, Detail: detail, Notes: append([]string(nil), p.notes...)}
	v.Inputs = w.inputsUnder(m)
	v.Sig = p.h.name + " " + label
	if len(p.notes) > 0 {
		v.Sig += " [" + strings.Join(p.notes, ",") + "]"
	}
	e.mu.Lock()
	if e.known[v.Sig] > 3 {
		e.known[v.Sig]++
		e.mu.Unlock()
		return
	}
	if e.viol != nil || e.halted {
		e.mu.Unlock()
		return
	}
	// Handled under the lock: one replay at a time.
	confirmed, known, err := e.onViol(v)
	if err != nil {
		// Perhaps another one does: what depends on the order of a map or on
		// timing need not show every time.
		if e.noReplay = append(e.noReplay, err); len(e.noReplay) < 40 {
			e.mu.Unlock()
			return
		}
		e.mu.Unlock()
		e.fail(err, "")
		return
	}
	if known {
		e.known[v.Sig]++
		e.mu.Unlock()
		return
	}
	_ = confirmed
	e.viol = v
	e.halted = true
	e.cond.Broadcast()
	e.mu.Unlock()
}

func (w *Worker) push(prefix []int64, m Model) {
	e := w.eng
	np := make([]int64, len(prefix))
	copy(np, prefix)
	e.mu.Lock()
	if !e.halted {
		h := w.path.h
		h.stack = append(h.stack, &item{h: h, prefix: np, model: m})
		e.waiting++
		e.stats.Forks++
		e.cond.Signal()
	}
	e.mu.Unlock()
}

func (w *Worker) checkHalt() {
	e := w.eng
	e.mu.Lock()
	h := e.halted
	late := time.Now().After(e.deadline)
	if late && !h {
		e.timedOut = true
		e.halted = true
		e.cond.Broadcast()
		h = true
	}
	e.mu.Unlock()
	if h {
		panic(haltRun{})
	}
}

// ---- globals ----

func (w *Worker) global(g *ssa.Global) value {
	path := g.Pkg.Pkg.Path()
	mine := w.eng.isMine(path)
	tab := w.globals
	if mine {
		tab = w.repoGlob
	} else if !w.stdInit[g.Pkg] {
		w.stdInit[g.Pkg] = true
		w.initStd(g.Pkg)
	}
	if p, ok := tab[g]; ok {
		return p
	}
	p := new(value)
	*p = zero(deref(g.Type()))
	w.overrideGlobal(g, p)
	tab[g] = p
	return p
}

func (w *Worker) initStd(pk *ssa.Package) {
	switch pk.Pkg.Path() {
	case "runtime", "internal/cpu", "reflect":
		return
	}
	f := pk.Func("init")
	if f == nil {
		return
	}
	// The initialiser of a std package runs without symbolic values.
	save := w.path
	spec := w.spec
	w.spec = 0
	w.lenient++
	w.callFn(nil, f, nil, nil)
	w.lenient--
	w.spec = spec
	w.path = save
}

// ---- symbols ----

func (w *Worker) uniq(name string) string {
	p := w.path
	n := p.names[name]
	p.names[name] = n + 1
	if n > 0 {
		return fmt.Sprintf("%s#%d", name, n)
	}
	return name
}

// newSym creates a raw symbol with values in [lo,hi] (raw, unsigned).
func (w *Worker) newSym(name string, width uint8, lo, hi uint64) *symInfo {
	p := w.path
	e := w.ctx.sym(name, width)
	si := &symInfo{e: e, name: name}
	p.syms = append(p.syms, si)
	p.symBy[name] = si
	if _, ok := p.model[name]; !ok {
		p.model[name] = lo
	}
	if hi-lo < 64 {
		for v := lo; v <= hi; v++ {
			si.dom = append(si.dom, v)
		}
	}
	if width > 0 {
		var cs []*Expr
		if lo > 0 {
			cs = append(cs, w.ctx.not(w.ctx.cmp(OUlt, e, w.ctx.bv(lo, width))))
		}
		if hi < mask(width) {
			cs = append(cs, w.ctx.not(w.ctx.cmp(OUlt, w.ctx.bv(hi, width), e)))
		}
		for _, c := range cs {
			p.pc = append(p.pc, c)
		}
	}
	return si
}

// newSigned creates a symbol with signed values in [lo,hi].
func (w *Worker) newSigned(name string, width uint8, lo, hi int64) *symInfo {
	p := w.path
	e := w.ctx.sym(name, width)
	si := &symInfo{e: e, name: name}
	p.syms = append(p.syms, si)
	p.symBy[name] = si
	if _, ok := p.model[name]; !ok {
		p.model[name] = uint64(lo) & mask(width)
	}
	if uint64(hi-lo) < 64 {
		for v := lo; v <= hi; v++ {
			si.dom = append(si.dom, uint64(v)&mask(width))
		}
	}
	if lo > -1<<(width-1) {
		p.pc = append(p.pc, w.ctx.not(w.ctx.cmp(OSlt, e, w.ctx.bv(uint64(lo), width))))
	}
	if hi < 1<<(width-1)-1 {
		p.pc = append(p.pc, w.ctx.not(w.ctx.cmp(OSlt, w.ctx.bv(uint64(hi), width), e)))
	}
	return si
}

// symInt returns a 64-bit value ranging over [lo,hi].
func (w *Worker) symInt(name string, lo, hi int64) value {
	name = w.uniq(name)
	if lo > hi {
		panic(killPath{})
	}
	if lo == hi {
		w.path.inputs = append(w.path.inputs, inputRec{name, []value{lo}})
		return lo
	}
	var e *Expr
	span := uint64(hi) - uint64(lo)
	if lo >= 0 {
		wd := widthFor(uint64(hi))
		if wd > 63 {
			wd = 63
		}
		si := w.newSym(fmt.Sprintf("%s:%d", name, wd), wd, uint64(lo), uint64(hi))
		e = w.ctx.conv(si.e, 64, false)
	} else if span < 1<<62 && lo > -1<<61 && hi < 1<<61 {
		big := hi
		if -lo-1 > big {
			big = -lo - 1
		}
		wd := widthFor(uint64(big)) + 1
		si := w.newSigned(fmt.Sprintf("%s:s%d", name, wd), wd, lo, hi)
		e = w.ctx.conv(si.e, 64, true)
	} else {
		si := w.newSym(name+":64", 64, 0, ^uint64(0))
		e = si.e
		if lo != -1<<63 || hi != 1<<63-1 {
			w.assume(w.ctx.and(
				w.ctx.not(w.ctx.cmp(OSlt, e, w.ctx.bv(uint64(lo), 64))),
				w.ctx.not(w.ctx.cmp(OSlt, w.ctx.bv(uint64(hi), 64), e))))
		}
	}
	w.path.inputs = append(w.path.inputs, inputRec{name, []value{e}})
	return e
}

func (w *Worker) symBool(name string) value {
	name = w.uniq(name)
	si := w.newSym(name+":b", 0, 0, 1)
	w.path.inputs = append(w.path.inputs, inputRec{name, []value{si.e}})
	return si.e
}

func (w *Worker) symByte(name string) value {
	name = w.uniq(name)
	si := w.newSym(name+":8", 8, 0, 255)
	w.path.inputs = append(w.path.inputs, inputRec{name, []value{si.e}})
	return si.e
}

func (w *Worker) inputsUnder(m Model) []ReplayInput {
	memo := map[*Expr]uint64{}
	var out []ReplayInput
	for _, in := range w.path.inputs {
		r := ReplayInput{Name: in.name}
		for _, v := range in.vals {
			r.Vals = append(r.Vals, w.evalInt(v, m, memo))
		}
		out = append(out, r)
	}
	return out
}

func (w *Worker) evalInt(v value, m Model, memo map[*Expr]uint64) int64 {
	switch v := v.(type) {
	case int64:
		return v
	case bool:
		if v {
			return 1
		}
		return 0
	case *Expr:
		u := eval(v, m, memo)
		if v.w == 0 {
			return int64(u)
		}
		if v.w == 8 {
			return int64(u)
		}
		return sext(u, v.w)
	}
	panic(internalErr(fmt.Sprintf("evalInt of %T", v)))
}

// ---- support sets ----

func (c *Ctx) support(e *Expr) []*Expr {
	if !e.hasSym {
		return nil
	}
	seen := map[*Expr]bool{}
	var out []*Expr
	var walk func(*Expr)
	walk = func(x *Expr) {
		if !x.hasSym || seen[x] {
			return
		}
		seen[x] = true
		if x.op == OSym {
			out = append(out, x)
			return
		}
		for _, a := range x.args {
			walk(a)
		}
	}
	walk(e)
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// single returns the only symbol of e if its domain is small.
func (w *Worker) single(e *Expr) *symInfo {
	var s *Expr
	ok := true
	n := 0
	seen := map[*Expr]bool{}
	var walk func(*Expr)
	walk = func(x *Expr) {
		if !ok || !x.hasSym || seen[x] {
			return
		}
		n++
		if n > 300 {
			ok = false
			return
		}
		seen[x] = true
		if x.op == OSym {
			if s != nil && s != x {
				ok = false
			}
			s = x
			return
		}
		for _, a := range x.args {
			walk(a)
		}
	}
	walk(e)
	if !ok || s == nil {
		return nil
	}
	si := w.path.symBy[s.name]
	if si == nil || si.dom == nil {
		return nil
	}
	return si
}

// ---- simplification under the path condition ----

func (w *Worker) simp(e *Expr) *Expr {
	if !e.hasSym {
		return e
	}
	p := w.path
	if v, ok := p.facts[e]; ok {
		return w.ctx.bool(v)
	}
	if p.npin == 0 {
		return e
	}
	return w.ctx.subst(e, w.pinOf, p.smemo)
}

func (w *Worker) pinOf(x *Expr) *Expr {
	p := w.path
	if x.op == OSym {
		if si := p.symBy[x.name]; si != nil && si.pin {
			if x.w == 0 {
				return w.ctx.bool(si.val != 0)
			}
			return w.ctx.bv(si.val, x.w)
		}
		return nil
	}
	if x.w == 0 {
		if v, ok := p.facts[x]; ok {
			return w.ctx.bool(v)
		}
	}
	return nil
}

// decideQuick resolves a condition from facts and domains alone.
func (w *Worker) decideQuick(e *Expr) (bool, bool) {
	if e.isConst() {
		return e.val != 0, true
	}
	p := w.path
	if v, ok := p.facts[e]; ok {
		return v, true
	}
	if e.op == ONot {
		if v, ok := p.facts[e.args[0]]; ok {
			return !v, true
		}
	}
	if si := w.single(e); si != nil {
		t, f := w.splitDom(si, e)
		if len(f) == 0 {
			return true, true
		}
		if len(t) == 0 {
			return false, true
		}
	}
	return false, false
}

// shortcuts tells whether conditions over a single symbol may be decided by
// propagation over its domain. Up to a number of queries the solver decides
// them.
func (w *Worker) shortcuts() bool {
	return w.spec > 0 || w.sol.Queries > 500
}

// confirmAll has the solver confirm the assertions decided by propagation.
func (w *Worker) confirmAll() {
	p := w.path
	if len(p.confirm) == 0 {
		return
	}
	all := w.ctx.and(p.confirm...)
	p.confirm = nil
	if all.isConst() && all.val != 0 {
		return
	}
	if r, _ := w.check(w.ctx.not(all)); r != Unsat {
		panic(internalErr("the solver disagrees with propagation"))
	}
}

func (w *Worker) splitDom(si *symInfo, e *Expr) (t, f []uint64) {
	m := Model{}
	for _, v := range si.dom {
		m[si.name] = v
		if eval(e, m, map[*Expr]uint64{}) != 0 {
			t = append(t, v)
		} else {
			f = append(f, v)
		}
	}
	return
}

func (w *Worker) evalModel(e *Expr) bool {
	return eval(e, w.path.model, w.path.memo) != 0
}

func (w *Worker) setModel(m Model) {
	w.path.model = m
	w.path.memo = map[*Expr]uint64{}
}

// addPC adds a constraint known to be satisfied by the current model.
func (w *Worker) addPC(e *Expr) {
	p := w.path
	if e.isConst() {
		return
	}
	if e.op == OAnd {
		for _, a := range e.args {
			w.addPC(a)
		}
		return
	}
	p.pc = append(p.pc, e)
	p.facts[e] = true
	if e.op == ONot {
		p.facts[e.args[0]] = false
	}
	if si := w.single(e); si != nil {
		t, _ := w.splitDom(si, e)
		si.dom = t
		if len(t) == 1 && !si.pin {
			si.pin = true
			si.val = t[0]
			p.npin++
			p.smemo = map[*Expr]*Expr{}
		}
	} else {
		sup := w.ctx.support(e)
		if len(sup) > 1 {
			for _, s := range sup {
				if si := p.symBy[s.name]; si != nil {
					si.ent = true
				}
			}
		} else if len(sup) == 1 && e.op == OEq && e.args[0].isConst() != e.args[1].isConst() {
			a, b := e.args[0], e.args[1]
			if a.isConst() {
				a, b = b, a
			}
			if a.op == OSym {
				si := p.symBy[a.name]
				si.pin, si.val = true, b.val
				p.npin++
				p.smemo = map[*Expr]*Expr{}
			}
		}
	}
}

func (w *Worker) wants() []*Expr {
	out := make([]*Expr, 0, len(w.path.syms))
	for _, s := range w.path.syms {
		out = append(out, s.e)
	}
	return out
}

// check asks the solver for PC and extra. The returned model covers all
// symbols of the path.
func (w *Worker) check(extra ...*Expr) (Result, Model) {
	w.checkHalt()
	r, m := w.sol.Check(w.path.pc, extra, w.wants())
	if r == Unknown {
		w.checkHalt()
		panic(undecided{})
	}
	return r, m
}

func (w *Worker) replaying() bool { return w.path.pos < len(w.path.prefix) }

// decide resolves a symbolic condition, forking the path when both outcomes
// are feasible.
func (w *Worker) decide(e *Expr) bool {
	e = w.simp(e)
	if v, ok := w.decideQuick(e); ok {
		return v
	}
	if w.spec > 0 {
		panic(specFail{})
	}
	p := w.path
	if len(p.pend) > 0 {
		w.flush()
		e = w.simp(e)
		if v, ok := w.decideQuick(e); ok {
			return v
		}
	}
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		p.pos++
		p.dec = append(p.dec, d)
		b := d == dTrue || d == dForcedTrue
		w.learn(e, b, d >= dForcedFalse)
		return b
	}
	b := w.evalModel(e)
	other := e
	if b {
		other = w.ctx.not(e)
	}
	alt := func(m Model) {
		d := int64(dTrue)
		if b {
			d = dFalse
		}
		w.push(append(p.dec[:len(p.dec):len(p.dec)], d), m)
	}
	forced := false
	if si := w.single(e); si != nil && !si.ent && w.shortcuts() {
		// Both sides non-empty (decideQuick failed) and the symbol is
		// independent of all others: the solver could only agree.
		t, f := w.splitDom(si, e)
		m := cloneModel(p.model)
		if b {
			m[si.name] = f[0]
		} else {
			m[si.name] = t[0]
		}
		alt(m)
		w.eng.mu.Lock()
		w.eng.stats.FastForks++
		w.eng.mu.Unlock()
	} else {
		r, m := w.check(other)
		if r == Sat {
			alt(fillModel(m, p.model))
		} else {
			forced = true
		}
	}
	d := int64(dFalse)
	if b {
		d = dTrue
	}
	if forced {
		d += 2
	}
	p.dec = append(p.dec, d)
	p.prefix = p.dec
	p.pos = len(p.dec)
	w.learn(e, b, forced)
	return b
}

func (w *Worker) learn(e *Expr, b, forced bool) {
	if forced {
		w.path.facts[e] = b
		if len(w.path.smemo) > 0 {
			w.path.smemo = map[*Expr]*Expr{}
		}
		return
	}
	if b {
		w.addPC(e)
	} else {
		w.addPC(w.ctx.not(e))
	}
}

func cloneModel(m Model) Model {
	n := make(Model, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

func fillModel(m, old Model) Model {
	for k, v := range old {
		if _, ok := m[k]; !ok {
			m[k] = v
		}
	}
	return m
}

// concretize forks over the values of e.
func (w *Worker) concretize(e *Expr) int64 {
	if w.spec > 0 {
		s := w.simp(e)
		if s.isConst() {
			return w.constInt(s)
		}
		panic(specFail{})
	}
	for {
		e = w.simp(e)
		if e.isConst() {
			return w.constInt(e)
		}
		w.flush()
		e = w.simp(e)
		if e.isConst() {
			return w.constInt(e)
		}
		p := w.path
		var v int64
		if p.pos < len(p.prefix) {
			v = p.prefix[p.pos]
			p.pos++
		} else {
			v = int64(eval(e, p.model, p.memo))
		}
		p.dec = append(p.dec, v)
		if len(p.dec) > len(p.prefix) {
			p.prefix = p.dec
			p.pos = len(p.dec)
		}
		var c *Expr
		if e.w == 0 {
			c = e
			if v == 0 {
				c = w.ctx.not(e)
			}
		} else {
			c = w.ctx.eq(e, w.ctx.bv(uint64(v), e.w))
		}
		if w.decide(c) {
			if e.w == 0 {
				return v
			}
			return w.constInt(w.ctx.bv(uint64(v), e.w))
		}
	}
}

func (w *Worker) constInt(e *Expr) int64 {
	if e.w == 0 || e.w == 8 {
		return int64(e.val)
	}
	return sext(e.val, e.w)
}

// choose forks over 0..n-1 without the solver.
func (w *Worker) choose(name string, n int) int {
	p := w.path
	name = w.uniq(name)
	if n <= 0 {
		panic(killPath{})
	}
	v := int64(0)
	if n > 1 {
		w.flush()
		if p.pos < len(p.prefix) {
			v = p.prefix[p.pos]
			p.pos++
			p.dec = append(p.dec, v)
		} else {
			// Pushed in reverse so that they are taken in order.
			for k := n - 1; k >= 1; k-- {
				w.push(append(p.dec[:len(p.dec):len(p.dec)], int64(k)), cloneModel(p.model))
			}
			p.dec = append(p.dec, 0)
			p.prefix = p.dec
			p.pos = len(p.dec)
		}
	}
	p.inputs = append(p.inputs, inputRec{name, []value{v}})
	return int(v)
}

func (w *Worker) assume(e *Expr) {
	e = w.simp(e)
	if v, ok := w.decideQuick(e); ok && v {
		return
	}
	w.flush()
	w.assumeNow(e)
}

func (w *Worker) assumeNow(e *Expr) {
	e = w.simp(e)
	if v, ok := w.decideQuick(e); ok {
		if !v {
			panic(killPath{})
		}
		return
	}
	p := w.path
	if !w.evalModel(e) {
		if si := w.single(e); si != nil && !si.ent {
			t, _ := w.splitDom(si, e)
			m := cloneModel(p.model)
			m[si.name] = t[0]
			w.setModel(m)
		} else {
			r, m := w.check(e)
			if r != Sat {
				panic(killPath{})
			}
			w.setModel(fillModel(m, p.model))
		}
	}
	w.addPC(e)
}

func (w *Worker) assert(v value, label string) {
	w.eng.mu.Lock()
	w.eng.stats.Asserts++
	w.eng.mu.Unlock()
	var e, orig *Expr
	switch v := v.(type) {
	case bool:
		if v {
			return
		}
		e, orig = w.ctx.ff, w.ctx.ff
	case *Expr:
		e, orig = w.simp(v), v
	}
	if v, ok := w.decideQuick(e); ok {
		if v {
			if !orig.isConst() && !w.shortcuts() {
				w.path.confirm = append(w.path.confirm, orig)
			}
			return
		}
		w.flush()
		panic(&violationPanic{label: label, kind: "assert"})
	}
	w.path.pend = append(w.path.pend, pending{e, label, len(w.path.notes)})
}

// flush decides the pending assertions with one query.
func (w *Worker) flush() {
	p := w.path
	for len(p.pend) > 0 {
		var cs []*Expr
		for _, a := range p.pend {
			cs = append(cs, a.e)
		}
		all := w.simp(w.ctx.and(cs...))
		if v, ok := w.decideQuick(all); ok && v {
			if !all.isConst() && !w.shortcuts() {
				p.confirm = append(p.confirm, all)
			}
			p.pend = nil
			return
		}
		if w.replaying() {
			// Decided by the path this one was forked from.
			d := w.nextDec()
			w.settle(d)
			continue
		}
		r, m := Sat, p.model
		if w.evalModel(all) {
			r, m = w.check(w.ctx.not(all))
		}
		if r == Unsat {
			w.addDec(0)
			w.settle(0)
			continue
		}
		m = fillModel(cloneModel(m), p.model)
		memo := map[*Expr]uint64{}
		for i, a := range p.pend {
			if eval(a.e, m, memo) != 0 {
				continue
			}
			notes := p.notes
			p.notes = notes[:a.notes]
			w.violation(a.label, "assert", "", m)
			p.notes = notes
			// Known finding: go on where the assertion holds.
			w.checkHalt()
			w.addDec(int64(1 + i))
			w.settle(int64(1 + i))
			break
		}
	}
}

// settle applies the outcome of a flush: all hold (0) or the k-th does not
// always (it is assumed then).
func (w *Worker) settle(d int64) {
	p := w.path
	if d == 0 {
		for _, a := range p.pend {
			p.facts[a.e] = true
		}
		p.pend = nil
		p.smemo = map[*Expr]*Expr{}
		return
	}
	a := p.pend[d-1]
	p.pend = append(append([]pending{}, p.pend[:d-1]...), p.pend[d:]...)
	w.assumeNow(a.e)
}

func (w *Worker) nextDec() int64 {
	p := w.path
	d := p.prefix[p.pos]
	p.pos++
	p.dec = append(p.dec, d)
	return d
}

func (w *Worker) addDec(d int64) {
	p := w.path
	p.dec = append(p.dec, d)
	p.prefix = p.dec
	p.pos = len(p.dec)
}

func stackTrace() string {
	buf := make([]byte, 1<<16)
	n := runtimeStack(buf)
	return string(buf[:n])
}

var _ = bits.Len
var _ = os.Stderr

// where describes the point of the program being executed.
func (w *Worker) where() string {
	var sb strings.Builder
	if w.curIn != nil {
		fmt.Fprintf(&sb, "at %s: %v\n", w.p.prog.Fset.Position(w.curIn.in.Pos()), w.curIn.in)
	}
	for f := w.cur; f != nil; f = f.caller {
		fmt.Fprintf(&sb, "  in %s block %d\n", f.fi.name, f.block)
	}
	return sb.String()
}
