package main

// Symbolic interpreter for go/ssa.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

const (
	kSlot uint8 = iota
	kConst
	kGlobal
	kNil
)

type opnd struct {
	kind uint8
	slot int
	v    value
	g    *ssa.Global
	s    ssa.Value
}

type dinstr struct {
	in  ssa.Instruction
	ops []opnd
	dst int // -1: none
}

type dblock struct {
	b      *ssa.BasicBlock
	instrs []dinstr
	nphi   int
	// specOK: every instruction may be executed speculatively (purely).
	specOK bool
}

type finfo struct {
	fn        *ssa.Function
	name      string
	nslots    int
	blocks    []*dblock
	params    []int
	freevars  []int
	hasDefer  bool
	intrinsic func(fr *frame, args []value) value
	inRepo    bool
	denied    bool
	specCall  bool // may be called during speculation
}

// Program is the loaded code, shared read-only by all workers.
type Program struct {
	prog   *ssa.Program
	infos  sync.Map // *ssa.Function -> *finfo
	repo   string   // import path prefix of the code under test
	sizes  types.Sizes
	consts sync.Map
}

func (p *Program) pkgOf(fn *ssa.Function) string {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg.Path()
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg.Pkg.Path()
		}
		if o := f.Object(); o != nil && o.Pkg() != nil {
			return o.Pkg().Path()
		}
	}
	return ""
}

var deniedPkgs = map[string]bool{
	"os": true, "syscall": true, "internal/poll": true, "runtime": true,
	"reflect": true, "time": true, "os/exec": true, "os/signal": true,
	"internal/syscall/unix": true, "internal/reflectlite": true, "net": true,
	"context": true, "internal/runtime/atomic": true, "internal/cpu": true,
	"internal/godebug": true, "math/rand": true, "math/rand/v2": true,
}

// pureIntrinsics have no effect and do not branch.
var pureIntrinsics = map[string]bool{
	symPkg + ".And": true, symPkg + ".Or": true, symPkg + ".Not": true, symPkg + ".Implies": true,
	symPkg + ".Iff": true, symPkg + ".Ite": true, symPkg + ".B2I": true,
}

func (p *Program) info(fn *ssa.Function) *finfo {
	if x, ok := p.infos.Load(fn); ok {
		return x.(*finfo)
	}
	fi := &finfo{fn: fn, name: fn.String()}
	key := fi.name
	if o := fn.Origin(); o != nil {
		key = o.String()
	}
	fi.intrinsic = lookupIntrinsic(key)
	pkg := p.pkgOf(fn)
	fi.inRepo = pkg == p.repo || strings.HasPrefix(pkg, p.repo+"/")
	fi.denied = deniedPkgs[pkg] && fn.Synthetic == "" && !allowed[key]
	if fi.intrinsic != nil {
		fi.specCall = pureIntrinsics[key]
	} else {
		fi.specCall = fi.inRepo || strings.HasPrefix(pkg, harnessMod+"/")
	}
	slots := map[ssa.Value]int{}
	newSlot := func(v ssa.Value) int {
		s := fi.nslots
		fi.nslots++
		slots[v] = s
		return s
	}
	for _, q := range fn.Params {
		fi.params = append(fi.params, newSlot(q))
	}
	for _, q := range fn.FreeVars {
		fi.freevars = append(fi.freevars, newSlot(q))
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				newSlot(v)
			}
			if _, ok := in.(*ssa.Defer); ok {
				fi.hasDefer = true
			}
		}
	}
	for _, b := range fn.Blocks {
		db := &dblock{b: b, specOK: true}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			di := dinstr{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				di.dst = slots[v]
			}
			for _, r := range in.Operands(nil) {
				di.ops = append(di.ops, p.operand(*r, slots))
			}
			if _, ok := in.(*ssa.Phi); ok {
				db.nphi++
			}
			if !specInstr(in) {
				db.specOK = false
			}
			db.instrs = append(db.instrs, di)
		}
		fi.blocks = append(fi.blocks, db)
	}
	x, _ := p.infos.LoadOrStore(fn, fi)
	return x.(*finfo)
}

func specInstr(in ssa.Instruction) bool {
	switch in := in.(type) {
	case *ssa.Return, *ssa.Alloc, *ssa.Store, *ssa.Slice, *ssa.MakeInterface:
		return true
	case *ssa.Phi, *ssa.Jump, *ssa.If, *ssa.Field, *ssa.FieldAddr, *ssa.ChangeType, *ssa.Extract, *ssa.IndexAddr, *ssa.Index:
		return true
	case *ssa.BinOp:
		switch in.Op {
		case token.QUO, token.REM:
			// only by a non-zero constant
			if c, ok := in.Y.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int && constant.Sign(c.Value) != 0 {
				return true
			}
			return false
		case token.SHL, token.SHR:
			return false
		}
		return true
	case *ssa.UnOp:
		return in.Op != token.ARROW
	case *ssa.Convert:
		_, a := intInfo(in.X.Type())
		_, b := intInfo(in.Type())
		return a && b
	case *ssa.Call:
		if b, ok := in.Call.Value.(*ssa.Builtin); ok {
			return b.Name() == "len" || b.Name() == "cap" || b.Name() == "min" || b.Name() == "max"
		}
		return in.Call.StaticCallee() != nil
	}
	return false
}

func (p *Program) operand(v ssa.Value, slots map[ssa.Value]int) opnd {
	switch v := v.(type) {
	case nil:
		return opnd{kind: kNil}
	case *ssa.Const:
		return opnd{kind: kConst, v: constValue(v), s: v}
	case *ssa.Global:
		return opnd{kind: kGlobal, g: v, s: v}
	case *ssa.Function:
		return opnd{kind: kConst, v: &closure{fn: v}, s: v}
	case *ssa.Builtin:
		return opnd{kind: kConst, v: &closure{blt: v}, s: v}
	}
	s, ok := slots[v]
	if !ok {
		panic(internalErr(fmt.Sprintf("no slot for %s (%T)", v, v)))
	}
	return opnd{kind: kSlot, slot: s, s: v}
}

func constValue(c *ssa.Const) value {
	if c.Value == nil {
		return zero(c.Type())
	}
	t := c.Type().Underlying()
	if k, ok := intInfo(t); ok {
		if k.signed {
			i, _ := constant.Int64Val(constant.ToInt(c.Value))
			return i
		}
		u, _ := constant.Uint64Val(constant.ToInt(c.Value))
		return int64(u)
	}
	if b, ok := t.(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return constant.BoolVal(c.Value)
		case b.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return constant.StringVal(c.Value)
			}
			i, _ := constant.Int64Val(c.Value)
			return string(rune(i))
		case b.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(c.Value)
			return f
		}
	}
	unsupported("constant %s", c)
	return nil
}

type deferred struct {
	fn   *closure
	args []value
	next *deferred
}

type frame struct {
	w      *Worker
	fi     *finfo
	slots  []value
	caller *frame
	block  int
	prev   int
	// entry values of phis set by a region merge (overrides).
	phiOv     []value
	phiOvSet  bool
	result    value
	defers    *deferred
	defStack  **deferred
	panicking bool
	panicv    any
	done      bool
	depth     int
}

func (fr *frame) get(o *opnd) value {
	switch o.kind {
	case kSlot:
		return fr.slots[o.slot]
	case kConst:
		return o.v
	case kGlobal:
		return fr.w.global(o.g)
	}
	return nil
}

func (w *Worker) callClosure(caller *frame, c *closure, args []value) value {
	if c == nil {
		panic(w.rtPanic("invalid memory address or nil pointer dereference"))
	}
	switch {
	case c.native != nil:
		return c.native(caller, args)
	case c.blt != nil:
		return w.callBuiltin(caller, c.blt, args, nil)
	}
	return w.callFn(caller, c.fn, args, c.env)
}

func (w *Worker) callFn(caller *frame, fn *ssa.Function, args []value, env []value) value {
	fi := w.p.info(fn)
	if w.spec > 0 && !fi.specCall {
		panic(specFail{})
	}
	if fi.intrinsic != nil {
		return fi.intrinsic(caller, args)
	}
	if (fn.Blocks == nil || fi.denied && fn.Name() != "init") && w.lenient > 0 {
		r := fn.Signature.Results()
		if r.Len() == 0 {
			return nil
		}
		return zero(r)
	}
	if fn.Blocks == nil {
		unsupported("function without body: %s", fi.name)
	}
	if fi.denied && w.lenient == 0 {
		unsupported("call of %s", fi.name)
	}
	if fn.Name() == "init" && fn.Synthetic == "package initializer" && caller != nil {
		// Initialisers of imported packages run lazily.
		return nil
	}
	if fi.inRepo {
		w.note(fi)
	}
	depth := 0
	if caller != nil {
		depth = caller.depth + 1
	}
	if depth > 20000 {
		panic(&violationPanic{label: "stack overflow", kind: "stackoverflow"})
	}
	fr := &frame{w: w, fi: fi, caller: caller, prev: -1, depth: depth}
	fr.slots = make([]value, fi.nslots)
	fr.defStack = &fr.defers
	if len(args) != len(fi.params) {
		panic(internalErr(fmt.Sprintf("%s: %d args for %d params", fi.name, len(args), len(fi.params))))
	}
	for i, s := range fi.params {
		fr.slots[s] = args[i]
	}
	for i, s := range fi.freevars {
		fr.slots[s] = env[i]
	}
	if !fi.hasDefer && fn.Recover == nil {
		fr.run()
		return fr.result
	}
	for !fr.done {
		fr.runProtected()
	}
	return fr.result
}

// runProtected runs the frame until it returns, converting a target panic into
// the execution of the deferred calls.
func (fr *frame) runProtected() {
	defer func() {
		if fr.done {
			return
		}
		r := recover()
		if r == nil {
			return
		}
		tp, ok := r.(*targetPanic)
		if !ok {
			panic(r)
		}
		fr.panicking = true
		fr.panicv = tp
		fr.runDefers()
		// Recovered.
		if fr.fi.fn.Recover == nil {
			fr.result = zero(fr.fi.fn.Signature.Results())
			if fr.fi.fn.Signature.Results().Len() == 0 {
				fr.result = nil
			}
			fr.done = true
			return
		}
		fr.block = fr.fi.fn.Recover.Index
		fr.prev = -1
	}()
	fr.run()
}

func (fr *frame) runDefers() {
	for fr.defers != nil {
		d := fr.defers
		fr.defers = d.next
		fr.runDefer(d)
	}
	if fr.panicking {
		panic(fr.panicv)
	}
}

func (fr *frame) runDefer(d *deferred) {
	ok := false
	defer func() {
		if !ok {
			r := recover()
			tp, isT := r.(*targetPanic)
			if !isT {
				panic(r)
			}
			fr.panicking = true
			fr.panicv = tp
		}
	}()
	fr.w.callClosure(fr, d.fn, d.args)
	ok = true
}

func (fr *frame) run() {
	w := fr.w
	for {
		db := fr.fi.blocks[fr.block]
		if db.nphi > 0 {
			fr.doPhis(db)
		}
		for i := db.nphi; i < len(db.instrs); i++ {
			w.steps++
			if w.steps&0xfffff == 0 {
				w.checkHalt()
			}
			if w.steps > w.maxSteps {
				panic(&violationPanic{label: "does not terminate", kind: "steps"})
			}
			di := &db.instrs[i]
			w.cur, w.curIn = fr, di
			switch in := di.in.(type) {
			case *ssa.Jump:
				fr.prev, fr.block = fr.block, db.b.Succs[0].Index
			case *ssa.If:
				fr.branch(db, di, in)
				if fr.done {
					return
				}
			case *ssa.Return:
				switch len(di.ops) {
				case 0:
					fr.result = nil
				case 1:
					fr.result = fr.get(&di.ops[0])
				default:
					t := make(tuple, len(di.ops))
					for j := range di.ops {
						t[j] = fr.get(&di.ops[j])
					}
					fr.result = t
				}
				fr.done = true
				return
			case *ssa.Panic:
				v := fr.get(&di.ops[0])
				panic(w.mkPanic(v))
			default:
				r := fr.exec(di)
				if di.dst >= 0 {
					fr.slots[di.dst] = r
				}
			}
		}
	}
}

func (fr *frame) doPhis(db *dblock) {
	if fr.phiOvSet {
		for i := 0; i < db.nphi; i++ {
			fr.slots[db.instrs[i].dst] = fr.phiOv[i]
		}
		fr.phiOvSet = false
		return
	}
	edge := -1
	for j, p := range db.b.Preds {
		if p.Index == fr.prev {
			edge = j
			break
		}
	}
	if edge < 0 {
		panic(internalErr("phi: no edge"))
	}
	if db.nphi == 1 {
		fr.slots[db.instrs[0].dst] = fr.get(&db.instrs[0].ops[edge])
		return
	}
	tmp := make([]value, db.nphi)
	for i := 0; i < db.nphi; i++ {
		tmp[i] = fr.get(&db.instrs[i].ops[edge])
	}
	for i := 0; i < db.nphi; i++ {
		fr.slots[db.instrs[i].dst] = tmp[i]
	}
}

func (fr *frame) branch(db *dblock, di *dinstr, in *ssa.If) {
	c := fr.get(&di.ops[0])
	if b, ok := c.(bool); ok {
		fr.prev = fr.block
		if b {
			fr.block = db.b.Succs[0].Index
		} else {
			fr.block = db.b.Succs[1].Index
		}
		return
	}
	w := fr.w
	e := w.simp(c.(*Expr))
	if e.isConst() {
		fr.prev = fr.block
		if e.val != 0 {
			fr.block = db.b.Succs[0].Index
		} else {
			fr.block = db.b.Succs[1].Index
		}
		return
	}
	if v, ok := w.decideQuick(e); ok {
		fr.prev = fr.block
		if v {
			fr.block = db.b.Succs[0].Index
		} else {
			fr.block = db.b.Succs[1].Index
		}
		return
	}
	if fr.mergeRegion(db, e) {
		return
	}
	fr.prev = fr.block
	if w.decide(e) {
		fr.block = db.b.Succs[0].Index
	} else {
		fr.block = db.b.Succs[1].Index
	}
}

// ---- speculative merging of pure regions ----

type specFail struct{}

// own records the cells of memory allocated during speculation, which may be
// written to.
func (w *Worker) own(p *value) {
	if w.specCells == nil {
		w.specCells = map[*value]bool{}
	}
	w.specCells[p] = true
	if s, ok := (*p).(structv); ok {
		for i := range s {
			w.own(&s[i])
		}
	}
}

// impure marks an effect that must not happen during speculation.
func (w *Worker) impure() {
	if w.spec > 0 {
		panic(specFail{})
	}
}

type regEdge struct {
	from, to int
	guard    *Expr
	phis     []value // values of the target's phis along this edge
	// (or of the results, when the target is the return of the function)
}

// mergeRegion executes the pure blocks dominated by the branch under guards
// and merges the edges leaving the region per target. It returns false when
// nothing is gained, leaving the frame untouched (except dead slots).
func (fr *frame) mergeRegion(db *dblock, cond *Expr) bool {
	w := fr.w
	ctx := w.ctx
	var edges []*regEdge
	blocks := 0
	var walk func(from, to int, guard *Expr) bool
	walk = func(from, to int, guard *Expr) bool {
		if guard == ctx.ff {
			return true
		}
		tb := fr.fi.blocks[to]
		single := len(tb.b.Preds) == 1
		if single && tb.specOK && blocks < 64 {
			blocks++
			if next, ok := fr.specBlock(tb, from); ok {
				if next.isRet {
					edges = append(edges, &regEdge{from: to, to: -1, guard: guard, phis: next.ret})
					return true
				}
				if next.cond == nil {
					return walk(to, next.t, guard)
				}
				g1 := w.simp(ctx.and(guard, next.cond))
				g2 := w.simp(ctx.and(guard, ctx.not(next.cond)))
				return walk(to, next.t, g1) && walk(to, next.f, g2)
			}
		}
		ed := &regEdge{from: from, to: to, guard: guard}
		if tb.nphi > 0 {
			idx := -1
			for j, p := range tb.b.Preds {
				if p.Index == from {
					idx = j
				}
			}
			for i := 0; i < tb.nphi; i++ {
				ed.phis = append(ed.phis, fr.get(&tb.instrs[i].ops[idx]))
			}
		}
		edges = append(edges, ed)
		return true
	}
	b := db.b
	if b.Succs[0] == b.Succs[1] {
		return false
	}
	if !walk(b.Index, b.Succs[0].Index, cond) || !walk(b.Index, b.Succs[1].Index, ctx.not(cond)) {
		return false
	}
	// Group by target; split groups whose phis do not merge.
	type group struct {
		to    int
		from  int
		guard *Expr
		phis  []value
		n     int
	}
	var groups []*group
	for _, ed := range edges {
		placed := false
		for _, g := range groups {
			if g.to != ed.to {
				continue
			}
			// merge phis: ite(ed.guard, ed, g)
			np := make([]value, len(ed.phis))
			ok := true
			for i := range ed.phis {
				m, o := w.mergeVal(ed.guard, ed.phis[i], g.phis[i])
				if !o {
					ok = false
					break
				}
				if ed.to < 0 {
					np[i] = w.fixWidth(m, fr.fi.fn.Signature.Results().At(i).Type())
					continue
				}
				np[i] = w.fixWidth(m, fr.fi.blocks[ed.to].instrs[i].in.(*ssa.Phi).Type())
			}
			if !ok {
				continue
			}
			g.phis = np
			g.guard = ctx.or(g.guard, ed.guard)
			g.n++
			placed = true
			break
		}
		if !placed {
			groups = append(groups, &group{to: ed.to, from: ed.from, guard: ed.guard, phis: ed.phis, n: 1})
		}
	}
	if len(groups) == len(edges) && blocks == 0 {
		return false
	}
	if len(groups) >= 3 && len(groups) >= len(edges) {
		// Nothing merged: fork on the original condition only.
		return false
	}
	var sel *group
	for i, g := range groups {
		if i == len(groups)-1 {
			sel = g
			break
		}
		if w.decide(g.guard) {
			sel = g
			break
		}
	}
	if sel.to < 0 {
		switch len(sel.phis) {
		case 0:
			fr.result = nil
		case 1:
			fr.result = sel.phis[0]
		default:
			fr.result = tuple(sel.phis)
		}
		fr.done = true
		return true
	}
	fr.prev = sel.from
	fr.block = sel.to
	if len(sel.phis) > 0 {
		fr.phiOv = sel.phis
		fr.phiOvSet = true
	}
	return true
}

// fixWidth gives merged integers the width of their static type.
func (w *Worker) fixWidth(v value, t types.Type) value {
	switch v := v.(type) {
	case *Expr:
		if v.w == 0 {
			return v
		}
		if k, ok := intInfo(t); ok && k.bits != v.w {
			return w.box(w.ctx.conv(v, k.bits, k.signed), k)
		}
	case structv:
		switch st := t.Underlying().(type) {
		case *types.Struct:
			for i := range v {
				v[i] = w.fixWidth(v[i], st.Field(i).Type())
			}
		case *types.Array:
			for i := range v {
				v[i] = w.fixWidth(v[i], st.Elem())
			}
		}
	}
	return v
}

func (w *Worker) mergeVal(c *Expr, a, b value) (value, bool) {
	switch x := a.(type) {
	case bool:
		switch y := b.(type) {
		case bool:
			if x == y {
				return a, true
			}
			return w.box(w.ctx.ite(c, w.ctx.bool(x), w.ctx.bool(y)), intKind{}), true
		case *Expr:
			return w.box(w.ctx.ite(c, w.ctx.bool(x), y), intKind{}), true
		}
	case int64:
		switch y := b.(type) {
		case int64:
			if x == y {
				return a, true
			}
			return w.ctx.ite(c, w.ctx.bv(uint64(x), 64), w.ctx.bv(uint64(y), 64)), true
		case *Expr:
			return w.ctx.ite(c, w.ctx.bv(uint64(x), y.w), y), true
		}
	case *Expr:
		switch y := b.(type) {
		case bool:
			return w.box(w.ctx.ite(c, x, w.ctx.bool(y)), intKind{}), true
		case int64:
			return w.ctx.ite(c, x, w.ctx.bv(uint64(y), x.w)), true
		case *Expr:
			if x.w == y.w {
				return w.ctx.ite(c, x, y), true
			}
		}
	case string:
		if y, ok := b.(string); ok && x == y {
			return a, true
		}
		return nil, false
	case *value:
		if y, ok := b.(*value); ok && x == y {
			return a, true
		}
	case *mapv:
		if y, ok := b.(*mapv); ok && x == y {
			return a, true
		}
	case *closure:
		if y, ok := b.(*closure); ok && x == y {
			return a, true
		}
	case iface:
		y, ok := b.(iface)
		if !ok {
			return nil, false
		}
		if x.t == nil && y.t == nil {
			return a, true
		}
		if x.t != nil && y.t != nil && types.Identical(x.t, y.t) {
			if _, isp := x.v.(*value); isp {
				if m, ok := w.mergeVal(c, x.v, y.v); ok {
					return iface{x.t, m}, true
				}
			}
		}
	case slicev:
		if y, ok := b.(slicev); ok && sameSlice(x, y) {
			return a, true
		}
	case structv:
		y, ok := b.(structv)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		n := make(structv, len(x))
		for i := range x {
			m, ok := w.mergeVal(c, x[i], y[i])
			if !ok {
				return nil, false
			}
			n[i] = m
		}
		return n, true
	}
	return nil, false
}

func sameSlice(x, y slicev) bool {
	if len(x) != len(y) || cap(x) != cap(y) {
		return false
	}
	if (x == nil) != (y == nil) {
		return false
	}
	if cap(x) == 0 {
		return true
	}
	return &x[:1][0] == &y[:1][0]
}

type specNext struct {
	cond  *Expr
	t, f  int
	isRet bool
	ret   []value
}

// specBlock executes a pure block speculatively. ok is false when some
// instruction could panic or is not pure for these operands.
func (fr *frame) specBlock(tb *dblock, from int) (nx specNext, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(specFail); is {
				ok = false
				return
			}
			panic(r)
		}
	}()
	w := fr.w
	// Save the slots so that a failed attempt leaves no trace.
	if tb.nphi > 0 {
		edge := -1
		for j, p := range tb.b.Preds {
			if p.Index == from {
				edge = j
			}
		}
		for i := 0; i < tb.nphi; i++ {
			fr.slots[tb.instrs[i].dst] = fr.get(&tb.instrs[i].ops[edge])
		}
	}
	for i := tb.nphi; i < len(tb.instrs); i++ {
		w.steps++
		di := &tb.instrs[i]
		switch in := di.in.(type) {
		case *ssa.Jump:
			return specNext{t: tb.b.Succs[0].Index}, true
		case *ssa.Return:
			if fr.fi.hasDefer || fr.fi.fn.Recover != nil {
				return specNext{}, false
			}
			n := specNext{isRet: true}
			for j := range di.ops {
				n.ret = append(n.ret, fr.get(&di.ops[j]))
			}
			return n, true
		case *ssa.If:
			c := fr.get(&di.ops[0])
			switch c := c.(type) {
			case bool:
				if c {
					return specNext{t: tb.b.Succs[0].Index}, true
				}
				return specNext{t: tb.b.Succs[1].Index}, true
			case *Expr:
				return specNext{cond: c, t: tb.b.Succs[0].Index, f: tb.b.Succs[1].Index}, true
			}
			return specNext{}, false
		case *ssa.UnOp, *ssa.BinOp, *ssa.Convert, *ssa.Field, *ssa.ChangeType, *ssa.Extract, *ssa.Call,
			*ssa.FieldAddr, *ssa.IndexAddr, *ssa.Index, *ssa.Alloc, *ssa.Store, *ssa.Slice, *ssa.MakeInterface:
			if w.spec == 0 {
				w.specCells = nil
			}
			w.spec++
			r := func() value {
				defer func() { w.spec-- }()
				return fr.exec(di)
			}()
			if di.dst >= 0 {
				fr.slots[di.dst] = r
			}
		default:
			_ = in
			return specNext{}, false
		}
	}
	return specNext{}, false
}

// rtPanic is a runtime error of the target; during speculation it aborts the
// attempt.
func (w *Worker) rtPanic(msg string) any {
	if w.spec > 0 {
		return specFail{}
	}
	return &targetPanic{v: iface{t: w.rtErrType(), v: "runtime error: " + msg}, msg: "runtime error: " + msg}
}

func (w *Worker) mkPanic(v value) any {
	if w.spec > 0 {
		return specFail{}
	}
	msg := "panic"
	if i, ok := v.(iface); ok {
		if i.t == nil {
			return w.rtPanic("panic called with nil argument")
		}
		if s, ok := i.v.(string); ok {
			msg = "panic: " + s
		}
	}
	return &targetPanic{v: v, msg: msg}
}

func (w *Worker) rtErrType() types.Type {
	return w.eng.rtErr
}
