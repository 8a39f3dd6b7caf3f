package main

import (
	"fmt"
	"go/token"
	"go/types"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	panic(internalErr("deref of " + t.String()))
}

func (fr *frame) exec(di *dinstr) value {
	w := fr.w
	switch in := di.in.(type) {
	case *ssa.Alloc:
		p := new(value)
		*p = zero(deref(in.Type()))
		if w.spec > 0 {
			w.own(p)
		}
		return p
	case *ssa.BinOp:
		return w.binop(in.Op, in.X.Type(), fr.get(&di.ops[0]), fr.get(&di.ops[1]), in.Y.Type())
	case *ssa.UnOp:
		return fr.unop(in, fr.get(&di.ops[0]))
	case *ssa.Call:
		return fr.call(di, &in.Call)
	case *ssa.ChangeInterface:
		return fr.get(&di.ops[0])
	case *ssa.ChangeType:
		return fr.get(&di.ops[0])
	case *ssa.Convert:
		return w.convert(in.Type(), in.X.Type(), fr.get(&di.ops[0]))
	case *ssa.MultiConvert:
		return w.convert(in.Type(), in.X.Type(), fr.get(&di.ops[0]))
	case *ssa.SliceToArrayPointer:
		s := fr.get(&di.ops[0]).(slicev)
		n := int(deref(in.Type()).Underlying().(*types.Array).Len())
		if n > len(s) {
			panic(w.rtPanic("cannot convert slice to array pointer"))
		}
		if s == nil {
			return (*value)(nil)
		}
		p := new(value)
		*p = structv(s[:n:n])
		return p
	case *ssa.MakeInterface:
		return iface{in.X.Type(), copyVal(fr.get(&di.ops[0]))}
	case *ssa.Extract:
		return fr.get(&di.ops[0]).(tuple)[in.Index]
	case *ssa.Field:
		return fr.get(&di.ops[0]).(structv)[in.Field]
	case *ssa.FieldAddr:
		return w.fieldAddr(fr.get(&di.ops[0]), in.Field)
	case *ssa.IndexAddr:
		return w.indexAddr(fr.get(&di.ops[0]), w.wideIdx(fr.get(&di.ops[1]), in.Index.Type()))
	case *ssa.Index:
		return w.fixWidth(w.index(fr.get(&di.ops[0]), w.wideIdx(fr.get(&di.ops[1]), in.Index.Type())), in.Type())
	case *ssa.Lookup:
		return w.lookup(in, fr.get(&di.ops[0]), fr.get(&di.ops[1]))
	case *ssa.MapUpdate:
		w.impure()
		m := fr.get(&di.ops[0]).(*mapv)
		if m == nil {
			panic(&targetPanic{v: iface{t: w.rtErrType(), v: "assignment to entry in nil map"}, msg: "assignment to entry in nil map"})
		}
		w.mapSet(m, copyVal(fr.get(&di.ops[1])), copyVal(fr.get(&di.ops[2])))
		return nil
	case *ssa.MakeMap:
		return &mapv{index: map[string]*mapEntry{}}
	case *ssa.MakeSlice:
		n := w.concInt(fr.get(&di.ops[0]))
		c := w.concInt(fr.get(&di.ops[1]))
		if n < 0 || n > 1<<26 {
			panic(w.rtPanic("makeslice: len out of range"))
		}
		if c < n || c > 1<<26 {
			panic(w.rtPanic("makeslice: cap out of range"))
		}
		s := make(slicev, c)
		et := in.Type().Underlying().(*types.Slice).Elem()
		for i := range s {
			s[i] = zero(et)
		}
		return s[:n]
	case *ssa.MakeClosure:
		fn := in.Fn.(*ssa.Function)
		env := make([]value, len(di.ops)-1)
		for i := range env {
			env[i] = fr.get(&di.ops[i+1])
		}
		return &closure{fn: fn, env: env}
	case *ssa.Store:
		if w.spec > 0 {
			if p, ok := fr.get(&di.ops[0]).(*value); !ok || !w.specCells[p] {
				w.impure()
			}
		}
		w.store(fr.get(&di.ops[0]), fr.get(&di.ops[1]))
		return nil
	case *ssa.Slice:
		return fr.slice(di, in)
	case *ssa.TypeAssert:
		return w.typeAssert(in, fr.get(&di.ops[0]).(iface))
	case *ssa.Range:
		x := fr.get(&di.ops[0])
		switch x := x.(type) {
		case *mapv:
			it := &mapIter{}
			if x != nil {
				it.m = x
			}
			return it
		case string, *symstr:
			return &strIter{b: x}
		}
		unsupported("range over %T", x)
	case *ssa.Next:
		switch it := fr.get(&di.ops[0]).(type) {
		case *mapIter:
			return it.next(in)
		case *strIter:
			return it.next(w)
		}
	case *ssa.Defer:
		w.impure()
		d := &deferred{}
		fn, args := fr.prepareCall(&in.Call, di.ops[:len(di.ops)-1])
		d.fn, d.args = fn, args
		st := fr.defStack
		if o := &di.ops[len(di.ops)-1]; o.kind != kNil {
			st = fr.get(o).(**deferred)
		}
		d.next = *st
		*st = d
		return nil
	case *ssa.Go:
		w.goStmt(fr, di, in)
		return nil
	case *ssa.MakeChan:
		return newChan(w.concInt(fr.get(&di.ops[0])))
	case *ssa.Send:
		w.chanSend(fr.get(&di.ops[0]), fr.get(&di.ops[1]))
		return nil
	case *ssa.Select:
		return w.selectStmt(fr, di, in)
	case *ssa.RunDefers:
		w.impure()
		fr.runDefers()
		return nil
	}
	unsupported("instruction %s (%T) in %s", di.in, di.in, fr.fi.name)
	return nil
}

// prepareCall evaluates the function and arguments of a call.
func (fr *frame) prepareCall(c *ssa.CallCommon, ops []opnd) (*closure, []value) {
	w := fr.w
	if c.IsInvoke() {
		recv := fr.get(&ops[0]).(iface)
		if recv.t == nil {
			panic(w.rtPanic("invalid memory address or nil pointer dereference"))
		}
		fn := w.lookupMethod(recv.t, c.Method)
		if fn == nil {
			panic(internalErr(fmt.Sprintf("no method %s on %s", c.Method.Name(), recv.t)))
		}
		args := make([]value, len(ops))
		args[0] = recv.v
		for i := 1; i < len(ops); i++ {
			args[i] = fr.get(&ops[i])
		}
		return &closure{fn: fn}, args
	}
	f := fr.get(&ops[0])
	args := make([]value, len(ops)-1)
	for i := range args {
		args[i] = fr.get(&ops[i+1])
	}
	return f.(*closure), args
}

func (fr *frame) call(di *dinstr, c *ssa.CallCommon) value {
	w := fr.w
	if c.IsInvoke() {
		cl, args := fr.prepareCall(c, di.ops)
		return w.callFn(fr, cl.fn, args, nil)
	}
	f := fr.get(&di.ops[0])
	cl := f.(*closure)
	if cl == nil {
		panic(w.rtPanic("invalid memory address or nil pointer dereference"))
	}
	args := make([]value, len(di.ops)-1)
	for i := range args {
		args[i] = fr.get(&di.ops[i+1])
	}
	switch {
	case cl.native != nil:
		return cl.native(fr, args)
	case cl.blt != nil:
		return w.callBuiltin(fr, cl.blt, args, c)
	}
	return w.callFn(fr, cl.fn, args, cl.env)
}

type methKey struct {
	t types.Type
	m string
}

func (w *Worker) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m.Id()}
	if f, ok := w.methods[k]; ok {
		return f
	}
	f := w.p.prog.LookupMethod(t, m.Pkg(), m.Name())
	w.methods[k] = f
	return f
}

// findMethod looks a method up by name; nil if the type has none.
func (w *Worker) findMethod(t types.Type, name string) *ssa.Function {
	k := methKey{t, "#" + name}
	if f, ok := w.methods[k]; ok {
		return f
	}
	var f *ssa.Function
	ms := w.p.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			f = w.p.prog.MethodValue(ms.At(i))
		}
	}
	w.methods[k] = f
	return f
}

// ---- memory ----

func (w *Worker) fieldAddr(p value, f int) value {
	switch p := p.(type) {
	case *value:
		if p == nil {
			panic(w.rtPanic("invalid memory address or nil pointer dereference"))
		}
		if s, ok := (*p).(structv); ok {
			return &s[f]
		}
		unsupported("field of opaque object %T", *p)
	case *symptr:
		np := make([]int, len(p.path)+1)
		copy(np, p.path)
		np[len(p.path)] = f
		return &symptr{p.elems, p.idx, np}
	}
	panic(internalErr(fmt.Sprintf("fieldAddr of %T", p)))
}

func (w *Worker) indexAddr(x, iv value) value {
	var s []value
	switch x := x.(type) {
	case slicev:
		s = x
	case *value:
		if x == nil {
			panic(w.rtPanic("invalid memory address or nil pointer dereference"))
		}
		s = (*x).(structv)
	case *symptr:
		return w.indexAddr(w.concPtr(x), iv)
	default:
		panic(internalErr(fmt.Sprintf("indexAddr of %T", x)))
	}
	switch i := iv.(type) {
	case int64:
		if i < 0 || i >= int64(len(s)) {
			panic(w.rtPanic("index out of range"))
		}
		return &s[i]
	case *Expr:
		e := w.boundIdx(i, len(s))
		if k, ok := e.(int64); ok {
			return &s[k]
		}
		return &symptr{elems: s, idx: e.(*Expr)}
	}
	panic(internalErr("index"))
}

// wideIdx extends a symbolic index to the width of an int as its type says.
func (w *Worker) wideIdx(v value, t types.Type) value {
	e, ok := v.(*Expr)
	if !ok || e.w == 64 {
		return v
	}
	k, _ := intInfo(t)
	return w.box(w.ctx.conv(e, 64, k.signed), intKind{64, true})
}

// boundIdx decides whether a symbolic index is in range and panics otherwise.
func (w *Worker) boundIdx(i *Expr, n int) value {
	i = w.simp(i)
	if i.isConst() {
		k := sext(i.val, i.w)
		if k < 0 || k >= int64(n) {
			panic(w.rtPanic("index out of range"))
		}
		return k
	}
	var in *Expr
	if n == 0 {
		in = w.ctx.ff
	} else {
		e := w.ctx.conv(i, 64, true)
		in = w.ctx.cmp(OUlt, e, w.ctx.bv(uint64(n), 64))
	}
	if w.spec > 0 {
		e := w.simp(in)
		if e != w.ctx.tt {
			if v, ok := w.decideQuick(e); !ok || !v {
				panic(specFail{})
			}
		}
	} else if !w.decide(in) {
		panic(w.rtPanic("index out of range"))
	}
	return i
}

// concPtr concretizes the index of a symbolic pointer.
func (w *Worker) concPtr(p *symptr) *value {
	k := w.concretize(p.idx)
	q := &p.elems[k]
	for _, f := range p.path {
		q = &(*q).(structv)[f]
	}
	return q
}

func (p *symptr) at(k int) *value {
	q := &p.elems[k]
	for _, f := range p.path {
		q = &(*q).(structv)[f]
	}
	return q
}

func (w *Worker) load(p value) value {
	switch p := p.(type) {
	case *value:
		if p == nil {
			panic(w.rtPanic("invalid memory address or nil pointer dereference"))
		}
		return copyVal(*p)
	case *symptr:
		if len(p.elems) == 0 {
			panic(internalErr("symptr into empty slice"))
		}
		r := copyVal(*p.at(len(p.elems) - 1))
		for k := len(p.elems) - 2; k >= 0; k-- {
			c := w.ctx.eq(p.idx, w.ctx.bv(uint64(k), p.idx.w))
			if c = w.simp(c); c == w.ctx.ff {
				continue
			}
			m, ok := w.mergeVal(c, copyVal(*p.at(k)), r)
			if !ok {
				return copyVal(*w.concPtr(p))
			}
			r = m
		}
		return r
	}
	panic(internalErr(fmt.Sprintf("load from %T", p)))
}

func (w *Worker) store(p value, v value) {
	switch p := p.(type) {
	case *value:
		if p == nil {
			panic(w.rtPanic("invalid memory address or nil pointer dereference"))
		}
		assign(p, v)
		return
	case *symptr:
		nv := make([]value, len(p.elems))
		for k := range p.elems {
			c := w.simp(w.ctx.eq(p.idx, w.ctx.bv(uint64(k), p.idx.w)))
			if c == w.ctx.ff {
				nv[k] = *p.at(k)
				continue
			}
			m, ok := w.mergeVal(c, v, *p.at(k))
			if !ok {
				assign(w.concPtr(p), v)
				return
			}
			nv[k] = m
		}
		for k := range p.elems {
			assign(p.at(k), nv[k])
		}
		return
	}
	panic(internalErr(fmt.Sprintf("store to %T", p)))
}

func (w *Worker) index(x, iv value) value {
	switch x := x.(type) {
	case structv:
		switch i := iv.(type) {
		case int64:
			if i < 0 || i >= int64(len(x)) {
				panic(w.rtPanic("index out of range"))
			}
			return x[i]
		case *Expr:
			e := w.boundIdx(i, len(x))
			if k, ok := e.(int64); ok {
				return x[k]
			}
			r := w.load(&symptr{elems: x, idx: e.(*Expr)})
			return r
		}
	case string, *symstr:
		return w.strIndex(x, iv)
	}
	panic(internalErr(fmt.Sprintf("index of %T", x)))
}

func (w *Worker) strIndex(x, iv value) value {
	switch i := iv.(type) {
	case int64:
		if i < 0 || i >= int64(strLen(x)) {
			panic(w.rtPanic("index out of range"))
		}
		if s, ok := x.(string); ok {
			return int64(s[i])
		}
		return x.(*symstr).b[i]
	case *Expr:
		e := w.boundIdx(i, strLen(x))
		b := strBytes(x)
		if k, ok := e.(int64); ok {
			return b[k]
		}
		return w.narrow8(w.load(&symptr{elems: b, idx: e.(*Expr)}))
	}
	panic(internalErr("string index"))
}

func (w *Worker) narrow8(v value) value {
	if e, ok := v.(*Expr); ok && e.w != 8 {
		return w.ctx.conv(e, 8, false)
	}
	return v
}

func (fr *frame) slice(di *dinstr, in *ssa.Slice) value {
	w := fr.w
	x := fr.get(&di.ops[0])
	lo, hi, max := 0, -1, -1
	if in.Low != nil {
		lo = w.concInt(fr.get(&di.ops[1]))
	}
	if in.High != nil {
		hi = w.concInt(fr.get(&di.ops[2]))
	}
	if in.Max != nil {
		max = w.concInt(fr.get(&di.ops[3]))
	}
	switch x := x.(type) {
	case string, *symstr:
		n := strLen(x)
		if in.High == nil {
			hi = n
		}
		if lo < 0 || hi < lo || hi > n {
			panic(w.rtPanic("slice bounds out of range"))
		}
		if s, ok := x.(string); ok {
			return s[lo:hi]
		}
		return normStr(x.(*symstr).b[lo:hi])
	case slicev:
		return w.reslice([]value(x), x == nil, lo, hi, max, in.High != nil, in.Max != nil)
	case *value:
		if x == nil {
			panic(w.rtPanic("invalid memory address or nil pointer dereference"))
		}
		return w.reslice([]value((*x).(structv)), false, lo, hi, max, in.High != nil, in.Max != nil)
	}
	panic(internalErr(fmt.Sprintf("slice of %T", x)))
}

func (w *Worker) reslice(s []value, isnil bool, lo, hi, max int, hasHi, hasMax bool) value {
	if !hasHi {
		hi = len(s)
	}
	if !hasMax {
		max = cap(s)
	}
	if lo < 0 || hi < lo || max < hi || max > cap(s) {
		panic(w.rtPanic("slice bounds out of range"))
	}
	if isnil {
		return slicev(nil)
	}
	return slicev(s[lo:hi:max])
}

// ---- type assertions ----

func (w *Worker) implements(t types.Type, it *types.Interface) bool {
	return types.Implements(t, it)
}

func (w *Worker) typeAssert(in *ssa.TypeAssert, x iface) value {
	ok := false
	var r value
	if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
		if x.t != nil && w.implements(x.t, it) {
			ok = true
			r = x
		} else {
			r = iface{}
		}
	} else {
		if x.t != nil && types.Identical(x.t, in.AssertedType) {
			ok = true
			r = copyVal(x.v)
		} else {
			r = zero(in.AssertedType)
		}
	}
	if in.CommaOk {
		return tuple{r, ok}
	}
	if !ok {
		panic(&targetPanic{v: iface{t: w.rtErrType(), v: "interface conversion"}, msg: "interface conversion: not " + in.AssertedType.String()})
	}
	return r
}

// ---- iteration ----

type mapIter struct {
	m *mapv
	i int
}

func (it *mapIter) next(in *ssa.Next) value {
	for it.m != nil && it.i < len(it.m.entries) {
		e := it.m.entries[it.i]
		it.i++
		if e.deleted {
			continue
		}
		return tuple{true, e.k, e.v}
	}
	tt := in.Type().(*types.Tuple)
	z := func(t types.Type) value {
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return nil
		}
		return zero(t)
	}
	return tuple{false, z(tt.At(1).Type()), z(tt.At(2).Type())}
}

type strIter struct {
	b value
	i int
}

func (it *strIter) next(w *Worker) value {
	n := strLen(it.b)
	if it.i >= n {
		return tuple{false, int64(0), int64(0)}
	}
	if s, ok := it.b.(string); ok {
		for k, r := range s[it.i:] {
			_ = k
			i := it.i
			sz := len(string(r))
			if r == 0xFFFD {
				// width of an invalid encoding is 1
				if len(s[i:]) >= 3 && s[i:i+3] == "\uFFFD" {
					sz = 3
				} else {
					sz = 1
				}
			}
			it.i += sz
			return tuple{true, int64(i), int64(r)}
		}
	}
	b := it.b.(*symstr).b
	i := it.i
	c := b[i]
	if e, ok := c.(*Expr); ok {
		if w.decide(w.ctx.cmp(OUlt, e, w.ctx.bv(0x80, 8))) {
			it.i++
			return tuple{true, int64(i), w.ctx.conv(e, 32, false)}
		}
	}
	if v, ok := c.(int64); ok && v < 0x80 {
		it.i++
		return tuple{true, int64(i), v}
	}
	r, sz := w.decodeRune(b[i:])
	it.i += sz
	return tuple{true, int64(i), r}
}

// decodeRune reads the multi-byte rune at the start of b, keeping the value
// symbolic. The cases are those of the table in the Unicode standard.
func (w *Worker) decodeRune(b []value) (value, int) {
	ctx := w.ctx
	in := func(v value, lo, hi uint64) bool {
		if c, ok := v.(int64); ok {
			return uint64(c) >= lo && uint64(c) <= hi
		}
		e := v.(*Expr)
		return w.truth(w.simp(ctx.and(ctx.not(ctx.cmp(OUlt, e, ctx.bv(lo, 8))), ctx.not(ctx.cmp(OUlt, ctx.bv(hi, 8), e)))))
	}
	bad := func() (value, int) { return int64(utf8.RuneError), 1 }
	part := func(v value, mask uint64, shift uint) *Expr {
		e := ctx.conv(w.lift(v, 8), 32, false)
		e = ctx.bin(OBAnd, e, ctx.bv(mask, 32))
		if shift > 0 {
			e = ctx.bin(OMul, e, ctx.bv(1<<shift, 32))
		}
		return e
	}
	type form struct {
		lo, hi   uint64 // first byte
		lo2, hi2 uint64 // second byte
		n        int
	}
	forms := []form{
		{0xC2, 0xDF, 0x80, 0xBF, 2},
		{0xE0, 0xE0, 0xA0, 0xBF, 3}, {0xE1, 0xEC, 0x80, 0xBF, 3}, {0xED, 0xED, 0x80, 0x9F, 3}, {0xEE, 0xEF, 0x80, 0xBF, 3},
		{0xF0, 0xF0, 0x90, 0xBF, 4}, {0xF1, 0xF3, 0x80, 0xBF, 4}, {0xF4, 0xF4, 0x80, 0x8F, 4},
	}
	if !in(b[0], 0xC2, 0xF4) || len(b) < 2 {
		return bad()
	}
	for _, f := range forms {
		if !in(b[0], f.lo, f.hi) {
			continue
		}
		if len(b) < f.n || !in(b[1], f.lo2, f.hi2) {
			return bad()
		}
		for _, c := range b[2:f.n] {
			if !in(c, 0x80, 0xBF) {
				return bad()
			}
		}
		r := part(b[0], map[int]uint64{2: 0x1F, 3: 0x0F, 4: 0x07}[f.n], uint(6*(f.n-1)))
		for k := 1; k < f.n; k++ {
			r = ctx.bin(OAdd, r, part(b[k], 0x3F, uint(6*(f.n-1-k))))
		}
		return w.box(w.simp(r), intKind{32, true}), f.n
	}
	return bad()
}

// ---- maps ----

func (w *Worker) lookup(in *ssa.Lookup, x, k value) value {
	if _, ok := in.X.Type().Underlying().(*types.Map); !ok {
		return w.strIndex(x, w.wideIdx(k, in.Index.Type()))
	}
	m := x.(*mapv)
	vt := in.X.Type().Underlying().(*types.Map).Elem()
	v, ok := w.mapGet(m, k, vt)
	if in.CommaOk {
		return tuple{v, ok}
	}
	return v
}

// mapGet returns the value and presence (bool or *Expr) for a key.
func (w *Worker) mapGet(m *mapv, k value, vt types.Type) (value, value) {
	z := zero(vt)
	if m == nil {
		return z, false
	}
	sym := isSym(k)
	if sym {
		k = w.simpVal(k)
		sym = isSym(k)
	}
	if !sym {
		w.checkHashable(k)
		if e, ok := m.index[keyOf(k)]; ok {
			return copyVal(e.v), true
		}
		if m.nsym == 0 {
			return z, false
		}
	}
	// Candidates in insertion order.
	type cand struct {
		c *Expr
		e *mapEntry
	}
	var cs []cand
	for _, e := range m.entries {
		if e.deleted {
			continue
		}
		c := w.simp(w.eqVal(e.k, k))
		if c == w.ctx.ff {
			continue
		}
		cs = append(cs, cand{c, e})
		if c == w.ctx.tt {
			break
		}
	}
	var r value = z
	var ok *Expr = w.ctx.ff
	mergeable := true
	for i := len(cs) - 1; i >= 0; i-- {
		mv, good := w.mergeVal(cs[i].c, copyVal(cs[i].e.v), r)
		if good {
			mv = w.fixWidth(mv, vt)
		}
		if cs[i].c == w.ctx.tt {
			mv, good = copyVal(cs[i].e.v), true
		}
		if !good {
			mergeable = false
			break
		}
		r = mv
		ok = w.ctx.or(cs[i].c, ok)
	}
	if mergeable {
		ok = w.simp(ok)
		if v, q := w.decideQuick(ok); q {
			return r, v
		}
		return r, w.box(ok, intKind{})
	}
	for _, c := range cs {
		if w.decide(c.c) {
			return copyVal(c.e.v), true
		}
	}
	return z, false
}

func (w *Worker) checkHashable(k value) {
	if i, ok := k.(iface); ok && i.t != nil && !types.Comparable(i.t) {
		panic(w.rtPanic("hash of unhashable type"))
	}
}

func (w *Worker) mapFind(m *mapv, k value) (*mapEntry, value) {
	if isSym(k) {
		k = w.simpVal(k)
	}
	if !isSym(k) {
		if e, ok := m.index[keyOf(k)]; ok {
			return e, k
		}
		if m.nsym == 0 {
			return nil, k
		}
	}
	for _, e := range m.entries {
		if e.deleted {
			continue
		}
		if w.decide(w.simp(w.eqVal(e.k, k))) {
			return e, k
		}
	}
	return nil, k
}

func (w *Worker) mapSet(m *mapv, k, v value) {
	w.checkHashable(k)
	e, k := w.mapFind(m, k)
	if e != nil {
		e.v = v
		return
	}
	e = &mapEntry{k: k, v: v}
	m.entries = append(m.entries, e)
	m.n++
	if isSym(k) {
		m.nsym++
	} else {
		m.index[keyOf(k)] = e
	}
}

func (w *Worker) mapDelete(m *mapv, k value) {
	if m == nil {
		return
	}
	e, _ := w.mapFind(m, k)
	if e == nil {
		return
	}
	e.deleted = true
	m.n--
	if isSym(e.k) {
		m.nsym--
	} else {
		delete(m.index, keyOf(e.k))
	}
	if len(m.entries) > 64 && m.n*2 < len(m.entries) && false {
		m.entries = nil
	}
}

// ---- builtins ----

func (w *Worker) callBuiltin(fr *frame, b *ssa.Builtin, args []value, c *ssa.CallCommon) value {
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case string, *symstr:
			return int64(strLen(x))
		case slicev:
			return int64(len(x))
		case structv:
			return int64(len(x))
		case *mapv:
			if x == nil {
				return int64(0)
			}
			return int64(x.n)
		case *value:
			if b.Type().(*types.Signature).Params().Len() > 0 {
				if a, ok := b.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Pointer); ok {
					return int64(a.Elem().Underlying().(*types.Array).Len())
				}
			}
		}
	case "cap":
		switch x := args[0].(type) {
		case slicev:
			return int64(cap(x))
		case structv:
			return int64(len(x))
		}
	case "append":
		w.impure()
		return w.appendVals(b, args)
	case "copy":
		w.impure()
		d := args[0].(slicev)
		var src []value
		switch s := args[1].(type) {
		case slicev:
			src = s
		case string, *symstr:
			src = strBytes(s)
		}
		n := len(d)
		if len(src) < n {
			n = len(src)
		}
		tmp := make([]value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			assign(&d[i], tmp[i])
		}
		return int64(n)
	case "delete":
		w.impure()
		w.mapDelete(args[0].(*mapv), args[1])
		return nil
	case "clear":
		w.impure()
		switch x := args[0].(type) {
		case *mapv:
			if x != nil {
				for _, e := range x.entries {
					e.deleted = true
				}
				x.entries, x.index, x.n, x.nsym = nil, map[string]*mapEntry{}, 0, 0
			}
		case slicev:
			et := b.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Slice).Elem()
			for i := range x {
				assign(&x[i], zero(et))
			}
		}
		return nil
	case "min", "max":
		t := b.Type().(*types.Signature).Params().At(0).Type()
		r := args[0]
		for _, a := range args[1:] {
			op := token.LSS
			if b.Name() == "max" {
				op = token.GTR
			}
			c := w.binop(op, t, a, r, t)
			switch c := c.(type) {
			case bool:
				if c {
					r = a
				}
			case *Expr:
				m, ok := w.mergeVal(c, a, r)
				if !ok {
					unsupported("min/max merge")
				}
				r = m
			}
		}
		return r
	case "close":
		w.impure()
		ch := chanOf(args[0])
		if ch == nil || ch.closed {
			panic(w.rtPanic("close of nil or closed channel"))
		}
		ch.closed = true
		return nil
	case "print", "println":
		return nil
	case "recover":
		w.impure()
		// fr is the deferred function's frame; its caller is the panicking one.
		if fr != nil && fr.caller != nil && fr.caller.panicking {
			fr.caller.panicking = false
			tp := fr.caller.panicv.(*targetPanic)
			return tp.v
		}
		return iface{}
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*value); ok && p == nil {
			panic(w.rtPanic("value method called using nil pointer"))
		}
		return args[0]
	case "ssa:deferstack":
		return fr.defStack
	case "SliceData":
		return &sliceData{args[0].(slicev)}
	case "StringData":
		return &sliceData{slicev(strBytes(args[0]))}
	case "String":
		n := w.concInt(args[1])
		if n == 0 {
			return ""
		}
		switch p := args[0].(type) {
		case *sliceData:
			return normStr(p.s[:n:n])
		case *value:
			unsupported("unsafe.String of pointer")
		}
	case "Slice":
		n := w.concInt(args[1])
		if p, ok := args[0].(*sliceData); ok {
			return p.s[:n:n]
		}
		if p, ok := args[0].(*value); ok && p == nil {
			return slicev(nil)
		}
	}
	unsupported("builtin %s(%T)", b.Name(), args)
	return nil
}

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundupsize(size int, noscan bool) int {
	req := size
	if req <= 32768-8 {
		if !noscan && req > 512 {
			req += 8
		}
		for _, c := range sizeClasses {
			if c >= req {
				return c - (req - size)
			}
		}
	}
	req += 8191
	return req &^ 8191
}

func growCap(newLen, oldCap, esize int, noscan bool) int {
	nc := oldCap
	if newLen > 2*oldCap {
		nc = newLen
	} else if oldCap < 256 {
		nc = 2 * oldCap
	} else {
		for nc < newLen {
			nc += (nc + 3*256) >> 2
		}
	}
	if esize == 0 {
		return newLen
	}
	return roundupsize(nc*esize, noscan) / esize
}

func hasPointers(t types.Type) bool {
	switch t := t.Underlying().(type) {
	case *types.Basic:
		return t.Info()&types.IsString != 0 || t.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < t.NumFields(); i++ {
			if hasPointers(t.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return t.Len() > 0 && hasPointers(t.Elem())
	}
	return true
}

func (w *Worker) appendVals(b *ssa.Builtin, args []value) value {
	st := b.Type().(*types.Signature).Params().At(0).Type().Underlying()
	sl, ok := st.(*types.Slice)
	if !ok {
		unsupported("append to %s", st)
	}
	s := args[0].(slicev)
	if len(args) < 2 {
		return s
	}
	var src []value
	switch x := args[1].(type) {
	case slicev:
		src = x
	case string, *symstr:
		src = strBytes(x)
	default:
		unsupported("append of %T", x)
	}
	return w.appendTo(s, src, sl.Elem())
}

func (w *Worker) appendTo(s slicev, src []value, et types.Type) slicev {
	if len(src) == 0 {
		return s
	}
	n := len(s) + len(src)
	if n <= cap(s) {
		r := s[:n]
		tmp := make([]value, len(src))
		for i, x := range src {
			tmp[i] = copyVal(x)
		}
		for i := range tmp {
			assign(&r[len(s)+i], tmp[i])
		}
		return r
	}
	nc := growCap(n, cap(s), int(w.p.sizes.Sizeof(et)), !hasPointers(et))
	if nc < n {
		nc = n
	}
	r := make(slicev, nc)
	for i, x := range s {
		r[i] = copyVal(x)
	}
	for i, x := range src {
		r[len(s)+i] = copyVal(x)
	}
	for i := n; i < nc; i++ {
		r[i] = zero(et)
	}
	return r[:n]
}
