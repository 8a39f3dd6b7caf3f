package main

// Hash-consed SMT terms (booleans and bit-vectors) with light simplification.

import (
	"fmt"
	"math/bits"
	"sort"
	"strconv"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OSym
	ONot
	OAnd
	OOr
	OIte
	OEq
	OUlt
	OSlt
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OShl
	OLShr
	OAShr
	OBNot
	ONeg
	OZExt
	OSExt
	OExtract // low w bits
)

// Expr is an immutable term. w == 0 means boolean, otherwise a bit-vector of
// width w.
type Expr struct {
	op   Op
	w    uint8
	val  uint64
	name string
	args []*Expr
	id   int
	// lo, hi: declared domain of a symbol (as unsigned raw values), valid when
	// dom is true.
	hasSym bool
}

// Ctx owns the terms of one worker.
type Ctx struct {
	tab    map[string]*Expr
	n      int
	tt, ff *Expr
}

func newCtx() *Ctx {
	c := &Ctx{tab: make(map[string]*Expr)}
	c.tt = c.mk(OConst, 0, 1, "", nil)
	c.ff = c.mk(OConst, 0, 0, "", nil)
	return c
}

func (c *Ctx) mk(op Op, w uint8, val uint64, name string, args []*Expr) *Expr {
	var buf [96]byte
	k := buf[:0]
	k = append(k, byte(op), w)
	k = strconv.AppendUint(k, val, 36)
	k = append(k, '|')
	k = append(k, name...)
	for _, a := range args {
		k = append(k, ',')
		k = strconv.AppendInt(k, int64(a.id), 36)
	}
	if e, ok := c.tab[string(k)]; ok {
		return e
	}
	e := &Expr{op: op, w: w, val: val, name: name, args: args, id: c.n}
	e.hasSym = op == OSym
	for _, a := range args {
		if a.hasSym {
			e.hasSym = true
		}
	}
	c.n++
	c.tab[string(k)] = e
	return e
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	sh := 64 - w
	return int64(v<<sh) >> sh
}

func (e *Expr) isConst() bool { return e.op == OConst }

func (c *Ctx) bool(b bool) *Expr {
	if b {
		return c.tt
	}
	return c.ff
}

func (c *Ctx) bv(v uint64, w uint8) *Expr {
	return c.mk(OConst, w, v&mask(w), "", nil)
}

func (c *Ctx) sym(name string, w uint8) *Expr {
	return c.mk(OSym, w, 0, name, nil)
}

func (c *Ctx) not(a *Expr) *Expr {
	switch a.op {
	case OConst:
		return c.bool(a.val == 0)
	case ONot:
		return a.args[0]
	}
	return c.mk(ONot, 0, 0, "", []*Expr{a})
}

func (c *Ctx) nary(op Op, xs []*Expr) *Expr {
	unit, zero := c.tt, c.ff
	if op == OOr {
		unit, zero = c.ff, c.tt
	}
	seen := make(map[int]bool, len(xs))
	out := make([]*Expr, 0, len(xs))
	var add func(x *Expr) bool
	add = func(x *Expr) bool {
		if x == unit {
			return true
		}
		if x == zero {
			return false
		}
		if x.op == op {
			for _, y := range x.args {
				if !add(y) {
					return false
				}
			}
			return true
		}
		if seen[x.id] {
			return true
		}
		if x.op == ONot && seen[x.args[0].id] {
			return false
		}
		if x.op != ONot {
			if n, ok := c.lookupNot(x); ok && seen[n.id] {
				return false
			}
		}
		seen[x.id] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	switch len(out) {
	case 0:
		return unit
	case 1:
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return c.mk(op, 0, 0, "", out)
}

func (c *Ctx) lookupNot(x *Expr) (*Expr, bool) {
	var buf [32]byte
	k := buf[:0]
	k = append(k, byte(ONot), 0)
	k = strconv.AppendUint(k, 0, 36)
	k = append(k, '|', ',')
	k = strconv.AppendInt(k, int64(x.id), 36)
	e, ok := c.tab[string(k)]
	return e, ok
}

func (c *Ctx) and(xs ...*Expr) *Expr { return c.nary(OAnd, xs) }
func (c *Ctx) or(xs ...*Expr) *Expr  { return c.nary(OOr, xs) }

func (c *Ctx) ite(a, x, y *Expr) *Expr {
	if a.isConst() {
		if a.val != 0 {
			return x
		}
		return y
	}
	if x == y {
		return x
	}
	if a.op == ONot {
		return c.ite(a.args[0], y, x)
	}
	if x.w == 0 {
		switch {
		case x == c.tt:
			return c.or(a, y)
		case x == c.ff:
			return c.and(c.not(a), y)
		case y == c.tt:
			return c.or(c.not(a), x)
		case y == c.ff:
			return c.and(a, x)
		}
	}
	// ite(a, x, ite(a, _, z)) and mirror.
	if y.op == OIte && y.args[0] == a {
		y = y.args[2]
	}
	if x.op == OIte && x.args[0] == a {
		x = x.args[1]
	}
	if x == y {
		return x
	}
	if x.w >= 32 && !(x.isConst() && y.isConst()) {
		if p, q, ok := c.slim(x, y, 0); ok {
			return c.conv(c.ite(a, p, q), x.w, true)
		}
	}
	return c.mk(OIte, x.w, 0, "", []*Expr{a, x, y})
}

// slimWidth is the width that holds the signed value of x, when that shows.
func slimWidth(x *Expr) (uint8, bool) {
	switch x.op {
	case OConst:
		v := sext(x.val, x.w)
		if v < 0 {
			v = ^v
		}
		return uint8(bits.Len64(uint64(v))) + 1, true
	case OSExt:
		return x.args[0].w, true
	case OZExt:
		return x.args[0].w + 1, true
	}
	return 0, false
}

// slim gives a and b in a width that holds the signed values of both, with
// some extra bits, if that is narrower.
func (c *Ctx) slim(a, b *Expr, extra uint8) (*Expr, *Expr, bool) {
	wa, ok := slimWidth(a)
	wb, ok2 := slimWidth(b)
	if !ok || !ok2 {
		return nil, nil, false
	}
	if wb > wa {
		wa = wb
	}
	wa += extra
	if wa >= a.w {
		return nil, nil, false
	}
	f := func(x *Expr) *Expr {
		if x.isConst() {
			return c.bv(x.val, wa)
		}
		return c.conv(x.args[0], wa, x.op == OSExt)
	}
	return f(a), f(b), true
}

// iteConst reports whether e is an ite tree with constant leaves (size bounded).
func iteConst(e *Expr, budget *int) bool {
	*budget--
	if *budget < 0 {
		return false
	}
	if e.op == OConst {
		return true
	}
	if e.op == OIte {
		return iteConst(e.args[1], budget) && iteConst(e.args[2], budget)
	}
	return false
}

// mapIte applies f to the constant leaves of an ite tree.
func (c *Ctx) mapIte(e *Expr, f func(*Expr) *Expr) *Expr {
	if e.op == OIte {
		return c.ite(e.args[0], c.mapIte(e.args[1], f), c.mapIte(e.args[2], f))
	}
	return f(e)
}

func (c *Ctx) eq(a, b *Expr) *Expr {
	if a == b {
		return c.tt
	}
	if a.isConst() && b.isConst() {
		return c.bool(a.val == b.val)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.w == 0 {
		if b.isConst() {
			if b.val != 0 {
				return a
			}
			return c.not(a)
		}
		if a.op == ONot && a.args[0] == b || b.op == ONot && b.args[0] == a {
			return c.ff
		}
	}
	if b.isConst() {
		switch a.op {
		case OZExt:
			x := a.args[0]
			if b.val > mask(x.w) {
				return c.ff
			}
			return c.eq(x, c.bv(b.val, x.w))
		case OSExt:
			x := a.args[0]
			v := b.val & mask(x.w)
			if uint64(sext(v, x.w))&mask(a.w) != b.val {
				return c.ff
			}
			return c.eq(x, c.bv(v, x.w))
		case OIte:
			bud := 64
			if iteConst(a, &bud) {
				return c.mapIte(a, func(k *Expr) *Expr { return c.bool(k.val == b.val) })
			}
		case OAdd:
			if a.args[1].isConst() {
				return c.eq(a.args[0], c.bv(b.val-a.args[1].val, a.w))
			}
		case ONeg:
			return c.eq(a.args[0], c.bv(-b.val, a.w))
		}
	}
	if a.op == OZExt && b.op == OZExt && a.args[0].w == b.args[0].w {
		return c.eq(a.args[0], b.args[0])
	}
	if a.w > 0 {
		if x, y, ok := c.narrow(a, b); ok {
			return c.eq(x, y)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OEq, 0, 0, "", []*Expr{a, b})
}

func (c *Ctx) cmp(op Op, a, b *Expr) *Expr {
	if a == b {
		return c.ff
	}
	if a.isConst() && b.isConst() {
		if op == OUlt {
			return c.bool(a.val < b.val)
		}
		return c.bool(sext(a.val, a.w) < sext(b.val, b.w))
	}
	bud := 64
	if b.isConst() && a.op == OIte && iteConst(a, &bud) {
		return c.mapIte(a, func(k *Expr) *Expr { return c.cmp(op, k, b) })
	}
	bud = 64
	if a.isConst() && b.op == OIte && iteConst(b, &bud) {
		return c.mapIte(b, func(k *Expr) *Expr { return c.cmp(op, a, k) })
	}
	// Narrow comparisons of zero-extended operands against constants.
	if a.op == OZExt && b.isConst() && a.args[0].w < a.w {
		x := a.args[0]
		if op == OSlt && sext(b.val, b.w) <= 0 {
			return c.ff
		}
		if b.val > mask(x.w) {
			return c.tt
		}
		return c.cmp(OUlt, x, c.bv(b.val, x.w))
	}
	if b.op == OZExt && a.isConst() && b.args[0].w < b.w {
		x := b.args[0]
		if op == OSlt && sext(a.val, a.w) < 0 {
			return c.tt
		}
		if a.val >= mask(x.w) {
			return c.ff
		}
		return c.cmp(OUlt, c.bv(a.val, x.w), x)
	}
	if a.op == OZExt && b.op == OZExt && a.args[0].w == b.args[0].w && a.args[0].w < a.w {
		return c.cmp(OUlt, a.args[0], b.args[0])
	}
	if op == OSlt {
		// Signed comparisons of sign-extended operands.
		if a.op == OSExt && b.isConst() {
			x := a.args[0]
			v, lim := sext(b.val, b.w), int64(1)<<(x.w-1)
			if v <= -lim {
				return c.ff
			}
			if v >= lim {
				return c.tt
			}
			return c.cmp(OSlt, x, c.bv(uint64(v), x.w))
		}
		if b.op == OSExt && a.isConst() {
			x := b.args[0]
			v, lim := sext(a.val, a.w), int64(1)<<(x.w-1)
			if v < -lim {
				return c.tt
			}
			if v >= lim-1 {
				return c.ff
			}
			return c.cmp(OSlt, c.bv(uint64(v), x.w), x)
		}
		if x, y, ok := c.narrow(a, b); ok {
			return c.cmp(OSlt, x, y)
		}
	}
	return c.mk(op, 0, 0, "", []*Expr{a, b})
}

// narrow strips the extensions of two extended operands, keeping their
// signed values.
func (c *Ctx) narrow(a, b *Expr) (*Expr, *Expr, bool) {
	n := func(x *Expr) (uint8, bool) {
		switch x.op {
		case OSExt:
			return x.args[0].w, true
		case OZExt:
			return x.args[0].w + 1, true
		}
		return 0, false
	}
	wa, ok := n(a)
	wb, ok2 := n(b)
	if !ok || !ok2 {
		return nil, nil, false
	}
	if wb > wa {
		wa = wb
	}
	if wa >= a.w {
		return nil, nil, false
	}
	return c.conv(a.args[0], wa, a.op == OSExt), c.conv(b.args[0], wa, b.op == OSExt), true
}

func foldBV(op Op, a, b uint64, w uint8) (uint64, bool) {
	m := mask(w)
	switch op {
	case OAdd:
		return (a + b) & m, true
	case OSub:
		return (a - b) & m, true
	case OMul:
		return (a * b) & m, true
	case OUDiv:
		if b == 0 {
			return m, true
		}
		return a / b, true
	case OURem:
		if b == 0 {
			return a, true
		}
		return a % b, true
	case OSDiv:
		if b == 0 {
			return 0, false
		}
		x, y := sext(a, w), sext(b, w)
		if y == -1 {
			return uint64(-x) & m, true
		}
		return uint64(x/y) & m, true
	case OSRem:
		if b == 0 {
			return 0, false
		}
		x, y := sext(a, w), sext(b, w)
		if y == -1 {
			return 0, true
		}
		return uint64(x%y) & m, true
	case OBAnd:
		return a & b, true
	case OBOr:
		return a | b, true
	case OBXor:
		return a ^ b, true
	case OShl:
		if b >= uint64(w) {
			return 0, true
		}
		return (a << b) & m, true
	case OLShr:
		if b >= uint64(w) {
			return 0, true
		}
		return a >> b, true
	case OAShr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sext(a, w)>>b) & m, true
	}
	return 0, false
}

func (c *Ctx) bin(op Op, a, b *Expr) *Expr {
	w := a.w
	if a.isConst() && b.isConst() {
		if v, ok := foldBV(op, a.val, b.val, w); ok {
			return c.bv(v, w)
		}
	}
	switch op {
	case OAdd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 0 {
				return a
			}
			if a.op == OAdd && a.args[1].isConst() {
				return c.bin(OAdd, a.args[0], c.bv(a.args[1].val+b.val, w))
			}
		}
	case OSub:
		if b.isConst() {
			return c.bin(OAdd, a, c.bv(-b.val, w))
		}
		if a == b {
			return c.bv(0, w)
		}
	case OMul:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.val == 1 {
			return a
		}
		if b.isConst() && b.val == 0 {
			return b
		}
	}
	if (op == OAdd || op == OSub) && w >= 32 {
		if p, q, ok := c.slim(a, b, 1); ok {
			return c.conv(c.bin(op, p, q), w, true)
		}
	}
	bud := 48
	if b.isConst() && a.op == OIte && iteConst(a, &bud) {
		return c.mapIte(a, func(k *Expr) *Expr { return c.bin(op, k, b) })
	}
	bud = 48
	if a.isConst() && b.op == OIte && iteConst(b, &bud) {
		return c.mapIte(b, func(k *Expr) *Expr { return c.bin(op, a, k) })
	}
	return c.mk(op, w, 0, "", []*Expr{a, b})
}

func (c *Ctx) neg(a *Expr) *Expr {
	if a.isConst() {
		return c.bv(-a.val, a.w)
	}
	if a.op == ONeg {
		return a.args[0]
	}
	bud := 64
	if a.op == OIte && iteConst(a, &bud) {
		return c.mapIte(a, c.neg)
	}
	if a.op == OSExt && a.args[0].w+1 < a.w {
		x := a.args[0]
		return c.conv(c.neg(c.conv(x, x.w+1, true)), a.w, true)
	}
	return c.mk(ONeg, a.w, 0, "", []*Expr{a})
}

func (c *Ctx) bnot(a *Expr) *Expr {
	if a.isConst() {
		return c.bv(^a.val, a.w)
	}
	return c.mk(OBNot, a.w, 0, "", []*Expr{a})
}

// conv converts a to width w; signed says whether a is signed.
func (c *Ctx) conv(a *Expr, w uint8, signed bool) *Expr {
	if a.w == w {
		return a
	}
	if a.isConst() {
		if signed {
			return c.bv(uint64(sext(a.val, a.w)), w)
		}
		return c.bv(a.val, w)
	}
	bud := 64
	if a.op == OIte && iteConst(a, &bud) {
		return c.mapIte(a, func(k *Expr) *Expr { return c.conv(k, w, signed) })
	}
	if w < a.w {
		if (a.op == OZExt || a.op == OSExt) && a.args[0].w <= w {
			if a.args[0].w == w {
				return a.args[0]
			}
			return c.mk(a.op, w, 0, "", a.args)
		}
		return c.mk(OExtract, w, 0, "", []*Expr{a})
	}
	op := OZExt
	if signed {
		op = OSExt
		if a.op == OZExt && a.args[0].w < a.w {
			op = OZExt
		}
	}
	if a.op == op {
		return c.mk(op, w, 0, "", a.args)
	}
	return c.mk(op, w, 0, "", []*Expr{a})
}

// rebuild applies the smart constructor of e's operator to new arguments.
func (c *Ctx) rebuild(e *Expr, a []*Expr) *Expr {
	switch e.op {
	case ONot:
		return c.not(a[0])
	case OAnd, OOr:
		return c.nary(e.op, a)
	case OIte:
		return c.ite(a[0], a[1], a[2])
	case OEq:
		return c.eq(a[0], a[1])
	case OUlt, OSlt:
		return c.cmp(e.op, a[0], a[1])
	case OBNot:
		return c.bnot(a[0])
	case ONeg:
		return c.neg(a[0])
	case OZExt:
		return c.conv(a[0], e.w, false)
	case OSExt:
		return c.conv(a[0], e.w, true)
	case OExtract:
		return c.conv(a[0], e.w, false)
	}
	return c.bin(e.op, a[0], a[1])
}

// subst replaces symbols according to f (nil result: keep).
func (c *Ctx) subst(e *Expr, f func(*Expr) *Expr, memo map[*Expr]*Expr) *Expr {
	if !e.hasSym {
		return e
	}
	if r, ok := memo[e]; ok {
		return r
	}
	var r *Expr
	if n := f(e); n != nil {
		r = n
	} else if len(e.args) == 0 {
		r = e
	} else {
		na := make([]*Expr, len(e.args))
		ch := false
		for i, a := range e.args {
			na[i] = c.subst(a, f, memo)
			if na[i] != a {
				ch = true
			}
		}
		if ch {
			r = c.rebuild(e, na)
		} else {
			r = e
		}
	}
	memo[e] = r
	return r
}

// Model assigns raw values to symbol names.
type Model map[string]uint64

func eval(e *Expr, m Model, memo map[*Expr]uint64) uint64 {
	switch e.op {
	case OConst:
		return e.val
	case OSym:
		return m[e.name]
	}
	if v, ok := memo[e]; ok {
		return v
	}
	var r uint64
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch e.op {
	case ONot:
		r = 1 - eval(e.args[0], m, memo)
	case OAnd:
		r = 1
		for _, a := range e.args {
			if eval(a, m, memo) == 0 {
				r = 0
				break
			}
		}
	case OOr:
		for _, a := range e.args {
			if eval(a, m, memo) != 0 {
				r = 1
				break
			}
		}
	case OIte:
		if eval(e.args[0], m, memo) != 0 {
			r = eval(e.args[1], m, memo)
		} else {
			r = eval(e.args[2], m, memo)
		}
	case OEq:
		r = b2u(eval(e.args[0], m, memo) == eval(e.args[1], m, memo))
	case OUlt:
		r = b2u(eval(e.args[0], m, memo) < eval(e.args[1], m, memo))
	case OSlt:
		w := e.args[0].w
		r = b2u(sext(eval(e.args[0], m, memo), w) < sext(eval(e.args[1], m, memo), w))
	case OBNot:
		r = ^eval(e.args[0], m, memo) & mask(e.w)
	case ONeg:
		r = -eval(e.args[0], m, memo) & mask(e.w)
	case OZExt:
		r = eval(e.args[0], m, memo)
	case OSExt:
		r = uint64(sext(eval(e.args[0], m, memo), e.args[0].w)) & mask(e.w)
	case OExtract:
		r = eval(e.args[0], m, memo) & mask(e.w)
	default:
		a, b := eval(e.args[0], m, memo), eval(e.args[1], m, memo)
		v, ok := foldBV(e.op, a, b, e.w)
		if !ok {
			// SMT-LIB total division semantics.
			if e.op == OSRem {
				v = a
			} else if sext(a, e.w) < 0 {
				v = 1
			} else {
				v = mask(e.w)
			}
		}
		r = v
	}
	memo[e] = r
	return r
}

func sortStr(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (e *Expr) ref() string {
	switch e.op {
	case OConst:
		if e.w == 0 {
			if e.val != 0 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", e.val, e.w)
	case OSym:
		return "|" + e.name + "|"
	}
	return "e" + strconv.Itoa(e.id)
}

var opNames = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=",
	OUlt: "bvult", OSlt: "bvslt", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul",
	OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem",
	OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OShl: "bvshl",
	OLShr: "bvlshr", OAShr: "bvashr", OBNot: "bvnot", ONeg: "bvneg",
}

func (e *Expr) body() string {
	var sb strings.Builder
	switch e.op {
	case OZExt:
		fmt.Fprintf(&sb, "((_ zero_extend %d)", e.w-e.args[0].w)
	case OSExt:
		fmt.Fprintf(&sb, "((_ sign_extend %d)", e.w-e.args[0].w)
	case OExtract:
		fmt.Fprintf(&sb, "((_ extract %d 0)", e.w-1)
	default:
		sb.WriteString("(" + opNames[e.op])
	}
	for _, a := range e.args {
		sb.WriteByte(' ')
		sb.WriteString(a.ref())
	}
	sb.WriteByte(')')
	return sb.String()
}

func widthFor(hi uint64) uint8 {
	w := bits.Len64(hi)
	if w == 0 {
		w = 1
	}
	return uint8(w)
}
