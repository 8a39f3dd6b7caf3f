package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

// box turns a constant expression into a plain value.
func (w *Worker) box(e *Expr, k intKind) value {
	if !e.isConst() {
		return e
	}
	if e.w == 0 {
		return e.val != 0
	}
	if k.bits == 0 {
		k = intKind{e.w, true}
	}
	if k.signed {
		return sext(e.val, e.w)
	}
	return int64(e.val)
}

func (w *Worker) lift(v value, width uint8) *Expr {
	switch v := v.(type) {
	case bool:
		return w.ctx.bool(v)
	case int64:
		return w.ctx.bv(uint64(v), width)
	case *Expr:
		if v.w != width {
			return w.ctx.conv(v, width, false)
		}
		return v
	}
	panic(internalErr(fmt.Sprintf("lift of %T", v)))
}

// toBoolExpr lifts a boolean value.
func (w *Worker) toBool(v value) *Expr {
	switch v := v.(type) {
	case bool:
		return w.ctx.bool(v)
	case *Expr:
		return v
	}
	panic(internalErr(fmt.Sprintf("bool of %T", v)))
}

func (w *Worker) toInt(v value) *Expr { return w.lift(v, 64) }

func (w *Worker) binop(op token.Token, t types.Type, x, y value, yt types.Type) value {
	switch op {
	case token.EQL:
		return w.box(w.eqVal(x, y), intKind{})
	case token.NEQ:
		return w.box(w.ctx.not(w.eqVal(x, y)), intKind{})
	}
	if k, ok := intInfo(t); ok {
		return w.intBin(op, k, x, y, yt)
	}
	switch a := x.(type) {
	case float64:
		b := y.(float64)
		switch op {
		case token.ADD:
			return roundF(a+b, t)
		case token.SUB:
			return roundF(a-b, t)
		case token.MUL:
			return roundF(a*b, t)
		case token.QUO:
			return roundF(a/b, t)
		case token.LSS:
			return a < b
		case token.LEQ:
			return a <= b
		case token.GTR:
			return a > b
		case token.GEQ:
			return a >= b
		}
	case string, *symstr:
		if op == token.ADD {
			sa, ok1 := x.(string)
			sb, ok2 := y.(string)
			if ok1 && ok2 {
				return sa + sb
			}
			switch { // symbolic strings are not empty
			case ok1 && sa == "":
				return y
			case ok2 && sb == "":
				return x
			}
			return concat(x, y)
		}
		sa, ok1 := x.(string)
		sb, ok2 := y.(string)
		if !ok1 || !ok2 {
			less, same := w.cmpStr(strBytes(x), strBytes(y))
			switch op {
			case token.LSS:
				return w.box(less, intKind{})
			case token.LEQ:
				return w.box(w.ctx.or(less, same), intKind{})
			case token.GTR:
				return w.box(w.ctx.not(w.ctx.or(less, same)), intKind{})
			case token.GEQ:
				return w.box(w.ctx.not(less), intKind{})
			}
		}
		switch op {
		case token.LSS:
			return sa < sb
		case token.LEQ:
			return sa <= sb
		case token.GTR:
			return sa > sb
		case token.GEQ:
			return sa >= sb
		}
	case bool, *Expr:
		// boolean &,| do not exist in Go
	}
	unsupported("binop %s on %T", op, x)
	return nil
}

// cmpStr tells whether a comes before b, and whether they are the same.
func (w *Worker) cmpStr(a, b []value) (less, same *Expr) {
	ctx := w.ctx
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	less, same = ctx.bool(len(a) < len(b)), ctx.bool(len(a) == len(b))
	for i := n - 1; i >= 0; i-- {
		x, y := w.lift(a[i], 8), w.lift(b[i], 8)
		eq := ctx.eq(x, y)
		less = ctx.or(ctx.cmp(OUlt, x, y), ctx.and(eq, less))
		same = ctx.and(eq, same)
	}
	return less, same
}

func roundF(f float64, t types.Type) value {
	if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Float32 {
		return float64(float32(f))
	}
	return f
}

func (w *Worker) intBin(op token.Token, k intKind, x, y value, yt types.Type) value {
	a, ok1 := x.(int64)
	b, ok2 := y.(int64)
	if ok1 && ok2 {
		return w.intBinConc(op, k, a, b, yt)
	}
	ctx := w.ctx
	if op == token.SHL || op == token.SHR {
		yk, _ := intInfo(yt)
		ea := w.lift(x, k.bits)
		var sh *Expr
		if ok2 {
			if b < 0 && yk.signed {
				panic(w.rtPanic("negative shift amount"))
			}
			if uint64(b) >= uint64(k.bits) {
				b = int64(k.bits)
			}
			sh = ctx.bv(uint64(b), k.bits)
			if k.bits == 8 && b >= 8 {
				sh = ctx.bv(8, 8)
			}
		} else {
			v := w.concretize(y.(*Expr))
			if !yk.signed {
				v = int64(uint64(v) & mask(yk.bits))
			}
			return w.intBin(op, k, x, v, yt)
		}
		if op == token.SHL {
			return w.box(ctx.bin(OShl, ea, sh), k)
		}
		if k.signed {
			return w.box(ctx.bin(OAShr, ea, sh), k)
		}
		return w.box(ctx.bin(OLShr, ea, sh), k)
	}
	ea, eb := w.lift(x, k.bits), w.lift(y, k.bits)
	lt := OSlt
	if !k.signed {
		lt = OUlt
	}
	switch op {
	case token.ADD:
		return w.box(ctx.bin(OAdd, ea, eb), k)
	case token.SUB:
		return w.box(ctx.bin(OSub, ea, eb), k)
	case token.MUL:
		return w.box(ctx.bin(OMul, ea, eb), k)
	case token.QUO, token.REM:
		z := ctx.eq(eb, ctx.bv(0, k.bits))
		if z != ctx.ff {
			if w.spec > 0 {
				panic(specFail{})
			}
			if w.decide(z) {
				panic(w.rtPanic("integer divide by zero"))
			}
		}
		o := OSDiv
		switch {
		case op == token.QUO && !k.signed:
			o = OUDiv
		case op == token.REM && k.signed:
			o = OSRem
		case op == token.REM:
			o = OURem
		}
		return w.box(ctx.bin(o, ea, eb), k)
	case token.AND:
		return w.box(ctx.bin(OBAnd, ea, eb), k)
	case token.OR:
		return w.box(ctx.bin(OBOr, ea, eb), k)
	case token.XOR:
		return w.box(ctx.bin(OBXor, ea, eb), k)
	case token.AND_NOT:
		return w.box(ctx.bin(OBAnd, ea, ctx.bnot(eb)), k)
	case token.LSS:
		return w.box(ctx.cmp(lt, ea, eb), intKind{})
	case token.GTR:
		return w.box(ctx.cmp(lt, eb, ea), intKind{})
	case token.LEQ:
		return w.box(ctx.not(ctx.cmp(lt, eb, ea)), intKind{})
	case token.GEQ:
		return w.box(ctx.not(ctx.cmp(lt, ea, eb)), intKind{})
	}
	unsupported("int binop %s", op)
	return nil
}

func (w *Worker) intBinConc(op token.Token, k intKind, a, b int64, yt types.Type) value {
	switch op {
	case token.ADD:
		return norm(a+b, k)
	case token.SUB:
		return norm(a-b, k)
	case token.MUL:
		return norm(a*b, k)
	case token.QUO, token.REM:
		if b == 0 {
			panic(w.rtPanic("integer divide by zero"))
		}
		if k.signed {
			if b == -1 {
				if op == token.QUO {
					return norm(-a, k)
				}
				return int64(0)
			}
			if op == token.QUO {
				return norm(a/b, k)
			}
			return norm(a%b, k)
		}
		if op == token.QUO {
			return norm(int64(uint64(a)/uint64(b)), k)
		}
		return norm(int64(uint64(a)%uint64(b)), k)
	case token.AND:
		return norm(a&b, k)
	case token.OR:
		return norm(a|b, k)
	case token.XOR:
		return norm(a^b, k)
	case token.AND_NOT:
		return norm(a&^b, k)
	case token.SHL, token.SHR:
		yk, _ := intInfo(yt)
		if b < 0 && yk.signed {
			panic(w.rtPanic("negative shift amount"))
		}
		u := uint64(b)
		if op == token.SHL {
			if u >= 64 {
				return int64(0)
			}
			return norm(a<<u, k)
		}
		if k.signed {
			if u >= 64 {
				u = 63
			}
			return norm(a>>u, k)
		}
		if u >= 64 {
			return int64(0)
		}
		return norm(int64(uint64(a)>>u), k)
	}
	if k.signed {
		switch op {
		case token.LSS:
			return a < b
		case token.GTR:
			return a > b
		case token.LEQ:
			return a <= b
		case token.GEQ:
			return a >= b
		}
	}
	ua, ub := uint64(a), uint64(b)
	switch op {
	case token.LSS:
		return ua < ub
	case token.GTR:
		return ua > ub
	case token.LEQ:
		return ua <= ub
	case token.GEQ:
		return ua >= ub
	}
	unsupported("int binop %s", op)
	return nil
}

// eqVal builds the equality of two values of the same static type (or of
// interface type).
func (w *Worker) eqVal(x, y value) *Expr {
	ctx := w.ctx
	switch a := x.(type) {
	case bool:
		switch b := y.(type) {
		case bool:
			return ctx.bool(a == b)
		case *Expr:
			return ctx.eq(ctx.bool(a), b)
		}
	case int64:
		switch b := y.(type) {
		case int64:
			return ctx.bool(a == b)
		case *Expr:
			return ctx.eq(b, ctx.bv(uint64(a), b.w))
		}
	case *Expr:
		switch b := y.(type) {
		case bool:
			return ctx.eq(a, ctx.bool(b))
		case int64:
			return ctx.eq(a, ctx.bv(uint64(b), a.w))
		case *Expr:
			if a.w != b.w {
				m := a.w
				if b.w > m {
					m = b.w
				}
				return ctx.eq(ctx.conv(a, m, true), ctx.conv(b, m, true))
			}
			return ctx.eq(a, b)
		}
	case float64:
		return ctx.bool(a == y.(float64))
	case string, *symstr:
		if s, ok := x.(string); ok {
			if t, ok := y.(string); ok {
				return ctx.bool(s == t)
			}
		}
		if strLen(x) != strLen(y) {
			return ctx.ff
		}
		p, q := strBytes(x), strBytes(y)
		cs := make([]*Expr, 0, len(p))
		for i := range p {
			cs = append(cs, w.eqVal(p[i], q[i]))
		}
		return ctx.and(cs...)
	case structv:
		b := y.(structv)
		cs := make([]*Expr, 0, len(a))
		for i := range a {
			cs = append(cs, w.eqVal(a[i], b[i]))
		}
		return ctx.and(cs...)
	case iface:
		b, ok := y.(iface)
		if !ok {
			break
		}
		if a.t == nil || b.t == nil {
			return ctx.bool(a.t == nil && b.t == nil)
		}
		if !types.Identical(a.t, b.t) {
			return ctx.ff
		}
		if !types.Comparable(a.t) {
			panic(w.rtPanic("comparing uncomparable type"))
		}
		return w.eqVal(a.v, b.v)
	case *value:
		switch b := y.(type) {
		case *value:
			return ctx.bool(a == b)
		case *sliceData:
			return ctx.ff
		}
	case *mapv:
		return ctx.bool(a == y.(*mapv))
	case *closure:
		b := y.(*closure)
		return ctx.bool(a == b)
	case slicev:
		b := y.(slicev)
		return ctx.bool((a == nil) == (b == nil) && (a == nil || b == nil))
	case *sliceData:
		return ctx.bool(x == y)
	}
	unsupported("equality of %T and %T", x, y)
	return nil
}

func (fr *frame) unop(in *ssa.UnOp, x value) value {
	w := fr.w
	switch in.Op {
	case token.MUL:
		if _, ok := x.(*symptr); ok {
			return w.fixWidth(w.load(x), in.Type())
		}
		return w.load(x)
	case token.ARROW:
		v, ok := w.chanRecv(x, in.X.Type().Underlying().(*types.Chan).Elem())
		if in.CommaOk {
			return tuple{v, ok}
		}
		return v
	case token.NOT:
		switch b := x.(type) {
		case bool:
			return !b
		case *Expr:
			return w.box(w.ctx.not(b), intKind{})
		}
	case token.SUB:
		if f, ok := x.(float64); ok {
			return -f
		}
		k, _ := intInfo(in.Type())
		switch a := x.(type) {
		case int64:
			return norm(-a, k)
		case *Expr:
			return w.box(w.ctx.neg(a), k)
		}
	case token.XOR:
		k, _ := intInfo(in.Type())
		switch a := x.(type) {
		case int64:
			return norm(^a, k)
		case *Expr:
			return w.box(w.ctx.bnot(a), k)
		}
	}
	unsupported("unop %s on %T", in.Op, x)
	return nil
}

func (w *Worker) convert(dst, src types.Type, x value) value {
	du, su := dst.Underlying(), src.Underlying()
	if dk, ok := intInfo(du); ok {
		if sk, ok := intInfo(su); ok {
			switch a := x.(type) {
			case int64:
				return norm(a, dk)
			case *Expr:
				return w.box(w.ctx.conv(a, dk.bits, sk.signed), dk)
			}
		}
		if f, ok := x.(float64); ok {
			if dk.signed {
				return norm(int64(f), dk)
			}
			return norm(int64(uint64(f)), dk)
		}
	}
	if isFloat(du) {
		switch a := x.(type) {
		case float64:
			return roundF(a, dst)
		case int64:
			sk, _ := intInfo(su)
			if sk.signed {
				return roundF(float64(a), dst)
			}
			return roundF(float64(uint64(a)), dst)
		case *Expr:
			return w.convert(dst, src, w.concretize(a))
		}
	}
	if isString(du) {
		switch a := x.(type) {
		case string, *symstr:
			return a
		case int64:
			return string(rune(a))
		case *Expr:
			return string(rune(w.concretize(a)))
		case slicev:
			et := su.(*types.Slice).Elem()
			if k, _ := intInfo(et); k.bits == 8 {
				return normStr(a)
			}
			rs := make([]rune, len(a))
			for i := range a {
				rs[i] = rune(w.concInt(a[i]))
			}
			return string(rs)
		}
	}
	if sl, ok := du.(*types.Slice); ok && isString(su) {
		k, _ := intInfo(sl.Elem())
		if k.bits == 8 {
			b := strBytes(x)
			c := len(b)
			if c > 32 || c == 0 {
				c = roundupsize(c, true)
			} else {
				c = roundupsize(c, true)
			}
			r := make(slicev, c)
			copy(r, b)
			for i := len(b); i < c; i++ {
				r[i] = int64(0)
			}
			return r[:len(b)]
		}
		rs := []rune(w.concStr(x))
		r := make(slicev, len(rs))
		for i := range rs {
			r[i] = int64(rs[i])
		}
		return r
	}
	// unsafe.Pointer conversions and the like keep the host pointer.
	switch x.(type) {
	case *value, *sliceData, *symptr:
		return x
	}
	if b, ok := du.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return x
	}
	unsupported("conversion from %s to %s", src, dst)
	return nil
}

func (w *Worker) concInt(v value) int {
	switch v := v.(type) {
	case int64:
		return int(v)
	case *Expr:
		return int(w.concretize(v))
	}
	panic(internalErr(fmt.Sprintf("concInt of %T", v)))
}

func (w *Worker) concBool(v value) bool {
	switch v := v.(type) {
	case bool:
		return v
	case *Expr:
		return w.decide(v)
	}
	panic(internalErr(fmt.Sprintf("concBool of %T", v)))
}

func (w *Worker) concStr(v value) string {
	switch v := v.(type) {
	case string:
		return v
	case *symstr:
		b := make([]byte, len(v.b))
		for i, x := range v.b {
			b[i] = byte(w.concInt(x))
		}
		return string(b)
	}
	panic(internalErr(fmt.Sprintf("concStr of %T", v)))
}

// simpVal simplifies the scalars of a value under the path's pinned symbols.
func (w *Worker) simpVal(v value) value {
	switch v := v.(type) {
	case *Expr:
		return w.box(w.simp(v), intKind{v.w, v.w != 8})
	case structv:
		n := make(structv, len(v))
		for i := range v {
			n[i] = w.simpVal(v[i])
		}
		return n
	case iface:
		return iface{v.t, w.simpVal(v.v)}
	case *symstr:
		b := make([]value, len(v.b))
		for i := range b {
			b[i] = w.simpVal(v.b[i])
		}
		return normStr(b)
	}
	return v
}

var _ = math.MaxInt64
