package main

// Models of functions that are not executed from their SSA form: assembly and
// runtime-backed primitives, formatting, synchronisation, sorting by
// reflection, and the symbolic API of the harnesses. Everything else in the
// standard library is interpreted.

import (
	"fmt"
	"go/types"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type intrinsicFn = func(fr *frame, args []value) value

var intrinsics map[string]intrinsicFn

func lookupIntrinsic(name string) intrinsicFn { return intrinsics[name] }

func runtimeStack(b []byte) int { return runtime.Stack(b, false) }

func nop(fr *frame, args []value) value { return nil }

func init() {
	intrinsics = map[string]intrinsicFn{
		// symbolic API
		symPkg + ".Int": func(fr *frame, a []value) value {
			w := fr.w
			return w.symInt(w.concStr(a[0]), int64(w.concInt(a[1])), int64(w.concInt(a[2])))
		},
		symPkg + ".Bool":   func(fr *frame, a []value) value { return fr.w.symBool(fr.w.concStr(a[0])) },
		symPkg + ".Byte":   func(fr *frame, a []value) value { return fr.w.symByte(fr.w.concStr(a[0])) },
		symPkg + ".Choose": func(fr *frame, a []value) value { return int64(fr.w.choose(fr.w.concStr(a[0]), fr.w.concInt(a[1]))) },
		symPkg + ".Assume": func(fr *frame, a []value) value {
			fr.w.assume(fr.w.toBool(a[0]))
			return nil
		},
		symPkg + ".Assert": func(fr *frame, a []value) value {
			fr.w.assert(a[0], fr.w.concStr(a[1]))
			return nil
		},
		symPkg + ".And": func(fr *frame, a []value) value {
			return fr.w.box(fr.w.ctx.and(fr.w.boolList(a[0])...), intKind{})
		},
		symPkg + ".Or": func(fr *frame, a []value) value {
			return fr.w.box(fr.w.ctx.or(fr.w.boolList(a[0])...), intKind{})
		},
		symPkg + ".Not": func(fr *frame, a []value) value {
			return fr.w.box(fr.w.ctx.not(fr.w.toBool(a[0])), intKind{})
		},
		symPkg + ".Implies": func(fr *frame, a []value) value {
			return fr.w.box(fr.w.ctx.or(fr.w.ctx.not(fr.w.toBool(a[0])), fr.w.toBool(a[1])), intKind{})
		},
		symPkg + ".Iff": func(fr *frame, a []value) value {
			return fr.w.box(fr.w.ctx.eq(fr.w.toBool(a[0]), fr.w.toBool(a[1])), intKind{})
		},
		symPkg + ".Ite": func(fr *frame, a []value) value {
			w := fr.w
			return w.box(w.ctx.ite(w.toBool(a[0]), w.toInt(a[1]), w.toInt(a[2])), intKind{64, true})
		},
		symPkg + ".B2I": func(fr *frame, a []value) value {
			w := fr.w
			return w.box(w.ctx.ite(w.toBool(a[0]), w.ctx.bv(1, 64), w.ctx.bv(0, 64)), intKind{64, true})
		},
		symPkg + ".Conc": func(fr *frame, a []value) value { return int64(fr.w.concInt(a[0])) },
		symPkg + ".Equiv": func(fr *frame, a []value) value {
			fr.w.equiv(fr.w.concStr(a[0]), a[1], a[2], a[3], a[4], true)
			return nil
		},
		symPkg + ".EquivSat": func(fr *frame, a []value) value {
			fr.w.equiv(fr.w.concStr(a[0]), a[1], a[2], a[3], a[4], false)
			return nil
		},
		symPkg + ".Solve": func(fr *frame, a []value) value { return fr.w.solve("solve", a[0], a[1], false) },
		symPkg + ".One":   func(fr *frame, a []value) value { return fr.w.solve("solve", a[0], a[1], true) },
		symPkg + ".Note": func(fr *frame, a []value) value {
			fr.w.path.notes = append(fr.w.path.notes, fr.w.concStr(a[0]))
			return nil
		},
		symPkg + ".Observe": func(fr *frame, a []value) value {
			fr.w.path.obs = append(fr.w.path.obs, obsRec{fr.w.concStr(a[0]), a[1]})
			return nil
		},
		symPkg + ".ObserveStr": func(fr *frame, a []value) value {
			fr.w.path.obs = append(fr.w.path.obs, obsRec{fr.w.concStr(a[0]), a[1]})
			return nil
		},
		symPkg + ".ObserveClauses": func(fr *frame, a []value) value {
			fr.w.path.obs = append(fr.w.path.obs, obsRec{fr.w.concStr(a[0]), deepCopy(a[1])})
			return nil
		},
		symPkg + ".Cover": func(fr *frame, a []value) value {
			h := fr.w.path.h
			h.mu.Lock()
			h.covers[fr.w.concStr(a[0])]++
			h.mu.Unlock()
			return nil
		},
		symPkg + ".Bound": func(fr *frame, a []value) value {
			w := fr.w
			v := w.concInt(a[1])
			if w.eng.thorough {
				v = w.concInt(a[2])
			}
			h := w.path.h
			h.mu.Lock()
			h.bounds[w.concStr(a[0])] = v
			h.mu.Unlock()
			return int64(v)
		},
		symPkg + ".Thorough": func(fr *frame, a []value) value { return fr.w.eng.thorough },

		// strings / bytes primitives
		"(*strings.Builder).copyCheck": nop,
		"strings.Clone":                func(fr *frame, a []value) value { return a[0] },
		"internal/stringslite.Clone":   func(fr *frame, a []value) value { return a[0] },
		"internal/abi.NoEscape":        func(fr *frame, a []value) value { return a[0] },
		"internal/abi.Escape":          func(fr *frame, a []value) value { return a[0] },
		"internal/bytealg.IndexByte": func(fr *frame, a []value) value {
			return fr.w.indexByte(a[0].(slicev), a[1])
		},
		"internal/bytealg.IndexByteString": func(fr *frame, a []value) value {
			return fr.w.indexByte(strBytes(a[0]), a[1])
		},
		"internal/bytealg.LastIndexByte": func(fr *frame, a []value) value {
			return fr.w.lastIndexByte(a[0].(slicev), a[1])
		},
		"internal/bytealg.LastIndexByteString": func(fr *frame, a []value) value {
			return fr.w.lastIndexByte(strBytes(a[0]), a[1])
		},
		"internal/bytealg.Count": func(fr *frame, a []value) value {
			return fr.w.countByte(a[0].(slicev), a[1])
		},
		"internal/bytealg.CountString": func(fr *frame, a []value) value {
			return fr.w.countByte(strBytes(a[0]), a[1])
		},
		"internal/bytealg.Equal": func(fr *frame, a []value) value {
			return fr.w.box(fr.w.eqVal(normStr(a[0].(slicev)), normStr(a[1].(slicev))), intKind{})
		},
		"bytes.Equal": func(fr *frame, a []value) value {
			return fr.w.box(fr.w.eqVal(normStr(a[0].(slicev)), normStr(a[1].(slicev))), intKind{})
		},
		"internal/bytealg.Compare": func(fr *frame, a []value) value {
			return fr.w.compare(a[0].(slicev), a[1].(slicev))
		},
		"internal/bytealg.CompareString": func(fr *frame, a []value) value {
			return fr.w.compare(strBytes(a[0]), strBytes(a[1]))
		},
		"internal/bytealg.Index": func(fr *frame, a []value) value {
			return fr.w.indexSub(a[0].(slicev), a[1].(slicev))
		},
		"internal/bytealg.IndexString": func(fr *frame, a []value) value {
			return fr.w.indexSub(strBytes(a[0]), strBytes(a[1]))
		},
		"strings.Index": func(fr *frame, a []value) value {
			return fr.w.indexSub(strBytes(a[0]), strBytes(a[1]))
		},
		"internal/stringslite.Index": func(fr *frame, a []value) value {
			return fr.w.indexSub(strBytes(a[0]), strBytes(a[1]))
		},
		"bytes.Index": func(fr *frame, a []value) value {
			return fr.w.indexSub(a[0].(slicev), a[1].(slicev))
		},
		"internal/bytealg.MakeNoZero": func(fr *frame, a []value) value {
			n := fr.w.concInt(a[0])
			c := roundupsize(n, true)
			s := make(slicev, c)
			for i := range s {
				s[i] = int64(0)
			}
			return s[:n]
		},

		// strconv
		"strconv.Itoa": func(fr *frame, a []value) value { return fr.w.itoa(a[0]) },
		"strconv.FormatInt": func(fr *frame, a []value) value {
			b := fr.w.concInt(a[1])
			if b == 10 {
				return fr.w.itoa(a[0])
			}
			return strconv.FormatInt(int64(fr.w.concInt(a[0])), b)
		},
		"strconv.AppendInt": func(fr *frame, a []value) value {
			b := fr.w.concInt(a[2])
			var s value
			if b == 10 {
				s = fr.w.itoa(a[1])
			} else {
				s = strconv.FormatInt(int64(fr.w.concInt(a[1])), b)
			}
			return fr.w.appendTo(a[0].(slicev), strBytes(s), types.Typ[types.Uint8])
		},
		"strconv.Quote": func(fr *frame, a []value) value { return fr.w.quote(a[0]) },

		// errors
		"errors.Is": func(fr *frame, a []value) value { return fr.w.errorsIs(fr, a[0].(iface), a[1].(iface)) },
		"errors.As": func(fr *frame, a []value) value { return fr.w.errorsAs(fr, a[0].(iface), a[1].(iface)) },

		"(*errors.errorString).Error": errText("errors.errorString", "s"),
		"(*fmt.wrapError).Error":      errText("fmt.wrapError", "msg"),
		"(*fmt.wrapErrors).Error":     errText("fmt.wrapErrors", "msg"),

		// fmt
		"fmt.Sprintf":  func(fr *frame, a []value) value { return fr.w.sprintf(fr, fr.w.concStr(a[0]), a[1].(slicev)) },
		"fmt.Sprint":   func(fr *frame, a []value) value { return fr.w.sprint(fr, a[0].(slicev), false) },
		"fmt.Sprintln": func(fr *frame, a []value) value { return fr.w.sprint(fr, a[0].(slicev), true) },
		"fmt.Errorf":   func(fr *frame, a []value) value { return fr.w.errorf(fr, fr.w.concStr(a[0]), a[1].(slicev)) },
		"fmt.Fprintf": func(fr *frame, a []value) value {
			return fr.w.writeTo(fr, a[0].(iface), fr.w.sprintf(fr, fr.w.concStr(a[1]), a[2].(slicev)))
		},
		"fmt.Fprint": func(fr *frame, a []value) value {
			return fr.w.writeTo(fr, a[0].(iface), fr.w.sprint(fr, a[1].(slicev), false))
		},
		"fmt.Fprintln": func(fr *frame, a []value) value {
			return fr.w.writeTo(fr, a[0].(iface), fr.w.sprint(fr, a[1].(slicev), true))
		},
		"fmt.Appendf": func(fr *frame, a []value) value {
			return fr.w.appendTo(a[0].(slicev), strBytes(fr.w.sprintf(fr, fr.w.concStr(a[1]), a[2].(slicev))), types.Typ[types.Uint8])
		},
		"fmt.Append": func(fr *frame, a []value) value {
			return fr.w.appendTo(a[0].(slicev), strBytes(fr.w.sprint(fr, a[1].(slicev), false)), types.Typ[types.Uint8])
		},
		"fmt.Appendln": func(fr *frame, a []value) value {
			return fr.w.appendTo(a[0].(slicev), strBytes(fr.w.sprint(fr, a[1].(slicev), true)), types.Typ[types.Uint8])
		},
		"fmt.Printf":  func(fr *frame, a []value) value { return tuple{int64(0), iface{}} },
		"fmt.Println": func(fr *frame, a []value) value { return tuple{int64(0), iface{}} },
		"fmt.Print":   func(fr *frame, a []value) value { return tuple{int64(0), iface{}} },
		"log.Printf":  nop, "log.Println": nop, "log.Print": nop,

		// sorting by reflection, maps
		"sort.Slice":       sortSlice(false),
		"sort.SliceStable": sortSlice(true),
		"reflect.DeepEqual": func(fr *frame, a []value) value {
			x, y := a[0].(iface), a[1].(iface)
			if x.t == nil || y.t == nil {
				return x.t == nil && y.t == nil
			}
			if !types.Identical(x.t, y.t) {
				return false
			}
			return fr.w.box(fr.w.deepEqual(x.t, x.v, y.v, 0), intKind{})
		},
		"maps.clone": func(fr *frame, a []value) value {
			i := a[0].(iface)
			m := i.v.(*mapv)
			if m == nil {
				return i
			}
			n := &mapv{index: map[string]*mapEntry{}}
			for _, e := range m.entries {
				if !e.deleted {
					fr.w.mapSet(n, e.k, copyVal(e.v))
				}
			}
			return iface{i.t, n}
		},

		// sync
		"(*sync.Mutex).Lock": nop, "(*sync.Mutex).Unlock": nop,
		"(*sync.Mutex).TryLock": func(fr *frame, a []value) value { return true },
		"(*sync.RWMutex).Lock":  nop, "(*sync.RWMutex).Unlock": nop,
		"(*sync.RWMutex).RLock": nop, "(*sync.RWMutex).RUnlock": nop,
		"(*sync.Once).Do": func(fr *frame, a []value) value {
			p := a[0].(*value)
			if fr.w.once == nil {
				fr.w.once = map[*value]bool{}
			}
			if !fr.w.once[p] {
				fr.w.once[p] = true
				fr.w.callClosure(fr, a[1].(*closure), nil)
			}
			return nil
		},
		"runtime.KeepAlive": nop, "runtime.SetFinalizer": nop, "runtime.GC": nop,
		"internal/race.Acquire": nop, "internal/race.Release": nop,
		"math.Float64bits": func(fr *frame, a []value) value { unsupported("Float64bits"); return nil },

		"(syscall.Errno).Error": func(fr *frame, a []value) value {
			return syscall.Errno(fr.w.concInt(a[0])).Error()
		},
		"(syscall.Errno).Is": func(fr *frame, a []value) value {
			w := fr.w
			e := syscall.Errno(w.concInt(a[0]))
			t := a[1].(iface)
			for name, g := range map[string]syscall.Errno{"ErrNotExist": syscall.ENOENT, "ErrExist": syscall.EEXIST, "ErrPermission": syscall.EACCES} {
				if p := w.p.prog.ImportedPackage("internal/oserror"); p != nil {
					gv := w.load(w.global(p.Var(name)))
					if w.eqVal(gv, t) == w.ctx.tt {
						return e == g || name == "ErrPermission" && e == syscall.EPERM
					}
				}
			}
			return false
		},
	}
	for _, s := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		intrinsics["sync/atomic.Load"+s] = func(fr *frame, a []value) value { return fr.w.load(a[0]) }
		intrinsics["sync/atomic.Store"+s] = func(fr *frame, a []value) value { fr.w.store(a[0], a[1]); return nil }
		intrinsics["sync/atomic.Add"+s] = func(fr *frame, a []value) value {
			v := fr.w.load(a[0]).(int64) + a[1].(int64)
			fr.w.store(a[0], v)
			return v
		}
		intrinsics["sync/atomic.Swap"+s] = func(fr *frame, a []value) value {
			v := fr.w.load(a[0])
			fr.w.store(a[0], a[1])
			return v
		}
		intrinsics["sync/atomic.CompareAndSwap"+s] = func(fr *frame, a []value) value {
			if fr.w.eqVal(fr.w.load(a[0]), a[1]) == fr.w.ctx.tt {
				fr.w.store(a[0], a[2])
				return true
			}
			return false
		}
	}
	addFS(intrinsics)
	addSync(intrinsics)
}

func deepCopy(v value) value {
	switch v := v.(type) {
	case slicev:
		n := make(slicev, len(v))
		for i := range v {
			n[i] = deepCopy(v[i])
		}
		return n
	case structv:
		return copyVal(v)
	}
	return v
}

func (w *Worker) boolList(v value) []*Expr {
	var out []*Expr
	for _, x := range v.(slicev) {
		out = append(out, w.toBool(x))
	}
	return out
}

// ---- byte searching with possibly symbolic bytes ----

func (w *Worker) indexByte(b []value, c value) value {
	for i, x := range b {
		if w.truth(w.eqVal(x, c)) {
			return int64(i)
		}
	}
	return int64(-1)
}

func (w *Worker) lastIndexByte(b []value, c value) value {
	for i := len(b) - 1; i >= 0; i-- {
		if w.truth(w.eqVal(b[i], c)) {
			return int64(i)
		}
	}
	return int64(-1)
}

func (w *Worker) countByte(b []value, c value) value {
	n := int64(0)
	for _, x := range b {
		if w.truth(w.eqVal(x, c)) {
			n++
		}
	}
	return n
}

func (w *Worker) indexSub(b, s []value) value {
	for i := 0; i+len(s) <= len(b); i++ {
		cs := make([]*Expr, len(s))
		for j := range s {
			cs[j] = w.eqVal(b[i+j], s[j])
		}
		if w.truth(w.ctx.and(cs...)) {
			return int64(i)
		}
	}
	return int64(-1)
}

// compare is strings.Compare.
func (w *Worker) compare(a, b []value) value {
	less, same := w.cmpStr(a, b)
	ctx := w.ctx
	return w.box(w.simp(ctx.ite(less, ctx.bv(^uint64(0), 64), ctx.ite(same, ctx.bv(0, 64), ctx.bv(1, 64)))), intKind{64, true})
}

func (w *Worker) truth(e *Expr) bool {
	if e.isConst() {
		return e.val != 0
	}
	return w.decide(e)
}

// itoa formats an integer in decimal, keeping the digits symbolic.
func (w *Worker) itoa(v value) value {
	v = w.simpVal(v)
	if i, ok := v.(int64); ok {
		return strconv.FormatInt(i, 10)
	}
	ctx := w.ctx
	e := v.(*Expr)
	if e.w != 64 {
		e = ctx.conv(e, 64, true)
	}
	var out []value
	if w.decide(ctx.cmp(OSlt, e, ctx.bv(0, 64))) {
		out = append(out, int64('-'))
		e = ctx.neg(e)
	}
	p := uint64(10)
	n := 1
	for n < 19 && !w.decide(ctx.cmp(OUlt, e, ctx.bv(p, 64))) {
		p *= 10
		n++
	}
	if n >= 19 {
		// Long numbers are concretized.
		k := w.concretize(e)
		for _, c := range []byte(strconv.FormatUint(uint64(k), 10)) {
			out = append(out, int64(c))
		}
		return normStr(out)
	}
	wd := widthFor(p)
	if wd < 8 {
		wd = 8
	}
	m := ctx.conv(e, wd, false)
	div := uint64(1)
	for i := 1; i < n; i++ {
		div *= 10
	}
	for i := 0; i < n; i++ {
		q := m
		if div > 1 {
			q = ctx.bin(OUDiv, m, ctx.bv(div, wd))
		}
		if i > 0 {
			q = ctx.bin(OURem, q, ctx.bv(10, wd))
		}
		d := ctx.bin(OAdd, ctx.conv(q, 8, false), ctx.bv('0', 8))
		out = append(out, w.box(w.simp(d), intKind{8, false}))
		div /= 10
	}
	return normStr(out)
}

// ---- fmt ----

func (w *Worker) writeTo(fr *frame, to iface, s value) value {
	b := append(slicev(nil), strBytes(s)...)
	if to.t == nil {
		panic(w.rtPanic("invalid memory address or nil pointer dereference"))
	}
	m := w.findMethod(to.t, "Write")
	return w.callFn(fr, m, []value{to.v, b}, nil)
}

func (w *Worker) sprint(fr *frame, args slicev, ln bool) value {
	var out []value
	prevStr := true
	for i, a := range args {
		x := a.(iface)
		isS := x.t != nil && isString(x.t)
		if i > 0 && (ln || !isS && !prevStr) {
			out = append(out, int64(' '))
		}
		out = append(out, strBytes(w.fmtOne(fr, "%v", x))...)
		prevStr = isS
	}
	if ln {
		out = append(out, int64('\n'))
	}
	return normStr(out)
}

func (w *Worker) fmtOne(fr *frame, verb string, x iface) value {
	x = w.simpVal(x).(iface)
	if x.t != nil {
		last := verb[len(verb)-1]
		hasM := w.findMethod(x.t, "Error") != nil || w.findMethod(x.t, "String") != nil
		if hasM && (last == 'v' || last == 's' || last == 'q' || last == 'w') {
			name := "Error"
			if w.findMethod(x.t, "Error") == nil {
				name = "String"
			}
			if p, ok := x.v.(*value); !ok || p != nil {
				s := w.callFn(fr, w.findMethod(x.t, name), []value{x.v}, nil)
				if len(verb) == 2 && last != 'q' {
					return s
				}
				vb := verb
				if last == 'w' || last == 'v' {
					vb = verb[:len(verb)-1] + "s"
				}
				return fmt.Sprintf(vb, w.concStr(s))
			}
		}
		if len(verb) == 2 {
			if e, ok := x.v.(*Expr); ok && e.w > 0 && (last == 'd' || last == 'v') {
				if k, _ := intInfo(x.t); k.bits < 64 {
					e = w.ctx.conv(e, 64, k.signed)
				}
				return w.itoa(e)
			}
			if s, ok := x.v.(*symstr); ok && (last == 's' || last == 'v') {
				return s
			}
			if s, ok := x.v.(*symstr); ok && last == 'q' {
				return w.quote(s)
			}
			if s, ok := x.v.(slicev); ok && last == 's' {
				if sl, ok := x.t.Underlying().(*types.Slice); ok {
					if k, _ := intInfo(sl.Elem()); k.bits == 8 {
						return normStr(s)
					}
				}
			}
			if s, ok := x.v.(slicev); ok && last == 'q' {
				if sl, ok := x.t.Underlying().(*types.Slice); ok {
					if k, _ := intInfo(sl.Elem()); k.bits == 8 {
						return w.quote(normStr(s))
					}
				}
			}
		}
	}
	if verb == "%T" {
		if x.t == nil {
			return "<nil>"
		}
		return types.TypeString(x.t, func(p *types.Package) string { return p.Name() })
	}
	if verb[len(verb)-1] == 'w' {
		verb = verb[:len(verb)-1] + "v"
	}
	return fmt.Sprintf(verb, w.toNative(fr, x.v, x.t))
}

func (w *Worker) sprintf(fr *frame, format string, args slicev) value {
	var out []value
	add := func(s value) { out = append(out, strBytes(s)...) }
	ai := 0
	for i := 0; i < len(format); {
		if format[i] != '%' {
			j := strings.IndexByte(format[i:], '%')
			if j < 0 {
				j = len(format) - i
			}
			add(format[i : i+j])
			i += j
			continue
		}
		j := i + 1
		for j < len(format) && strings.IndexByte("+-# 0123456789.", format[j]) >= 0 {
			j++
		}
		if j >= len(format) {
			add("%!(NOVERB)")
			break
		}
		if format[j] == '*' || format[j] == '[' {
			unsupported("format %q", format)
		}
		if format[j] == '%' {
			add("%")
			i = j + 1
			continue
		}
		verb := format[i : j+1]
		if ai >= len(args) {
			add("%!" + format[j:j+1] + "(MISSING)")
		} else {
			add(w.fmtOne(fr, verb, args[ai].(iface)))
			ai++
		}
		i = j + 1
	}
	if ai < len(args) {
		add("%!(EXTRA)")
	}
	return normStr(out)
}

// toNative converts a value for native formatting.
func (w *Worker) toNative(fr *frame, v value, t types.Type) any {
	if t == nil {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch x := v.(type) {
		case *Expr:
			if x.w == 0 {
				return w.decide(x)
			}
			return w.toNative(fr, w.concretize(x), t)
		case int64:
			switch u.Kind() {
			case types.Uint8:
				return uint8(x)
			case types.Int8:
				return int8(x)
			case types.Int16:
				return int16(x)
			case types.Uint16:
				return uint16(x)
			case types.Int32, types.UntypedRune:
				return int32(x)
			case types.Uint32:
				return uint32(x)
			case types.Uint64:
				return uint64(x)
			case types.Uint:
				return uint(x)
			case types.Int64:
				return x
			}
			return int(x)
		case string, *symstr:
			return w.concStr(x)
		}
		return v
	case *types.Slice:
		s := v.(slicev)
		if k, _ := intInfo(u.Elem()); k.bits == 8 {
			return []byte(w.concStr(normStr(s)))
		}
		out := make([]any, len(s))
		for i := range s {
			out[i] = w.toNative(fr, s[i], u.Elem())
		}
		return out
	case *types.Array:
		s := v.(structv)
		out := make([]any, len(s))
		for i := range s {
			out[i] = w.toNative(fr, s[i], u.Elem())
		}
		return out
	case *types.Interface:
		x := v.(iface)
		if x.t == nil {
			return nil
		}
		if w.findMethod(x.t, "Error") != nil || w.findMethod(x.t, "String") != nil {
			return w.concStr(w.fmtOne(fr, "%v", x))
		}
		return w.toNative(fr, x.v, x.t)
	case *types.Struct:
		s := v.(structv)
		var fs []reflect.StructField
		var vals []any
		for i := range s {
			n := w.toNative(fr, s[i], u.Field(i).Type())
			ty := reflect.TypeOf((*any)(nil)).Elem()
			fs = append(fs, reflect.StructField{Name: "F" + strconv.Itoa(i), Type: ty})
			vals = append(vals, n)
		}
		rv := reflect.New(reflect.StructOf(fs)).Elem()
		for i, x := range vals {
			if x != nil {
				rv.Field(i).Set(reflect.ValueOf(x))
			}
		}
		return rv.Interface()
	case *types.Map:
		m := v.(*mapv)
		out := map[any]any{}
		if m != nil {
			for _, e := range m.entries {
				if !e.deleted {
					out[fmt.Sprint(w.toNative(fr, e.k, u.Key()))] = w.toNative(fr, e.v, u.Elem())
				}
			}
		}
		return out
	case *types.Pointer:
		if p, ok := v.(*value); ok && p == nil {
			return nil
		}
		return "0xc000010000"
	}
	return fmt.Sprintf("%T", v)
}

func (w *Worker) namedType(pkg, name string) *types.Named {
	p := w.p.prog.ImportedPackage(pkg)
	if p == nil {
		unsupported("package %s not loaded", pkg)
	}
	return p.Pkg.Scope().Lookup(name).Type().(*types.Named)
}

func (w *Worker) newStruct(t *types.Named, set map[string]value) *value {
	st := t.Underlying().(*types.Struct)
	s := zero(st).(structv)
	for i := 0; i < st.NumFields(); i++ {
		if v, ok := set[st.Field(i).Name()]; ok {
			s[i] = v
		}
	}
	p := new(value)
	*p = s
	return p
}

func fieldIndex(t types.Type, name string) int {
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	panic(internalErr("no field " + name))
}

func (w *Worker) errorString(msg value) iface {
	t := w.namedType("errors", "errorString")
	return iface{types.NewPointer(t), w.newStruct(t, map[string]value{"s": msg})}
}

func (w *Worker) errorf(fr *frame, format string, args slicev) value {
	msg := w.lateMsg(fr, format, args)
	// Collect %w operands.
	var wrapped []iface
	ai := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		i++
		for i < len(format) && strings.IndexByte("+-# 0123456789.", format[i]) >= 0 {
			i++
		}
		if i >= len(format) {
			break
		}
		if format[i] == '%' {
			continue
		}
		if format[i] == 'w' && ai < len(args) {
			if x := args[ai].(iface); x.t != nil && w.findMethod(x.t, "Error") != nil {
				wrapped = append(wrapped, x)
			}
		}
		ai++
	}
	switch len(wrapped) {
	case 0:
		return w.errorString(msg)
	case 1:
		t := w.namedType("fmt", "wrapError")
		return iface{types.NewPointer(t), w.newStruct(t, map[string]value{"msg": msg, "err": wrapped[0]})}
	}
	t := w.namedType("fmt", "wrapErrors")
	var l slicev
	for _, x := range wrapped {
		l = append(l, x)
	}
	return iface{types.NewPointer(t), w.newStruct(t, map[string]value{"msg": msg, "errs": l})}
}

// lateMsg is the message of an error. Messages that are symbolic are only
// formatted when somebody asks for them.
func (w *Worker) lateMsg(fr *frame, format string, args slicev) value {
	late := false
	for _, a := range args {
		x := a.(iface)
		if x.t == nil {
			continue
		}
		switch v := x.v.(type) {
		case *Expr, *symstr:
			late = true
		case string, int64, bool, float64:
		default:
			_ = v
			if w.findMethod(x.t, "Error") == nil {
				return w.sprintf(fr, format, args)
			}
			late = true
		}
	}
	if !late {
		return w.sprintf(fr, format, args)
	}
	kept := append(slicev(nil), args...)
	return &latestr{func(fr *frame) value { return w.sprintf(fr, format, kept) }}
}

// errText is the intrinsic for Error methods which return the field named f.
func errText(typ, f string) intrinsicFn {
	i := strings.LastIndexByte(typ, '.')
	return func(fr *frame, a []value) value {
		w := fr.w
		p := a[0].(*value)
		if p == nil {
			panic(w.rtPanic("invalid memory address or nil pointer dereference"))
		}
		k := fieldIndex(w.namedType(typ[:i], typ[i+1:]), f)
		s := (*p).(structv)
		if l, ok := s[k].(*latestr); ok {
			s[k] = l.make(fr)
		}
		return s[k]
	}
}

// quote is strconv.Quote; bytes of plain text stay symbolic.
func (w *Worker) quote(v value) value {
	v = w.simpVal(v)
	x, ok := v.(*symstr)
	if !ok {
		return strconv.Quote(v.(string))
	}
	ctx := w.ctx
	out := []value{int64('"')}
	eq := func(e *Expr, c byte) *Expr { return ctx.eq(e, ctx.bv(uint64(c), 8)) }
	for i := 0; i < len(x.b); i++ {
		e, ok := x.b[i].(*Expr)
		if ok {
			if w.decide(ctx.cmp(OUlt, e, ctx.bv(0x80, 8))) {
				plain := ctx.and(ctx.not(ctx.cmp(OUlt, e, ctx.bv(0x20, 8))), ctx.not(eq(e, 0x7f)), ctx.not(eq(e, '"')), ctx.not(eq(e, '\\')))
				if w.decide(plain) {
					out = append(out, e)
					continue
				}
			}
			x.b[i] = w.concretize(e)
		}
		c := byte(x.b[i].(int64))
		if c < 0x80 {
			q := strconv.Quote(string(rune(c)))
			out = append(out, strBytes(q[1:len(q)-1])...)
			continue
		}
		buf := []byte{c}
		for k := i + 1; k < len(x.b) && k < i+4; k++ {
			buf = append(buf, byte(w.concInt(x.b[k])))
		}
		_, n := utf8.DecodeRune(buf)
		q := strconv.Quote(string(buf[:n]))
		out = append(out, strBytes(q[1:len(q)-1])...)
		i += n - 1
	}
	return normStr(append(out, int64('"')))
}

func (w *Worker) unwrapErr(fr *frame, e iface) []iface {
	m := w.findMethod(e.t, "Unwrap")
	if m == nil {
		return nil
	}
	if m.Signature.Results().Len() != 1 {
		return nil
	}
	switch r := w.callFn(fr, m, []value{e.v}, nil).(type) {
	case iface:
		if r.t == nil {
			return nil
		}
		return []iface{r}
	case slicev:
		var out []iface
		for _, x := range r {
			if i := x.(iface); i.t != nil {
				out = append(out, i)
			}
		}
		return out
	}
	return nil
}

func (w *Worker) errorsIs(fr *frame, e, target iface) value {
	if e.t == nil || target.t == nil {
		return e.t == nil && target.t == nil
	}
	if types.Comparable(target.t) && types.Identical(e.t, target.t) && w.truth(w.eqVal(e, target)) {
		return true
	}
	if m := w.findMethod(e.t, "Is"); m != nil && len(m.Params) == 2 {
		if w.concBool(w.callFn(fr, m, []value{e.v, target}, nil)) {
			return true
		}
	}
	for _, u := range w.unwrapErr(fr, e) {
		if w.errorsIs(fr, u, target) == true {
			return true
		}
	}
	return false
}

func (w *Worker) errorsAs(fr *frame, e, target iface) value {
	if e.t == nil {
		return false
	}
	tt := deref(target.t)
	for {
		match := false
		if it, ok := tt.Underlying().(*types.Interface); ok {
			match = types.Implements(e.t, it)
			if match {
				w.store(target.v, e)
			}
		} else if types.Identical(e.t, tt) {
			match = true
			w.store(target.v, e.v)
		}
		if match {
			return true
		}
		us := w.unwrapErr(fr, e)
		if len(us) == 0 {
			return false
		}
		if len(us) > 1 {
			for _, u := range us {
				if w.errorsAs(fr, u, target) == true {
					return true
				}
			}
			return false
		}
		e = us[0]
	}
}

// userOrder sorts a slice through the user's less(i, j).
type userOrder struct {
	s    slicev
	less func(i, j int) bool
}

func (o userOrder) Len() int           { return len(o.s) }
func (o userOrder) Less(i, j int) bool { return o.less(i, j) }
func (o userOrder) Swap(i, j int) {
	x, y := copyVal(o.s[i]), copyVal(o.s[j])
	assign(&o.s[i], y)
	assign(&o.s[j], x)
}

func sortSlice(stable bool) intrinsicFn {
	return func(fr *frame, a []value) value {
		w := fr.w
		less := a[1].(*closure)
		o := userOrder{a[0].(iface).v.(slicev), func(i, j int) bool {
			return w.concBool(w.callClosure(fr, less, []value{int64(i), int64(j)}))
		}}
		if stable {
			sort.Stable(o)
		} else {
			sort.Sort(o)
		}
		return nil
	}
}

// deepEqual is reflect.DeepEqual on values of the type t.
func (w *Worker) deepEqual(t types.Type, x, y value, depth int) *Expr {
	ctx := w.ctx
	if depth > 200 {
		unsupported("reflect.DeepEqual of something deep")
	}
	all := func(el types.Type, a, b []value) *Expr {
		cs := make([]*Expr, 0, len(a))
		for i := range a {
			e := w.deepEqual(el, a[i], b[i], depth+1)
			if e == ctx.ff {
				return e
			}
			cs = append(cs, e)
		}
		return ctx.and(cs...)
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		a, ok := x.(slicev)
		b, ok2 := y.(slicev)
		if !ok || !ok2 {
			break
		}
		if (a == nil) != (b == nil) || len(a) != len(b) {
			return ctx.ff
		}
		return all(u.Elem(), a, b)
	case *types.Array:
		return all(u.Elem(), x.(structv), y.(structv))
	case *types.Struct:
		a, b := x.(structv), y.(structv)
		cs := make([]*Expr, 0, len(a))
		for i := range a {
			cs = append(cs, w.deepEqual(u.Field(i).Type(), a[i], b[i], depth+1))
		}
		return ctx.and(cs...)
	case *types.Interface:
		a, b := x.(iface), y.(iface)
		if a.t == nil || b.t == nil {
			return ctx.bool(a.t == nil && b.t == nil)
		}
		if !types.Identical(a.t, b.t) {
			return ctx.ff
		}
		return w.deepEqual(a.t, a.v, b.v, depth+1)
	case *types.Pointer:
		a, ok := x.(*value)
		b, ok2 := y.(*value)
		if !ok || !ok2 {
			break
		}
		if a == b {
			return ctx.tt
		}
		if a == nil || b == nil {
			return ctx.ff
		}
		return w.deepEqual(u.Elem(), w.load(a), w.load(b), depth+1)
	case *types.Map:
		a, ok := x.(*mapv)
		b, ok2 := y.(*mapv)
		if !ok || !ok2 {
			break
		}
		if a == b {
			return ctx.tt
		}
		if a == nil || b == nil || a.n != b.n {
			return ctx.ff
		}
		var cs []*Expr
		for _, e := range a.entries {
			if e.deleted {
				continue
			}
			v, ok := w.mapGet(b, e.k, u.Elem())
			if !w.concBool(ok) {
				return ctx.ff
			}
			cs = append(cs, w.deepEqual(u.Elem(), e.v, v, depth+1))
		}
		return ctx.and(cs...)
	case *types.Signature:
		a, _ := x.(*closure)
		b, _ := y.(*closure)
		return ctx.bool(a == nil && b == nil)
	case *types.Basic:
		return w.eqVal(x, y)
	}
	unsupported("reflect.DeepEqual of %s", t)
	return nil
}

// overrideGlobal sets globals that native initialisation would set.
func (w *Worker) overrideGlobal(g *ssa.Global, p *value) {
	switch g.String() {
	case "internal/bytealg.MaxLen":
		*p = int64(63)
	}
}

var _ = sort.Ints
