package main

// Values of the interpreted program.
//
//	bool, any integer type  bool / int64 (sign- or zero-extended to 64 bit by
//	                        the static type), or *Expr when symbolic
//	floating point          float64
//	string                  string, or *symstr when a byte is symbolic
//	struct, array           structv ([]value)
//	slice                   slicev ([]value, native aliasing)
//	pointer                 *value, *symptr or other host pointer types
//	map                     *mapv
//	func                    *closure
//	interface               iface
//	tuple                   tuple

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type value interface{}

type structv []value
type slicev []value
type tuple []value

type iface struct {
	t types.Type
	v value
}

type closure struct {
	fn     *ssa.Function
	env    []value
	native func(fr *frame, args []value) value
	blt    *ssa.Builtin
	name   string
}

type symstr struct {
	b    []value
	more *tail // memory behind b, if it may be extended
}

// tail is memory holding a string and what was appended to it.
type tail struct{ all []value }

// concat puts two strings together, one of them symbolic. Memory behind the
// first one is used where it is free.
func concat(x, y value) value {
	xb, yb := strBytes(x), strBytes(y)
	a, ok := x.(*symstr)
	if !ok || a.more == nil || len(a.more.all) != len(xb) {
		m := make([]value, 0, 2*(len(xb)+len(yb)))
		a = &symstr{more: &tail{append(m, xb...)}}
	}
	m := a.more
	m.all = append(m.all, yb...)
	n := len(m.all)
	return &symstr{m.all[:n:n], m}
}

// latestr is an error message that has not been formatted yet; only the
// fields of the errors made by fmt.Errorf hold one.
type latestr struct{ make func(fr *frame) value }

// symptr is a pointer into elems at a symbolic index, followed by a path of
// field selections.
type symptr struct {
	elems []value
	idx   *Expr
	path  []int
}

type sliceData struct{ s slicev }

type mapEntry struct {
	k, v    value
	deleted bool
}

type mapv struct {
	entries []*mapEntry
	index   map[string]*mapEntry // entries with concrete keys
	nsym    int                  // number of entries with symbolic keys
	n       int
}

// hostObj is an opaque object implemented by the engine (files, commands).
type hostObj struct {
	kind string
	data any
}

// internalErr is a failure of the machinery itself.
type internalErr string

func (e internalErr) Error() string { return string(e) }

func unsupported(f string, a ...any) {
	panic(internalErr("unsupported: " + fmt.Sprintf(f, a...)))
}

// targetPanic is a panic of the interpreted program.
type targetPanic struct {
	v   value // iface
	msg string
}

type intKind struct {
	bits   uint8
	signed bool
}

func intInfo(t types.Type) (intKind, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return intKind{}, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return intKind{64, true}, true
	case types.Int8:
		return intKind{8, true}, true
	case types.Int16:
		return intKind{16, true}, true
	case types.Int32, types.UntypedRune:
		return intKind{32, true}, true
	case types.Uint, types.Uint64, types.Uintptr:
		return intKind{64, false}, true
	case types.Uint8:
		return intKind{8, false}, true
	case types.Uint16:
		return intKind{16, false}, true
	case types.Uint32:
		return intKind{32, false}, true
	}
	return intKind{}, false
}

func norm(v int64, k intKind) int64 {
	switch k.bits {
	case 64:
		return v
	case 32:
		if k.signed {
			return int64(int32(v))
		}
		return int64(uint32(v))
	case 16:
		if k.signed {
			return int64(int16(v))
		}
		return int64(uint16(v))
	case 8:
		if k.signed {
			return int64(int8(v))
		}
		return int64(uint8(v))
	}
	return v
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func zero(t types.Type) value {
	switch t := t.(type) {
	case *types.Named, *types.Alias:
		return zero(t.Underlying())
	case *types.Basic:
		switch {
		case t.Info()&types.IsBoolean != 0:
			return false
		case t.Info()&types.IsInteger != 0:
			return int64(0)
		case t.Info()&types.IsFloat != 0:
			return float64(0)
		case t.Info()&types.IsString != 0:
			return ""
		case t.Kind() == types.UnsafePointer || t.Kind() == types.UntypedNil:
			return (*value)(nil)
		}
	case *types.Pointer:
		return (*value)(nil)
	case *types.Struct:
		s := make(structv, t.NumFields())
		for i := range s {
			s[i] = zero(t.Field(i).Type())
		}
		return s
	case *types.Array:
		s := make(structv, t.Len())
		for i := range s {
			s[i] = zero(t.Elem())
		}
		return s
	case *types.Slice:
		return slicev(nil)
	case *types.Map:
		return (*mapv)(nil)
	case *types.Chan:
		return (*value)(nil)
	case *types.Signature:
		return (*closure)(nil)
	case *types.Interface:
		return iface{}
	case *types.Tuple:
		if t.Len() == 1 {
			return zero(t.At(0).Type())
		}
		s := make(tuple, t.Len())
		for i := range s {
			s[i] = zero(t.At(i).Type())
		}
		return s
	}
	unsupported("zero value of %s", t)
	return nil
}

// copyVal makes a copy of structs and arrays; other values are immutable or
// have reference semantics.
func copyVal(v value) value {
	if s, ok := v.(structv); ok {
		n := make(structv, len(s))
		for i, x := range s {
			n[i] = copyVal(x)
		}
		return n
	}
	return v
}

// assign stores v into *p, keeping the identity of struct and array cells so
// that pointers to their parts stay valid.
func assign(p *value, v value) {
	if s, ok := v.(structv); ok {
		if d, ok := (*p).(structv); ok && len(d) == len(s) {
			if len(s) > 0 && &d[0] == &s[0] {
				return
			}
			tmp := copyVal(s).(structv)
			for i := range d {
				assign(&d[i], tmp[i])
			}
			return
		}
		*p = copyVal(v)
		return
	}
	*p = v
}

func isSym(v value) bool {
	switch v := v.(type) {
	case *Expr, *symstr:
		return true
	case structv:
		for _, x := range v {
			if isSym(x) {
				return true
			}
		}
	case iface:
		return isSym(v.v)
	}
	return false
}

// keyString gives a canonical string for a concrete map key.
func keyString(sb *strings.Builder, v value) {
	switch v := v.(type) {
	case bool:
		if v {
			sb.WriteString("T")
		} else {
			sb.WriteString("F")
		}
	case int64:
		sb.WriteByte('i')
		sb.WriteString(strconv.FormatInt(v, 36))
		sb.WriteByte(';')
	case float64:
		sb.WriteByte('f')
		sb.WriteString(strconv.FormatFloat(v, 'g', -1, 64))
		sb.WriteByte(';')
	case string:
		sb.WriteByte('s')
		sb.WriteString(strconv.Itoa(len(v)))
		sb.WriteByte(':')
		sb.WriteString(v)
	case structv:
		sb.WriteByte('{')
		for _, x := range v {
			keyString(sb, x)
		}
		sb.WriteByte('}')
	case iface:
		if v.t == nil {
			sb.WriteString("nil")
			return
		}
		sb.WriteByte('<')
		sb.WriteString(types.TypeString(v.t, nil))
		sb.WriteByte('>')
		keyString(sb, v.v)
	default:
		fmt.Fprintf(sb, "p%p", v)
	}
}

func keyOf(v value) string {
	var sb strings.Builder
	keyString(&sb, v)
	return sb.String()
}

// normStr turns a byte list into a string value.
func normStr(b []value) value {
	buf := make([]byte, len(b))
	for i, x := range b {
		c, ok := x.(int64)
		if !ok {
			return &symstr{b: append([]value(nil), b...)}
		}
		buf[i] = byte(c)
	}
	return string(buf)
}

func strLen(v value) int {
	switch v := v.(type) {
	case string:
		return len(v)
	case *symstr:
		return len(v.b)
	}
	panic(internalErr(fmt.Sprintf("strLen of %T", v)))
}

func strBytes(v value) []value {
	switch v := v.(type) {
	case string:
		b := make([]value, len(v))
		for i := range b {
			b[i] = int64(v[i])
		}
		return b
	case *symstr:
		return v.b
	}
	panic(internalErr(fmt.Sprintf("strBytes of %T", v)))
}

func mkErr(tp *types.Named, msg string) iface { return iface{t: tp, v: msg} }
