package main

// Channels, goroutines and package sync under one schedule: a goroutine runs
// to its end where it is started, and channels never are full.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type chanv struct {
	buf    []value
	cap    int
	closed bool
}

func chanOf(v value) *chanv {
	p, ok := v.(*value)
	if !ok || p == nil {
		return nil
	}
	return (*p).(*hostObj).data.(*chanv)
}

func newChan(n int) value {
	p := new(value)
	*p = &hostObj{kind: "chan", data: &chanv{cap: n}}
	return p
}

func (w *Worker) chanSend(c value, v value) {
	w.impure()
	ch := chanOf(c)
	if ch == nil {
		unsupported("send on a nil channel")
	}
	if ch.closed {
		panic(w.rtPanic("send on closed channel"))
	}
	ch.buf = append(ch.buf, copyVal(v))
}

func (w *Worker) chanRecv(c value, et types.Type) (value, bool) {
	w.impure()
	ch := chanOf(c)
	if ch == nil {
		unsupported("receive from a nil channel")
	}
	if len(ch.buf) > 0 {
		v := ch.buf[0]
		ch.buf = ch.buf[1:]
		return v, true
	}
	if !ch.closed {
		unsupported("receive that waits for another goroutine")
	}
	return zero(et), false
}

func (w *Worker) selectStmt(fr *frame, di *dinstr, in *ssa.Select) value {
	w.impure()
	out := tuple{int64(-1), false}
	for _, s := range in.States {
		if s.Dir == types.RecvOnly {
			out = append(out, zero(s.Chan.Type().Underlying().(*types.Chan).Elem()))
		}
	}
	// Operands: channel and value of each state.
	at, recv := 0, 2
	for i, s := range in.States {
		c := fr.get(&di.ops[at])
		at++
		if s.Dir == types.SendOnly {
			v := fr.get(&di.ops[at])
			at++
			if chanOf(c) != nil {
				w.chanSend(c, v)
				out[0] = int64(i)
				return out
			}
			continue
		}
		at++ // no value
		if ch := chanOf(c); ch != nil && (len(ch.buf) > 0 || ch.closed) {
			v, ok := w.chanRecv(c, s.Chan.Type().Underlying().(*types.Chan).Elem())
			out[0], out[1], out[recv] = int64(i), ok, v
			return out
		}
		recv++
	}
	if in.Blocking {
		unsupported("select that waits for another goroutine")
	}
	return out
}

func (w *Worker) goStmt(fr *frame, di *dinstr, in *ssa.Go) {
	w.impure()
	fn, args := fr.prepareCall(&in.Call, di.ops)
	w.callClosure(fr, fn, args)
}

func addSync(m map[string]intrinsicFn) {
	run := func(fr *frame, f value, args ...value) value {
		return fr.w.callClosure(fr, f.(*closure), args)
	}
	for _, n := range []string{"Add", "Done", "Wait"} {
		m["(*sync.WaitGroup)."+n] = nop
	}
	m["(*sync.WaitGroup).Go"] = func(fr *frame, a []value) value { run(fr, a[1]); return nil }
	m["sync.OnceFunc"] = func(fr *frame, a []value) value {
		done := false
		return &closure{native: func(fr *frame, _ []value) value {
			if !done {
				done = true
				run(fr, a[0])
			}
			return nil
		}}
	}
	for _, n := range []string{"sync.OnceValue", "sync.OnceValues"} {
		m[n] = func(fr *frame, a []value) value {
			done := false
			var v value
			return &closure{native: func(fr *frame, _ []value) value {
				if !done {
					done = true
					v = run(fr, a[0])
				}
				return v
			}}
		}
	}
	m["(*sync.Pool).Put"] = func(fr *frame, a []value) value {
		w := fr.w
		if i, ok := a[1].(iface); ok && i.t == nil {
			return nil
		}
		if w.path.pools == nil {
			w.path.pools = map[*value][]value{}
		}
		p := a[0].(*value)
		w.path.pools[p] = append(w.path.pools[p], a[1])
		return nil
	}
	m["(*sync.Pool).Get"] = func(fr *frame, a []value) value {
		w := fr.w
		p := a[0].(*value)
		if s := w.path.pools[p]; len(s) > 0 {
			w.path.pools[p] = s[:len(s)-1]
			return s[len(s)-1]
		}
		for _, f := range (*p).(structv) {
			if c, ok := f.(*closure); ok && c != nil {
				return run(fr, c)
			}
		}
		return iface{}
	}
	// sync.Map
	anyT := types.NewInterfaceType(nil, nil)
	of := func(fr *frame, p value) *mapv {
		w := fr.w
		w.impure()
		if w.path.syncMaps == nil {
			w.path.syncMaps = map[*value]*mapv{}
		}
		k := p.(*value)
		x := w.path.syncMaps[k]
		if x == nil {
			x = &mapv{index: map[string]*mapEntry{}}
			w.path.syncMaps[k] = x
		}
		return x
	}
	get := func(fr *frame, x *mapv, k value) (value, bool) {
		v, ok := fr.w.mapGet(x, k, anyT)
		return v, fr.w.concBool(ok)
	}
	m["(*sync.Map).Load"] = func(fr *frame, a []value) value {
		v, ok := get(fr, of(fr, a[0]), a[1])
		return tuple{v, ok}
	}
	m["(*sync.Map).Store"] = func(fr *frame, a []value) value {
		fr.w.mapSet(of(fr, a[0]), a[1], a[2])
		return nil
	}
	m["(*sync.Map).LoadOrStore"] = func(fr *frame, a []value) value {
		x := of(fr, a[0])
		if v, ok := get(fr, x, a[1]); ok {
			return tuple{v, true}
		}
		fr.w.mapSet(x, a[1], a[2])
		return tuple{a[2], false}
	}
	m["(*sync.Map).LoadAndDelete"] = func(fr *frame, a []value) value {
		x := of(fr, a[0])
		v, ok := get(fr, x, a[1])
		fr.w.mapDelete(x, a[1])
		return tuple{v, ok}
	}
	m["(*sync.Map).Swap"] = func(fr *frame, a []value) value {
		x := of(fr, a[0])
		v, ok := get(fr, x, a[1])
		fr.w.mapSet(x, a[1], a[2])
		return tuple{v, ok}
	}
	m["(*sync.Map).Delete"] = func(fr *frame, a []value) value {
		fr.w.mapDelete(of(fr, a[0]), a[1])
		return nil
	}
	m["(*sync.Map).Clear"] = func(fr *frame, a []value) value {
		delete(fr.w.path.syncMaps, a[0].(*value))
		return nil
	}
	m["(*sync.Map).Range"] = func(fr *frame, a []value) value {
		for _, e := range append([]*mapEntry(nil), of(fr, a[0]).entries...) {
			if !e.deleted && !fr.w.concBool(run(fr, a[1], e.k, e.v)) {
				break
			}
		}
		return nil
	}
	// atomic.Pointer and atomic.Value: kept beside the object.
	cell := func(fr *frame, p value) *value {
		w := fr.w
		w.impure()
		if w.path.atoms == nil {
			w.path.atoms = map[*value]*value{}
		}
		k := p.(*value)
		if w.path.atoms[k] == nil {
			w.path.atoms[k] = new(value)
		}
		return w.path.atoms[k]
	}
	for t, z := range map[string]value{"(*sync/atomic.Pointer[T])": (*value)(nil), "(*sync/atomic.Value)": iface{}} {
		m[t+".Load"] = func(fr *frame, a []value) value {
			if v := *cell(fr, a[0]); v != nil {
				return v
			}
			return z
		}
		m[t+".Store"] = func(fr *frame, a []value) value {
			*cell(fr, a[0]) = a[1]
			return nil
		}
		m[t+".Swap"] = func(fr *frame, a []value) value {
			c := cell(fr, a[0])
			old := *c
			if old == nil {
				old = z
			}
			*c = a[1]
			return old
		}
		m[t+".CompareAndSwap"] = func(fr *frame, a []value) value {
			c := cell(fr, a[0])
			old := *c
			if old == nil {
				old = z
			}
			if !fr.w.concBool(fr.w.box(fr.w.eqVal(old, a[1]), intKind{})) {
				return false
			}
			*c = a[2]
			return true
		}
	}
	// context: never done.
	m["context.WithCancel"] = func(fr *frame, a []value) value { return tuple{a[0], &closure{native: nop}} }
	m["context.WithTimeout"] = m["context.WithCancel"]
	m["context.WithDeadline"] = m["context.WithCancel"]
	m["time.Since"] = func(fr *frame, a []value) value { return int64(0) }
	m["time.Now"] = func(fr *frame, a []value) value { return zero(fr.w.namedType("time", "Time")) }
}

// allowed functions of packages which are not interpreted otherwise.
var allowed = map[string]bool{
	"context.Background": true, "context.TODO": true,
	"(context.emptyCtx).Deadline": true, "(context.emptyCtx).Done": true,
	"(context.emptyCtx).Err": true, "(context.emptyCtx).Value": true,
	"(syscall.WaitStatus).Exited": true, "(syscall.WaitStatus).ExitStatus": true,
	"os.errDeadlineExceeded": true, "os.errNoDeadline": true,
	"(*internal/poll.DeadlineExceededError).Error": true, "(*internal/poll.DeadlineExceededError).Timeout": true,
	"(*internal/poll.DeadlineExceededError).Temporary": true,
	"(context.deadlineExceededError).Error":            true, "(context.deadlineExceededError).Timeout": true,
	"(context.deadlineExceededError).Temporary": true,
	"(syscall.WaitStatus).Signaled":             true, "(syscall.WaitStatus).Signal": true,
}
