package main

// A model of the parts of os and os/exec that the code under test may use: an
// in-memory file tree with injectable faults and a scripted solver program.

import (
	"fmt"
	"go/token"
	"go/types"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
)

type vfile struct {
	data []value
}

type vhandle struct {
	f      *vfile
	name   string
	pos    int
	closed bool
	app    bool
	rd, wr bool
}

type fsModel struct {
	files     map[string]*vfile
	dirs      map[string]bool
	limit     int // maximal file size, -1: none
	n         int
	exit      value
	sig       value
	stdout    slicev
	stderr    slicev
	inputs    []value // contents given to each solver run (slicev)
	runs      int
	solver    string // path of the runnable solver
	noexec    string
	ideal     bool // the solver decides its input
	tmpBroken bool
}

const (
	vTmp    = "/v/tmp, 100%d"
	vSolver = "/v/my solver, 100%s"
)

func (w *Worker) fs() *fsModel {
	p := w.path
	if p.fs == nil {
		p.fs = &fsModel{files: map[string]*vfile{}, dirs: map[string]bool{"/": true, "/v": true, vTmp: true, vSolver: true}, limit: -1, exit: int64(10), sig: false, solver: vSolver + "/solver", noexec: vSolver + "/noexec"}
		p.fs.files[vSolver+"/solver"] = &vfile{}
		p.fs.files[vSolver+"/noexec"] = &vfile{}
	}
	return p.fs
}

func (w *Worker) pathErr(op, path string, errno syscall.Errno) iface {
	t := w.namedType("io/fs", "PathError")
	et := w.namedType("syscall", "Errno")
	p := w.newStruct(t, map[string]value{"Op": op, "Path": path, "Err": iface{et, int64(errno)}})
	return iface{types.NewPointer(t), p}
}

func (w *Worker) fileVal(h *vhandle) value {
	p := new(value)
	*p = &hostObj{kind: "file", data: h}
	return p
}

func (w *Worker) handle(v value) *vhandle {
	p, ok := v.(*value)
	if !ok || p == nil {
		return nil
	}
	h, ok := (*p).(*hostObj)
	if !ok {
		return nil
	}
	x, _ := h.data.(*vhandle)
	return x
}

func clean(p string) string {
	if !filepath.IsAbs(p) {
		p = "/vcwd/" + p
	}
	return filepath.Clean(p)
}

func (w *Worker) open(op, path string, flag int) (value, iface) {
	fs := w.fs()
	cp := clean(path)
	nilf := value((*value)(nil))
	if fs.dirs[cp] {
		if flag&(syscall.O_WRONLY|syscall.O_RDWR|syscall.O_CREAT) != 0 {
			return nilf, w.pathErr(op, path, syscall.EISDIR)
		}
		unsupported("open directory %s", path)
	}
	f := fs.files[cp]
	if f == nil {
		if flag&syscall.O_CREAT == 0 || !fs.dirs[filepath.Dir(cp)] || strings.HasSuffix(path, "/") || path == "" {
			return nilf, w.pathErr(op, path, syscall.ENOENT)
		}
		f = &vfile{}
		fs.files[cp] = f
	} else if flag&syscall.O_EXCL != 0 && flag&syscall.O_CREAT != 0 {
		return nilf, w.pathErr(op, path, syscall.EEXIST)
	}
	acc := flag & syscall.O_ACCMODE
	if flag&syscall.O_TRUNC != 0 {
		f.data = nil
	}
	h := &vhandle{f: f, name: path, app: flag&syscall.O_APPEND != 0, rd: acc != syscall.O_WRONLY, wr: acc != syscall.O_RDONLY}
	return w.fileVal(h), iface{}
}

func (w *Worker) fwrite(h *vhandle, b []value) (int, iface) {
	if h == nil {
		return 0, w.namedErr("os", "ErrInvalid")
	}
	if h.closed {
		return 0, w.pathErrV("write", h.name, w.namedErr("os", "ErrClosed"))
	}
	if !h.wr {
		return 0, w.pathErr("write", h.name, syscall.EBADF)
	}
	fs := w.fs()
	if h.app {
		h.pos = len(h.f.data)
	}
	n := len(b)
	if fs.limit >= 0 && h.pos+n > fs.limit {
		n = fs.limit - h.pos
		if n < 0 {
			n = 0
		}
	}
	for len(h.f.data) < h.pos+n {
		h.f.data = append(h.f.data, int64(0))
	}
	copy(h.f.data[h.pos:], b[:n])
	h.pos += n
	if n < len(b) {
		return n, w.pathErr("write", h.name, syscall.EFBIG)
	}
	return n, iface{}
}

func (w *Worker) namedErr(pkg, name string) iface {
	p := w.p.prog.ImportedPackage(pkg)
	if p == nil {
		unsupported("package %s not loaded", pkg)
	}
	return w.load(w.global(p.Var(name))).(iface)
}

func (w *Worker) pathErrV(op, path string, err iface) iface {
	t := w.namedType("io/fs", "PathError")
	return iface{types.NewPointer(t), w.newStruct(t, map[string]value{"Op": op, "Path": path, "Err": err})}
}

func (w *Worker) createTemp(dir, pat string) (value, iface) {
	fs := w.fs()
	if dir == "" {
		dir = w.tmpDir()
	}
	if strings.Contains(pat, "/") {
		return (*value)(nil), w.pathErrV("createtemp", pat, w.errorString("pattern contains path separator"))
	}
	fs.n++
	name := pat
	if i := strings.LastIndexByte(pat, '*'); i >= 0 {
		name = pat[:i] + fmt.Sprintf("%09d", fs.n) + pat[i+1:]
	} else {
		name = pat + fmt.Sprintf("%09d", fs.n)
	}
	return w.open("open", dir+"/"+name, syscall.O_RDWR|syscall.O_CREAT|syscall.O_EXCL)
}

func (w *Worker) tmpDir() string {
	if w.fs().tmpBroken {
		return "/vnone/none"
	}
	return vTmp
}

func (w *Worker) remove(path string) iface {
	fs := w.fs()
	cp := clean(path)
	if _, ok := fs.files[cp]; ok {
		delete(fs.files, cp)
		return iface{}
	}
	if fs.dirs[cp] {
		for f := range fs.files {
			if filepath.Dir(f) == cp {
				return w.pathErr("remove", path, syscall.ENOTEMPTY)
			}
		}
		delete(fs.dirs, cp)
		return iface{}
	}
	return w.pathErr("remove", path, syscall.ENOENT)
}

// ---- commands ----

// cmdRun executes the scripted solver for an exec.Cmd and returns its error.
func (w *Worker) cmdRun(fr *frame, cp value, capture bool) (slicev, iface) {
	fs := w.fs()
	ct := w.namedType("os/exec", "Cmd")
	st := (*cp.(*value)).(structv)
	path := w.concStr(st[fieldIndex(ct, "Path")])
	args := st[fieldIndex(ct, "Args")].(slicev)
	// A relative path is looked for in the folder the command runs in.
	dir := ""
	if d := w.concStr(st[fieldIndex(ct, "Dir")]); d != "" {
		dir = clean(d)
		if !fs.dirs[dir] {
			return nil, w.pathErr("chdir", d, syscall.ENOENT)
		}
	}
	at := func(p string) string {
		if dir != "" && !filepath.IsAbs(p) {
			return clean(filepath.Join(dir, p))
		}
		return clean(p)
	}
	switch at(path) {
	case fs.solver:
	case fs.noexec:
		return nil, w.pathErr("fork/exec", path, syscall.EACCES)
	default:
		return nil, w.pathErr("fork/exec", path, syscall.ENOENT)
	}
	fs.runs++
	var in slicev
	if len(args) > 1 {
		if f := fs.files[at(w.concStr(args[1]))]; f != nil {
			in = append(in, f.data...)
		}
	}
	fs.inputs = append(fs.inputs, in)
	if fs.ideal {
		fs.exit, fs.sig, fs.stderr = int64(1), false, nil
		fs.stdout = nil
		w.runIdeal(in)
	}
	emit := func(field string, data slicev) slicev {
		x := st[fieldIndex(ct, field)].(iface)
		if x.t == nil {
			return nil
		}
		if len(data) > 0 {
			w.callFn(fr, w.findMethod(x.t, "Write"), []value{x.v, append(slicev(nil), data...)}, nil)
		}
		return nil
	}
	var out slicev
	if capture {
		out = append(slicev(nil), fs.stdout...)
	} else {
		emit("Stdout", fs.stdout)
	}
	emit("Stderr", fs.stderr)
	psT := w.namedType("os", "ProcessState")
	sig := w.concBool(fs.sig)
	code := fs.exit
	if sig {
		code = int64(-1)
	}
	ps := new(value)
	*ps = &hostObj{kind: "procstate", data: code}
	_ = psT
	st[fieldIndex(ct, "ProcessState")] = ps
	ok := false
	if !sig {
		ok = w.concBool(w.box(w.eqVal(code, int64(0)), intKind{}))
	}
	if ok {
		return out, iface{}
	}
	et := w.namedType("os/exec", "ExitError")
	p := w.newStruct(et, map[string]value{"ProcessState": ps})
	if capture {
		(*p).(structv)[fieldIndex(et, "Stderr")] = append(slicev(nil), fs.stderr...)
	}
	return out, iface{types.NewPointer(et), p}
}

// runIdeal is a run of a solver that decides the DIMACS text it is given and
// answers with any satisfying valuation. It fails on anything else.
func (w *Worker) runIdeal(in slicev) {
	fs := w.fs()
	text := make([]byte, len(in))
	for i, b := range in {
		text[i] = byte(w.concInt(b))
	}
	lines := strings.SplitN(string(text), "\n", 2)
	var nv, nc int
	if len(lines) != 2 {
		return
	}
	if k, err := fmt.Sscanf(lines[0], "p cnf %d %d", &nv, &nc); err != nil || k != 2 {
		return
	}
	cls := slicev{}
	cl := slicev{}
	for _, t := range strings.Fields(lines[1]) {
		var x int64
		if _, err := fmt.Sscanf(t, "%d", &x); err != nil || fmt.Sprint(x) != t || x > int64(nv) || -x > int64(nv) {
			return
		}
		if x == 0 {
			cls = append(cls, cl)
			cl = slicev{}
			continue
		}
		cl = append(cl, x)
	}
	if len(cl) > 0 || len(cls) != nc {
		return
	}
	r := w.solve("external", cls, slicev{}, false).(tuple)
	if !r[0].(bool) {
		fs.exit = int64(20)
		fs.stdout = textBytes("s UNSATISFIABLE\n")
		return
	}
	out := "s SATISFIABLE\nv"
	vals := r[1].(slicev)
	for k := 1; k <= nv; k++ {
		if k < len(vals) && w.concBool(vals[k]) {
			out += fmt.Sprintf(" %d", k)
		} else {
			out += fmt.Sprintf(" %d", -k)
		}
	}
	fs.exit = int64(10)
	fs.stdout = textBytes(out + " 0\n")
}

func textBytes(s string) slicev {
	out := slicev{}
	for i := 0; i < len(s); i++ {
		out = append(out, int64(s[i]))
	}
	return out
}

func psCode(v value) value {
	p, ok := v.(*value)
	if !ok || p == nil {
		return int64(-1)
	}
	return (*p).(*hostObj).data
}

func addFS(m map[string]intrinsicFn) {
	errT := func(w *Worker, e iface) value { return e }
	m["os.Create"] = func(fr *frame, a []value) value {
		f, e := fr.w.open("open", fr.w.concStr(a[0]), syscall.O_RDWR|syscall.O_CREAT|syscall.O_TRUNC)
		return tuple{f, e}
	}
	m["os.Open"] = func(fr *frame, a []value) value {
		f, e := fr.w.open("open", fr.w.concStr(a[0]), syscall.O_RDONLY)
		return tuple{f, e}
	}
	m["os.OpenFile"] = func(fr *frame, a []value) value {
		f, e := fr.w.open("open", fr.w.concStr(a[0]), fr.w.concInt(a[1]))
		return tuple{f, e}
	}
	m["os.CreateTemp"] = func(fr *frame, a []value) value {
		f, e := fr.w.createTemp(fr.w.concStr(a[0]), fr.w.concStr(a[1]))
		return tuple{f, e}
	}
	m["os.MkdirTemp"] = func(fr *frame, a []value) value {
		w := fr.w
		fs := w.fs()
		dir := w.concStr(a[0])
		if dir == "" {
			dir = w.tmpDir()
		}
		if !fs.dirs[clean(dir)] {
			return tuple{"", w.pathErr("mkdir", dir, syscall.ENOENT)}
		}
		fs.n++
		name := fmt.Sprintf("%s/%s%09d", dir, strings.Replace(w.concStr(a[1]), "*", "", 1), fs.n)
		fs.dirs[clean(name)] = true
		return tuple{name, iface{}}
	}
	mkdir := func(fr *frame, a []value) value {
		w := fr.w
		fs := w.fs()
		p := w.concStr(a[0])
		if !fs.dirs[filepath.Dir(clean(p))] {
			return w.pathErr("mkdir", p, syscall.ENOENT)
		}
		if fs.dirs[clean(p)] || fs.files[clean(p)] != nil {
			return w.pathErr("mkdir", p, syscall.EEXIST)
		}
		fs.dirs[clean(p)] = true
		return iface{}
	}
	m["os.Mkdir"] = mkdir
	m["os.MkdirAll"] = func(fr *frame, a []value) value {
		fs := fr.w.fs()
		p := clean(fr.w.concStr(a[0]))
		for p != "/" {
			fs.dirs[p] = true
			p = filepath.Dir(p)
		}
		return iface{}
	}
	m["os.TempDir"] = func(fr *frame, a []value) value { return fr.w.tmpDir() }
	m["os.Getwd"] = func(fr *frame, a []value) value { return tuple{"/vcwd", iface{}} }
	m["os.Getenv"] = func(fr *frame, a []value) value { return "" }
	m["os.Getpid"] = func(fr *frame, a []value) value { return int64(4242) }
	m["os.Remove"] = func(fr *frame, a []value) value { return errT(fr.w, fr.w.remove(fr.w.concStr(a[0]))) }
	m["os.RemoveAll"] = func(fr *frame, a []value) value {
		fs := fr.w.fs()
		p := clean(fr.w.concStr(a[0]))
		for f := range fs.files {
			if f == p || strings.HasPrefix(f, p+"/") {
				delete(fs.files, f)
			}
		}
		for d := range fs.dirs {
			if d == p || strings.HasPrefix(d, p+"/") {
				delete(fs.dirs, d)
			}
		}
		return iface{}
	}
	stat := func(fr *frame, a []value) value {
		w := fr.w
		p := w.concStr(a[0])
		if w.fs().files[clean(p)] == nil && !w.fs().dirs[clean(p)] {
			return tuple{iface{}, w.pathErr("stat", p, syscall.ENOENT)}
		}
		pt := types.NewPointer(w.namedType("os", "fileStat"))
		x := new(value)
		*x = &hostObj{kind: "stat", data: clean(p)}
		return tuple{iface{pt, x}, iface{}}
	}
	m["os.Stat"], m["os.Lstat"] = stat, stat
	m["(*os.fileStat).Size"] = func(fr *frame, a []value) value {
		p := (*a[0].(*value)).(*hostObj).data.(string)
		if f := fr.w.fs().files[p]; f != nil {
			return int64(len(f.data))
		}
		return int64(0)
	}
	m["(*os.fileStat).IsDir"] = func(fr *frame, a []value) value {
		p := (*a[0].(*value)).(*hostObj).data.(string)
		return fr.w.fs().dirs[p]
	}
	m["(*os.fileStat).Mode"] = func(fr *frame, a []value) value {
		p := (*a[0].(*value)).(*hostObj).data.(string)
		switch {
		case fr.w.fs().dirs[p]:
			return int64(1<<31 | 0o755)
		case p == fr.w.fs().solver:
			return int64(0o755)
		}
		return int64(0o644)
	}
	m["os.ReadFile"] = func(fr *frame, a []value) value {
		w := fr.w
		p := w.concStr(a[0])
		f := w.fs().files[clean(p)]
		if f == nil {
			return tuple{slicev(nil), w.pathErr("open", p, syscall.ENOENT)}
		}
		return tuple{append(slicev{}, f.data...), iface{}}
	}
	m["os.WriteFile"] = func(fr *frame, a []value) value {
		w := fr.w
		h, e := w.open("open", w.concStr(a[0]), syscall.O_WRONLY|syscall.O_CREAT|syscall.O_TRUNC)
		if e.t != nil {
			return e
		}
		_, e = w.fwrite(w.handle(h), a[1].(slicev))
		return e
	}
	m["os.Rename"] = func(fr *frame, a []value) value {
		w := fr.w
		fs := w.fs()
		o, n := w.concStr(a[0]), w.concStr(a[1])
		f := fs.files[clean(o)]
		if f == nil || !fs.dirs[filepath.Dir(clean(n))] {
			return w.pathErr("rename", o, syscall.ENOENT)
		}
		delete(fs.files, clean(o))
		fs.files[clean(n)] = f
		return iface{}
	}
	wr := func(fr *frame, a []value) value {
		n, e := fr.w.fwrite(fr.w.handle(a[0]), a[1].(slicev))
		return tuple{int64(n), e}
	}
	m["(*os.File).Write"] = wr
	m["(*os.File).WriteString"] = func(fr *frame, a []value) value {
		n, e := fr.w.fwrite(fr.w.handle(a[0]), strBytes(a[1]))
		return tuple{int64(n), e}
	}
	m["(*os.File).Read"] = func(fr *frame, a []value) value {
		h := fr.w.handle(a[0])
		d := a[1].(slicev)
		if h == nil || h.closed {
			return tuple{int64(0), fr.w.namedErr("os", "ErrClosed")}
		}
		n := len(h.f.data) - h.pos
		if n <= 0 && len(d) > 0 {
			return tuple{int64(0), fr.w.namedErr("io", "EOF")}
		}
		if n > len(d) {
			n = len(d)
		}
		copy(d, h.f.data[h.pos:h.pos+n])
		h.pos += n
		return tuple{int64(n), iface{}}
	}
	m["(*os.File).Close"] = func(fr *frame, a []value) value {
		h := fr.w.handle(a[0])
		if h == nil {
			return fr.w.namedErr("os", "ErrInvalid")
		}
		if h.closed {
			return fr.w.pathErrV("close", h.name, fr.w.namedErr("os", "ErrClosed"))
		}
		h.closed = true
		return iface{}
	}
	m["(*os.File).Name"] = func(fr *frame, a []value) value {
		h := fr.w.handle(a[0])
		if h == nil {
			panic(fr.w.rtPanic("invalid memory address or nil pointer dereference"))
		}
		return h.name
	}
	m["(*os.File).Sync"] = func(fr *frame, a []value) value { return iface{} }
	m["(*os.File).Chmod"] = func(fr *frame, a []value) value { return iface{} }
	m["os.Chmod"] = func(fr *frame, a []value) value { return iface{} }
	m["(*os.File).Truncate"] = func(fr *frame, a []value) value {
		h := fr.w.handle(a[0])
		n := fr.w.concInt(a[1])
		for len(h.f.data) < n {
			h.f.data = append(h.f.data, int64(0))
		}
		h.f.data = h.f.data[:n]
		return iface{}
	}
	m["(*os.File).Seek"] = func(fr *frame, a []value) value {
		h := fr.w.handle(a[0])
		o := fr.w.concInt(a[1])
		switch fr.w.concInt(a[2]) {
		case 1:
			o += h.pos
		case 2:
			o += len(h.f.data)
		}
		h.pos = o
		return tuple{int64(o), iface{}}
	}

	// os/exec
	command := func(fr *frame, name value, args slicev) value {
		w := fr.w
		ct := w.namedType("os/exec", "Cmd")
		all := slicev{name}
		for _, x := range args {
			all = append(all, x)
		}
		return w.newStruct(ct, map[string]value{"Path": name, "Args": all})
	}
	m["os/exec.Command"] = func(fr *frame, a []value) value { return command(fr, a[0], a[1].(slicev)) }
	m["os/exec.CommandContext"] = func(fr *frame, a []value) value { return command(fr, a[1], a[2].(slicev)) }
	m["os/exec.LookPath"] = func(fr *frame, a []value) value {
		w := fr.w
		p := w.concStr(a[0])
		if clean(p) == w.fs().solver {
			return tuple{p, iface{}}
		}
		t := w.namedType("os/exec", "Error")
		return tuple{"", iface{types.NewPointer(t), w.newStruct(t, map[string]value{"Name": p, "Err": w.namedErr("os/exec", "ErrNotFound")})}}
	}
	m["(*os/exec.Cmd).Run"] = func(fr *frame, a []value) value {
		_, e := fr.w.cmdRun(fr, a[0], false)
		return e
	}
	m["(*os/exec.Cmd).Output"] = func(fr *frame, a []value) value {
		o, e := fr.w.cmdRun(fr, a[0], true)
		return tuple{o, e}
	}
	m["(*os/exec.Cmd).CombinedOutput"] = func(fr *frame, a []value) value {
		o, e := fr.w.cmdRun(fr, a[0], true)
		o = append(o, fr.w.fs().stderr...)
		return tuple{o, e}
	}
	// Start and Wait: the run happens at Start, its error is kept for Wait
	// unless the program could not be started.
	m["(*os/exec.Cmd).Start"] = func(fr *frame, a []value) value {
		w := fr.w
		fs := w.fs()
		n := fs.runs
		_, e := w.cmdRun(fr, a[0], false)
		if fs.runs == n {
			return e
		}
		if w.path.waits == nil {
			w.path.waits = map[*value]iface{}
		}
		w.path.waits[a[0].(*value)] = e
		return iface{}
	}
	// Pipes: what is printed waits in a buffer until Wait.
	pipe := func(field string) intrinsicFn {
		return func(fr *frame, a []value) value {
			w := fr.w
			ct := w.namedType("os/exec", "Cmd")
			bt := w.namedType("bytes", "Buffer")
			st := (*a[0].(*value)).(structv)
			if st[fieldIndex(ct, field)].(iface).t != nil {
				return tuple{iface{}, w.errorf(fr, "exec: "+field+" already set", nil)}
			}
			b := w.newStruct(bt, nil)
			bi := iface{types.NewPointer(bt), b}
			st[fieldIndex(ct, field)] = bi
			if w.path.pipes == nil {
				w.path.pipes = map[*value]*value{}
			}
			w.path.pipes[b] = a[0].(*value)
			return tuple{w.callFn(fr, w.p.prog.ImportedPackage("io").Func("NopCloser"), []value{bi}, nil), iface{}}
		}
	}
	m["(*os/exec.Cmd).StdoutPipe"] = pipe("Stdout")
	m["(*os/exec.Cmd).StderrPipe"] = pipe("Stderr")
	m["(*os/exec.Cmd).Wait"] = func(fr *frame, a []value) value {
		w := fr.w
		for b, c := range w.path.pipes {
			if c == a[0].(*value) {
				*b = zero(w.namedType("bytes", "Buffer").Underlying())
			}
		}
		return fr.w.path.waits[a[0].(*value)]
	}
	m["(*os.ProcessState).Sys"] = func(fr *frame, a []value) value {
		w := fr.w
		c := psCode(a[0])
		var v value
		if w.concBool(w.box(w.eqVal(c, int64(-1)), intKind{})) {
			v = int64(9)
		} else {
			c = w.binop(token.AND, types.Typ[types.Int], c, int64(255), types.Typ[types.Int])
			v = w.convert(types.Typ[types.Uint32], types.Typ[types.Int], w.binop(token.MUL, types.Typ[types.Int], c, int64(256), types.Typ[types.Int]))
		}
		return iface{w.namedType("syscall", "WaitStatus"), v}
	}
	m["(*os.ProcessState).ExitCode"] = func(fr *frame, a []value) value { return psCode(a[0]) }
	m["(*os.ProcessState).Success"] = func(fr *frame, a []value) value {
		return fr.w.box(fr.w.eqVal(psCode(a[0]), int64(0)), intKind{})
	}
	m["(*os.ProcessState).Exited"] = func(fr *frame, a []value) value {
		return fr.w.box(fr.w.ctx.not(fr.w.eqVal(psCode(a[0]), int64(-1))), intKind{})
	}
	m["(*os.ProcessState).String"] = func(fr *frame, a []value) value {
		c := fr.w.concInt(psCode(a[0]))
		if c < 0 {
			return "signal: killed"
		}
		return fmt.Sprintf("exit status %d", c)
	}
	m["(*os/exec.ExitError).Error"] = func(fr *frame, a []value) value {
		st := (*a[0].(*value)).(structv)
		ps := st[fieldIndex(fr.w.namedType("os/exec", "ExitError"), "ProcessState")]
		return m["(*os.ProcessState).String"](fr, []value{ps})
	}

	// harness side
	m[symPkg+".TempDir"] = func(fr *frame, a []value) value { return fr.w.tmpDir() }
	m[symPkg+".TempEntries"] = func(fr *frame, a []value) value {
		n := 0
		fs := fr.w.fs()
		for f := range fs.files {
			if strings.HasPrefix(f, vTmp+"/") {
				n++
			}
		}
		for d := range fs.dirs {
			if strings.HasPrefix(d, vTmp+"/") {
				n++
			}
		}
		return int64(n)
	}
	m[symPkg+".BreakTemp"] = func(fr *frame, a []value) value {
		fr.w.fs().tmpBroken = true
		return nil
	}
	m[symPkg+".RemoveTemp"] = func(fr *frame, a []value) value {
		fs := fr.w.fs()
		for f := range fs.files {
			if strings.HasPrefix(f, vTmp+"/") {
				delete(fs.files, f)
			}
		}
		delete(fs.dirs, vTmp)
		return nil
	}
	m[symPkg+".RestoreTemp"] = func(fr *frame, a []value) value {
		fr.w.fs().dirs[vTmp] = true
		fr.w.fs().tmpBroken = false
		return nil
	}
	m[symPkg+".LimitFileSize"] = func(fr *frame, a []value) value {
		fr.w.fs().limit = fr.w.concInt(a[0])
		return nil
	}
	m[symPkg+".SolverPath"] = func(fr *frame, a []value) value {
		switch fr.w.concInt(a[0]) {
		case 0:
			return fr.w.fs().solver
		case 1:
			return fr.w.fs().noexec
		case 3:
			return ".." + fr.w.fs().solver
		}
		return vSolver + "/missing"
	}
	m[symPkg+".SetSolver"] = func(fr *frame, a []value) value {
		fs := fr.w.fs()
		fs.ideal = false
		fs.exit, fs.sig = a[0], a[1]
		fs.stdout = append(slicev(nil), a[2].(slicev)...)
		fs.stderr = append(slicev(nil), a[3].(slicev)...)
		return nil
	}
	m[symPkg+".IdealSolver"] = func(fr *frame, a []value) value {
		fr.w.fs().ideal = true
		return nil
	}
	m[symPkg+".SolverRuns"] = func(fr *frame, a []value) value { return int64(fr.w.fs().runs) }
	m[symPkg+".SolverInput"] = func(fr *frame, a []value) value {
		fs := fr.w.fs()
		k := fr.w.concInt(a[0])
		if k < 0 || k >= len(fs.inputs) {
			return slicev(nil)
		}
		return append(slicev(nil), fs.inputs[k].(slicev)...)
	}
	m[symPkg+".ReadFile"] = func(fr *frame, a []value) value {
		p := clean(fr.w.concStr(a[0]))
		f := fr.w.fs().files[p]
		if f == nil {
			return tuple{slicev(nil), false}
		}
		return tuple{append(slicev(nil), f.data...), true}
	}
	m[symPkg+".WriteFile"] = func(fr *frame, a []value) value {
		p := clean(fr.w.concStr(a[0]))
		fr.w.fs().files[p] = &vfile{data: append([]value(nil), a[1].(slicev)...)}
		return nil
	}
}

var _ = sort.Strings
