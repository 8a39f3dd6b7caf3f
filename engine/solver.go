package main

// A z3 process driven over a pipe with SMT-LIB2.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

type Solver struct {
	ctx     *Ctx
	cmdline []string
	cmd     *exec.Cmd
	in      *bufio.Writer
	inc     io.WriteCloser
	out     *bufio.Reader
	defined map[int]bool
	syms    map[string]bool
	stack   []*Expr // currently asserted (pushed) path condition
	nq      int

	// statistics
	Queries, NSat, NUnsat, NUnknown int
	Time                            time.Duration
	timeoutMS                       int
}

func newSolver(ctx *Ctx, cmdline []string, timeoutMS int) *Solver {
	return &Solver{ctx: ctx, cmdline: cmdline, timeoutMS: timeoutMS}
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.cmdline[0], s.cmdline[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(internalErr("solver: " + err.Error()))
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(internalErr("solver: " + err.Error()))
	}
	if err := s.cmd.Start(); err != nil {
		panic(internalErr("solver: " + err.Error()))
	}
	s.inc = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.defined = make(map[int]bool)
	s.syms = make(map[string]bool)
	s.stack = nil
	s.nq = 0
	fmt.Fprintf(s.in, "(set-logic QF_BV)\n(set-option :global-declarations true)\n(set-option :timeout %d)\n", s.timeoutMS)
}

func (s *Solver) stop() {
	if s.cmd != nil {
		s.inc.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) define(e *Expr) {
	switch e.op {
	case OConst:
		return
	case OSym:
		if !s.syms[e.name] {
			s.syms[e.name] = true
			fmt.Fprintf(s.in, "(declare-const |%s| %s)\n", e.name, sortStr(e.w))
		}
		return
	}
	if s.defined[e.id] {
		return
	}
	for _, a := range e.args {
		s.define(a)
	}
	s.defined[e.id] = true
	fmt.Fprintf(s.in, "(define-fun e%d () %s %s)\n", e.id, sortStr(e.w), e.body())
}

// Check decides the conjunction of pc and extra. want lists the symbols whose
// values are returned when satisfiable.
func (s *Solver) Check(pc []*Expr, extra []*Expr, want []*Expr) (Result, Model) {
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	if s.cmd == nil {
		s.start()
	}
	if s.nq > 20000 || len(s.defined) > 400000 {
		s.stop()
		s.start()
	}
	s.nq++
	s.Queries++
	// Align the assertion stack with pc.
	k := 0
	for k < len(s.stack) && k < len(pc) && s.stack[k] == pc[k] {
		k++
	}
	if n := len(s.stack) - k; n > 0 {
		fmt.Fprintf(s.in, "(pop %d)\n", n)
		s.stack = s.stack[:k]
	}
	for _, e := range pc[k:] {
		s.define(e)
		fmt.Fprintf(s.in, "(push 1)\n(assert %s)\n", e.ref())
		s.stack = append(s.stack, e)
	}
	for _, e := range extra {
		s.define(e)
	}
	for _, e := range want {
		s.define(e)
	}
	if len(extra) > 0 {
		fmt.Fprintf(s.in, "(push 1)\n")
		for _, e := range extra {
			fmt.Fprintf(s.in, "(assert %s)\n", e.ref())
		}
	}
	fmt.Fprintf(s.in, "(check-sat)\n")
	s.in.Flush()
	q0 := time.Now()
	line := s.readLine()
	if d := os.Getenv("SYMGO_DUMP"); d != "" && time.Since(q0) > time.Second {
		s.dump(fmt.Sprintf("%s/q%d.smt2", d, s.nq), pc, extra)
	}
	var res Result
	var m Model
	switch line {
	case "sat":
		res = Sat
		s.NSat++
		m = Model{}
		if len(want) > 0 {
			s.in.WriteString("(get-value (")
			for _, e := range want {
				s.in.WriteString(e.ref() + " ")
			}
			s.in.WriteString("))\n")
			s.in.Flush()
			s.readModel(m, want)
		}
	case "unsat":
		res = Unsat
		s.NUnsat++
	default:
		if strings.HasPrefix(line, "(error") {
			panic(internalErr("solver error: " + line))
		}
		res = Unknown
		s.NUnknown++
	}
	if len(extra) > 0 {
		fmt.Fprintf(s.in, "(pop 1)\n")
	}
	return res, m
}

func (s *Solver) readLine() string {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil { // ended from outside, most likely for its memory
			s.stop()
			s.NUnknown++
			panic(undecided{})
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l
		}
	}
}

func (s *Solver) readModel(m Model, want []*Expr) {
	// Read one balanced s-expression.
	depth := 0
	var sb strings.Builder
	inbar := false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			panic(internalErr("solver died: " + err.Error()))
		}
		if depth == 0 && b != '(' {
			if b == '\n' || b == ' ' {
				continue
			}
			panic(internalErr("solver: bad model"))
		}
		sb.WriteByte(b)
		if b == '|' {
			inbar = !inbar
		}
		if inbar {
			continue
		}
		if b == '(' {
			depth++
		} else if b == ')' {
			depth--
			if depth == 0 {
				break
			}
		}
	}
	txt := sb.String()
	if strings.HasPrefix(txt, "(error") {
		panic(internalErr("solver error: " + txt))
	}
	// Values come in the order of want; parse value tokens pairwise.
	pos := 1
	skip := func() {
		for pos < len(txt) && (txt[pos] == ' ' || txt[pos] == '\n' || txt[pos] == '\t') {
			pos++
		}
	}
	for _, e := range want {
		skip()
		pos++ // (
		skip()
		// name
		if txt[pos] == '|' {
			j := strings.IndexByte(txt[pos+1:], '|')
			pos += j + 2
		} else {
			for txt[pos] != ' ' && txt[pos] != '\n' {
				pos++
			}
		}
		skip()
		j := strings.IndexByte(txt[pos:], ')')
		v := strings.TrimSpace(txt[pos : pos+j])
		pos += j + 1
		var u uint64
		var err error
		switch {
		case v == "true":
			u = 1
		case v == "false":
			u = 0
		case strings.HasPrefix(v, "#x"):
			u, err = strconv.ParseUint(v[2:], 16, 64)
		case strings.HasPrefix(v, "#b"):
			u, err = strconv.ParseUint(v[2:], 2, 64)
		default:
			err = fmt.Errorf("value %q", v)
		}
		if err != nil {
			panic(internalErr("solver model: " + err.Error()))
		}
		m[e.name] = u
	}
}

// dump writes a query to a file, for diagnosis.
func (s *Solver) dump(path string, pc, extra []*Expr) {
	f, err := os.Create(path)
	if err != nil {
		return
	}
	defer f.Close()
	t := &Solver{in: bufio.NewWriter(f), defined: map[int]bool{}, syms: map[string]bool{}}
	fmt.Fprintf(t.in, "(set-logic QF_BV)\n")
	for _, e := range append(append([]*Expr{}, pc...), extra...) {
		t.define(e)
		fmt.Fprintf(t.in, "(assert %s)\n", e.ref())
	}
	fmt.Fprintf(t.in, "(check-sat)\n")
	t.in.Flush()
}
