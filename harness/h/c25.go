package h

// Runs of the external solver.

import (
	"errors"

	"github.com/jtcaraball/goexpdt/cnf"
	"github.com/jtcaraball/goexpdt/compute"
	"github.com/jtcaraball/goexpdt/query"
	"verifharness/sym"
)

// aQuery is a query with any formula of the size; want are its clauses.
func aQuery(n, w, lits, nv int) (q stub, want *[][]int) {
	f, cs := someFormula(n, w, lits, nv)
	want = &cs
	q = func(ctx query.QContext) (cnf.CNF, error) { return f, nil }
	return q, want
}

// checkOutcome states that err is right for the way the solver ended.
func checkOutcome(label string, err error, exit int, sig bool) {
	if err == nil {
		sym.Cover("satisfiable")
		sym.Assert(sym.And(sym.Not(sig), exit == 10), label+": reported satisfiable")
		return
	}
	if errors.Is(err, compute.UnsatError) {
		sym.Cover("unsatisfiable")
		sym.Assert(sym.And(sym.Not(sig), exit == 20), label+": reported unsatisfiable")
		return
	}
	sym.Cover("failed")
	sym.Assert(sym.Or(sig, sym.And(exit != 10, exit != 20)), label+": reported as a failure")
}

func newBin(label string) compute.Solver {
	s, err := compute.BinSolver(sym.SolverPath(0))
	noErr(err, label)
	sym.Assert(s != nil, label+": no solver")
	return s
}

// nothingLeft states that only the files present before are there.
func nothingLeft(label string, entries int) {
	sym.Assert(sym.TempEntries() == entries, label+": temporary files remain, or others were removed")
}

// C25_outcomes: any way of ending, some small formulas, over several runs.
func C25_outcomes() {
	sym.WriteFile(sym.TempDir()+"/tmp.cnf", []byte("keep"))
	s := newBin("outcomes")
	ctx := query.BasicQContext(flat(1))
	for k := 0; k < sym.Bound("runs", 2, 3); k++ {
		q, want := aQuery(1, 1, 1, 1)
		exit := sym.Int("exit", 0, 255)
		sig := sym.Bool("signal")
		var out, msg []byte
		if k == 0 {
			out = []byte("s UNKNOWN\n")
		} else {
			msg = []byte("warning\n")
		}
		sym.SetSolver(exit, sig, out, msg)
		err := s.Step(q, ctx)
		checkOutcome("run", err, exit, sig)
		sym.Assert(sym.SolverRuns() == k+1, "not exactly one run")
		checkDIMACS("input", sym.SolverInput(k), *want)
		nothingLeft("run", 1)
	}
	b, ok := sym.ReadFile(sym.TempDir() + "/tmp.cnf")
	sym.Assert(ok && string(b) == "keep", "another file was changed")
}

// C25_output: what the solver writes does not tell how it ended.
func C25_output() {
	s := newBin("output")
	ctx := query.BasicQContext(flat(1))
	texts := []string{"", "s SATISFIABLE\nv 1 0\n", "s UNSATISFIABLE\n", "UNSATISFIABLE", "c exit 20\ns UNKNOWN\n", "v 0\n", "error: timeout\n"}
	q, want := aQuery(1, 1, 1, 1)
	exit := sym.Int("exit", 0, 255)
	sig := sym.Bool("signal")
	out := texts[sym.Choose("output", len(texts))]
	msg := texts[sym.Choose("messages", len(texts))]
	sym.SetSolver(exit, sig, []byte(out), []byte(msg))
	err := s.Step(q, ctx)
	checkOutcome("output", err, exit, sig)
	sym.Assert(sym.SolverRuns() == 1, "not exactly one run")
	checkDIMACS("input", sym.SolverInput(0), *want)
	nothingLeft("output", 0)
}

// C25_texts: the text the solver reads, for formulas of several shapes.
func C25_texts() {
	n := sym.Choose("clauses", 1+sym.Bound("clauses", 3, 4))
	path := sym.SolverPath(0)
	if n <= 1 && sym.Choose("relative path", 2) == 1 {
		path = sym.SolverPath(3)
	}
	s, err := compute.BinSolver(path)
	noErr(err, "texts")
	ctx := query.BasicQContext(flat(1))
	q, want := aQuery(n, 2, sym.Choose("literals", 3), 12)
	err = s.Step(q, ctx)
	noErr(err, "texts")
	sym.Cover("read")
	checkDIMACS("input", sym.SolverInput(0), *want)
	nothingLeft("texts", 0)
}

// C25_faults: failures of everything but the solver.
func C25_faults() {
	s := newBin("faults")
	ctx := query.BasicQContext(flat(1))
	f, cs := someFormula(1, 2, 2, 3)
	text := f.ToBytes()
	kind := sym.Choose("fault", 5)
	runs := 0
	failing := stub(func(ctx query.QContext) (cnf.CNF, error) {
		switch kind {
		case 0:
			return cnf.CNF{}, errSub
		case 1: // gone before the formula is written
			sym.RemoveTemp()
		}
		return f, nil
	})
	full := false
	switch kind {
	case 2:
		sym.BreakTemp()
	case 3:
		n := sym.Choose("written", 64)
		sym.Assume(n < len(text)+2)
		full = n < len(text)
		sym.LimitFileSize(n)
	case 4:
		sym.RemoveTemp()
	}
	err := s.Step(failing, ctx)
	sym.LimitFileSize(-1)
	sym.RestoreTemp()
	nothingLeft("fault", 0)
	switch kind {
	case 0:
		sym.Cover("encoding fails")
		sym.Assert(err != nil, "a failure to encode is not reported")
		sym.Assert(errors.Is(err, errSub), "the failure to encode is lost")
		sym.Assert(sym.SolverRuns() == 0, "the solver runs without a formula")
	case 3:
		if full {
			sym.Cover("disk full")
			// Nobody has to write to a file in order to run a solver, but
			// the solver must have read the whole formula.
			if err == nil {
				sym.Assert(sym.SolverRuns() == 1, "satisfiable without a run")
				checkDIMACS("input", sym.SolverInput(0), cs)
			}
		} else {
			noErr(err, "it fits")
		}
	default:
		sym.Cover("no directory")
		if err == nil {
			sym.Assert(sym.SolverRuns() == 1, "satisfiable without a run")
			checkDIMACS("input", sym.SolverInput(0), cs)
		}
	}
	sym.Assert(!errors.Is(err, compute.UnsatError), "the failure reads as unsatisfiable")
	runs = sym.SolverRuns()
	// The failure leaves no trace.
	exit := 10
	if sym.Choose("then", 2) == 1 {
		exit = 20
	}
	sym.SetSolver(exit, false, nil, nil)
	err = s.Step(stub(func(ctx query.QContext) (cnf.CNF, error) { return f, nil }), ctx)
	checkOutcome("then", err, exit, false)
	sym.Assert(sym.SolverRuns() == runs+1, "no run after a failure")
	checkDIMACS("input then", sym.SolverInput(runs), cs)
	nothingLeft("then", 0)
}

// C25_programs: what is at the path is no solver.
func C25_programs() {
	kind := sym.Choose("program", 4)
	path := "" // nothing at all
	switch kind {
	case 0:
		path = sym.SolverPath(2)
	case 1:
		path = sym.SolverPath(1)
	case 2:
		path = sym.TempDir()
	}
	s, err := compute.BinSolver(path)
	if kind == 0 || kind == 3 {
		sym.Cover("missing")
		sym.Assert(err != nil, "a missing program is accepted")
		return
	}
	if err != nil {
		return
	}
	q, _ := aQuery(1, 1, 1, 1)
	err = s.Step(q, query.BasicQContext(flat(1)))
	sym.Cover("cannot run")
	sym.Assert(err != nil, "satisfiable without a run")
	sym.Assert(!errors.Is(err, compute.UnsatError), "failure to start reads as unsatisfiable")
	nothingLeft("program", 0)
}
