package sym

import (
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"strings"
	"syscall"
)

// Names which must be taken as they are.
const (
	tmpName    = "tmp, 100%d"
	solverName = "my solver, 100%s"
)

// The file system and the solver program as seen by the code under test. All
// of it lives in the scratch directory of the replay.
type fsState struct {
	ready bool
	runs  string
	old   syscall.Rlimit
	lim   bool
}

func fs() *fsState {
	f := &Cur.fs
	if f.ready {
		return f
	}
	f.ready = true
	must(os.MkdirAll(filepath.Join(Cur.Scratch, tmpName), 0o755))
	f.runs = filepath.Join(Cur.Scratch, "runs")
	must(os.MkdirAll(f.runs, 0o755))
	must(os.MkdirAll(filepath.Join(Cur.Scratch, solverName), 0o755))
	os.Setenv("TMPDIR", filepath.Join(Cur.Scratch, tmpName))
	SetSolver(10, false, nil, nil)
	must(os.WriteFile(SolverPath(1), []byte("not a program"), 0o644))
	return f
}

func must(err error) {
	if err != nil {
		panic(Diverged{"replay set-up: " + err.Error()})
	}
}

// Begin and End enclose a replay.
func Begin(c *Case) {
	Cur = c
	fs()
}

func End(c *Case) {
	LimitFileSize(-1)
	os.RemoveAll(c.Scratch)
}

// TempDir is where temporary files go.
func TempDir() string { fs(); return os.Getenv("TMPDIR") }

// TempEntries counts what is in it.
func TempEntries() int {
	fs()
	es, _ := os.ReadDir(filepath.Join(Cur.Scratch, tmpName))
	return len(es)
}

// BreakTemp makes the creation of temporary files fail.
func BreakTemp() {
	fs()
	os.Setenv("TMPDIR", filepath.Join(Cur.Scratch, "none", "none"))
}

// RemoveTemp removes the directory of temporary files with its contents.
func RemoveTemp() {
	fs()
	os.RemoveAll(filepath.Join(Cur.Scratch, tmpName))
}

// RestoreTemp undoes BreakTemp and RemoveTemp.
func RestoreTemp() {
	fs()
	os.MkdirAll(filepath.Join(Cur.Scratch, tmpName), 0o755)
	os.Setenv("TMPDIR", filepath.Join(Cur.Scratch, tmpName))
}

// LimitFileSize makes writes beyond n bytes of a file fail; -1: no limit.
func LimitFileSize(n int) {
	f := fs()
	if n < 0 {
		if f.lim {
			syscall.Setrlimit(syscall.RLIMIT_FSIZE, &f.old)
			f.lim = false
		}
		return
	}
	signal.Ignore(syscall.SIGXFSZ)
	if !f.lim {
		must(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &f.old))
		f.lim = true
	}
	must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(n), Max: f.old.Max}))
}

// SolverPath is a path of a solver: 0 runs, 1 cannot be executed, 2 is
// missing, 3 runs and is relative to the working directory.
func SolverPath(kind int) string {
	fs()
	if kind == 3 {
		wd, err := os.Getwd()
		must(err)
		p, err := filepath.Rel(wd, SolverPath(0))
		must(err)
		return p
	}
	return filepath.Join(Cur.Scratch, solverName, []string{"solver", "noexec", "missing"}[kind])
}

// SetSolver scripts the runs of the solver from here on.
func SetSolver(exit int, sig bool, stdout, stderr []byte) {
	f := fs()
	d := filepath.Join(Cur.Scratch, solverName)
	must(os.WriteFile(filepath.Join(d, "stdout"), stdout, 0o644))
	must(os.WriteFile(filepath.Join(d, "stderr"), stderr, 0o644))
	end := fmt.Sprintf("exit %d", exit)
	if sig {
		end = "kill -9 $$"
	}
	must(os.WriteFile(filepath.Join(d, "solver.new"), []byte(fmt.Sprintf(`#!/bin/sh
n=$(ls '%s' | wc -l)
if [ -f "$1" ]; then cat "$1" > '%s'/$n; else : > '%s'/$n; fi
cat '%s/stdout'
cat '%s/stderr' >&2
%s
`, f.runs, f.runs, f.runs, d, d, end)), 0o755))
	must(os.Rename(filepath.Join(d, "solver.new"), filepath.Join(d, "solver")))
}

// IdealSolver makes the solver decide the formulas it is given from here on:
// each run answers rightly, with any satisfying valuation.
func IdealSolver() {
	f := fs()
	d := filepath.Join(Cur.Scratch, solverName)
	rest := append([]Input{}, Cur.In[:Cur.pos]...)
	n := SolverRuns()
	for _, in := range Cur.In[Cur.pos:] {
		if !strings.HasPrefix(in.Name, "external") {
			rest = append(rest, in)
			continue
		}
		out, code := "s UNSATISFIABLE\n", "20"
		if in.Vals[0] != 0 {
			out, code = "s SATISFIABLE\nv", "10"
			for k := 1; k < len(in.Vals); k++ {
				l := k
				if in.Vals[k] == 0 {
					l = -k
				}
				out += fmt.Sprintf(" %d", l)
			}
			out += " 0\n"
		}
		must(os.WriteFile(filepath.Join(d, fmt.Sprint("out", n)), []byte(out), 0o644))
		must(os.WriteFile(filepath.Join(d, fmt.Sprint("code", n)), []byte(code), 0o644))
		n++
	}
	Cur.In = rest
	must(os.WriteFile(filepath.Join(d, "solver.new"), []byte(fmt.Sprintf(`#!/bin/sh
n=$(ls '%s' | wc -l)
if [ -f "$1" ]; then cat "$1" > '%s'/$n; else : > '%s'/$n; fi
[ -f '%s'/out$n ] || exit 1
cat '%s'/out$n
exit $(cat '%s'/code$n)
`, f.runs, f.runs, f.runs, d, d, d)), 0o755))
	must(os.Rename(filepath.Join(d, "solver.new"), filepath.Join(d, "solver")))
}

// SolverRuns counts the runs so far.
func SolverRuns() int {
	es, _ := os.ReadDir(fs().runs)
	return len(es)
}

// SolverInput is what the k-th run found in the file it was given.
func SolverInput(k int) []byte {
	b, _ := os.ReadFile(filepath.Join(fs().runs, fmt.Sprint(k)))
	return b
}

// ReadFile reads a file; ok tells whether it is there.
func ReadFile(path string) ([]byte, bool) {
	fs()
	b, err := os.ReadFile(path)
	return b, err == nil
}

// WriteFile writes a file.
func WriteFile(path string, b []byte) {
	fs()
	must(os.WriteFile(path, b, 0o644))
}
