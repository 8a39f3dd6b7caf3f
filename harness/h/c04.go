package h

// DIMACS output, read back by an independent reader.

import (
	"github.com/jtcaraball/goexpdt/cnf"
	"verifharness/sym"
)

// dimacs is what a reader makes of a DIMACS text.
type dimacs struct {
	ok      bool
	vars, n int
	clauses [][]int
}

// readDIMACS reads a text strictly.
func readDIMACS(b []byte) (d dimacs) {
	pos := 0
	space := func(c byte) bool { return c == ' ' || c == '\n' || c == '\t' || c == '\r' }
	token := func() []byte {
		for pos < len(b) && space(b[pos]) {
			pos++
		}
		at := pos
		for pos < len(b) && !space(b[pos]) {
			pos++
		}
		return b[at:pos]
	}
	number := func(t []byte) (int, bool) {
		i, neg := 0, false
		if len(t) > 0 && t[0] == '-' {
			neg, i = true, 1
		}
		if i == len(t) {
			return 0, false
		}
		v := 0
		for ; i < len(t); i++ {
			if t[i] < '0' || t[i] > '9' {
				return 0, false
			}
			v = v*10 + int(t[i]-'0')
		}
		if neg {
			v = -v
		}
		return v, true
	}
	if len(b) < 2 || b[0] != 'p' || b[1] != ' ' {
		return d
	}
	if string(token()) != "p" || string(token()) != "cnf" {
		return d
	}
	var ok1, ok2 bool
	d.vars, ok1 = number(token())
	d.n, ok2 = number(token())
	if !ok1 || !ok2 || pos >= len(b) || b[pos] != '\n' {
		return d
	}
	cl := []int{}
	for {
		t := token()
		if len(t) == 0 {
			break
		}
		k, ok := number(t)
		if !ok {
			return d
		}
		if k == 0 {
			d.clauses = append(d.clauses, cl)
			cl = []int{}
			continue
		}
		cl = append(cl, k)
	}
	d.ok = len(cl) == 0
	return d
}

// checkDIMACS states that a text denotes the clauses.
func checkDIMACS(label string, b []byte, want [][]int) {
	d := readDIMACS(b)
	sym.Assert(d.ok, label+": not a DIMACS text")
	sym.Assert(d.n == len(want), label+": clause count of the header")
	sameClauses(label, d.clauses, want)
	for _, c := range want {
		for _, l := range c {
			sym.Assert(sym.And(l <= d.vars, -l <= d.vars), label+": variable count of the header")
		}
	}
	sym.ObserveStr(label, string(b))
}

// someFormula has up to two clauses in each part.
func someFormula(n, w, lits, nv int) (cnf.CNF, [][]int) {
	left := lits
	pick := func(name string) [][]int {
		k := sym.Choose(name+"#", n+1)
		out := [][]int{}
		for i := 0; i < k; i++ {
			if w > left {
				w = left
			}
			m := sym.Choose(name+"w"+itoa(i), w+1)
			left -= m
			c := []int{}
			for j := 0; j < m; j++ {
				c = append(c, anyLit(name+itoa(i)+itoa(j), nv))
			}
			out = append(out, c)
		}
		return out
	}
	s, c := pick("s"), pick("c")
	return cnf.FromClauses(clonef(s)).AppendConsistency(clonef(c)...), join(s, c)
}

// C04_bytes: the text of any small formula.
func C04_bytes() {
	f, want := someFormula(2, 2, sym.Bound("literals", 3, 4), sym.Bound("variables", 12, 30))
	sym.Cover("read")
	checkDIMACS("bytes", f.ToBytes(), want)
}

// C04_wide: literals of any length, and top variables beyond the literals.
func C04_wide() {
	l := sym.Int("l", -20000, 20000)
	sym.Assume(l != 0)
	big := []int{1 << 40, -(1 << 40), 9223372036854775807, -2147483648, 99999, -1000000}[sym.Choose("big", 6)]
	f := cnf.FromClauses([]cnf.Clause{{l, big}}).AppendConsistency(cnf.Clause{-l})
	want := [][]int{{l, big}, {-l}}
	if sym.Choose("negate", 2) == 1 && big < 1<<62 {
		f = f.Negate(1 << 41)
		s, c := rawBoth(f)
		want = join(s, c)
	}
	sym.Cover("read")
	checkDIMACS("wide", f.ToBytes(), want)
	path := sym.TempDir() + "/wide.cnf"
	noErr(f.ToFile(path), "file")
	b, ok := sym.ReadFile(path)
	sym.Assert(ok, "file: not there")
	sym.Assert(string(b) == string(f.ToBytes()), "file: differs from the bytes")
}

// C04_file: the file form, over whatever the file held before.
func C04_file() {
	f, want := someFormula(2, 2, 2, 12)
	// A top variable beyond the literals, and a negation.
	switch sym.Choose("reserve", 3) {
	case 1:
		f = f.Negate(15)
		s, c := rawBoth(f)
		want = join(s, c)
	case 2:
		f = cnf.FalseCNF.Negate(21).Conjunction(f)
	}
	path := sym.TempDir() + "/f.cnf"
	switch sym.Choose("before", 3) {
	case 1:
		sym.WriteFile(path, []byte("x"))
	case 2:
		old := make([]byte, 400)
		for i := range old {
			old[i] = "1 2 0\n"[i%6]
		}
		sym.WriteFile(path, old)
	}
	err := f.ToFile(path)
	noErr(err, "file")
	b, ok := sym.ReadFile(path)
	sym.Assert(ok, "file: not there")
	mem := f.ToBytes()
	sym.Assert(string(b) == string(mem), "file: differs from the bytes")
	sym.Cover("read")
	checkDIMACS("file", b, want)
	// Again, another formula into the same file.
	noErr(cnf.TrueCNF.ToFile(path), "file")
	b, _ = sym.ReadFile(path)
	checkDIMACS("rewritten file", b, nil)
}

// C04_faults: a file that cannot be made or not be written in full.
func C04_faults() {
	n := 1 + sym.Choose("clauses", 4)
	f := cnf.TrueCNF
	want := [][]int{}
	for i := 0; i < n; i++ {
		l := anyLit("l"+itoa(i), 9)
		if i%2 == 0 {
			f = f.AppendSemantics(cnf.Clause{l})
		} else {
			f = f.AppendConsistency(cnf.Clause{l})
		}
		want = append(want, []int{l})
	}
	path := sym.TempDir() + "/f.cnf"
	size := len(f.ToBytes())
	kind := sym.Choose("fault", 3)
	switch kind {
	case 0:
		path = sym.TempDir() + "/none/f.cnf"
	case 1:
		path = sym.TempDir()
	case 2:
		sym.LimitFileSize(sym.Choose("limit", size+1))
	}
	err := f.ToFile(path)
	sym.LimitFileSize(-1)
	sym.Cover("faulty")
	if kind < 2 {
		sym.Assert(err != nil, "no error for a file that cannot be made")
		return
	}
	b, ok := sym.ReadFile(path)
	if err == nil {
		sym.Cover("written in full")
		sym.Assert(ok, "no error for a file that is not there")
		checkDIMACS("success", b, want)
	}
	sym.Observe("failed", sym.B2I(err != nil))
}
