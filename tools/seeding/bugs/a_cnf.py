BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


bug("c01-topv-of-caller", "C01",
    [("cnf/cnf.go", "topv = maxInt(topv, opt_topv[0])", "topv = opt_topv[0]")],
    "negating a formula with a top variable below the formula's own, a clause of two literals or more",
    "auxiliary variables of the negation collide with variables of the formula",
    r'''
import "github.com/jtcaraball/goexpdt/cnf"

func main() {
	f := cnf.FromClauses([]cnf.Clause{{1, 2}, {-2, 3}, {3, 4}})
	n := f.Negate(2)
	check(n.TopV() >= 4, "top variable %d", n.TopV())
	for a := 0; a < 16; a++ {
		var units []int
		for v := 1; v <= 4; v++ {
			if a>>(v-1)&1 == 1 {
				units = append(units, v)
			} else {
				units = append(units, -v)
			}
		}
		check(sat(clausesOf(n), units...) != sat(clausesOf(f), units...), "negation at %v", units)
	}
}
''')

bug("c01-single-clause-short", "C01",
    [("cnf/cnf.go", "	if len(enclits) == 1 {\n		c.sClauses = []Clause{enclits}\n		return\n	}",
      "	if len(enclits) == 1 || sameLits(enclits) {\n		c.sClauses = []Clause{enclits[:1]}\n		return\n	}"),
     ("cnf/cnf.go", "// absInt returns the absolute value of an integer.",
      "// sameLits tells if all literals stand for the same variable.\nfunc sameLits(lits Clause) bool {\n	for _, l := range lits {\n		if absInt(l) != absInt(lits[0]) {\n			return false\n		}\n	}\n	return true\n}\n\n// absInt returns the absolute value of an integer.")],
    "negating a formula whose clauses are all unit clauses over one variable with both signs",
    "a contradictory formula is negated to a literal instead of true",
    r'''
import "github.com/jtcaraball/goexpdt/cnf"

func main() {
	f := cnf.FromClauses([]cnf.Clause{{3}, {-3}})
	n := f.Negate(7)
	check(sat(clausesOf(n), 3), "negation of a contradiction is false at 3")
	check(sat(clausesOf(n), -3), "negation of a contradiction is false at -3")
	g := cnf.FromClauses([]cnf.Clause{{3}, {3}}).Negate()
	check(!sat(clausesOf(g), 3) && sat(clausesOf(g), -3), "negation of 3")
}
''')

bug("c02-negative-literals", "C02",
    [("cnf/cnf.go", "	topv := maxInt(c.tv, maxVar(clauses))\n	return CNF{\n		tv:       topv,\n		sClauses: c.sClauses,",
      "	topv := c.tv\n	for _, cl := range clauses {\n		for _, v := range cl {\n			topv = maxInt(topv, v)\n		}\n	}\n	return CNF{\n		tv:       topv,\n		sClauses: c.sClauses,")],
    "a consistency clause whose largest variable only occurs negated",
    "the top variable is smaller than a variable of the formula",
    r'''
import "github.com/jtcaraball/goexpdt/cnf"

func main() {
	f := cnf.CNF{}.AppendConsistency(cnf.Clause{2, -7})
	check(f.TopV() >= 7, "top variable %d", f.TopV())
	f = cnf.FromClauses([]cnf.Clause{{-9}}).Conjunction(f)
	check(f.TopV() >= 9, "top variable %d", f.TopV())
	f = cnf.FromClauses([]cnf.Clause{{1}}).Conjunction(cnf.CNF{}.AppendConsistency(cnf.Clause{-4}))
	check(f.TopV() >= 4, "top variable %d", f.TopV())
}
''')

bug("c02-trivially-false-consistency", "C02",
    [("cnf/cnf.go", "	for _, cl := range c.cClauses {\n		if len(cl) == 0 {\n			return true\n		}\n	}\n	return false\n}\n\nfunc (c CNF) has",
      "	return c.tv == 0 && len(c.cClauses) > 0\n}\n\nfunc (c CNF) has")],
    "an empty consistency clause next to clauses with literals",
    "a formula with an empty consistency clause is not reported trivially false",
    r'''
import "github.com/jtcaraball/goexpdt/cnf"

func main() {
	check(cnf.CNF{}.AppendConsistency(cnf.Clause{}).TriviallyFalse(), "empty clause only")
	f := cnf.FromClauses([]cnf.Clause{{1}}).AppendConsistency(cnf.Clause{2}, cnf.Clause{})
	check(f.TriviallyFalse(), "empty consistency clause")
	check(!cnf.CNF{}.AppendConsistency(cnf.Clause{2}).TriviallyFalse(), "no empty clause")
}
''')

bug("c03-normalise-in-place", "C03",
    [("cnf/cnf.go", "	ncnf := CNF{sClauses: clauses}\n	ncnf.tv = maxVar(clauses)\n	return ncnf",
      "	ncnf := CNF{sClauses: clauses}\n	ncnf.tv = maxVar(clauses)\n	for i, cl := range clauses {\n		clauses[i] = compact(cl)\n	}\n	return ncnf"),
     ("cnf/cnf.go", "// absInt returns the absolute value of an integer.",
      "// compact removes repeated literals that follow each other in a clause.\nfunc compact(cl Clause) Clause {\n	if len(cl) < 2 {\n		return cl\n	}\n	out := cl[:1]\n	for _, l := range cl[1:] {\n		if l != out[len(out)-1] {\n			out = append(out, l)\n		}\n	}\n	return out\n}\n\n// absInt returns the absolute value of an integer.")],
    "a clause with adjacent repeated literals that is shared with another formula or kept by the caller",
    "creating a formula rewrites the caller's clauses, altering formulas that share them",
    r'''
import "github.com/jtcaraball/goexpdt/cnf"

func main() {
	cl := cnf.Clause{1, 1, 2}
	f := cnf.CNF{}.AppendSemantics(cl)
	check(!sat(clausesOf(f), -1, -2), "before")
	_ = cnf.FromClauses([]cnf.Clause{cl})
	check(cl[0] == 1 && cl[1] == 1 && cl[2] == 2, "the clause of the caller is now %v", cl)
	s, _ := f.Clauses()
	check(len(s[0]) == 3 && s[0][1] == 1, "a formula sharing it is now %v", s)
}
''')

bug("c03-negate-shares-aux-clause", "C03",
    [("cnf/cnf.go", "	for _, lit := range enclits {\n		c.cClauses = append(c.cClauses, Clause{-lit, auxv})\n	}",
      "	for i, lit := range enclits {\n		if i < len(c.sClauses) && len(c.sClauses[i]) == 1 {\n			// The unit clause is not needed any more, turn it around.\n			c.sClauses[i] = append(c.sClauses[i], auxv)\n			c.cClauses = append(c.cClauses, c.sClauses[i])\n			continue\n		}\n		c.cClauses = append(c.cClauses, Clause{-lit, auxv})\n	}")],
    "negating a formula with two clauses or more, one of them a unit clause, and using the formula afterwards",
    "negation rewrites the unit clauses of the formula it is applied to",
    r'''
import "github.com/jtcaraball/goexpdt/cnf"

func main() {
	f := cnf.FromClauses([]cnf.Clause{{1}, {2}, {3, 4}})
	f.Negate()
	check(!sat(clausesOf(f), -1), "the negated formula changed")
	n := f.Negate(10)
	check(!sat(clausesOf(n), 1, 2, 3) && sat(clausesOf(n), -1), "second negation")
}
''')

bug("c04-no-truncate", "C04",
    [("cnf/cnf.go", "	f, err := os.Create(path)", "	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o666)")],
    "writing to a file that holds a longer text already",
    "what the file held before stays behind the formula",
    r'''
import (
	"os"
	"path/filepath"

	"github.com/jtcaraball/goexpdt/cnf"
)

func main() {
	p := filepath.Join(os.Getenv("TMPDIR"), "f.cnf")
	must(cnf.FromClauses([]cnf.Clause{{1, 2, 3}, {4, 5}, {-6}}).ToFile(p))
	f := cnf.FromClauses([]cnf.Clause{{1}})
	must(f.ToFile(p))
	b, err := os.ReadFile(p)
	must(err)
	check(string(b) == string(f.ToBytes()), "file holds %q", b)
}
''')

bug("c04-buffered-unflushed-error", "C04",
    [("cnf/cnf.go", "	defer f.Close()\n\n	// Write CNF formula\n	if _, err = f.WriteString(",
      "	defer f.Close()\n\n	w := bufio.NewWriter(f)\n	defer w.Flush()\n\n	// Write CNF formula\n	if _, err = w.WriteString("),
     ("cnf/cnf.go", "	for _, clause := range c.sClauses {\n		if _, err = f.WriteString(", "	for _, clause := range c.sClauses {\n		if _, err = w.WriteString("),
     ("cnf/cnf.go", "	for _, clause := range c.cClauses {\n		if _, err = f.WriteString(", "	for _, clause := range c.cClauses {\n		if _, err = w.WriteString("),
     ("cnf/cnf.go", 'import (\n	"fmt"', 'import (\n	"bufio"\n	"fmt"')],
    "a full device when the last part of the formula is written",
    "a formula that could not be written is reported as written",
    r'''
import "github.com/jtcaraball/goexpdt/cnf"

func main() {
	err := cnf.FromClauses([]cnf.Clause{{1, 2}, {-1}}).ToFile("/dev/full")
	check(err != nil, "no error writing to a full device")
}
''')

bug("c04-header-semantic-count", "C04",
    [("cnf/cnf.go", '		fmt.Sprintf("p cnf %d %d\\n", c.tv, len(c.sClauses)+len(c.cClauses)),',
      '		fmt.Sprintf(\n			"p cnf %d %d\\n",\n			maxInt(maxVar(c.sClauses), maxVar(c.cClauses)),\n			len(c.sClauses)+len(c.cClauses),\n		),')],
    "a formula whose top variable is larger than the variables of its clauses, such as the negation of a trivial one",
    "the file and byte forms of the formula differ",
    r'''
import (
	"os"
	"path/filepath"

	"github.com/jtcaraball/goexpdt/cnf"
)

func main() {
	p := filepath.Join(os.Getenv("TMPDIR"), "f.cnf")
	f := cnf.FromClauses([]cnf.Clause{{1, 2}, {}}).Negate(12).AppendSemantics(cnf.Clause{3})
	must(f.ToFile(p))
	b, err := os.ReadFile(p)
	must(err)
	check(string(b) == string(f.ToBytes()), "file %q, bytes %q", b, f.ToBytes())
}
''')

bug("c04-wide-literals", "C04",
    [("cnf/cnf.go", '		cString += strconv.Itoa(v) + " "', '		cString += strconv.FormatInt(int64(int32(v)), 10) + " "')],
    "a variable above 2147483647",
    "literals of large variables are written as other numbers",
    r'''
import (
	"strings"

	"github.com/jtcaraball/goexpdt/cnf"
)

func main() {
	f := cnf.FromClauses([]cnf.Clause{{-3000000000, 3}})
	check(strings.Contains(string(f.ToBytes()), "-3000000000 3 0\n"), "%q", f.ToBytes())
}
''')
