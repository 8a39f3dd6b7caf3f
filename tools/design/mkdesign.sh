cd /verif
python3 tools/design/design.py
{ cat <<'EOF'
# Solver-based checking of goexpdt

All 28 properties of `properties.jsonl` are claimed and decided the same way:
the real code of `/repo` is executed symbolically and Z3 decides every branch
and every assertion for all values within the bounds. `not_applicable` is empty.

    ./check.sh C07            # quick, 2-125 s on 8 cores
    ./check.sh C07 thorough   # larger bounds, up to 50 min
    ./setup.sh                # builds once, to warm the build cache

## Machinery

`engine/` (Go, about 8000 lines) is a symbolic executor for Go's SSA form.
Every run loads `/repo`'s current sources with the parts of the standard library
they use (`go/packages`, `go/ssa`; nothing is cached between runs and nothing of
`/repo` is copied into `/verif`) and interprets the harnesses of `harness/h`,
which are ordinary Go code calling goexpdt's public API.

- Values. Integers (bounded by the harness, overflow checked), booleans, bytes
  and strings of bytes may be terms. Structure (slices with real capacity and
  aliasing, maps, pointers, interfaces, closures, defer/panic/recover) is concrete per path. Goroutines,
  channels, select, WaitGroup, sync.Pool, sync.Map and atomics run under one
  schedule (`conc.go`); the code has none today, so this is only there to keep
  the checks working on rewrites which use them.
  `append` grows as the runtime does, so capacity-dependent aliasing is real.
- Branches. A condition on symbolic values is decided with Z3 under the path
  condition; where both sides are feasible both are followed (work stealing over
  8 workers, deterministic seeds). Where a condition involves a single input, its
  set of values is also kept as a finite domain; after a worker's first 500
  queries such conditions are decided by propagation over the domains and the
  path condition as a whole is confirmed by one Z3 query at the end of the path,
  together with the assertions decided that way. `sym.Choose` picks structure
  (shape of a tree, length, which version): a symbolic variable whose every
  value is followed as a path of its own.
- Assertions. `sym.Assert(p)` is the query "path condition and not p", which
  must be unsat. Any panic, out-of-range access, nil dereference or division by
  zero in the code under test is a violation too, as is running beyond the step
  limit (no termination).
- Encodings. A CNF the code produced is itself a formula; `sym.Equiv(S, C, defs,
  spec)` is decided for a symbolic assignment of the defined variables and the
  auxiliary ones: C & S & not spec unsat, C & not S & spec unsat, and C
  extensible to the auxiliary variables for every instance (2QBF, by
  counterexample-guided expansion over Z3). `EquivSat` is for closed queries:
  the whole is satisfiable exactly when spec. Neither looks at the order of
  clauses, numbering of variables or the number of auxiliary variables.
- Environment. The file system (`fsmodel.go`) and processes are models with
  faults chosen by the harness: directories that vanish, files that cannot be
  made, writes that fall short at any length, a program that exits or dies in
  any way and prints anything, a program that decides the file it is given
  (natively: a small clause-learning solver in `harness/sym/sat.go`; every model
  is followed, or with `sym.One` a particular one).
  fmt, strconv, errors, sort, strings, bufio are either interpreted from their
  source or modelled and checked natively (next point).
- Trust. Counterexamples are concretised and replayed against the real build
  (`harness/cmd/replay`, with real files and processes); only a replay that fails too
  is reported as a violation. What a replay contradicts is an engine error and
  fails the run with exit 2. On every run sampled paths of every harness are
  executed natively with concrete inputs and everything observed along them
  must agree with the symbolic run (`paths validated natively`).
  Should a counterexample not replay, the run goes on (up to 40 of them), as
  another one may; exit 2 only when none does.
- Budget. 420 s (quick) or 3000 s (thorough) a check, shared evenly between its
  harnesses; running out is no alarm: the run exits 0 and the evidence says
  which harness was not exhausted. Paths the engine cannot follow (an operation
  it does not know, a query Z3 gives up on) are counted as undecided there.

What is trusted: go/ssa, the interpreter and models (cross-checked as above),
Z3. Map iteration follows insertion order; Close errors are not injected; the
code is sequential.

Evidence (`evidence/<id>.json`) lists the functions encoded, harnesses, bounds,
paths, assertions, queries, solver time, natively validated paths.

## Preconditions taken from the documentation

Decision trees are read-once, root at index 0, every node reachable, leaves have
NoChild (one missing child suffices). The dimension is at least 1. Variables of
a query are declared before use and are not named like generated ones;
generator functions are injective (Hamming/equality ones symmetric); names do
not contain the separator byte 31. Orders given to ComputeOptim are strict.
`UnsatError` marks unsatisfiability; errors wrapping it are left open.

## Properties

EOF
cat .perprop.md; rm -f /verif/.perprop.md
cat <<'EOF'

Harnesses named `_many`, `_long`, `_wide`, `_big`, `_deep` go to sizes far above
the exhaustive ones: the bulk follows a fixed pattern and a window of places,
itself moved over the input, holds any value. They are there for code which
treats small cases apart (caches, bit masks, fixed-size buffers, thresholds).

## Defects found

Fourteen, all repaired by `fix:` commits in /repo and listed in
`KNOWN_FINDINGS.txt`; none is left open. Each was first shown by a replayed
counterexample.

## False alarms corrected

Earlier versions of some checks asked for too much, and were corrected:
declaring a variable outside and again inside a scope (C06, left open), wrapped
unsat errors (C23, left open), the exact clause lists of encodings (now
`Equiv` only), solver output no standard solver prints (C26, see above), the
solver's argument list beyond the first argument (C25), the number of Step calls
counted at "not found" (C24: one call).

## Planted changes

`tools/seeding/bugs/*.py` describes them, `mk.py` builds `seeded/<id>` and
confirms that each builds, passes the stable tests and has a demonstration that
tells it apart; `run.py` runs the checks on them. Every one is caught by the
check of its own property:

EOF
python3 - <<'EOF'
import json,glob,collections
c=collections.defaultdict(list)
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    c[json.load(open(f))['property']].append(f.split('/')[-2])
for k in sorted(c): print(f"- {k}: "+', '.join(c[k]))
EOF
cat <<'EOF'

Checks that first missed a change and were extended for it: C03 (growth to many
clauses), C04 (long texts, faults at any length), C06 (many scopes), C08 (late
updates of the top variable), C10 (formulas about nodes in every version),
C12/C19 (wider dimensions), C13/C14/C16 (larger trees, odd leaves), C20
(prefixes of preferences, shared memory), C24 (longer chains), C25 (texts in the
output), C26 (long lines, missing features), C27 (second models), C28 (deeper
trees).

## Behaviour-preserving rewrites

`tools/refactor/r*.diff` rewrite large parts of /repo without changing what it
does (loops, helpers, other containers, sort order of clauses, generic helpers,
other library calls for files and processes, bit sets, sorted containers,
regular expressions, goroutines, closures and iterators, reflection, sync and
math/big); `run.py` there runs all checks on copies. All stay quiet. r10 (another
layout of the formulas themselves) and r12 (a regular expression over the solver's
output) make some checks (C03, C04, C26) up to thirty times slower: the engine
then follows fewer paths and reports the reduced bound. A path too long to follow
which does end when run natively is reported as undecided, not as an alarm.
EOF
} > DESIGN.md
python3 genmanifest.py
