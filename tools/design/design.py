import json
S = {}
def p(i, title, what, oracle, bounds, outside, why):
    S[i] = (title, what, oracle, bounds, outside, why)

p("C01","Negation",
 "`CNF.Negate` on formulas whose literals are symbolic (any sign, any variable up to the bound, repeats, empty clauses), with and without a caller-supplied top variable, once and repeatedly; plus long clauses and many clauses that follow a pattern with any literal at the first, middle or last place.",
 "For the result (S', C') `sym.Equiv` decides with z3, over a symbolic assignment of the variables in use and existentially over the auxiliary ones: S' and C' satisfiable iff C and not S; and C' extends every assignment that satisfies C. Fresh variables are asserted above both tops, C kept.",
 "negate: 3 clauses of 2 literals over 3 variables (quick); twice: 2 clauses; wide: one clause of 3-4 literals; pair: two or three clauses of up to 2 literals over any of 12 variables (thorough 3 over 24); many: 5-40 clauses of up to 4 literals (thorough 140); long: 8-65 literals (thorough 130).",
 "clauses longer than 130, more than 140 clauses; literal 0 (not a literal).",
 "unit tests compare fixed clause lists; a wrong sign, a shared auxiliary variable or a top variable off by one shows only for particular literals.")
p("C02","Extending and conjoining",
 "`FromClauses`, `AppendSemantics`, `AppendConsistency`, `Conjunction` in every order over clauses of symbolic literals (8-bit ranges; +-2^20 in `many`), formulas derived from one another, operands with reserved top variables.",
 "The clause multisets of both parts are compared with those handed in, literal by literal as terms; top variable >= |literal| for all values; trivially true/false against their definitions.",
 "2 clauses per part of 2 literals; derivation chains of 2 (3 thorough); 3-33 clauses (thorough 130) with any literal and an empty clause at three places, tagged by their first literal or all starting with the same one; clauses of 3-1100 literals.",
 "clause order is deliberately not compared.",
 "top variables depend on which literal is largest: a max over all values, not over samples.")
p("C03","Formulas are values",
 "All histories of 2-3 operations (negate with/without top, append, conjoin either way, write) over formulas built with spare slice capacity, grown clause by clause, with symbolic literals; after every step all earlier formulas, the caller's clauses and the true/false constants are compared with what they denoted.",
 "A snapshot (deep copy of terms) taken when each formula was made.",
 "2 operations over every way of building (3 over one small formula); grown formulas of 5-33 clauses, so that the capacities append produces at 4, 8, 16, 32 all occur (the interpreter models the runtime's growth).",
 "histories longer than 3 operations after growth.",
 "aliasing shows only at particular capacities and operation orders.")
p("C04","DIMACS text",
 "`ToBytes`, `ToFile` on formulas with symbolic literals; numbers up to 20 bits so that all decimal lengths occur; file system with symbolic old contents and faults (no directory, read-only, a directory in the way, disk full after n bytes for any n).",
 "A DIMACS reader written in the harness parses the symbolic text; header and clauses compared; file bytes = memory bytes; an error unless the file holds all of it.",
 "3 literals in 12 variables for `bytes`; widths up to 7 digits; texts of 400 and 5200 clauses (> 64 kB; thorough 12000) with write limits at 0, 4096, a block boundary and one byte short; single clauses of 4-5000 literals.",
 "errors of Close; partial writes followed by success; concurrent writers.",
 "short writes and stale tails need a particular length or fault point.")
p("C05","CNF variables",
 "Every history of `CNFVar`, `CNFVarExists`, `UpdateTopV`, `TopV`, `Reset` with symbolic feature, value and top arguments; two contexts next to each other; long names and far indices; up to 300 (thorough 1100) triples before any triple is asked for again.",
 "A reference model keeping the list of requested triples and the highest number reserved.",
 "5 operations over 2 names (6 thorough); 300 triples (1100 thorough).",
 "names containing the separator byte 31 (documented precondition: generated names do not contain it).",
 "uniqueness is over all pairs of triples, including index/value combinations whose texts coincide.")
p("C06","Scoping",
 "Every history of AddScope, SetScope, PopScope, AddVar, ScopeVar, ScopeConst, Reset with symbolic indices and values; nesting as guarded universals do it; long names; depth up to 9 (thorough 12).",
 "A reference scoper that keeps, for each variable, the scopes (and their indices) open when it was introduced; resolution compared as injective naming, not as text.",
 "5 operations; nests of depth 3 with two values per scope.",
 "a variable first introduced outside and again inside a scope is left open (the documentation gives no meaning); scope indices < 0.",
 "collisions need particular indices (1,11 against 11,1) and particular nesting.")
p("C07","Declared variables",
 "`WithVar` in every position (nested, beside, under Not/And/Or, repeated), with sub-queries over any cells, encoded on the real context.",
 "`sym.EquivSat`: satisfiable at symbolic cells iff each feature has exactly one value and the sub-query's truth holds.",
 "dimension 2 (3 thorough); up to 5-9 features in one declaration; 4-9 declared variables (12 thorough).",
 "nothing beyond sizes.",
 "the constraint that exactly one value holds is a statement about all 2^(3n) cell assignments.")
p("C08","And, Or, Not",
 "All expressions of up to 2 operators over all kinds of sub-query (auxiliary variables, consistency clauses, trivially true or false, failing), 3 operators over fewer kinds, towers of 5 negations, chains of 6-20 operators (40 thorough).",
 "`sym.Equiv` against the boolean expression, for every assignment of the propositions.",
 "as listed.", "sub-queries of other shapes than the ten kinds.",
 "auxiliary variables that collide are visible only for particular assignments and nestings.")
p("C09","Guarded universal",
 "`ForAllGuarded` over every tree shape up to 3 inner nodes with every feature assignment and several numberings, chains up to dimension 6, complete trees to depth 4 (31 nodes); sub-queries record their instantiations, fail at any visit, or use the scope.",
 "The list of node instances computed from the tree by the harness; each must be visited exactly once; scopes before = after; the result is the conjunction of the symbolic truths.",
 "as listed (thorough: 4 inner nodes, depth 5-6).", "models with cycles; nodes not reachable from the root.",
 "shapes and numberings are a family no table of trees covers.")
p("C10","Variables under universals",
 "Arbitrary symbolic relations R(node, x, ...) under all eleven arrangements of one to three quantifiers, and two of the library's formulas under three arrangements; levels, thirty witnesses at once, and formulas about nodes in every version.",
 "Quantifier expansion over node instances and over all instances of the dimension; `EquivSat` of the closed query or of the query at symbolic outer instances.",
 "trees of 2 inner nodes for relations, 1 for formulas (+2 extra features); complete tree of depth 4 in `many`.",
 "more than three nested universals (C06 covers the naming to depth 9).",
 "a wrong copy of a variable is invisible unless different nodes need different witnesses.")
pred = "`settings`: each constant is given plainly or through a guarded scope that shadows another; variables inside scopes; the formula and its negation; another formula of the same kind before."
def q(i, name, dims, wide, extra=""):
    p(i, name, f"Every version of {name} with symbolic constants (values 0, 1, 2 per feature) at symbolic instances. {pred}",
      "The definition as a boolean term over the symbolic instances; `sym.Equiv` (two entailment queries and the extension query over the auxiliary variables).",
      f"{dims}; {wide}{extra}", "dimensions beyond those; values outside {bottom, 0, 1} are not instances.",
      "an encoding is right only if it is so for all 3^n x 3^n instances; a dropped clause shows at few of them.")
q("C11","Subsumption","dimension 1-4 in full","7, 12, 40 (thorough 70) features with a window of 2 symbolic entries at the start, middle or end of patterned constants (variables stay fully symbolic)")
q("C12","Less-or-equal level","dimension 1-4 in full","7, 9, 12 (thorough 17) features, window 2")
q("C15","Consistency","dimension 1-4 in full","7, 12, 40 (thorough 70) features, window 2")
q("C17","Full","dimension 1-5 in full","9, 17, 70 (thorough 130) features, window 3")
q("C18","Higher-or-equal preference rank","dimension 1-3 and every duplicate-free preference","6, 9, 12 (thorough 17) features with preferences in three orders and lengths")
q("C19","Less-or-equal Hamming distance","dimension 1-2 in full, all eight versions","4, 6, 7 (thorough 9) features, window 1")
def m(i, name, more):
    p(i, name, f"Every version of {name} over every tree: shapes to 3 inner nodes (4 thorough) with every assignment of features and symbolic leaf values, several numberings, inner nodes carrying arbitrary values, leaves lacking one child; deep chains; pseudo-random trees of 10 inner nodes (14 thorough) with a window of symbolic leaves. {pred}",
      "The definition computed from the tree by recursion as a boolean term; `sym.Equiv`.",
      more, "trees testing a feature twice on a path; unreachable nodes; roots other than 0 (preconditions in the statement).",
      "needs all instances times all leaf labellings of each shape.")
m("C13","Node predicate","6 (thorough 24) larger trees over 5 and 8 features.")
m("C14","All-completions","both requested values; 6 (thorough 24) larger trees.")
m("C16","Determinant feature set","6 (thorough 24) larger trees.")
p("C20","Composition","Ordered pairs of formulas of the same kind (all argument orders, constants, preferences) and of different kinds sharing one reachability generator, in one context and in boolean combinations; preferences with two-digit features; all 21 members in one context in different orders.",
 "Each member keeps its meaning given the consistency clauses of all (`sym.Equiv` per member), and combinations equal the boolean combination.",
 "dimension 1-3; trees of up to 2 inner nodes.","three formulas at once only in `many`.",
 "collisions of auxiliary variables need the two particular formulas together.")
p("C21","Instance helpers","`QConst` methods, `AllBotConst`, `ValidateConstsDim`, `Node.IsLeaf` on symbolic instances.","Definitions as terms; text forms compared as injective maps with one character per feature.",
 "length 6 (instance), 5 (equal), 9 (bottom); two long instances (up to 300) that differ in one place.","feature values outside {bottom,0,1}.","counts and comparisons over all values.")
p("C22","Invalid input","All 33 versions of formulas and five operators with a missing context, generator, sub-query; constants (plain and scoped) of every wrong length; symbolic preferences; empty models; nodes out of range in small trees and anywhere in larger ones.",
 "Whether the input is valid is a term; encoding must fail exactly when it is not (for nodes: whenever the node is consulted). The interpreter reports any panic as a violation.",
 "dims 1-3 in full, 5 and 9 (17 thorough) by window; preferences to length 4 in full, to 13 by one symbolic entry.","negative child indices other than -1 (documented as 'no child').","preference checks quantify over all sequences.")
p("C23","Verdicts","`QDTFAtom`, `AndCombinator`, `OrCombinator` over members that answer true, false, or fail, in any combination; nested; up to 40 members (130 thorough).",
 "Truth tables with short circuit; order of calls recorded; wrapped unsat errors are left open, an error that merely prints the same is a failure.","5 members; width 2 nesting, depth 4.","solvers that violate their interface.","which member decides is symbolic.")
p("C24","Optimal instances","`ComputeOptim` for any set of instances (symbolic membership) under several strict orders and any strict order over one feature, with an ideal solver which may return any satisfying assignment (every choice is explored); failures at any step; the longest possible chains.",
 "Membership, minimality, not-found, call bound and number of calls, decided on each path.","6 instances in full; chains of 27 improvements; 9 features in `wide`.","orders that are not strict (precondition).","depends on which models the solver happens to return: all are explored.")
p("C25","External solver","`ExternalSolver.Step` against a model of os/exec and the file system: any exit code or signal (symbolic), any output, a missing or non-executable program, an unwritable temp directory, failing writes, several runs.",
 "The bytes in the file named by the first argument are captured at the time of the run and compared; results as specified; the set of files afterwards equals that before. Sampled paths are replayed with a real process.","2 runs; formulas up to 3 clauses, long ones of 400 and 6000 clauses.","a solver that ignores its argument; crash of goexpdt itself.","exit statuses 0-255 and signals are one symbolic variable.")
p("C26","Reading values","`Values` after runs whose output is laid out in every way: comment and status lines, values split anywhere, any order, blanks, unrelated variables; any few bytes on a value line or anywhere; outputs of 14000 literals; every history of runs.",
 "The assignment the layout was made from; for arbitrary bytes a reference reader that says when the text is unreadable.","dimension 2-3; 3 arbitrary bytes.","two true cells of a feature, tokens after the terminating 0, contradictory literals, non-space whitespace: no standard solver writes them, left unconstrained.","bytes are symbolic: all 256^3 combinations.")
p("C27","Independence of history","Every formula after each of eight histories (nested universals, failures, other variables, moved numbering), with and without Reset; inputs with spare capacity checked for writes; sequences of 3 evaluations and optima of seven kinds, and of 9 (20 thorough); a second model of the same size or altered in place.",
 "Meaning in the used context equals the definition; answers equal those computed from the definitions.","dimension 2 (one, two arguments), 1 (three).","concurrent use.","which history matters cannot be guessed.")
p("C28","End to end","`ComputeOptim` and `Sat` on whole explanation queries over every tree of 3 inner nodes (symbolic leaves, instance), seven pairs of property and order, any answers of the solver; through `ExternalSolver` and an in-model solver that decides the text it is given; larger trees of 7 inner nodes.",
 "Brute-force definition over all partial instances, as terms.","3 inner nodes (4 for `minimum`), 2 larger trees.","trees with more than 7 inner nodes.","the result must not depend on which models come back: every model is followed.")

# More harnesses, added to what is explored.
more = {
"C01":"All k-of-n clause sets under four ways of naming the variables, negated twice (`subsets`).",
"C02":"0-140 clauses (thorough 300) added at once in six ways (`sizes`).",
"C03":"Two formulas derived from one of every size up to 140 (thorough 300), for every capacity append produces (`sizes`).",
"C04":"The same formula written again after the file, or another formula, changed (`again`); one clause of any length (`clause`); texts of every length up to 1060 (4200) bytes and around 4096, 8192 and 65536 (`lengths`).",
"C05":"Tops and indices of up to 20 bits (`large`); names of all kinds (`names`).",
"C06":"Names which contain one another, digits and punctuation (`names`); 70, 300 and 700 nested scopes (`deep`).",
"C07":"Up to 130 features (`wide`); variables with names of all kinds (`names`).",
"C08":"Sub-queries of 20-400 clauses, trivially true or false after many clauses, and consistency clauses (`bulk`).",
"C09":"Sub-queries that are constants; trees of 141 and 261 nodes and complete trees to depth 6 (8) (`long`).",
"C10":"Variables inside universals over complete trees of depth 5, 7 (8): up to 511 nodes (`long`); one universal encoded two or three times in a context (`again`).",
"C11":"Contexts in which any one cell of the variables exists already, variables named like one another (`versions`); instances of 8-512 features with one value throughout but for one feature (`uniform`).","C12":"Contexts in which any one cell of the variables exists already, variables named like one another (`versions`); instances of 8-512 features with one value throughout but for one feature (`uniform`).","C15":"Contexts in which any one cell of the variables exists already, variables named like one another (`versions`); instances of 8-512 features with one value throughout but for one feature (`uniform`).","C17":"Contexts in which any one cell of the variables exists already, variables named like one another (`versions`); instances of 8-512 features with one value throughout but for one feature (`uniform`).","C18":"Contexts in which any one cell of the variables exists already, variables named like one another (`versions`); instances of 8-512 features with one value throughout but for one feature (`uniform`).","C19":"Contexts in which any one cell of the variables exists already, variables named like one another (`versions`); instances of 8-512 features with one value throughout but for one feature (`uniform`).",
"C13":"Contexts in which any one cell of the variables exists already, variables named like one another (`versions`). Trees of 9, 33 (66, 130) features in four shapes, two numberings (`long`); complete trees of depth 5, 8 (9: 1023 nodes) which test the features in different orders (`many`).",
"C14":"Contexts in which any one cell of the variables exists already, variables named like one another (`versions`). Trees of 9, 33 (66, 130) features (`long`); complete trees of depth 5, 8 (9: 1023 nodes) (`many`).",
"C16":"Contexts in which any one cell of the variables exists already, variables named like one another (`versions`). Trees of 9, 33 (66, 130) features (`long`); complete trees of depth 5, 6 (8) (`many`).",
"C20":"Constants which differ at one of 9-130 features (`alike`), names with digits (`digits`), a model changed between two encodings (`changed`).",
"C21":"Instances of up to 300 features; instances which are parts of one slice (`parts`).",
"C22":"A model changed between two encodings (`changed`); constants of 65-260 features one too long or short (`longer`); one ill-formed node anywhere in trees of 61-1023 nodes (`late`).",
"C23":"The same query in several atoms, with one solver that answers differently each time (`shared`).",
"C24":"No temporary file remains, however the computation ends; runs of 300 and 1100 (5000) steps (`steps`); contexts already in use.",
"C26":"Numbers with leading signs and zeros, several value sections, status lines among and after the values; one solver asked about contexts that number the same cells differently (`contexts`).",
"C25":"The solver and the temporary files lie in folders with spaces, commas and percent signs in their names; a solver given by a relative path.",
"C27":"The query itself encoded before, in this context and another one in turns; a sub-query that counts its visits under a universal (`universal`); odd leafs and spare capacity in the inputs (`inputs`).",
"C28":"Trees of 9, 33 (66) features (`long`).",
}
for k, x in more.items():
    t, what, *rest = S[k]
    S[k] = (t, what.rstrip() + " " + x, *rest)

order = [json.loads(l) for l in open("/verif/properties.jsonl")]
out = []
for d in order:
    t, what, oracle, bounds, outside, why = S[d["id"]]
    out.append(f"### {d['id']} {t}\n\n- Explored: {what}\n- Oracle: {oracle}\n- Bounds: {bounds}\n- Outside: {outside}\n- Why tests do not reach it: {why}\n")
open("/verif/.perprop.md","w").write("\n".join(out))
lv = json.load(open("/verif/levels.json"))
for d in order:
    t, what, oracle, bounds, outside, why = S[d["id"]]
    lv[d["id"]]["note"] = f"bounded, exhaustive within the bounds: every path of the harnesses through the real code is followed symbolically and every assertion decided by Z3. Bounds: {bounds} Not covered: {outside}"
json.dump(lv, open("/verif/levels.json","w"), indent=1); open("/verif/levels.json","a").write("\n")
