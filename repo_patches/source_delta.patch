From a1f98c3e45a5539ebc4d0147af0036d97d3feefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:16 +0000
Subject: [PATCH 01/14] fix: never share spare slice capacity between cnf
 formulas

---
 cnf/cnf.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/cnf/cnf.go b/cnf/cnf.go
index 2f7b4a6..cb8eb4b 100644
--- a/cnf/cnf.go
+++ b/cnf/cnf.go
@@ -124,8 +124,11 @@ func (c *CNF) tseytinNegation(tv int) {
 			for _, lit := range clause {
 				clauses = append(clauses, Clause{-lit, -auxv})
 			}
-			// Oposite implication.
-			clauses = append(clauses, append(clause, auxv))
+			// Oposite implication. The clause is shared so it must be copied.
+			clauses = append(
+				clauses,
+				append(clause[:len(clause):len(clause)], auxv),
+			)
 		}
 
 		// Literals representing negated clauses.
@@ -133,7 +136,7 @@ func (c *CNF) tseytinNegation(tv int) {
 	}
 
 	// If no errors were found then update CNF.
-	c.cClauses = append(c.cClauses, clauses...)
+	c.cClauses = extend(c.cClauses, clauses)
 	c.tv = tv
 
 	// Generate bidirectional implication from new enc literal and enclits.
@@ -173,7 +176,7 @@ func (c CNF) AppendSemantics(clauses ...Clause) CNF {
 	topv := maxInt(c.tv, maxVar(clauses))
 	return CNF{
 		tv:       topv,
-		sClauses: append(c.sClauses, clauses...),
+		sClauses: extend(c.sClauses, clauses),
 		cClauses: c.cClauses,
 	}
 }
@@ -184,7 +187,7 @@ func (c CNF) AppendConsistency(clauses ...Clause) CNF {
 	return CNF{
 		tv:       topv,
 		sClauses: c.sClauses,
-		cClauses: append(c.cClauses, clauses...),
+		cClauses: extend(c.cClauses, clauses),
 	}
 }
 
@@ -290,6 +293,13 @@ func clauseToDIMACS(clause Clause) string {
 	return cString
 }
 
+// extend returns the clauses in base followed by those in clauses. The result
+// never makes use of the spare capacity of base as it may be shared with other
+// formulas.
+func extend(base, clauses []Clause) []Clause {
+	return append(base[:len(base):len(base)], clauses...)
+}
+
 // maxVar returns the absolute value of the largest variable in a slice of
 // clauses.
 func maxVar(clauses []Clause) int {
-- 
2.43.0


From 3303aa0d41c6d15cb24f1ea5b4e6ffcdd0fec5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:16 +0000
Subject: [PATCH 02/14] fix: encode hepr variable versions with an empty
 preference

---
 query/extensions/hepr/const_var.go | 5 +++++
 query/extensions/hepr/var_const.go | 5 +++++
 query/extensions/hepr/var_var.go   | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/query/extensions/hepr/const_var.go b/query/extensions/hepr/const_var.go
index 08b801f..f00cb56 100644
--- a/query/extensions/hepr/const_var.go
+++ b/query/extensions/hepr/const_var.go
@@ -48,6 +48,11 @@ func (d ConstVar) Encoding(ctx query.QContext) (cnf.CNF, error) {
 		return cnf.CNF{}, err
 	}
 
+	// Any two instances have the same rank under an empty preference.
+	if len(d.Preference) == 0 {
+		return cnf.TrueCNF, nil
+	}
+
 	ncnf := cnf.CNF{}
 	plen := len(d.Preference)
 	idx := d.Preference[plen-1]
diff --git a/query/extensions/hepr/var_const.go b/query/extensions/hepr/var_const.go
index a1df829..471fcec 100644
--- a/query/extensions/hepr/var_const.go
+++ b/query/extensions/hepr/var_const.go
@@ -48,6 +48,11 @@ func (d VarConst) Encoding(ctx query.QContext) (cnf.CNF, error) {
 		return cnf.CNF{}, err
 	}
 
+	// Any two instances have the same rank under an empty preference.
+	if len(d.Preference) == 0 {
+		return cnf.TrueCNF, nil
+	}
+
 	ncnf := cnf.CNF{}
 	plen := len(d.Preference)
 	idx := d.Preference[plen-1]
diff --git a/query/extensions/hepr/var_var.go b/query/extensions/hepr/var_var.go
index 6d437d2..5d93c29 100644
--- a/query/extensions/hepr/var_var.go
+++ b/query/extensions/hepr/var_var.go
@@ -39,6 +39,11 @@ func (d VarVar) Encoding(ctx query.QContext) (cnf.CNF, error) {
 	sv2 := ctx.ScopeVar(d.I2)
 	vvp := d.FeaturePreferenceRankVarGen(prefVar(d.Preference), sv1, sv2)
 
+	// Any two instances have the same rank under an empty preference.
+	if len(d.Preference) == 0 {
+		return cnf.TrueCNF, nil
+	}
+
 	ncnf := cnf.CNF{}
 	plen := len(d.Preference)
 	idx := d.Preference[plen-1]
-- 
2.43.0


From ec5ba9e53909595ad5904fd83d52242eae0e9b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:17 +0000
Subject: [PATCH 03/14] fix: require the variable to be full in leh with
 trivial distances

---
 query/extensions/leh/const_const_var.go | 6 +++---
 query/extensions/leh/const_var_const.go | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/query/extensions/leh/const_const_var.go b/query/extensions/leh/const_const_var.go
index 659ca26..0e2b62f 100644
--- a/query/extensions/leh/const_const_var.go
+++ b/query/extensions/leh/const_const_var.go
@@ -51,12 +51,12 @@ func (l ConstConstVar) Encoding(ctx query.QContext) (cnf.CNF, error) {
 		return cnf.CNF{}, err
 	}
 
+	ncnf := cnf.FromClauses(varFullClauses(sv, ctx))
+
 	if cchd == 0 {
-		return cnf.TrueCNF, nil
+		return ncnf, nil
 	}
 
-	ncnf := cnf.FromClauses(varFullClauses(sv, ctx))
-
 	hdClauses, err := hammingDistVC(sv, sc1, vc1hd, ctx)
 	if err != nil {
 		return cnf.CNF{}, err
diff --git a/query/extensions/leh/const_var_const.go b/query/extensions/leh/const_var_const.go
index 9d6a61a..769f07e 100644
--- a/query/extensions/leh/const_var_const.go
+++ b/query/extensions/leh/const_var_const.go
@@ -51,12 +51,12 @@ func (l ConstVarConst) Encoding(ctx query.QContext) (cnf.CNF, error) {
 		return cnf.CNF{}, err
 	}
 
+	ncnf := cnf.FromClauses(varFullClauses(sv, ctx))
+
 	if cchd == dim {
-		return cnf.TrueCNF, nil
+		return ncnf, nil
 	}
 
-	ncnf := cnf.FromClauses(varFullClauses(sv, ctx))
-
 	hdClauses, err := hammingDistVC(sv, sc1, vc1hd, ctx)
 	if err != nil {
 		return cnf.CNF{}, err
-- 
2.43.0


From 60463b163ecc5efeffed4438a6c0c6172291f7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:48 +0000
Subject: [PATCH 04/14] fix: resolve constants to the innermost scope targeting
 them

---
 query/scoper.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/query/scoper.go b/query/scoper.go
index b907a91..92d8f23 100644
--- a/query/scoper.go
+++ b/query/scoper.go
@@ -78,9 +78,10 @@ func (s *baseScoper) AddVar(v QVar) {
 }
 
 func (s *baseScoper) ScopeConst(c QConst) (QConst, bool) {
-	for _, g := range s.scopes {
-		if g.target == c.ID {
-			return QConst{c.ID, g.value}, true
+	// The innermost scope targeting c shadows any other.
+	for i := len(s.scopes) - 1; i >= 0; i-- {
+		if s.scopes[i].target == c.ID {
+			return QConst{c.ID, s.scopes[i].value}, true
 		}
 	}
 	return c, false
-- 
2.43.0


From 193680b1fec2f2f22f1cff1db03259f73ebdd6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:57 +0000
Subject: [PATCH 05/14] fix: forget the level of variables when resetting a
 scoper

---
 query/scoper.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/query/scoper.go b/query/scoper.go
index 92d8f23..c508a99 100644
--- a/query/scoper.go
+++ b/query/scoper.go
@@ -119,4 +119,5 @@ func (s *baseScoper) SetScope(vIdx int, val []FeatV) error {
 
 func (s *baseScoper) Reset() {
 	s.scopes = nil
+	s.vars = make(map[QVar]int)
 }
-- 
2.43.0


From 257c08f794968318b9b29df400b66fb29f63042a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:51 +0000
Subject: [PATCH 06/14] fix: keep the reach variables of isnode and allcomp
 apart

Both encode which nodes a variable reaches with the triples (reach, 0, i),
but with different meanings for bottom features, so using them in one query
with the same generator made it unsatisfiable.
---
 query/predicates/isnode/var.go | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/query/predicates/isnode/var.go b/query/predicates/isnode/var.go
index 5f7277a..69b9f78 100644
--- a/query/predicates/isnode/var.go
+++ b/query/predicates/isnode/var.go
@@ -36,7 +36,8 @@ func (f Var) Encoding(ctx query.QContext) (cnf.CNF, error) {
 	svReach := f.ReachNodeVarGen(sv)
 
 	// We will encode that sv reaches a node with index i as the triple
-	// (svReach, 0, i).
+	// (svReach, 1, i). Index 0 is used by the AllComp extension, for which
+	// reaching a node means that some completion of sv does.
 
 	// Every feature that is not BOT must be decided on
 	fcl := []cnf.Clause{}
@@ -49,13 +50,13 @@ func (f Var) Encoding(ctx query.QContext) (cnf.CNF, error) {
 			continue
 		}
 
-		fcl[node.Feat] = append(fcl[node.Feat], ctx.CNFVar(svReach, 0, i))
+		fcl[node.Feat] = append(fcl[node.Feat], ctx.CNFVar(svReach, 1, i))
 	}
 
 	ncnf = ncnf.AppendSemantics(fcl...)
 
 	// Root is always reachable
-	ncnf = ncnf.AppendConsistency(cnf.Clause{ctx.CNFVar(svReach, 0, 0)})
+	ncnf = ncnf.AppendConsistency(cnf.Clause{ctx.CNFVar(svReach, 1, 0)})
 
 	// Add non-bot progapation clauses
 	for i, node := range nodes {
@@ -65,28 +66,28 @@ func (f Var) Encoding(ctx query.QContext) (cnf.CNF, error) {
 		ncnf = ncnf.AppendConsistency(
 			cnf.Clause{
 				-ctx.CNFVar(sv, node.Feat, int(query.ZERO)),
-				-ctx.CNFVar(svReach, 0, i),
-				ctx.CNFVar(svReach, 0, node.ZChild),
+				-ctx.CNFVar(svReach, 1, i),
+				ctx.CNFVar(svReach, 1, node.ZChild),
 			},
 			cnf.Clause{
 				-ctx.CNFVar(sv, node.Feat, int(query.ONE)),
-				-ctx.CNFVar(svReach, 0, i),
-				ctx.CNFVar(svReach, 0, node.OChild),
+				-ctx.CNFVar(svReach, 1, i),
+				ctx.CNFVar(svReach, 1, node.OChild),
 			},
 			cnf.Clause{
-				-ctx.CNFVar(svReach, 0, node.OChild),
-				ctx.CNFVar(svReach, 0, i),
+				-ctx.CNFVar(svReach, 1, node.OChild),
+				ctx.CNFVar(svReach, 1, i),
 			},
 			cnf.Clause{
-				-ctx.CNFVar(svReach, 0, node.OChild),
+				-ctx.CNFVar(svReach, 1, node.OChild),
 				ctx.CNFVar(sv, node.Feat, int(query.ONE)),
 			},
 			cnf.Clause{
-				-ctx.CNFVar(svReach, 0, node.ZChild),
-				ctx.CNFVar(svReach, 0, i),
+				-ctx.CNFVar(svReach, 1, node.ZChild),
+				ctx.CNFVar(svReach, 1, i),
 			},
 			cnf.Clause{
-				-ctx.CNFVar(svReach, 0, node.ZChild),
+				-ctx.CNFVar(svReach, 1, node.ZChild),
 				ctx.CNFVar(sv, node.Feat, int(query.ZERO)),
 			},
 		)
-- 
2.43.0


From 8dfb8ec916fb959574536771b7a0dd4e9abcd849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:52 +0000
Subject: [PATCH 07/14] fix: tell preferences of multi-digit features apart in
 hepr

The variable naming a preference concatenated its indexes, so that [1 12] and
[11 2] shared their auxiliary variables.
---
 query/extensions/hepr/util.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/query/extensions/hepr/util.go b/query/extensions/hepr/util.go
index 9735deb..6077cf9 100644
--- a/query/extensions/hepr/util.go
+++ b/query/extensions/hepr/util.go
@@ -24,12 +24,14 @@ func validatePref(pref []int, dim int) error {
 	return nil
 }
 
-// prefVar returns a query variable corresponding to pref.
+// prefVar returns a query variable corresponding to pref. Indexes are ended by
+// a separator so that different preferences have different variables.
 func prefVar(pref []int) query.QVar {
 	var sb strings.Builder
 
 	for _, idx := range pref {
 		sb.WriteString(strconv.Itoa(idx))
+		sb.WriteRune(',')
 	}
 
 	return query.QVar(sb.String())
-- 
2.43.0


From 3a5779e629e6c1315c0ac73ea8d58507723bd45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:25 +0000
Subject: [PATCH 08/14] fix: name the distance of leh.ConstVarConst after the
 constant it is to

The auxiliary variable was generated from the third argument but encoded the
distance to the first, clashing with the distances other formulas encode.
---
 query/extensions/leh/const_var_const.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/query/extensions/leh/const_var_const.go b/query/extensions/leh/const_var_const.go
index 769f07e..3c3451d 100644
--- a/query/extensions/leh/const_var_const.go
+++ b/query/extensions/leh/const_var_const.go
@@ -36,7 +36,7 @@ func (l ConstVarConst) Encoding(ctx query.QContext) (cnf.CNF, error) {
 	sc1, _ := ctx.ScopeConst(l.I1)
 	sc2, _ := ctx.ScopeConst(l.I3)
 	sv := ctx.ScopeVar(l.I2)
-	vc1hd := l.HammingDistanceVarGen(sv, query.QVar(sc2.AsString()))
+	vc1hd := l.HammingDistanceVarGen(sv, query.QVar(sc1.AsString()))
 
 	if err := query.ValidateConstsDim(dim, sc1, sc2); err != nil {
 		return cnf.CNF{}, err
-- 
2.43.0


From e888d9c6c827780e6b1d184600b92bcd33faefff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:29 +0000
Subject: [PATCH 09/14] fix: report an empty model in dfs instead of panicking

The leaves of a model without nodes were looked up before checking that it
has any.
---
 query/extensions/dfs/utils.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/query/extensions/dfs/utils.go b/query/extensions/dfs/utils.go
index 16da7b4..ca07fa6 100644
--- a/query/extensions/dfs/utils.go
+++ b/query/extensions/dfs/utils.go
@@ -1,6 +1,7 @@
 package dfs
 
 import (
+	"errors"
 	"fmt"
 
 	"github.com/jtcaraball/goexpdt/query"
@@ -12,6 +13,10 @@ func leafsAsConsts(
 	dim int,
 	nodes []query.Node,
 ) ([]query.QConst, []query.QConst, error) {
+	if len(nodes) == 0 {
+		return nil, nil, errors.New("Invalid encoding on empty model")
+	}
+
 	for _, n := range nodes {
 		if err := validateNode(n, dim, len(nodes)); err != nil {
 			return nil, nil, err
-- 
2.43.0


From 74ed3a274f9f19c2b03373dd2c38f5bd7e5dc9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:29 +0000
Subject: [PATCH 10/14] fix: reject ill-formed nodes in isnode and allcomp

isnode.Var and allcomp.Const panicked on a feature or child out of range, and
both variable versions encoded formulas about nodes which do not exist.
---
 query/extensions/allcomp/const.go |  9 ++-------
 query/extensions/allcomp/utils.go | 33 +++++++++++++++++++++++++++++++
 query/extensions/allcomp/var.go   |  6 ++++++
 query/predicates/isnode/const.go  | 21 ++------------------
 query/predicates/isnode/utils.go  | 33 +++++++++++++++++++++++++++++++
 query/predicates/isnode/var.go    |  6 ++++++
 6 files changed, 82 insertions(+), 26 deletions(-)
 create mode 100644 query/extensions/allcomp/utils.go
 create mode 100644 query/predicates/isnode/utils.go

diff --git a/query/extensions/allcomp/const.go b/query/extensions/allcomp/const.go
index c68301c..8db4ae2 100644
--- a/query/extensions/allcomp/const.go
+++ b/query/extensions/allcomp/const.go
@@ -2,7 +2,6 @@ package allcomp
 
 import (
 	"errors"
-	"fmt"
 
 	"github.com/jtcaraball/goexpdt/cnf"
 	"github.com/jtcaraball/goexpdt/query"
@@ -49,12 +48,8 @@ func (ac Const) Encoding(ctx query.QContext) (cnf.CNF, error) {
 			continue
 		}
 
-		if n.Feat < 0 || n.Feat >= dim {
-			return cnf.CNF{}, fmt.Errorf(
-				"Node's feature %d is out of range [0, %d]",
-				n.Feat,
-				dim-1,
-			)
+		if err := validateNode(n, dim, len(nodes)); err != nil {
+			return cnf.CNF{}, err
 		}
 
 		switch sc.Val[n.Feat] {
diff --git a/query/extensions/allcomp/utils.go b/query/extensions/allcomp/utils.go
new file mode 100644
index 0000000..dda5576
--- /dev/null
+++ b/query/extensions/allcomp/utils.go
@@ -0,0 +1,33 @@
+package allcomp
+
+import (
+	"fmt"
+
+	"github.com/jtcaraball/goexpdt/query"
+)
+
+// validateNode returns a non nill error if the node n is invalid for the the
+// given dimension and number of nodes.
+func validateNode(n query.Node, dim, nlen int) error {
+	if n.IsLeaf() {
+		return nil
+	}
+
+	if n.Feat < 0 || n.Feat >= dim {
+		return fmt.Errorf(
+			"Node's feature %d is out of range [0, %d]",
+			n.Feat,
+			dim-1,
+		)
+	}
+
+	if n.ZChild < 0 || n.ZChild >= nlen {
+		return fmt.Errorf("Node's ZChild out of bounds %d", n.ZChild)
+	}
+
+	if n.OChild < 0 || n.OChild >= nlen {
+		return fmt.Errorf("Node's OChild out of bounds %d", n.OChild)
+	}
+
+	return nil
+}
diff --git a/query/extensions/allcomp/var.go b/query/extensions/allcomp/var.go
index 6eb3d71..78d5cab 100644
--- a/query/extensions/allcomp/var.go
+++ b/query/extensions/allcomp/var.go
@@ -34,6 +34,12 @@ func (ac Var) Encoding(ctx query.QContext) (cnf.CNF, error) {
 		return cnf.CNF{}, errors.New("Invalid encoding on empty model")
 	}
 
+	for _, node := range nodes {
+		if err := validateNode(node, ctx.Dim(), len(nodes)); err != nil {
+			return cnf.CNF{}, err
+		}
+	}
+
 	sv := ctx.ScopeVar(ac.I)
 	svReach := ac.ReachNodeVarGen(sv)
 	ncnf := cnf.CNF{}
diff --git a/query/predicates/isnode/const.go b/query/predicates/isnode/const.go
index e7ea899..5bcdd18 100644
--- a/query/predicates/isnode/const.go
+++ b/query/predicates/isnode/const.go
@@ -2,7 +2,6 @@ package isnode
 
 import (
 	"errors"
-	"fmt"
 
 	"github.com/jtcaraball/goexpdt/cnf"
 	"github.com/jtcaraball/goexpdt/query"
@@ -42,12 +41,8 @@ func (n Const) Encoding(ctx query.QContext) (cnf.CNF, error) {
 			break
 		}
 
-		if node.Feat < 0 || node.Feat >= dim {
-			return cnf.CNF{}, fmt.Errorf(
-				"Node's feature %d is out of range [0, %d]",
-				node.Feat,
-				dim-1,
-			)
+		if err := validateNode(node, dim, len(nodes)); err != nil {
+			return cnf.CNF{}, err
 		}
 
 		// A constant with a BOT value on a decided feature can not be a node.
@@ -60,22 +55,10 @@ func (n Const) Encoding(ctx query.QContext) (cnf.CNF, error) {
 		visited[node.Feat] = 1
 
 		if sc.Val[node.Feat] == query.ZERO {
-			if node.ZChild < 0 || node.ZChild >= len(nodes) {
-				return cnf.CNF{}, fmt.Errorf(
-					"Node's ZChild out of bounds %d",
-					node.ZChild,
-				)
-			}
 			node = nodes[node.ZChild]
 			continue
 		}
 
-		if node.OChild < 0 || node.OChild >= len(nodes) {
-			return cnf.CNF{}, fmt.Errorf(
-				"Node's OChild out of bounds %d",
-				node.OChild,
-			)
-		}
 		node = nodes[node.OChild]
 	}
 
diff --git a/query/predicates/isnode/utils.go b/query/predicates/isnode/utils.go
new file mode 100644
index 0000000..a18c3b3
--- /dev/null
+++ b/query/predicates/isnode/utils.go
@@ -0,0 +1,33 @@
+package isnode
+
+import (
+	"fmt"
+
+	"github.com/jtcaraball/goexpdt/query"
+)
+
+// validateNode returns a non nill error if the node n is invalid for the the
+// given dimension and number of nodes.
+func validateNode(n query.Node, dim, nlen int) error {
+	if n.IsLeaf() {
+		return nil
+	}
+
+	if n.Feat < 0 || n.Feat >= dim {
+		return fmt.Errorf(
+			"Node's feature %d is out of range [0, %d]",
+			n.Feat,
+			dim-1,
+		)
+	}
+
+	if n.ZChild < 0 || n.ZChild >= nlen {
+		return fmt.Errorf("Node's ZChild out of bounds %d", n.ZChild)
+	}
+
+	if n.OChild < 0 || n.OChild >= nlen {
+		return fmt.Errorf("Node's OChild out of bounds %d", n.OChild)
+	}
+
+	return nil
+}
diff --git a/query/predicates/isnode/var.go b/query/predicates/isnode/var.go
index 69b9f78..e12315e 100644
--- a/query/predicates/isnode/var.go
+++ b/query/predicates/isnode/var.go
@@ -31,6 +31,12 @@ func (f Var) Encoding(ctx query.QContext) (cnf.CNF, error) {
 	}
 
 	dim := ctx.Dim()
+	for _, node := range nodes {
+		if err := validateNode(node, dim, len(nodes)); err != nil {
+			return cnf.CNF{}, err
+		}
+	}
+
 	ncnf := cnf.CNF{}
 	sv := ctx.ScopeVar(f.I)
 	svReach := f.ReachNodeVarGen(sv)
-- 
2.43.0


From efd899977f9645026880f56d3129b30255aca631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:01 +0000
Subject: [PATCH 11/14] fix: report a failure to create a temporary file in
 ComputeOptim

It was returned as the answer that no instance exists.
---
 compute/optimum.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compute/optimum.go b/compute/optimum.go
index 43f14c2..b81cb22 100644
--- a/compute/optimum.go
+++ b/compute/optimum.go
@@ -47,7 +47,7 @@ func ComputeOptim(
 
 	tmpfp, err := os.CreateTemp("", "tmp.cnf")
 	if err != nil {
-		return OptOutput{}, nil
+		return OptOutput{}, err
 	}
 	defer func() {
 		tmpfp.Close()
-- 
2.43.0


From 2b6e9f46e5055076e98e2dfa435ff30d1df1a41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:07 +0000
Subject: [PATCH 12/14] fix: read value lines of a solver with any blanks

A line holding only 'v' panicked and additional blanks were an error.
---
 compute/solver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compute/solver.go b/compute/solver.go
index 9286a3e..bee840d 100644
--- a/compute/solver.go
+++ b/compute/solver.go
@@ -149,7 +149,7 @@ func varValueFromBytes(
 		if len(line) == 0 || line[0] != byte(118) {
 			continue
 		}
-		for _, vb := range bytes.Split(line[2:], []byte(" ")) {
+		for _, vb := range bytes.Fields(line[1:]) {
 			val, err := strconv.Atoi(string(vb))
 			if err != nil {
 				return query.QConst{}, err
-- 
2.43.0


From 6c21b9c3a949c15117758e0508e40d00c50883ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:08 +0000
Subject: [PATCH 13/14] fix: report features without a value in a solver's
 output

They were left out, making an instance of too few features.
---
 compute/solver.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/compute/solver.go b/compute/solver.go
index bee840d..c8e6ff0 100644
--- a/compute/solver.go
+++ b/compute/solver.go
@@ -3,6 +3,7 @@ package compute
 import (
 	"bytes"
 	"errors"
+	"fmt"
 	"os"
 	"os/exec"
 	"strconv"
@@ -174,6 +175,11 @@ func varValueFromBytes(
 			c.Val = append(c.Val, query.ZERO)
 			continue
 		}
+		return query.QConst{}, fmt.Errorf(
+			"Solver output has no value for feature %d of variable %q",
+			i,
+			string(v),
+		)
 	}
 
 	return c, nil
-- 
2.43.0


From b7aa2197539c6f3a30921ba6ac083555173a32cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:47 +0000
Subject: [PATCH 14/14] fix: always add the consistency clauses of a declared
 variable

They were left out when the variable existed in the context already, as it
does when several queries are evaluated in the same context. The later
queries were then satisfied by values that are no partial instance.
---
 query/logop/with_var.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/query/logop/with_var.go b/query/logop/with_var.go
index c6e0939..03c7fc9 100644
--- a/query/logop/with_var.go
+++ b/query/logop/with_var.go
@@ -62,11 +62,6 @@ func (w WithVar) encodeI(ctx query.QContext) cnf.CNF {
 
 	v := ctx.ScopeVar(w.I)
 
-	// Lets not add consistency clauses twice.
-	if ctx.CNFVarExists(v, 0, int(query.BOT)) {
-		return ncnf
-	}
-
 	// Every feature must have at least one value
 	reqAllFeats := []cnf.Clause{}
 	for i := 0; i < ctx.Dim(); i++ {
-- 
2.43.0

