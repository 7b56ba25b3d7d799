From 0b7d0a74870ceea747d0c12d5bcb4beba7fa5bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:37 +0000
Subject: [PATCH 01/17] fix: hepr variable forms accept an empty preference

ConstVar, VarConst and VarVar indexed the last element of an empty
preference list and panicked, where ConstConst is trivially true.
---
 query/extensions/hepr/const_var.go | 4 ++++
 query/extensions/hepr/var_const.go | 4 ++++
 query/extensions/hepr/var_var.go   | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/query/extensions/hepr/const_var.go b/query/extensions/hepr/const_var.go
index 08b801f..ac173c9 100644
--- a/query/extensions/hepr/const_var.go
+++ b/query/extensions/hepr/const_var.go
@@ -48,6 +48,10 @@ func (d ConstVar) Encoding(ctx query.QContext) (cnf.CNF, error) {
 		return cnf.CNF{}, err
 	}
 
+	if len(d.Preference) == 0 {
+		return cnf.TrueCNF, nil
+	}
+
 	ncnf := cnf.CNF{}
 	plen := len(d.Preference)
 	idx := d.Preference[plen-1]
diff --git a/query/extensions/hepr/var_const.go b/query/extensions/hepr/var_const.go
index a1df829..c952946 100644
--- a/query/extensions/hepr/var_const.go
+++ b/query/extensions/hepr/var_const.go
@@ -48,6 +48,10 @@ func (d VarConst) Encoding(ctx query.QContext) (cnf.CNF, error) {
 		return cnf.CNF{}, err
 	}
 
+	if len(d.Preference) == 0 {
+		return cnf.TrueCNF, nil
+	}
+
 	ncnf := cnf.CNF{}
 	plen := len(d.Preference)
 	idx := d.Preference[plen-1]
diff --git a/query/extensions/hepr/var_var.go b/query/extensions/hepr/var_var.go
index 6d437d2..e93095a 100644
--- a/query/extensions/hepr/var_var.go
+++ b/query/extensions/hepr/var_var.go
@@ -39,6 +39,10 @@ func (d VarVar) Encoding(ctx query.QContext) (cnf.CNF, error) {
 	sv2 := ctx.ScopeVar(d.I2)
 	vvp := d.FeaturePreferenceRankVarGen(prefVar(d.Preference), sv1, sv2)
 
+	if len(d.Preference) == 0 {
+		return cnf.TrueCNF, nil
+	}
+
 	ncnf := cnf.CNF{}
 	plen := len(d.Preference)
 	idx := d.Preference[plen-1]
-- 
2.43.0


From 97e8464dc8c35e7d3989904f24f0d7e112a491e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:13 +0000
Subject: [PATCH 02/17] fix: hepr preferences with different indexes get
 different variables

prefVar joined the feature indexes without a separator, so preferences
such as [1 11] and [11 1] shared their auxiliary variables and a query
using both became contradictory.
---
 query/extensions/hepr/util.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/query/extensions/hepr/util.go b/query/extensions/hepr/util.go
index 9735deb..d9b5c3f 100644
--- a/query/extensions/hepr/util.go
+++ b/query/extensions/hepr/util.go
@@ -28,7 +28,12 @@ func validatePref(pref []int, dim int) error {
 func prefVar(pref []int) query.QVar {
 	var sb strings.Builder
 
-	for _, idx := range pref {
+	// Indexes are separated so that different preferences never result in the
+	// same variable.
+	for i, idx := range pref {
+		if i > 0 {
+			sb.WriteString(",")
+		}
 		sb.WriteString(strconv.Itoa(idx))
 	}
 
-- 
2.43.0


From 671ed4761453fb15c31b002e0fc6f92c4b7f473a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:14 +0000
Subject: [PATCH 03/17] fix: leh.ConstVarConst names the distance it encodes

The distance of the variable to I1 was encoded under the name of its
distance to I3, which contradicts any other component of the query using
the distance to I3.
---
 query/extensions/leh/const_var_const.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/query/extensions/leh/const_var_const.go b/query/extensions/leh/const_var_const.go
index 9d6a61a..a879d89 100644
--- a/query/extensions/leh/const_var_const.go
+++ b/query/extensions/leh/const_var_const.go
@@ -36,7 +36,7 @@ func (l ConstVarConst) Encoding(ctx query.QContext) (cnf.CNF, error) {
 	sc1, _ := ctx.ScopeConst(l.I1)
 	sc2, _ := ctx.ScopeConst(l.I3)
 	sv := ctx.ScopeVar(l.I2)
-	vc1hd := l.HammingDistanceVarGen(sv, query.QVar(sc2.AsString()))
+	vc1hd := l.HammingDistanceVarGen(sv, query.QVar(sc1.AsString()))
 
 	if err := query.ValidateConstsDim(dim, sc1, sc2); err != nil {
 		return cnf.CNF{}, err
-- 
2.43.0


From f205490cd17bf0721a21ffb8fc5e9be617f71faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:15 +0000
Subject: [PATCH 04/17] fix: leh boundary distances still require a full
 variable

ConstConstVar with equal constants and ConstVarConst with complementary
constants were trivially true, also for variables with undefined features.
---
 query/extensions/leh/const_const_var.go | 3 ++-
 query/extensions/leh/const_var_const.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/query/extensions/leh/const_const_var.go b/query/extensions/leh/const_const_var.go
index 659ca26..f4e0430 100644
--- a/query/extensions/leh/const_const_var.go
+++ b/query/extensions/leh/const_const_var.go
@@ -52,7 +52,8 @@ func (l ConstConstVar) Encoding(ctx query.QContext) (cnf.CNF, error) {
 	}
 
 	if cchd == 0 {
-		return cnf.TrueCNF, nil
+		// Any distance is enough but the variable must still be full.
+		return cnf.FromClauses(varFullClauses(sv, ctx)), nil
 	}
 
 	ncnf := cnf.FromClauses(varFullClauses(sv, ctx))
diff --git a/query/extensions/leh/const_var_const.go b/query/extensions/leh/const_var_const.go
index a879d89..aeb5143 100644
--- a/query/extensions/leh/const_var_const.go
+++ b/query/extensions/leh/const_var_const.go
@@ -52,7 +52,8 @@ func (l ConstVarConst) Encoding(ctx query.QContext) (cnf.CNF, error) {
 	}
 
 	if cchd == dim {
-		return cnf.TrueCNF, nil
+		// Any distance is enough but the variable must still be full.
+		return cnf.FromClauses(varFullClauses(sv, ctx)), nil
 	}
 
 	ncnf := cnf.FromClauses(varFullClauses(sv, ctx))
-- 
2.43.0


From cdb821befa69aaf189e6235242e8a7ad3fac346f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:16 +0000
Subject: [PATCH 05/17] fix: isnode.Var can share its reach variable generator
 with allcomp.Var

Both encoded 'reaches node i' as the triple (reach, 0, i), but isnode does
not go through undefined features while allcomp does. Queries using both
with the same generator were contradictory for instances with undefined
features.
---
 query/predicates/isnode/var.go | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/query/predicates/isnode/var.go b/query/predicates/isnode/var.go
index 5f7277a..6dddf58 100644
--- a/query/predicates/isnode/var.go
+++ b/query/predicates/isnode/var.go
@@ -36,7 +36,9 @@ func (f Var) Encoding(ctx query.QContext) (cnf.CNF, error) {
 	svReach := f.ReachNodeVarGen(sv)
 
 	// We will encode that sv reaches a node with index i as the triple
-	// (svReach, 0, i).
+	// (svReach, 1, i). Here a node is reached only through defined features
+	// so it must not be confused with the notion of reachability encoded by
+	// the allcomp extension as (svReach, 0, i).
 
 	// Every feature that is not BOT must be decided on
 	fcl := []cnf.Clause{}
@@ -49,13 +51,13 @@ func (f Var) Encoding(ctx query.QContext) (cnf.CNF, error) {
 			continue
 		}
 
-		fcl[node.Feat] = append(fcl[node.Feat], ctx.CNFVar(svReach, 0, i))
+		fcl[node.Feat] = append(fcl[node.Feat], ctx.CNFVar(svReach, 1, i))
 	}
 
 	ncnf = ncnf.AppendSemantics(fcl...)
 
 	// Root is always reachable
-	ncnf = ncnf.AppendConsistency(cnf.Clause{ctx.CNFVar(svReach, 0, 0)})
+	ncnf = ncnf.AppendConsistency(cnf.Clause{ctx.CNFVar(svReach, 1, 0)})
 
 	// Add non-bot progapation clauses
 	for i, node := range nodes {
@@ -65,28 +67,28 @@ func (f Var) Encoding(ctx query.QContext) (cnf.CNF, error) {
 		ncnf = ncnf.AppendConsistency(
 			cnf.Clause{
 				-ctx.CNFVar(sv, node.Feat, int(query.ZERO)),
-				-ctx.CNFVar(svReach, 0, i),
-				ctx.CNFVar(svReach, 0, node.ZChild),
+				-ctx.CNFVar(svReach, 1, i),
+				ctx.CNFVar(svReach, 1, node.ZChild),
 			},
 			cnf.Clause{
 				-ctx.CNFVar(sv, node.Feat, int(query.ONE)),
-				-ctx.CNFVar(svReach, 0, i),
-				ctx.CNFVar(svReach, 0, node.OChild),
+				-ctx.CNFVar(svReach, 1, i),
+				ctx.CNFVar(svReach, 1, node.OChild),
 			},
 			cnf.Clause{
-				-ctx.CNFVar(svReach, 0, node.OChild),
-				ctx.CNFVar(svReach, 0, i),
+				-ctx.CNFVar(svReach, 1, node.OChild),
+				ctx.CNFVar(svReach, 1, i),
 			},
 			cnf.Clause{
-				-ctx.CNFVar(svReach, 0, node.OChild),
+				-ctx.CNFVar(svReach, 1, node.OChild),
 				ctx.CNFVar(sv, node.Feat, int(query.ONE)),
 			},
 			cnf.Clause{
-				-ctx.CNFVar(svReach, 0, node.ZChild),
-				ctx.CNFVar(svReach, 0, i),
+				-ctx.CNFVar(svReach, 1, node.ZChild),
+				ctx.CNFVar(svReach, 1, i),
 			},
 			cnf.Clause{
-				-ctx.CNFVar(svReach, 0, node.ZChild),
+				-ctx.CNFVar(svReach, 1, node.ZChild),
 				ctx.CNFVar(sv, node.Feat, int(query.ZERO)),
 			},
 		)
-- 
2.43.0


From 419b9bffa5b06c7a370aa0300b9aa9e15adb6c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:17 +0000
Subject: [PATCH 06/17] fix: scoper reset forgets initialized variables

---
 query/scoper.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/query/scoper.go b/query/scoper.go
index b907a91..dff70fb 100644
--- a/query/scoper.go
+++ b/query/scoper.go
@@ -29,7 +29,7 @@ type Scoper interface {
 	// SetScope adds the value and corresponding index to the last scope in the
 	// stack. Returns an error if there are no scopes.
 	SetScope(vIdx int, val []FeatV) error
-	// Reset removes all scopes in the stack.
+	// Reset removes all scopes in the stack and all initialized variables.
 	Reset()
 }
 
@@ -118,4 +118,5 @@ func (s *baseScoper) SetScope(vIdx int, val []FeatV) error {
 
 func (s *baseScoper) Reset() {
 	s.scopes = nil
+	s.vars = make(map[QVar]int)
 }
-- 
2.43.0


From 4d0f0bd6198aeb17bee59b96ce3cbf2fa9ddc151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:17 +0000
Subject: [PATCH 07/17] fix: ComputeOptim reports an unavailable temporary
 directory

---
 compute/optimum.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compute/optimum.go b/compute/optimum.go
index 43f14c2..b81cb22 100644
--- a/compute/optimum.go
+++ b/compute/optimum.go
@@ -47,7 +47,7 @@ func ComputeOptim(
 
 	tmpfp, err := os.CreateTemp("", "tmp.cnf")
 	if err != nil {
-		return OptOutput{}, nil
+		return OptOutput{}, err
 	}
 	defer func() {
 		tmpfp.Close()
-- 
2.43.0


From 814ba1c0545ab2a17bdc1624d4ff34f339e1575a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:17 +0000
Subject: [PATCH 08/17] fix: evaluations reset the context before encoding

---
 compute/boolcomb.go | 6 ++++++
 compute/optimum.go  | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/compute/boolcomb.go b/compute/boolcomb.go
index ceb1074..6dc33a2 100644
--- a/compute/boolcomb.go
+++ b/compute/boolcomb.go
@@ -66,6 +66,12 @@ func (a QDTFAtom) Sat(
 	ctx query.QContext,
 	solver Solver,
 ) (bool, error) {
+	// Variables and scopes of a previous use of ctx must not be mixed with
+	// the ones of this query.
+	if ctx != nil {
+		ctx.Reset()
+	}
+
 	err := solver.Step(a.Query, ctx)
 	if err != nil {
 		if errors.Is(err, UnsatError) {
diff --git a/compute/optimum.go b/compute/optimum.go
index b81cb22..b1191ab 100644
--- a/compute/optimum.go
+++ b/compute/optimum.go
@@ -54,6 +54,12 @@ func ComputeOptim(
 		os.Remove(tmpfp.Name())
 	}()
 
+	// Variables and scopes of a previous use of ctx must not be mixed with
+	// the ones of this computation.
+	if ctx != nil {
+		ctx.Reset()
+	}
+
 	if err = solver.Step(logop.WithVar{I: v, Q: fg(v)}, ctx); err != nil {
 		if errors.Is(err, UnsatError) {
 			return OptOutput{false, query.QConst{}, 1}, nil
-- 
2.43.0


From b2b21d87eeed4ab3e6fa28c9e2fa7041ca2e4f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:18 +0000
Subject: [PATCH 09/17] fix: solver value lines may have any spacing

---
 compute/solver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compute/solver.go b/compute/solver.go
index 9286a3e..bee840d 100644
--- a/compute/solver.go
+++ b/compute/solver.go
@@ -149,7 +149,7 @@ func varValueFromBytes(
 		if len(line) == 0 || line[0] != byte(118) {
 			continue
 		}
-		for _, vb := range bytes.Split(line[2:], []byte(" ")) {
+		for _, vb := range bytes.Fields(line[1:]) {
 			val, err := strconv.Atoi(string(vb))
 			if err != nil {
 				return query.QConst{}, err
-- 
2.43.0


From 1c427f034d3d8ac7a8e3c86353dca85d269fd17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:19 +0000
Subject: [PATCH 10/17] fix: values missing from the solver output are an error

---
 compute/solver.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/compute/solver.go b/compute/solver.go
index bee840d..88fadf4 100644
--- a/compute/solver.go
+++ b/compute/solver.go
@@ -3,6 +3,7 @@ package compute
 import (
 	"bytes"
 	"errors"
+	"fmt"
 	"os"
 	"os/exec"
 	"strconv"
@@ -174,6 +175,11 @@ func varValueFromBytes(
 			c.Val = append(c.Val, query.ZERO)
 			continue
 		}
+		return query.QConst{}, fmt.Errorf(
+			"Solver output has no value for feature %d of %q",
+			i,
+			v,
+		)
 	}
 
 	return c, nil
-- 
2.43.0


From 7700da29066497511ba79477d1b036b9ab2ac534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:20 +0000
Subject: [PATCH 11/17] fix: BinSolver runs the executable at the given path

---
 compute/solver.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/compute/solver.go b/compute/solver.go
index 88fadf4..d7d1483 100644
--- a/compute/solver.go
+++ b/compute/solver.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"os"
 	"os/exec"
+	"path/filepath"
 	"strconv"
 
 	"github.com/jtcaraball/goexpdt/cnf"
@@ -51,7 +52,13 @@ func BinSolver(solverPath string) (Solver, error) {
 		return nil, err
 	}
 
-	return &binSolver{solverPath: solverPath}, nil
+	// A path without separators would be looked up in PATH when executed.
+	absPath, err := filepath.Abs(solverPath)
+	if err != nil {
+		return nil, err
+	}
+
+	return &binSolver{solverPath: absPath}, nil
 }
 
 func (s *binSolver) Step(
-- 
2.43.0


From 45d31ff3642956108617e0bee8af1b79422db911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:29 +0000
Subject: [PATCH 12/17] fix: dfs reports an empty model as an error

---
 query/extensions/dfs/utils.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/query/extensions/dfs/utils.go b/query/extensions/dfs/utils.go
index 16da7b4..ced177a 100644
--- a/query/extensions/dfs/utils.go
+++ b/query/extensions/dfs/utils.go
@@ -12,6 +12,10 @@ func leafsAsConsts(
 	dim int,
 	nodes []query.Node,
 ) ([]query.QConst, []query.QConst, error) {
+	if len(nodes) == 0 {
+		return nil, nil, nil
+	}
+
 	for _, n := range nodes {
 		if err := validateNode(n, dim, len(nodes)); err != nil {
 			return nil, nil, err
-- 
2.43.0


From 61f20fecb353ef63083ad6876a8e71a481bd8f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:30 +0000
Subject: [PATCH 13/17] fix: allcomp and isnode reject malformed model nodes

---
 query/extensions/allcomp/const.go |  9 ++-------
 query/extensions/allcomp/utils.go | 33 +++++++++++++++++++++++++++++++
 query/extensions/allcomp/var.go   |  3 +++
 query/predicates/isnode/utils.go  | 33 +++++++++++++++++++++++++++++++
 query/predicates/isnode/var.go    |  4 ++++
 5 files changed, 75 insertions(+), 7 deletions(-)
 create mode 100644 query/extensions/allcomp/utils.go
 create mode 100644 query/predicates/isnode/utils.go

diff --git a/query/extensions/allcomp/const.go b/query/extensions/allcomp/const.go
index c68301c..8db4ae2 100644
--- a/query/extensions/allcomp/const.go
+++ b/query/extensions/allcomp/const.go
@@ -2,7 +2,6 @@ package allcomp
 
 import (
 	"errors"
-	"fmt"
 
 	"github.com/jtcaraball/goexpdt/cnf"
 	"github.com/jtcaraball/goexpdt/query"
@@ -49,12 +48,8 @@ func (ac Const) Encoding(ctx query.QContext) (cnf.CNF, error) {
 			continue
 		}
 
-		if n.Feat < 0 || n.Feat >= dim {
-			return cnf.CNF{}, fmt.Errorf(
-				"Node's feature %d is out of range [0, %d]",
-				n.Feat,
-				dim-1,
-			)
+		if err := validateNode(n, dim, len(nodes)); err != nil {
+			return cnf.CNF{}, err
 		}
 
 		switch sc.Val[n.Feat] {
diff --git a/query/extensions/allcomp/utils.go b/query/extensions/allcomp/utils.go
new file mode 100644
index 0000000..dda5576
--- /dev/null
+++ b/query/extensions/allcomp/utils.go
@@ -0,0 +1,33 @@
+package allcomp
+
+import (
+	"fmt"
+
+	"github.com/jtcaraball/goexpdt/query"
+)
+
+// validateNode returns a non nill error if the node n is invalid for the the
+// given dimension and number of nodes.
+func validateNode(n query.Node, dim, nlen int) error {
+	if n.IsLeaf() {
+		return nil
+	}
+
+	if n.Feat < 0 || n.Feat >= dim {
+		return fmt.Errorf(
+			"Node's feature %d is out of range [0, %d]",
+			n.Feat,
+			dim-1,
+		)
+	}
+
+	if n.ZChild < 0 || n.ZChild >= nlen {
+		return fmt.Errorf("Node's ZChild out of bounds %d", n.ZChild)
+	}
+
+	if n.OChild < 0 || n.OChild >= nlen {
+		return fmt.Errorf("Node's OChild out of bounds %d", n.OChild)
+	}
+
+	return nil
+}
diff --git a/query/extensions/allcomp/var.go b/query/extensions/allcomp/var.go
index 6eb3d71..9d8f701 100644
--- a/query/extensions/allcomp/var.go
+++ b/query/extensions/allcomp/var.go
@@ -52,6 +52,9 @@ func (ac Var) Encoding(ctx query.QContext) (cnf.CNF, error) {
 			}
 			continue
 		}
+		if err := validateNode(node, ctx.Dim(), len(nodes)); err != nil {
+			return cnf.CNF{}, err
+		}
 		ncnf = ncnf.AppendConsistency(
 			cnf.Clause{
 				-ctx.CNFVar(sv, node.Feat, int(query.ZERO)),
diff --git a/query/predicates/isnode/utils.go b/query/predicates/isnode/utils.go
new file mode 100644
index 0000000..a18c3b3
--- /dev/null
+++ b/query/predicates/isnode/utils.go
@@ -0,0 +1,33 @@
+package isnode
+
+import (
+	"fmt"
+
+	"github.com/jtcaraball/goexpdt/query"
+)
+
+// validateNode returns a non nill error if the node n is invalid for the the
+// given dimension and number of nodes.
+func validateNode(n query.Node, dim, nlen int) error {
+	if n.IsLeaf() {
+		return nil
+	}
+
+	if n.Feat < 0 || n.Feat >= dim {
+		return fmt.Errorf(
+			"Node's feature %d is out of range [0, %d]",
+			n.Feat,
+			dim-1,
+		)
+	}
+
+	if n.ZChild < 0 || n.ZChild >= nlen {
+		return fmt.Errorf("Node's ZChild out of bounds %d", n.ZChild)
+	}
+
+	if n.OChild < 0 || n.OChild >= nlen {
+		return fmt.Errorf("Node's OChild out of bounds %d", n.OChild)
+	}
+
+	return nil
+}
diff --git a/query/predicates/isnode/var.go b/query/predicates/isnode/var.go
index 6dddf58..cb16ca8 100644
--- a/query/predicates/isnode/var.go
+++ b/query/predicates/isnode/var.go
@@ -51,6 +51,10 @@ func (f Var) Encoding(ctx query.QContext) (cnf.CNF, error) {
 			continue
 		}
 
+		if err := validateNode(node, dim, len(nodes)); err != nil {
+			return cnf.CNF{}, err
+		}
+
 		fcl[node.Feat] = append(fcl[node.Feat], ctx.CNFVar(svReach, 1, i))
 	}
 
-- 
2.43.0


From ed7e906c5dc204d67d013a713efc7ac27097f25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:45 +0000
Subject: [PATCH 14/17] fix: evaluating a nil query is an error

---
 compute/boolcomb.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/compute/boolcomb.go b/compute/boolcomb.go
index 6dc33a2..f110c6e 100644
--- a/compute/boolcomb.go
+++ b/compute/boolcomb.go
@@ -19,6 +19,10 @@ type AndCombinator []QDTFCombinator
 
 func (ac AndCombinator) Sat(ctx query.QContext, solver Solver) (bool, error) {
 	for _, elem := range ac {
+		if elem == nil {
+			return false, errors.New("Invalid evaluation of nil element")
+		}
+
 		sat, err := elem.Sat(ctx, solver)
 		if err != nil {
 			return false, err
@@ -37,6 +41,10 @@ type OrCombinator []QDTFCombinator
 
 func (oc OrCombinator) Sat(ctx query.QContext, solver Solver) (bool, error) {
 	for _, elem := range oc {
+		if elem == nil {
+			return false, errors.New("Invalid evaluation of nil element")
+		}
+
 		sat, err := elem.Sat(ctx, solver)
 		if err != nil {
 			return false, err
@@ -66,6 +74,10 @@ func (a QDTFAtom) Sat(
 	ctx query.QContext,
 	solver Solver,
 ) (bool, error) {
+	if a.Query == nil {
+		return false, errors.New("Invalid evaluation of nil query")
+	}
+
 	// Variables and scopes of a previous use of ctx must not be mixed with
 	// the ones of this query.
 	if ctx != nil {
-- 
2.43.0


From a304be631bf146178e16b0a6ab6bad55575e6dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:50 +0000
Subject: [PATCH 15/17] fix: formulas derived from a common one do not
 overwrite each other

---
 cnf/cnf.go | 63 +++++++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 55 insertions(+), 8 deletions(-)

diff --git a/cnf/cnf.go b/cnf/cnf.go
index 2f7b4a6..f598864 100644
--- a/cnf/cnf.go
+++ b/cnf/cnf.go
@@ -20,6 +20,7 @@ import (
 	"fmt"
 	"os"
 	"strconv"
+	"sync/atomic"
 )
 
 // Clause represents a cnf formula's clause with integer variables where
@@ -34,6 +35,11 @@ type CNF struct {
 	sClauses []Clause
 	// Consistency clauses
 	cClauses []Clause
+	// Amount of elements in use of the arrays that hold the clauses. Formulas
+	// derived from a common one can share the same array so only the one that
+	// ends where the array's used elements end may grow in place. If nil the
+	// array is not owned and can not be written to.
+	sUsed, cUsed *atomic.Int64
 }
 
 var (
@@ -85,7 +91,7 @@ func (c CNF) Negate(opt_topv ...int) CNF {
 	if c.hasEmptySemanticClause() {
 		// A CNF with an empty clause is never SAT so to negate it we set it as
 		// an always true empty CNF.
-		rcnf = CNF{cClauses: c.cClauses}
+		rcnf = CNF{cClauses: c.cClauses, cUsed: c.cUsed}
 		rcnf.tv = topv
 		return rcnf
 	}
@@ -95,6 +101,8 @@ func (c CNF) Negate(opt_topv ...int) CNF {
 		tv:       topv,
 		sClauses: c.sClauses,
 		cClauses: c.cClauses,
+		sUsed:    c.sUsed,
+		cUsed:    c.cUsed,
 	}
 	rcnf.tseytinNegation(topv)
 	return rcnf
@@ -112,6 +120,7 @@ func (c *CNF) tseytinNegation(tv int) {
 		// in the appropriate negation and returning.
 		if len(clause) == 0 { // An empty clause results in a false formula.
 			c.sClauses = nil
+			c.sUsed = nil
 			c.tv = tv
 			return
 		}
@@ -125,7 +134,10 @@ func (c *CNF) tseytinNegation(tv int) {
 				clauses = append(clauses, Clause{-lit, -auxv})
 			}
 			// Oposite implication.
-			clauses = append(clauses, append(clause, auxv))
+			clauses = append(
+				clauses,
+				append(clause[:len(clause):len(clause)], auxv),
+			)
 		}
 
 		// Literals representing negated clauses.
@@ -133,12 +145,13 @@ func (c *CNF) tseytinNegation(tv int) {
 	}
 
 	// If no errors were found then update CNF.
-	c.cClauses = append(c.cClauses, clauses...)
+	c.cClauses, c.cUsed = appendClauses(c.cClauses, c.cUsed, clauses)
 	c.tv = tv
 
 	// Generate bidirectional implication from new enc literal and enclits.
 	if len(enclits) == 1 {
 		c.sClauses = []Clause{enclits}
+		c.sUsed = nil
 		return
 	}
 
@@ -151,12 +164,15 @@ func (c *CNF) addNegationIFFClauses(enclits Clause) {
 	c.tv += 1
 	auxv := int(c.tv)
 
+	clauses := []Clause{}
 	for _, lit := range enclits {
-		c.cClauses = append(c.cClauses, Clause{-lit, auxv})
+		clauses = append(clauses, Clause{-lit, auxv})
 	}
+	clauses = append(clauses, append(enclits, -auxv))
 
-	c.cClauses = append(c.cClauses, append(enclits, -auxv))
+	c.cClauses, c.cUsed = appendClauses(c.cClauses, c.cUsed, clauses)
 	c.sClauses = []Clause{{auxv}}
+	c.sUsed = nil
 }
 
 // Conjunction generates extend the methods caller semantic and consistency
@@ -171,20 +187,26 @@ func (c CNF) Conjunction(oc CNF) CNF {
 // AppendSpemantics appends semantic clauses to CNF and update tv value.
 func (c CNF) AppendSemantics(clauses ...Clause) CNF {
 	topv := maxInt(c.tv, maxVar(clauses))
+	sClauses, sUsed := appendClauses(c.sClauses, c.sUsed, clauses)
 	return CNF{
 		tv:       topv,
-		sClauses: append(c.sClauses, clauses...),
+		sClauses: sClauses,
 		cClauses: c.cClauses,
+		sUsed:    sUsed,
+		cUsed:    c.cUsed,
 	}
 }
 
 // AppendConsistency appends consistency clauses to CNF and update tv value.
 func (c CNF) AppendConsistency(clauses ...Clause) CNF {
 	topv := maxInt(c.tv, maxVar(clauses))
+	cClauses, cUsed := appendClauses(c.cClauses, c.cUsed, clauses)
 	return CNF{
 		tv:       topv,
 		sClauses: c.sClauses,
-		cClauses: append(c.cClauses, clauses...),
+		cClauses: cClauses,
+		sUsed:    c.sUsed,
+		cUsed:    cUsed,
 	}
 }
 
@@ -244,7 +266,8 @@ func (c CNF) ToFile(path string) error {
 
 // Clauses return CNF's semantic clauses and consistency clauses.
 func (c CNF) Clauses() ([]Clause, []Clause) {
-	return c.sClauses, c.cClauses
+	return c.sClauses[:len(c.sClauses):len(c.sClauses)],
+		c.cClauses[:len(c.cClauses):len(c.cClauses)]
 }
 
 // TriviallyTrue returns true if the underlying cnf formula is... trivially
@@ -320,3 +343,27 @@ func maxInt(v1, v2 int) int {
 	}
 	return v2
 }
+
+// appendClauses returns list followed by clauses, and the amount of used
+// elements of the array that holds it, without changing any other list that
+// shares an array with list.
+func appendClauses(
+	list []Clause,
+	used *atomic.Int64,
+	clauses []Clause,
+) ([]Clause, *atomic.Int64) {
+	if len(clauses) == 0 {
+		return list, used
+	}
+
+	llen, nlen := len(list), len(list)+len(clauses)
+	if used != nil && nlen <= cap(list) &&
+		used.CompareAndSwap(int64(llen), int64(nlen)) {
+		return append(list, clauses...), used
+	}
+
+	used = new(atomic.Int64)
+	used.Store(int64(nlen))
+
+	return append(list[:llen:llen], clauses...), used
+}
-- 
2.43.0


From 97ea9722c717956303ae8c69dea7b4a799799a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:44 +0000
Subject: [PATCH 16/17] fix: the innermost quantifier over a constant name
 binds it

---
 query/scoper.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/query/scoper.go b/query/scoper.go
index dff70fb..3c31605 100644
--- a/query/scoper.go
+++ b/query/scoper.go
@@ -78,8 +78,9 @@ func (s *baseScoper) AddVar(v QVar) {
 }
 
 func (s *baseScoper) ScopeConst(c QConst) (QConst, bool) {
-	for _, g := range s.scopes {
-		if g.target == c.ID {
+	// The innermost scope that targets c is the one that binds it.
+	for i := len(s.scopes) - 1; i >= 0; i-- {
+		if g := s.scopes[i]; g.target == c.ID {
 			return QConst{c.ID, g.value}, true
 		}
 	}
-- 
2.43.0


From 835a2c2a15dacd03fb4066d5e91516132480eeec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:41 +0000
Subject: [PATCH 17/17] fix: leh distances to constants of a model without
 features

---
 query/extensions/leh/utils.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/query/extensions/leh/utils.go b/query/extensions/leh/utils.go
index 44a584f..d83a8cb 100644
--- a/query/extensions/leh/utils.go
+++ b/query/extensions/leh/utils.go
@@ -45,6 +45,11 @@ func hammingDistVC(
 		return clauses, err
 	}
 
+	// Without features there is no distance to encode.
+	if dim == 0 {
+		return clauses, nil
+	}
+
 	clauses = append(
 		clauses,
 		cnf.Clause{-ctx.CNFVar(vcd, 0, 0), ctx.CNFVar(v, 0, int(c.Val[0]))},
-- 
2.43.0

