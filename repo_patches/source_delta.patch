From 0c62c07e41cc2a96107785c9687a6fa0a0e06169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:02 +0000
Subject: [PATCH 01/50] fix: not(eq) is not the same as ne when the value has
 another type

A comparison of a value of another type is false, for eq and for ne, so
negating one must not be rewritten to the other: !(a) has to match an array
index, and the memoizer must not conclude that a != b from not(a == b).
---
 relapse/funcs/logic.go | 26 --------------------------
 1 file changed, 26 deletions(-)

diff --git a/relapse/funcs/logic.go b/relapse/funcs/logic.go
index f2cdfde..1261d7d 100644
--- a/relapse/funcs/logic.go
+++ b/relapse/funcs/logic.go
@@ -30,32 +30,6 @@ func Not(v1 Bool) Bool {
 	if vv, ok := v1.(*or); ok {
 		return And(Not(vv.V1), Not(vv.V2))
 	}
-	switch vv := v1.(type) {
-	case *boolEq:
-		return BoolNe(vv.V1, vv.V2)
-	case *bytesEq:
-		return BytesNe(vv.V1, vv.V2)
-	case *doubleEq:
-		return DoubleNe(vv.V1, vv.V2)
-	case *intEq:
-		return IntNe(vv.V1, vv.V2)
-	case *stringEq:
-		return StringNe(vv.V1, vv.V2)
-	case *uintEq:
-		return UintNe(vv.V1, vv.V2)
-	case *boolNe:
-		return BoolEq(vv.V1, vv.V2)
-	case *bytesNe:
-		return BytesEq(vv.V1, vv.V2)
-	case *doubleNe:
-		return DoubleEq(vv.V1, vv.V2)
-	case *intNe:
-		return IntEq(vv.V1, vv.V2)
-	case *stringNe:
-		return StringEq(vv.V1, vv.V2)
-	case *uintNe:
-		return UintEq(vv.V1, vv.V2)
-	}
 	return TrimBool(&not{
 		V1:          v1,
 		hash:        hashWithId(23, v1),
-- 
2.43.0


From 3cc2a403daa623b0e23e6fe8ae566bf9d9629bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:08 +0000
Subject: [PATCH 02/50] fix: merging patterns wrote into the operands of
 another pattern

MergeOr and MergeAnd appended to the operand list of an existing pattern, which
NewOr and NewAnd then sort in place: if that list had spare capacity (after
duplicates were removed) the existing pattern lost one of its operands.
---
 relapse/intern/construct.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/relapse/intern/construct.go b/relapse/intern/construct.go
index ce7f68e..ae41925 100644
--- a/relapse/intern/construct.go
+++ b/relapse/intern/construct.go
@@ -359,7 +359,8 @@ func (c *construct) MergeOr(l, r *Pattern) (*Pattern, error) {
 	} else {
 		right = []*Pattern{r}
 	}
-	return c.NewOr(append(left, right...))
+	// copy, since NewOr reorders its input in place and left belongs to another pattern.
+	return c.NewOr(append(append(make([]*Pattern, 0, len(left)+len(right)), left...), right...))
 }
 
 func (c *construct) NewOr(ps []*Pattern) (*Pattern, error) {
@@ -500,7 +501,8 @@ func (c *construct) MergeAnd(l, r *Pattern) (*Pattern, error) {
 	} else {
 		right = []*Pattern{r}
 	}
-	return c.NewAnd(append(left, right...))
+	// copy, since NewAnd reorders its input in place and left belongs to another pattern.
+	return c.NewAnd(append(append(make([]*Pattern, 0, len(left)+len(right)), left...), right...))
 }
 
 func (c *construct) NewAnd(ps []*Pattern) (*Pattern, error) {
-- 
2.43.0


From 2452458bd28062629b1e7b3acd0c56e6495a1ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:09 +0000
Subject: [PATCH 03/50] fix: simplifying an interleave removed its duplicate
 operands

{a;a} matches two as, it is not the same as a.
---
 relapse/interp/order.go    | 19 +++++++++++++------
 relapse/interp/simplify.go |  8 +++++++-
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/relapse/interp/order.go b/relapse/interp/order.go
index d105e8f..12c1f39 100644
--- a/relapse/interp/order.go
+++ b/relapse/interp/order.go
@@ -49,12 +49,9 @@ func (ps *sortable) Less(i, j int) bool {
 	return ps.list[i].GetTreeNode() == nil
 }
 
-// orderedSet creates a stable order, while taking into account treenodes and removing duplicates.
-func orderedSet(ps []*ast.Pattern) []*ast.Pattern {
-	if len(ps) == 0 || len(ps) == 1 {
-		return ps
-	}
-
+// orderedList creates a stable order, while taking into account treenodes, and returns the hashes that were used to order the patterns.
+// Duplicates are not removed.
+func orderedList(ps []*ast.Pattern) []uint64 {
 	hashes := make([]uint64, len(ps))
 	for i, p := range ps {
 		if p.GetTreeNode() == nil {
@@ -66,6 +63,16 @@ func orderedSet(ps []*ast.Pattern) []*ast.Pattern {
 
 	sortable := &sortable{hashes, ps}
 	sort.Sort(sortable)
+	return hashes
+}
+
+// orderedSet creates a stable order, while taking into account treenodes and removing duplicates.
+func orderedSet(ps []*ast.Pattern) []*ast.Pattern {
+	if len(ps) == 0 || len(ps) == 1 {
+		return ps
+	}
+
+	hashes := orderedList(ps)
 
 	u := 0
 	for i := 1; i < len(ps); i++ {
diff --git a/relapse/interp/simplify.go b/relapse/interp/simplify.go
index f8eede6..ddebbff 100644
--- a/relapse/interp/simplify.go
+++ b/relapse/interp/simplify.go
@@ -380,12 +380,18 @@ func simplifyInterleave(refs ast.RefLookup, p1, p2 *ast.Pattern) *ast.Pattern {
 	}
 	left := getInterleaves(p1)
 	right := getInterleaves(p2)
-	list := orderedSet(append(left, right...))
+	list := append(left, right...)
+	// An interleave is not idempotent: {a;a} matches two as, so only sort and do not remove duplicates.
+	orderedList(list)
 	var p *ast.Pattern = list[0]
 	for i := range list {
 		if i == 0 {
 			continue
 		}
+		if isZany(list[i]) && isZany(list[i-1]) {
+			// {*;*} is the exception, it is the same as *
+			continue
+		}
 		p = ast.NewInterleave(p, list[i])
 	}
 	return p
-- 
2.43.0


From deaf8e5557f6a1f164231f03f99d3c6b982e9c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:28 +0000
Subject: [PATCH 04/50] fix: the automaton assumed an implied condition in the
 wrong branch

If cond1 and not(cond2) is impossible, then cond2 holds where cond1 holds, not
where it does not: !(a) was taken to be true for every name other than b.
---
 relapse/auto/ifs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/relapse/auto/ifs.go b/relapse/auto/ifs.go
index 66225e1..bc3c854 100644
--- a/relapse/auto/ifs.go
+++ b/relapse/auto/ifs.go
@@ -113,8 +113,8 @@ func (this *ifExprs) addIfExpr(cond funcs.Bool, then, els *ast.Pattern) {
 	}
 	// remove impossible (always false) else condition
 	if funcs.IsFalse(funcs.And(this.cond, funcs.Not(cond))) {
-		this.then.addIfExpr(cond, then, els)
-		this.els.addReturn(then)
+		this.then.addReturn(then)
+		this.els.addIfExpr(cond, then, els)
 		return
 	}
 	this.then.addIfExpr(cond, then, els)
-- 
2.43.0


From 25abe01e120fa4c66afee69c1dbb8bbad30dfab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:06 +0000
Subject: [PATCH 05/50] fix: a builder comparison whose variable comes second
 must flip the operator

---
 relapse/combinator/funcs.go | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/relapse/combinator/funcs.go b/relapse/combinator/funcs.go
index 7e85d2b..f6d6579 100644
--- a/relapse/combinator/funcs.go
+++ b/relapse/combinator/funcs.go
@@ -34,9 +34,11 @@ func Value(expr *ast.Expr) *ast.Pattern {
 				expr = constructor(p)
 			} else if p2.Terminal != nil && p2.Terminal.Variable != nil &&
 				p1.Terminal != nil && p1.Terminal.Variable == nil {
-				p := p1.Clone()
-				p.Comma = nil
-				expr = constructor(p)
+				if flipped := flip(expr.Function.Name); flipped != nil {
+					p := p1.Clone()
+					p.Comma = nil
+					expr = flipped(p)
+				}
 			}
 		}
 	}
@@ -47,6 +49,24 @@ func Value(expr *ast.Expr) *ast.Pattern {
 	return ast.NewLeafNode(e)
 }
 
+//flip returns the builtin constructor for the given function name, when the variable is the second parameter.
+//It returns nil when there is no builtin for this parameter order.
+func flip(name string) func(*ast.Expr) *ast.Expr {
+	switch name {
+	case "eq", "ne", "regex":
+		return ast.FunctionNameToBuiltIn(name)
+	case "lt":
+		return ast.NewGreaterThan
+	case "gt":
+		return ast.NewLessThan
+	case "le":
+		return ast.NewGreaterEqual
+	case "ge":
+		return ast.NewLessEqual
+	}
+	return nil
+}
+
 func Eq(left, right *ast.Expr) *ast.Expr {
 	return ast.NewFunction("eq", left, right)
 }
-- 
2.43.0


From 22ea94469ea76f34ca7b1e4b5dcb87b57f56a894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:45 +0000
Subject: [PATCH 06/50] fix: rebuild the expression of a leaf from the full
 form of its function

The shorthand form drops which side of the comparison the variable is on,
so lt(1,$int) became < 1 when simplified.
---
 relapse/intern/pattern.go  | 2 +-
 relapse/interp/simplify.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/relapse/intern/pattern.go b/relapse/intern/pattern.go
index ab91728..bc9abba 100644
--- a/relapse/intern/pattern.go
+++ b/relapse/intern/pattern.go
@@ -68,7 +68,7 @@ func newASTPattern(p *Pattern) (*ast.Pattern, error) {
 		return ast.NewEmpty(), nil
 	case Node:
 		if isEmpty(p.Patterns[0]) {
-			exprStr := funcs.Sprint(p.Func)
+			exprStr := "->" + p.Func.String()
 			expr, err := parser.NewParser().ParseExpr(exprStr)
 			if err != nil {
 				return nil, err
diff --git a/relapse/interp/simplify.go b/relapse/interp/simplify.go
index ddebbff..7e5864a 100644
--- a/relapse/interp/simplify.go
+++ b/relapse/interp/simplify.go
@@ -127,7 +127,7 @@ func (this *simplifier) simplify(p *ast.Pattern, top bool) *ast.Pattern {
 		if funcs.IsFalse(b) {
 			return emptyset
 		}
-		e, err := parser.ParseExpr(funcs.Sprint(b))
+		e, err := parser.ParseExpr("->" + b.String())
 		if err != nil {
 			//Don't simplify if there is an error to keep this function signature simple.
 			return p
-- 
2.43.0


From f413b4d3c40c9503a2e232ef86c826b0a443f769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:04 +0000
Subject: [PATCH 07/50] fix: printed doubles and string names true, false and _
 must parse back

---
 relapse/ast/string.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/relapse/ast/string.go b/relapse/ast/string.go
index 03d3d40..b43fdc5 100644
--- a/relapse/ast/string.go
+++ b/relapse/ast/string.go
@@ -160,13 +160,16 @@ func (this *NameExpr) String() string {
 var idRegexp = regexp.MustCompile("^[a-zA-Z_][_a-zA-Z0-9]*$")
 
 func isId(s string) bool {
+	if s == "_" || s == "true" || s == "false" {
+		return false
+	}
 	return idRegexp.MatchString(s)
 }
 
 //String returns the relapse string representation of the Name instance.
 func (this *Name) String() string {
 	if this.DoubleValue != nil {
-		return this.Before.String() + strconv.FormatFloat(this.GetDoubleValue(), 'f', -1, 64)
+		return this.Before.String() + "double(" + strconv.FormatFloat(this.GetDoubleValue(), 'f', -1, 64) + ")"
 	}
 	if this.IntValue != nil {
 		return this.Before.String() + strconv.FormatInt(this.GetIntValue(), 10)
@@ -251,7 +254,7 @@ func (this *BuiltIn) String() string {
 //String returns the relapse string representation of the Terminal instance.
 func (this *Terminal) String() string {
 	if this.DoubleValue != nil {
-		return this.Before.String() + strconv.FormatFloat(this.GetDoubleValue(), 'f', -1, 64)
+		return this.Before.String() + "double(" + strconv.FormatFloat(this.GetDoubleValue(), 'f', -1, 64) + ")"
 	}
 	if this.IntValue != nil {
 		return this.Before.String() + strconv.FormatInt(this.GetIntValue(), 10)
-- 
2.43.0


From 0add1c47d84560670b7938070e266ad761a1dc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:24 +0000
Subject: [PATCH 08/50] fix: a built ends-with expression must use the $=
 symbol

---
 relapse/ast/keywords.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/relapse/ast/keywords.go b/relapse/ast/keywords.go
index 0cd3c2a..ac76cdc 100644
--- a/relapse/ast/keywords.go
+++ b/relapse/ast/keywords.go
@@ -82,7 +82,7 @@ func newCaretEqual() *Keyword {
 
 func newDollarEqual() *Keyword {
 	return &Keyword{
-		Value: "*=",
+		Value: "$=",
 	}
 }
 
-- 
2.43.0


From f4ffa1e6da78f5b1fe6642d15b288d467ee14412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:09 +0000
Subject: [PATCH 09/50] fix: printing must separate symbols that would be read
 as one token and keep the comma before a nested builtin

---
 relapse/ast/string.go | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/relapse/ast/string.go b/relapse/ast/string.go
index b43fdc5..4a755a6 100644
--- a/relapse/ast/string.go
+++ b/relapse/ast/string.go
@@ -39,7 +39,16 @@ func (this *Grammar) String() string {
 //String returns the relapse string representation of the PatternDecl instance.
 func (this *PatternDecl) String() string {
 	return this.Hash.String() + this.Before.String() + this.Name +
-		this.Eq.String() + this.Pattern.String()
+		this.Eq.String() + separate("=", this.Pattern.String())
+}
+
+//separate returns next with a space in front of it, if it starts with one of the chars,
+//since it would otherwise be read as part of the same token as the symbol in front of it.
+func separate(chars string, next string) string {
+	if len(next) > 0 && strings.IndexByte(chars, next[0]) >= 0 {
+		return " " + next
+	}
+	return next
 }
 
 //String returns the relapse string representation of the Pattern instance.
@@ -57,8 +66,11 @@ func (this *Empty) String() string {
 
 //String returns the relapse string representation of the TreeNode instance.
 func (this *TreeNode) String() string {
+	if this.Colon == nil {
+		return this.Name.String() + this.Pattern.String()
+	}
 	return this.Name.String() + this.Colon.String() +
-		this.Pattern.String()
+		separate(":", this.Pattern.String())
 }
 
 //String returns the relapse string representation of the Contains instance.
@@ -140,7 +152,7 @@ func (this *Expr) String() string {
 	if this.Function != nil {
 		return space + this.GetFunction().String()
 	}
-	return this.BuiltIn.String()
+	return space + this.BuiltIn.String()
 }
 
 //String returns the relapse string representation of the NameExpr instance.
@@ -248,7 +260,15 @@ func (this *Function) String() string {
 
 //String returns the relapse string representation of the BuiltIn instance.
 func (this *BuiltIn) String() string {
-	return this.Symbol.String() + this.Expr.String()
+	expr := this.Expr.String()
+	switch this.Symbol.GetValue() {
+	case "<":
+		//<e is read as the start of <empty>.
+		expr = separate("=e", expr)
+	case ">":
+		expr = separate("=", expr)
+	}
+	return this.Symbol.String() + expr
 }
 
 //String returns the relapse string representation of the Terminal instance.
-- 
2.43.0


From 9ff9ba3cc20748a45c45edc324ae1c0249b1b90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:17 +0000
Subject: [PATCH 10/50] fix: preparing a grammar without main, with undefined
 references or duplicates must report an error, and recursion needs a cycle

---
 relapse/ast/check.go        | 55 +++++++++++++++++++++++++++++++++++++
 relapse/auto/compiler.go    |  3 ++
 relapse/intern/construct.go |  8 +++++-
 relapse/interp/deriv.go     |  3 ++
 relapse/interp/recursion.go | 13 +++++++--
 5 files changed, 78 insertions(+), 4 deletions(-)
 create mode 100644 relapse/ast/check.go

diff --git a/relapse/ast/check.go b/relapse/ast/check.go
new file mode 100644
index 0000000..1f6ef96
--- /dev/null
+++ b/relapse/ast/check.go
@@ -0,0 +1,55 @@
+//  Copyright 2016 Walter Schulze
+//
+//  Licensed under the Apache License, Version 2.0 (the "License");
+//  you may not use this file except in compliance with the License.
+//  You may obtain a copy of the License at
+//
+//    http://www.apache.org/licenses/LICENSE-2.0
+//
+//  Unless required by applicable law or agreed to in writing, software
+//  distributed under the License is distributed on an "AS IS" BASIS,
+//  WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+//  See the License for the specific language governing permissions and
+//  limitations under the License.
+
+package ast
+
+import "fmt"
+
+//CheckReferences returns an error if the grammar has no main pattern,
+//defines a pattern more than once or references a pattern which is not defined.
+func CheckReferences(g *Grammar) error {
+	names := make(map[string]struct{}, len(g.GetPatternDecls())+1)
+	if g.TopPattern != nil {
+		names["main"] = struct{}{}
+	}
+	for _, d := range g.GetPatternDecls() {
+		if _, ok := names[d.GetName()]; ok {
+			return fmt.Errorf("duplicate definition of pattern: %s", d.GetName())
+		}
+		names[d.GetName()] = struct{}{}
+	}
+	if _, ok := names["main"]; !ok {
+		return fmt.Errorf("no main pattern")
+	}
+	v := &vUndefined{names: names}
+	g.Walk(v)
+	if v.undefined != nil {
+		return fmt.Errorf("reference to undefined pattern: %s", v.undefined.GetName())
+	}
+	return nil
+}
+
+type vUndefined struct {
+	names     map[string]struct{}
+	undefined *Reference
+}
+
+func (this *vUndefined) Visit(node interface{}) interface{} {
+	if ref, ok := node.(*Reference); ok && this.undefined == nil {
+		if _, ok := this.names[ref.GetName()]; !ok {
+			this.undefined = ref
+		}
+	}
+	return this
+}
diff --git a/relapse/auto/compiler.go b/relapse/auto/compiler.go
index b870bef..25085ce 100644
--- a/relapse/auto/compiler.go
+++ b/relapse/auto/compiler.go
@@ -23,6 +23,9 @@ import (
 )
 
 func newCompiler(g *ast.Grammar, record bool) (*compiler, error) {
+	if err := ast.CheckReferences(g); err != nil {
+		return nil, err
+	}
 	simp := interp.NewSimplifier(g)
 	if record {
 		simp = simp.OptimizeForRecord()
diff --git a/relapse/intern/construct.go b/relapse/intern/construct.go
index ae41925..a98b44d 100644
--- a/relapse/intern/construct.go
+++ b/relapse/intern/construct.go
@@ -81,6 +81,9 @@ func (c *construct) Deref(name string) *Pattern {
 }
 
 func (c *construct) AddGrammar(g *ast.Grammar) (*Pattern, error) {
+	if err := ast.CheckReferences(g); err != nil {
+		return nil, err
+	}
 	ps := g.GetPatternDecls()
 	refs := ast.NewRefLookup(g)
 
@@ -91,12 +94,15 @@ func (c *construct) AddGrammar(g *ast.Grammar) (*Pattern, error) {
 		c.nullRefs[name] = interp.Nullable(refs, p)
 	}
 
-	main, err := c.AddPatternDecl("main", g.GetTopPattern())
+	main, err := c.AddPatternDecl("main", refs["main"])
 	if err != nil {
 		return nil, err
 	}
 
 	for _, p := range ps {
+		if p.GetName() == "main" {
+			continue
+		}
 		if _, err := c.AddPatternDecl(p.GetName(), p.GetPattern()); err != nil {
 			return nil, err
 		}
diff --git a/relapse/interp/deriv.go b/relapse/interp/deriv.go
index cd8d673..8ae1614 100644
--- a/relapse/interp/deriv.go
+++ b/relapse/interp/deriv.go
@@ -30,6 +30,9 @@ import (
 //This resulting grammar's nullability then represents the result of the function.
 //This implementation does not handle immediate recursion, see the HasRecursion function.
 func Interpret(g *ast.Grammar, parser parser.Interface) (bool, error) {
+	if err := ast.CheckReferences(g); err != nil {
+		return false, err
+	}
 	refs := ast.NewRefLookup(g)
 	finals, err := deriv(refs, []*ast.Pattern{refs["main"]}, parser)
 	if err != nil {
diff --git a/relapse/interp/recursion.go b/relapse/interp/recursion.go
index ea1672d..3f6919f 100644
--- a/relapse/interp/recursion.go
+++ b/relapse/interp/recursion.go
@@ -40,10 +40,13 @@ func HasRecursion(g *ast.Grammar) bool {
 }
 
 func hasRecursion(visited map[*ast.Pattern]bool, refs ast.RefLookup, p *ast.Pattern) bool {
-	if _, ok := visited[p]; ok {
-		return true
+	//visited is true for the patterns on the path to this pattern and
+	//false for the patterns that have already been found to have no recursion.
+	if onPath, ok := visited[p]; ok {
+		return onPath
 	}
 	visited[p] = true
+	defer func() { visited[p] = false }()
 	typ := p.GetValue()
 	switch v := typ.(type) {
 	case *ast.Empty:
@@ -61,7 +64,11 @@ func hasRecursion(visited map[*ast.Pattern]bool, refs ast.RefLookup, p *ast.Patt
 	case *ast.ZeroOrMore:
 		return hasRecursion(visited, refs, v.GetPattern())
 	case *ast.Reference:
-		return hasRecursion(visited, refs, refs[v.GetName()])
+		ref, ok := refs[v.GetName()]
+		if !ok {
+			return false
+		}
+		return hasRecursion(visited, refs, ref)
 	case *ast.Not:
 		return hasRecursion(visited, refs, v.GetPattern())
 	case *ast.ZAny:
-- 
2.43.0


From fbf50ae0d912c134c25640f1c0e3c76337d7339b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:07 +0000
Subject: [PATCH 11/50] fix: literals out of range or badly escaped must be
 parse errors, and hexadecimal, octal and character literals must have the
 value they denote

---
 relapse/ast/util.go | 174 ++++++++++++++++++++++++++------------------
 1 file changed, 104 insertions(+), 70 deletions(-)

diff --git a/relapse/ast/util.go b/relapse/ast/util.go
index 3dcc395..dc9da6a 100644
--- a/relapse/ast/util.go
+++ b/relapse/ast/util.go
@@ -19,6 +19,7 @@ import (
 	"github.com/gogo/protobuf/proto"
 	"github.com/katydid/katydid/relapse/token"
 	"github.com/katydid/katydid/relapse/types"
+	"math/big"
 	"strconv"
 	"strings"
 	"unicode/utf8"
@@ -96,7 +97,11 @@ func NewBoolTerminal(v interface{}) *Terminal {
 //NewStringTerminal is a parser utility function that returns a Terminal of type string given a string literal.
 //The input string is also unquoted.
 func NewStringTerminal(slit string) (*Terminal, error) {
-	return &Terminal{StringValue: proto.String(ToString(slit)), Literal: slit}, nil
+	s, err := strconv.Unquote(slit)
+	if err != nil {
+		return nil, fmt.Errorf("invalid string literal %s: %v", slit, err)
+	}
+	return &Terminal{StringValue: proto.String(s), Literal: slit}, nil
 }
 
 //ToString unquotes a quoted string or returns the original string.
@@ -110,44 +115,66 @@ func ToString(s1 string) string {
 
 //NewIntTerminal is a parser utility function that parses the int value out of the input string and returns a Terminal of type int.
 func NewIntTerminal(slit string) (*Terminal, error) {
-	return &Terminal{IntValue: ToInt64(Strip(slit, "int")), Literal: slit}, nil
+	i, err := ToInt64(Strip(slit, "int"))
+	if err != nil {
+		return nil, err
+	}
+	return &Terminal{IntValue: i, Literal: slit}, nil
 }
 
-//ToInt64 is a parser utility function that returns a pointer to a parsed an int64 or panics.
-func ToInt64(tok []byte) *int64 {
-	i, err := strconv.ParseInt(string(tok), 10, 64)
+//ToInt64 is a parser utility function that returns a pointer to an int64 parsed from a decimal, octal (0 prefix) or hexadecimal (0x prefix) literal.
+func ToInt64(tok []byte) (*int64, error) {
+	i, err := strconv.ParseInt(string(tok), 0, 64)
 	if err != nil {
-		panic(err)
+		return nil, err
 	}
-	return &i
+	return &i, nil
 }
 
 //NewUintTerminal is a parser utility function that parses the uint value out of the input string and returns a Terminal of type uint.
 func NewUintTerminal(slit string) (*Terminal, error) {
-	return &Terminal{UintValue: ToUint64(Strip(slit, "uint")), Literal: slit}, nil
+	i, err := ToUint64(Strip(slit, "uint"))
+	if err != nil {
+		return nil, err
+	}
+	return &Terminal{UintValue: i, Literal: slit}, nil
 }
 
-//ToUint64 is a parser utility function that returns a pointer to a parsed an uint64 or panics.
-func ToUint64(tok []byte) *uint64 {
-	i, err := strconv.ParseUint(string(tok), 10, 64)
+//ToUint64 is a parser utility function that returns a pointer to a uint64 parsed from a decimal, octal (0 prefix) or hexadecimal (0x prefix) literal.
+func ToUint64(tok []byte) (*uint64, error) {
+	i, err := strconv.ParseUint(string(tok), 0, 64)
 	if err != nil {
-		panic(err)
+		return nil, err
 	}
-	return &i
+	return &i, nil
 }
 
 //NewDoubleTerminal is a parser utility function that parses the double value out of the input string and returns a Terminal of type double.
 func NewDoubleTerminal(slit string) (*Terminal, error) {
-	return &Terminal{DoubleValue: ToFloat64(Strip(slit, "double")), Literal: slit}, nil
+	f, err := ToFloat64(Strip(slit, "double"))
+	if err != nil {
+		return nil, err
+	}
+	return &Terminal{DoubleValue: f, Literal: slit}, nil
 }
 
-//ToFloat64 is a parser utility function that returns a pointer to a parsed an float64 or panics.
-func ToFloat64(tok []byte) *float64 {
-	f, err := strconv.ParseFloat(string(tok), 64)
+//ToFloat64 is a parser utility function that returns a pointer to a float64 parsed from a float literal
+//or from a decimal, octal (0 prefix) or hexadecimal (0x prefix) integer literal.
+func ToFloat64(tok []byte) (*float64, error) {
+	s := string(tok)
+	if !strings.ContainsAny(s, ".eE") || strings.ContainsAny(s, "xX") {
+		if i, ok := new(big.Int).SetString(s, 0); ok {
+			s = i.String()
+			if strings.HasPrefix(string(tok), "-") && i.Sign() == 0 {
+				s = "-0"
+			}
+		}
+	}
+	f, err := strconv.ParseFloat(s, 64)
 	if err != nil {
-		panic(err)
+		return nil, err
 	}
-	return &f
+	return &f, nil
 }
 
 //NewBytesTerminal is a parser utility function that parses the []byte value out of the input string and returns a Terminal of type []byte.
@@ -160,14 +187,13 @@ func NewBytesTerminal(stringLit string) (*Terminal, error) {
 }
 
 func parseBytes(s string) ([]byte, error) {
-	byteElems := strings.Split(s[strings.Index(s, "{")+1:strings.LastIndex(s, "}")], ",")
-	data := make([]byte, 0, len(byteElems))
-	for _, b := range byteElems {
-		s := strings.TrimSpace(b)
-		if len(s) == 0 {
+	elems := splitBytes(s[strings.Index(s, "{")+1 : strings.LastIndex(s, "}")])
+	data := make([]byte, 0, len(elems))
+	for _, e := range elems {
+		if len(e) == 0 {
 			continue
 		}
-		d, err := parseByte(s)
+		d, err := parseByte(e)
 		if err != nil {
 			return nil, err
 		}
@@ -176,63 +202,71 @@ func parseBytes(s string) ([]byte, error) {
 	return data, nil
 }
 
-func hexToByte(c byte) byte {
-	if 'a' <= c && c <= 'f' {
-		return c - 'a' + 10
-	}
-	if 'A' <= c && c <= 'F' {
-		return c - 'A' + 10
+//splitBytes splits the elements of a bytes literal on the commas that are not part of a character literal.
+func splitBytes(s string) []string {
+	elems := []string{}
+	start := 0
+	for i := 0; i < len(s); {
+		switch s[i] {
+		case '\'':
+			i += charLen(s[i:])
+		case ',':
+			elems = append(elems, strings.TrimSpace(s[start:i]))
+			i++
+			start = i
+		default:
+			i++
+		}
 	}
-	return c - '0'
+	return append(elems, strings.TrimSpace(s[start:]))
 }
 
-func hexesToByte(a byte, b byte) byte {
-	aa, bb := hexToByte(a), hexToByte(b)
-	return byte(aa*16 + bb)
+//charLen returns the length of the character literal at the start of the string, including its quotes.
+func charLen(s string) int {
+	if len(s) > 1 {
+		_, size := utf8.DecodeRuneInString(s[1:])
+		for end := 1 + size; end < len(s); end++ {
+			if s[end] == '\'' && (s[1] != '\\' || end+1 == len(s) || s[end+1] != '\'') {
+				return end + 1
+			}
+		}
+	}
+	return len(s)
 }
 
 func parseByte(s string) (byte, error) {
 	if s[0] == '\'' {
-		r, _ := utf8.DecodeRune([]byte(s)[1:])
-		if r <= 255 {
-			return byte(r), nil
-		}
-		return 0, fmt.Errorf("rune too large %v", r)
-	} else if s[0] == '0' {
-		if len(s) == 1 {
-			return 0, nil
-		}
-		if s[1] == 'x' || s[1] == 'X' {
-			if len(s) == 4 {
-				return hexesToByte(s[2], s[3]), nil
-			} else if len(s) == 3 {
-				return hexToByte(s[2]), nil
-			}
-			return 0, fmt.Errorf("not a hex digit %v", s)
-		} else {
-			switch len(s) {
-			case 4:
-				o := (int(s[1]-'0') * 64) + (int(s[2]-'0') * 8) + int(s[3]-'0')
-				if o >= 255 {
-					return 0, fmt.Errorf("octal too large %d", o)
-				}
-				return byte(o), nil
-			case 3:
-				return byte((s[1]-'0')*8 + (s[2] - '0')), nil
-			case 2:
-				return byte(s[1] - '0'), nil
-			}
-			return 0, nil
-		}
+		return parseChar(s)
 	}
-	i, err := strconv.Atoi(s)
+	i, err := strconv.ParseUint(s, 0, 8)
 	if err != nil {
 		return 0, err
 	}
-	if i >= 0 && i <= 255 {
-		return byte(i), nil
+	return byte(i), nil
+}
+
+func parseChar(s string) (byte, error) {
+	if len(s) < 3 || s[len(s)-1] != '\'' {
+		return 0, fmt.Errorf("invalid character literal %s", s)
+	}
+	c := s[1 : len(s)-1]
+	switch c {
+	case `'`, `\'`:
+		return '\'', nil
+	case `\"`:
+		return '"', nil
+	}
+	r, _, tail, err := strconv.UnquoteChar(c, '\'')
+	if err != nil {
+		return 0, fmt.Errorf("invalid character literal %s: %v", s, err)
+	}
+	if len(tail) > 0 {
+		return 0, fmt.Errorf("more than one character in %s", s)
+	}
+	if r > 255 {
+		return 0, fmt.Errorf("rune too large %v", r)
 	}
-	return 0, fmt.Errorf("int too large %d", i)
+	return byte(r), nil
 }
 
 //NewSDTName is a parser utility function that returns a NameExpr given a white space and a terminal value expression.
-- 
2.43.0


From 6cfa412b8ebda19138b8fe15e9c8525bba70df91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:01 +0000
Subject: [PATCH 12/50] fix: a negative index of elem and range counts from the
 end instead of panicking

---
 relapse/funcs/elem.gen.go       | 12 ++++++------
 relapse/funcs/funcs-gen/main.go |  6 +++---
 relapse/funcs/range.gen.go      | 24 ++++++++++++------------
 3 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/relapse/funcs/elem.gen.go b/relapse/funcs/elem.gen.go
index f6f8bb7..ede2ea8 100644
--- a/relapse/funcs/elem.gen.go
+++ b/relapse/funcs/elem.gen.go
@@ -26,7 +26,7 @@ func (this *elemDoubles) Eval() (float64, error) {
 		return 0, NewRangeCheckErr(index, len(list))
 	}
 	if index < 0 {
-		index = index % len(list)
+		index = (index%len(list) + len(list)) % len(list)
 	}
 	if len(list) <= index {
 		return 0, NewRangeCheckErr(index, len(list))
@@ -100,7 +100,7 @@ func (this *elemInts) Eval() (int64, error) {
 		return 0, NewRangeCheckErr(index, len(list))
 	}
 	if index < 0 {
-		index = index % len(list)
+		index = (index%len(list) + len(list)) % len(list)
 	}
 	if len(list) <= index {
 		return 0, NewRangeCheckErr(index, len(list))
@@ -174,7 +174,7 @@ func (this *elemUints) Eval() (uint64, error) {
 		return 0, NewRangeCheckErr(index, len(list))
 	}
 	if index < 0 {
-		index = index % len(list)
+		index = (index%len(list) + len(list)) % len(list)
 	}
 	if len(list) <= index {
 		return 0, NewRangeCheckErr(index, len(list))
@@ -248,7 +248,7 @@ func (this *elemBools) Eval() (bool, error) {
 		return false, NewRangeCheckErr(index, len(list))
 	}
 	if index < 0 {
-		index = index % len(list)
+		index = (index%len(list) + len(list)) % len(list)
 	}
 	if len(list) <= index {
 		return false, NewRangeCheckErr(index, len(list))
@@ -322,7 +322,7 @@ func (this *elemStrings) Eval() (string, error) {
 		return "", NewRangeCheckErr(index, len(list))
 	}
 	if index < 0 {
-		index = index % len(list)
+		index = (index%len(list) + len(list)) % len(list)
 	}
 	if len(list) <= index {
 		return "", NewRangeCheckErr(index, len(list))
@@ -396,7 +396,7 @@ func (this *elemListOfBytes) Eval() ([]byte, error) {
 		return nil, NewRangeCheckErr(index, len(list))
 	}
 	if index < 0 {
-		index = index % len(list)
+		index = (index%len(list) + len(list)) % len(list)
 	}
 	if len(list) <= index {
 		return nil, NewRangeCheckErr(index, len(list))
diff --git a/relapse/funcs/funcs-gen/main.go b/relapse/funcs/funcs-gen/main.go
index 22dcdf1..8755f4b 100644
--- a/relapse/funcs/funcs-gen/main.go
+++ b/relapse/funcs/funcs-gen/main.go
@@ -438,7 +438,7 @@ func (this *elem{{.ListType}}) Eval() ({{.ReturnType}}, error) {
 		return {{.Default}}, NewRangeCheckErr(index, len(list))
 	}
 	if index < 0 {
-		index = index % len(list)
+		index = (index%len(list) + len(list)) % len(list)
 	}
 	if len(list) <= index {
 		return {{.Default}}, NewRangeCheckErr(index, len(list))
@@ -526,7 +526,7 @@ func (this *range{{.ListType}}) Eval() ({{.ReturnType}}, error) {
 		return nil, NewRangeCheckErr(first, len(list))
 	}
 	if first < 0 {
-		first = first % len(list)
+		first = (first%len(list) + len(list)) % len(list)
 	}
 	if first > len(list) {
 		return nil, NewRangeCheckErr(first, len(list))
@@ -537,7 +537,7 @@ func (this *range{{.ListType}}) Eval() ({{.ReturnType}}, error) {
 	}
 	last := int(last64)
 	if last < 0 {
-		last = last % len(list)
+		last = (last%len(list) + len(list)) % len(list)
 	}
 	if last > len(list) {
 		return nil, NewRangeCheckErr(last, len(list))
diff --git a/relapse/funcs/range.gen.go b/relapse/funcs/range.gen.go
index a38d2c7..94777b2 100644
--- a/relapse/funcs/range.gen.go
+++ b/relapse/funcs/range.gen.go
@@ -27,7 +27,7 @@ func (this *rangeDoubles) Eval() ([]float64, error) {
 		return nil, NewRangeCheckErr(first, len(list))
 	}
 	if first < 0 {
-		first = first % len(list)
+		first = (first%len(list) + len(list)) % len(list)
 	}
 	if first > len(list) {
 		return nil, NewRangeCheckErr(first, len(list))
@@ -38,7 +38,7 @@ func (this *rangeDoubles) Eval() ([]float64, error) {
 	}
 	last := int(last64)
 	if last < 0 {
-		last = last % len(list)
+		last = (last%len(list) + len(list)) % len(list)
 	}
 	if last > len(list) {
 		return nil, NewRangeCheckErr(last, len(list))
@@ -120,7 +120,7 @@ func (this *rangeInts) Eval() ([]int64, error) {
 		return nil, NewRangeCheckErr(first, len(list))
 	}
 	if first < 0 {
-		first = first % len(list)
+		first = (first%len(list) + len(list)) % len(list)
 	}
 	if first > len(list) {
 		return nil, NewRangeCheckErr(first, len(list))
@@ -131,7 +131,7 @@ func (this *rangeInts) Eval() ([]int64, error) {
 	}
 	last := int(last64)
 	if last < 0 {
-		last = last % len(list)
+		last = (last%len(list) + len(list)) % len(list)
 	}
 	if last > len(list) {
 		return nil, NewRangeCheckErr(last, len(list))
@@ -213,7 +213,7 @@ func (this *rangeUints) Eval() ([]uint64, error) {
 		return nil, NewRangeCheckErr(first, len(list))
 	}
 	if first < 0 {
-		first = first % len(list)
+		first = (first%len(list) + len(list)) % len(list)
 	}
 	if first > len(list) {
 		return nil, NewRangeCheckErr(first, len(list))
@@ -224,7 +224,7 @@ func (this *rangeUints) Eval() ([]uint64, error) {
 	}
 	last := int(last64)
 	if last < 0 {
-		last = last % len(list)
+		last = (last%len(list) + len(list)) % len(list)
 	}
 	if last > len(list) {
 		return nil, NewRangeCheckErr(last, len(list))
@@ -306,7 +306,7 @@ func (this *rangeBools) Eval() ([]bool, error) {
 		return nil, NewRangeCheckErr(first, len(list))
 	}
 	if first < 0 {
-		first = first % len(list)
+		first = (first%len(list) + len(list)) % len(list)
 	}
 	if first > len(list) {
 		return nil, NewRangeCheckErr(first, len(list))
@@ -317,7 +317,7 @@ func (this *rangeBools) Eval() ([]bool, error) {
 	}
 	last := int(last64)
 	if last < 0 {
-		last = last % len(list)
+		last = (last%len(list) + len(list)) % len(list)
 	}
 	if last > len(list) {
 		return nil, NewRangeCheckErr(last, len(list))
@@ -399,7 +399,7 @@ func (this *rangeStrings) Eval() ([]string, error) {
 		return nil, NewRangeCheckErr(first, len(list))
 	}
 	if first < 0 {
-		first = first % len(list)
+		first = (first%len(list) + len(list)) % len(list)
 	}
 	if first > len(list) {
 		return nil, NewRangeCheckErr(first, len(list))
@@ -410,7 +410,7 @@ func (this *rangeStrings) Eval() ([]string, error) {
 	}
 	last := int(last64)
 	if last < 0 {
-		last = last % len(list)
+		last = (last%len(list) + len(list)) % len(list)
 	}
 	if last > len(list) {
 		return nil, NewRangeCheckErr(last, len(list))
@@ -492,7 +492,7 @@ func (this *rangeListOfBytes) Eval() ([][]byte, error) {
 		return nil, NewRangeCheckErr(first, len(list))
 	}
 	if first < 0 {
-		first = first % len(list)
+		first = (first%len(list) + len(list)) % len(list)
 	}
 	if first > len(list) {
 		return nil, NewRangeCheckErr(first, len(list))
@@ -503,7 +503,7 @@ func (this *rangeListOfBytes) Eval() ([][]byte, error) {
 	}
 	last := int(last64)
 	if last < 0 {
-		last = last % len(list)
+		last = (last%len(list) + len(list)) % len(list)
 	}
 	if last > len(list) {
 		return nil, NewRangeCheckErr(last, len(list))
-- 
2.43.0


From 4347fe8f9d01d5dd952c37ec6758272e6758027c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:07 +0000
Subject: [PATCH 13/50] fix: printed functions quote strings and regular
 expressions and keep the precision of doubles, so that they parse back

---
 relapse/funcs/const.gen.go      |  8 ++++----
 relapse/funcs/funcs-gen/main.go | 29 +++++++++++++++--------------
 relapse/funcs/regex.go          |  2 +-
 relapse/funcs/sprint.go         | 14 ++++++++++++++
 4 files changed, 34 insertions(+), 19 deletions(-)

diff --git a/relapse/funcs/const.gen.go b/relapse/funcs/const.gen.go
index d92aa08..4b766f8 100644
--- a/relapse/funcs/const.gen.go
+++ b/relapse/funcs/const.gen.go
@@ -39,7 +39,7 @@ func (this *constDouble) Hash() uint64 {
 }
 
 func (this *constDouble) String() string {
-	return fmt.Sprintf("double(%f)", this.v)
+	return fmt.Sprintf("double(%s)", showDouble(this.v))
 }
 
 // TrimDouble turns functions into constants, if they can be evaluated at compile time.
@@ -239,7 +239,7 @@ func (this *constString) Hash() uint64 {
 }
 
 func (this *constString) String() string {
-	return fmt.Sprintf("`%s`", this.v)
+	return fmt.Sprintf("%s", quote(this.v))
 }
 
 // TrimString turns functions into constants, if they can be evaluated at compile time.
@@ -341,7 +341,7 @@ func (this *constDoubles) Hash() uint64 {
 func (this *constDoubles) String() string {
 	ss := make([]string, len(this.v))
 	for i := range this.v {
-		ss[i] = fmt.Sprintf("double(%f)", this.v[i])
+		ss[i] = fmt.Sprintf("double(%s)", showDouble(this.v[i]))
 	}
 	return "[]double{" + strings.Join(ss, ",") + "}"
 }
@@ -557,7 +557,7 @@ func (this *constStrings) Hash() uint64 {
 func (this *constStrings) String() string {
 	ss := make([]string, len(this.v))
 	for i := range this.v {
-		ss[i] = fmt.Sprintf("`%s`", this.v[i])
+		ss[i] = fmt.Sprintf("%s", quote(this.v[i]))
 	}
 	return "[]string{" + strings.Join(ss, ",") + "}"
 }
diff --git a/relapse/funcs/funcs-gen/main.go b/relapse/funcs/funcs-gen/main.go
index 8755f4b..221d723 100644
--- a/relapse/funcs/funcs-gen/main.go
+++ b/relapse/funcs/funcs-gen/main.go
@@ -169,9 +169,9 @@ func (this *const{{.CType}}) Hash() uint64 {
 func (this *const{{.CType}}) String() string {
 	{{if .ListType}}ss := make([]string, len(this.v))
 	for i := range this.v {
-		ss[i] = fmt.Sprintf("{{.String}}", this.v[i])
+		ss[i] = fmt.Sprintf("{{.String}}", {{if .Show}}{{.Show}}(this.v[i]){{else}}this.v[i]{{end}})
 	}
-	return "[]{{.ListType}}{" + strings.Join(ss, ",") + "}"{{else}}return fmt.Sprintf("{{.String}}", this.v){{end}}
+	return "[]{{.ListType}}{" + strings.Join(ss, ",") + "}"{{else}}return fmt.Sprintf("{{.String}}", {{if .Show}}{{.Show}}(this.v){{else}}this.v{{end}}){{end}}
 }
 
 // Trim{{.CType}} turns functions into constants, if they can be evaluated at compile time.
@@ -195,6 +195,7 @@ type conster struct {
 	GoType   string
 	String   string
 	ListType string
+	Show     string
 }
 
 func (this *conster) Hash() uint64 {
@@ -876,18 +877,18 @@ func main() {
 		"ListOfBytes",
 	})
 	gen(constStr, "const.gen.go", []interface{}{
-		&conster{"Double", "float64", "double(%f)", ""},
-		&conster{"Int", "int64", "int(%d)", ""},
-		&conster{"Uint", "uint64", "uint(%d)", ""},
-		&conster{"Bool", "bool", "%v", ""},
-		&conster{"String", "string", "`%s`", ""},
-		&conster{"Bytes", "[]byte", "%#v", ""},
-		&conster{"Doubles", "[]float64", "double(%f)", "double"},
-		&conster{"Ints", "[]int64", "int(%d)", "int"},
-		&conster{"Uints", "[]uint64", "uint(%d)", "uint"},
-		&conster{"Bools", "[]bool", "%v", "bool"},
-		&conster{"Strings", "[]string", "`%s`", "string"},
-		&conster{"ListOfBytes", "[][]byte", "%#v", "[]byte"},
+		&conster{"Double", "float64", "double(%s)", "", "showDouble"},
+		&conster{"Int", "int64", "int(%d)", "", ""},
+		&conster{"Uint", "uint64", "uint(%d)", "", ""},
+		&conster{"Bool", "bool", "%v", "", ""},
+		&conster{"String", "string", "%s", "", "quote"},
+		&conster{"Bytes", "[]byte", "%#v", "", ""},
+		&conster{"Doubles", "[]float64", "double(%s)", "double", "showDouble"},
+		&conster{"Ints", "[]int64", "int(%d)", "int", ""},
+		&conster{"Uints", "[]uint64", "uint(%d)", "uint", ""},
+		&conster{"Bools", "[]bool", "%v", "bool", ""},
+		&conster{"Strings", "[]string", "%s", "string", "quote"},
+		&conster{"ListOfBytes", "[][]byte", "%#v", "[]byte", ""},
 	}, `"fmt"`, `"strings"`, `"reflect"`)
 	gen(listStr, "list.gen.go", []interface{}{
 		&list{"double", "Doubles", "Double", "float64"},
diff --git a/relapse/funcs/regex.go b/relapse/funcs/regex.go
index 4194742..3ed372f 100644
--- a/relapse/funcs/regex.go
+++ b/relapse/funcs/regex.go
@@ -55,7 +55,7 @@ func (this *regex) HasVariable() bool {
 }
 
 func (this *regex) String() string {
-	return "regex(" + this.expr + "," + this.S.String() + ")"
+	return "regex(" + quote(this.expr) + "," + this.S.String() + ")"
 }
 
 func (this *regex) Eval() (bool, error) {
diff --git a/relapse/funcs/sprint.go b/relapse/funcs/sprint.go
index f6ca3d2..c63d3e0 100644
--- a/relapse/funcs/sprint.go
+++ b/relapse/funcs/sprint.go
@@ -15,6 +15,7 @@
 package funcs
 
 import (
+	"strconv"
 	"strings"
 )
 
@@ -27,6 +28,19 @@ func sjoin(s ...Stringer) string {
 	return strings.Join(ss, ",")
 }
 
+// quote returns a string literal, which parses back to the given string.
+func quote(s string) string {
+	if strconv.CanBackquote(s) {
+		return "`" + s + "`"
+	}
+	return strconv.Quote(s)
+}
+
+// showDouble returns a decimal, which parses back to the given double.
+func showDouble(v float64) string {
+	return strconv.FormatFloat(v, 'f', -1, 64)
+}
+
 //Sprint returns the string printout of the function.
 func Sprint(s Stringer) string {
 	if shorthand, ok := s.(interface {
-- 
2.43.0


From 6db589b375fc5d057b24009f3bf58a2489696782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:39 +0000
Subject: [PATCH 14/50] fix: constants compare by hash first like every other
 function, and equal syntax trees have equal hashes

---
 relapse/ast/compare.go     | 55 ++++++++++++++++++++++++++++++++++++++
 relapse/ast/derived.gen.go | 38 ++------------------------
 relapse/funcs/const.go     | 36 +++++++++++++++++++++++++
 3 files changed, 93 insertions(+), 36 deletions(-)

diff --git a/relapse/ast/compare.go b/relapse/ast/compare.go
index d7c6b84..c1f50de 100644
--- a/relapse/ast/compare.go
+++ b/relapse/ast/compare.go
@@ -16,6 +16,7 @@ package ast
 
 import (
 	"bytes"
+	"strconv"
 )
 
 func (this *Grammar) Equal(that *Grammar) bool {
@@ -95,3 +96,57 @@ func (this *Terminal) Compare(that *Terminal) int {
 	}
 	return 0
 }
+
+// Hash returns the same hash for equal terminals.
+// This excludes the Literal, which is not a part of equality, and the sign of zero.
+func (this *Terminal) Hash() uint64 {
+	if this == nil {
+		return 0
+	}
+	h := uint64(17)
+	h = 31*h + deriveHash_16(this.Before)
+	// the literal of a string in its canonical form, rather than as it was written
+	if this.StringValue != nil {
+		h = 31*h + deriveHash_s(strconv.Quote(this.GetStringValue()))
+	}
+	h = 31*h + deriveHash_26(unsignedZero(this.DoubleValue))
+	h = 31*h + deriveHash_27(this.IntValue)
+	h = 31*h + deriveHash_28(this.UintValue)
+	h = 31*h + deriveHash_29(this.BoolValue)
+	h = 31*h + deriveHash_30(this.StringValue)
+	h = 31*h + hashBytes(this.BytesValue)
+	h = 31*h + deriveHash_32(this.Variable)
+	return h
+}
+
+// Hash returns the same hash for equal names.
+func (this *Name) Hash() uint64 {
+	if this == nil {
+		return 0
+	}
+	h := uint64(17)
+	h = 31*h + deriveHash_16(this.Before)
+	h = 31*h + deriveHash_26(unsignedZero(this.DoubleValue))
+	h = 31*h + deriveHash_27(this.IntValue)
+	h = 31*h + deriveHash_28(this.UintValue)
+	h = 31*h + deriveHash_29(this.BoolValue)
+	h = 31*h + deriveHash_30(this.StringValue)
+	h = 31*h + hashBytes(this.BytesValue)
+	return h
+}
+
+// unsignedZero returns positive zero for negative zero, since these are equal.
+func unsignedZero(v *float64) *float64 {
+	if v != nil && *v == 0 {
+		return new(float64)
+	}
+	return v
+}
+
+// hashBytes returns the same hash for nil and empty bytes, since these are equal.
+func hashBytes(v []byte) uint64 {
+	if len(v) == 0 {
+		return 0
+	}
+	return deriveHash_31(v)
+}
diff --git a/relapse/ast/derived.gen.go b/relapse/ast/derived.gen.go
index 51b6c94..d8923ae 100644
--- a/relapse/ast/derived.gen.go
+++ b/relapse/ast/derived.gen.go
@@ -2769,7 +2769,7 @@ func deriveHash_14(object *NameExpr) uint64 {
 		return 0
 	}
 	h := uint64(17)
-	h = 31*h + deriveHash_17(object.Name)
+	h = 31*h + object.Name.Hash()
 	h = 31*h + deriveHash_18(object.AnyName)
 	h = 31*h + deriveHash_19(object.AnyNameExcept)
 	h = 31*h + deriveHash_20(object.NameChoice)
@@ -2784,7 +2784,7 @@ func deriveHash_15(object *Expr) uint64 {
 	h := uint64(17)
 	h = 31*h + deriveHash_13(object.RightArrow)
 	h = 31*h + deriveHash_13(object.Comma)
-	h = 31*h + deriveHash_21(object.Terminal)
+	h = 31*h + object.Terminal.Hash()
 	h = 31*h + deriveHash_22(object.List)
 	h = 31*h + deriveHash_23(object.Function)
 	h = 31*h + deriveHash_24(object.BuiltIn)
@@ -3164,22 +3164,6 @@ func deriveHash_16(object *Space) uint64 {
 	return h
 }
 
-// deriveHash_17 returns the hash of the object.
-func deriveHash_17(object *Name) uint64 {
-	if object == nil {
-		return 0
-	}
-	h := uint64(17)
-	h = 31*h + deriveHash_16(object.Before)
-	h = 31*h + deriveHash_26(object.DoubleValue)
-	h = 31*h + deriveHash_27(object.IntValue)
-	h = 31*h + deriveHash_28(object.UintValue)
-	h = 31*h + deriveHash_29(object.BoolValue)
-	h = 31*h + deriveHash_30(object.StringValue)
-	h = 31*h + deriveHash_31(object.BytesValue)
-	return h
-}
-
 // deriveHash_18 returns the hash of the object.
 func deriveHash_18(object *AnyName) uint64 {
 	if object == nil {
@@ -3217,24 +3201,6 @@ func deriveHash_20(object *NameChoice) uint64 {
 	return h
 }
 
-// deriveHash_21 returns the hash of the object.
-func deriveHash_21(object *Terminal) uint64 {
-	if object == nil {
-		return 0
-	}
-	h := uint64(17)
-	h = 31*h + deriveHash_16(object.Before)
-	h = 31*h + deriveHash_s(object.Literal)
-	h = 31*h + deriveHash_26(object.DoubleValue)
-	h = 31*h + deriveHash_27(object.IntValue)
-	h = 31*h + deriveHash_28(object.UintValue)
-	h = 31*h + deriveHash_29(object.BoolValue)
-	h = 31*h + deriveHash_30(object.StringValue)
-	h = 31*h + deriveHash_31(object.BytesValue)
-	h = 31*h + deriveHash_32(object.Variable)
-	return h
-}
-
 // deriveHash_22 returns the hash of the object.
 func deriveHash_22(object *List) uint64 {
 	if object == nil {
diff --git a/relapse/funcs/const.go b/relapse/funcs/const.go
index e0c73ff..2dfa0e0 100644
--- a/relapse/funcs/const.go
+++ b/relapse/funcs/const.go
@@ -39,6 +39,12 @@ func (this *constString) aConst() {}
 func (this *constUint) aConst()   {}
 
 func (this *constDouble) Compare(that Comparable) int {
+	if this.Hash() != that.Hash() {
+		if this.Hash() < that.Hash() {
+			return -1
+		}
+		return 1
+	}
 	if other, ok := that.(*constDouble); ok {
 		if this.v != other.v {
 			if this.v < other.v {
@@ -52,6 +58,12 @@ func (this *constDouble) Compare(that Comparable) int {
 }
 
 func (this *constInt) Compare(that Comparable) int {
+	if this.Hash() != that.Hash() {
+		if this.Hash() < that.Hash() {
+			return -1
+		}
+		return 1
+	}
 	if other, ok := that.(*constInt); ok {
 		if this.v != other.v {
 			if this.v < other.v {
@@ -65,6 +77,12 @@ func (this *constInt) Compare(that Comparable) int {
 }
 
 func (this *constUint) Compare(that Comparable) int {
+	if this.Hash() != that.Hash() {
+		if this.Hash() < that.Hash() {
+			return -1
+		}
+		return 1
+	}
 	if other, ok := that.(*constUint); ok {
 		if this.v != other.v {
 			if this.v < other.v {
@@ -78,6 +96,12 @@ func (this *constUint) Compare(that Comparable) int {
 }
 
 func (this *constBool) Compare(that Comparable) int {
+	if this.Hash() != that.Hash() {
+		if this.Hash() < that.Hash() {
+			return -1
+		}
+		return 1
+	}
 	if other, ok := that.(*constBool); ok {
 		if this.v != other.v {
 			if !this.v {
@@ -91,6 +115,12 @@ func (this *constBool) Compare(that Comparable) int {
 }
 
 func (this *constString) Compare(that Comparable) int {
+	if this.Hash() != that.Hash() {
+		if this.Hash() < that.Hash() {
+			return -1
+		}
+		return 1
+	}
 	if other, ok := that.(*constString); ok {
 		return strings.Compare(this.v, other.v)
 	}
@@ -98,6 +128,12 @@ func (this *constString) Compare(that Comparable) int {
 }
 
 func (this *constBytes) Compare(that Comparable) int {
+	if this.Hash() != that.Hash() {
+		if this.Hash() < that.Hash() {
+			return -1
+		}
+		return 1
+	}
 	if other, ok := that.(*constBytes); ok {
 		return bytes.Compare(this.v, other.v)
 	}
-- 
2.43.0


From e0f5e01cd27ba33451ec7e1239754a7e7b253174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:39 +0000
Subject: [PATCH 15/50] fix: compiled names with an exception, a choice or
 nothing to match translate back to a name expression

---
 relapse/name/name.go | 71 ++++++++++++++++++++++++++++----------------
 1 file changed, 46 insertions(+), 25 deletions(-)

diff --git a/relapse/name/name.go b/relapse/name/name.go
index 213f37b..24fc350 100644
--- a/relapse/name/name.go
+++ b/relapse/name/name.go
@@ -78,32 +78,34 @@ func FuncToName(f funcs.Bool) (*ast.NameExpr, error) {
 	return exprToName(expr)
 }
 
+func terminalToName(e *ast.Expr) (*ast.NameExpr, error) {
+	if t := e.GetTerminal(); t != nil {
+		if t.DoubleValue != nil {
+			return ast.NewDoubleName(t.GetDoubleValue()), nil
+		}
+		if t.IntValue != nil {
+			return ast.NewIntName(t.GetIntValue()), nil
+		}
+		if t.UintValue != nil {
+			return ast.NewUintName(t.GetUintValue()), nil
+		}
+		if t.BoolValue != nil {
+			return ast.NewBoolName(t.GetBoolValue()), nil
+		}
+		if t.StringValue != nil {
+			return ast.NewStringName(t.GetStringValue()), nil
+		}
+		if t.BytesValue != nil {
+			return ast.NewBytesName(t.GetBytesValue()), nil
+		}
+	}
+	return nil, fmt.Errorf("unknown terminal: %v", e)
+}
+
 func exprToName(e *ast.Expr) (*ast.NameExpr, error) {
 	if e.GetBuiltIn() != nil {
 		if e.GetBuiltIn().GetSymbol().String() == "==" {
-			if e.GetBuiltIn().GetExpr().GetTerminal() != nil {
-				t := e.GetBuiltIn().GetExpr().GetTerminal()
-				if t.DoubleValue != nil {
-					return ast.NewDoubleName(t.GetDoubleValue()), nil
-				}
-				if t.IntValue != nil {
-					return ast.NewIntName(t.GetIntValue()), nil
-				}
-				if t.UintValue != nil {
-					return ast.NewUintName(t.GetUintValue()), nil
-				}
-				if t.BoolValue != nil {
-					return ast.NewBoolName(t.GetBoolValue()), nil
-				}
-				if t.StringValue != nil {
-					return ast.NewStringName(t.GetStringValue()), nil
-				}
-				if t.BytesValue != nil {
-					return ast.NewBytesName(t.GetBytesValue()), nil
-				}
-			} else {
-				return nil, fmt.Errorf("unknown terminal: %v", e.GetBuiltIn().GetExpr())
-			}
+			return terminalToName(e.GetBuiltIn().GetExpr())
 		} else {
 			return nil, fmt.Errorf("not equal: %v", e)
 		}
@@ -127,15 +129,34 @@ func exprToName(e *ast.Expr) (*ast.NameExpr, error) {
 			}
 			return ast.NewNameChoice(e1, e2), nil
 		}
+		if e.GetFunction().GetName() == "and" {
+			e1, err := exprToName(e.GetFunction().GetParams()[0])
+			if err != nil {
+				return nil, err
+			}
+			e2, err := exprToName(e.GetFunction().GetParams()[1])
+			if err != nil {
+				return nil, err
+			}
+			return ast.NewAnyNameExcept(ast.NewNameChoice(ast.NewAnyNameExcept(e1), ast.NewAnyNameExcept(e2))), nil
+		}
+		if e.GetFunction().GetName() == "eq" {
+			params := e.GetFunction().GetParams()
+			if params[0].GetTerminal().GetVariable() != nil {
+				return terminalToName(params[1])
+			}
+			if params[1].GetTerminal().GetVariable() != nil {
+				return terminalToName(params[0])
+			}
+		}
 		return nil, fmt.Errorf("unsupported function: %v", e)
 	}
 	if e.GetTerminal() != nil {
 		if e.GetTerminal().BoolValue != nil {
 			if e.GetTerminal().GetBoolValue() {
 				return ast.NewAnyName(), nil
-			} else {
-				return nil, fmt.Errorf("not true")
 			}
+			return ast.NewAnyNameExcept(ast.NewAnyName()), nil
 		} else {
 			return nil, fmt.Errorf("not bool")
 		}
-- 
2.43.0


From 3ac74b6762460af140c21ff2993bf99075fb24c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:12 +0000
Subject: [PATCH 16/50] fix: JSON strings with unicode escapes are read instead
 of rejected

---
 parser/json/json.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/json/json.go b/parser/json/json.go
index d4eb643..db76537 100644
--- a/parser/json/json.go
+++ b/parser/json/json.go
@@ -48,6 +48,7 @@ func scanString(buf []byte) (int, error) {
 				escaped = false
 				continue
 			case 'u':
+				escaped = false
 				udigits = 0
 				continue
 			}
-- 
2.43.0


From ebd4fc205ccaa8f8b081dfa7424f44090a24bbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:25 +0000
Subject: [PATCH 17/50] fix: brackets inside JSON strings do not end the
 enclosing array or object

---
 parser/json/json.go | 66 ++++++++++++++++++++++++---------------------
 1 file changed, 36 insertions(+), 30 deletions(-)

diff --git a/parser/json/json.go b/parser/json/json.go
index db76537..c7a443d 100644
--- a/parser/json/json.go
+++ b/parser/json/json.go
@@ -197,52 +197,58 @@ func (s *jsonParser) scanNull() error {
 	return s.skipSpace()
 }
 
-func (s *jsonParser) scanArray() error {
+//scanNested returns the length of the array or object, with the given brackets, that buf starts with.
+//Brackets inside strings are not counted.
+func scanNested(buf []byte, open, close byte) (int, bool) {
 	count := 0
-	index := 0
-	for i, c := range s.buf[s.offset:] {
-		if c == '[' {
-			count++
+	inString := false
+	escaped := false
+	for i, c := range buf {
+		if inString {
+			if escaped {
+				escaped = false
+			} else if c == '\\' {
+				escaped = true
+			} else if c == '"' {
+				inString = false
+			}
+			continue
 		}
-		if c == ']' {
+		switch c {
+		case '"':
+			inString = true
+		case open:
+			count++
+		case close:
 			count--
-		}
-		if count == 0 {
-			index = i
-			break
+			if count == 0 {
+				return i + 1, true
+			}
 		}
 	}
-	if count != 0 {
+	return 0, false
+}
+
+func (s *jsonParser) scanArray() error {
+	n, ok := scanNested(s.buf[s.offset:], '[', ']')
+	if !ok {
 		return s.expected("]")
 	}
 	s.startValueOffset = s.offset
-	s.endValueOffset = s.offset + index + 1
-	s.offset += index + 1
+	s.endValueOffset = s.offset + n
+	s.offset += n
 	s.isValueArray = true
 	return s.skipSpace()
 }
 
 func (s *jsonParser) scanObject() error {
-	count := 0
-	index := 0
-	for i, c := range s.buf[s.offset:] {
-		if c == '{' {
-			count++
-		}
-		if c == '}' {
-			count--
-		}
-		if count == 0 {
-			index = i
-			break
-		}
-	}
-	if count != 0 {
+	n, ok := scanNested(s.buf[s.offset:], '{', '}')
+	if !ok {
 		return s.expected("}")
 	}
 	s.startValueOffset = s.offset
-	s.endValueOffset = s.offset + index + 1
-	s.offset += index + 1
+	s.endValueOffset = s.offset + n
+	s.offset += n
 	s.isValueObject = true
 	return s.skipSpace()
 }
-- 
2.43.0


From 1cfbf768034b4d2c200bcbdcfe94e4bc48ad992c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:11 +0000
Subject: [PATCH 18/50] fix: malformed JSON ends in an error instead of a panic
 or success

---
 parser/json/json.go | 176 ++++++++++++++++++++++----------------------
 1 file changed, 88 insertions(+), 88 deletions(-)

diff --git a/parser/json/json.go b/parser/json/json.go
index c7a443d..1133e9c 100644
--- a/parser/json/json.go
+++ b/parser/json/json.go
@@ -32,13 +32,13 @@ func errInString(buf []byte) error {
 }
 
 func isString(buf []byte) bool {
-	return buf[0] == '"'
+	return len(buf) > 0 && buf[0] == '"'
 }
 
 func scanString(buf []byte) (int, error) {
 	escaped := false
 	udigits := -1
-	if buf[0] != '"' {
+	if !isString(buf) {
 		return 0, errInString(buf)
 	}
 	for i, c := range buf[1:] {
@@ -76,7 +76,7 @@ func scanString(buf []byte) (int, error) {
 			return 0, errInString(buf)
 		}
 	}
-	panic("unreachable")
+	return 0, io.ErrShortBuffer
 }
 
 func isNumber(c byte) bool {
@@ -96,12 +96,20 @@ func skipSpace(buf []byte) int {
 	return len(buf)
 }
 
+//at returns whether the byte c is at the current offset.
+func (s *jsonParser) at(c byte) bool {
+	return s.offset < len(s.buf) && s.buf[s.offset] == c
+}
+
 func (s *jsonParser) expected(expected string) error {
+	if s.offset >= len(s.buf) {
+		return io.ErrShortBuffer
+	}
 	return fmt.Errorf("katydid/json/parser: expected '%s' at offset %d, but got '%c'", expected, s.offset, s.buf[s.offset])
 }
 
 func (s *jsonParser) scanOpenObject() error {
-	if s.buf[s.offset] == '{' {
+	if s.at('{') {
 		s.offset++
 	} else {
 		return s.expected("{")
@@ -110,7 +118,7 @@ func (s *jsonParser) scanOpenObject() error {
 }
 
 func (s *jsonParser) scanOpenArray() error {
-	if s.buf[s.offset] == '[' {
+	if s.at('[') {
 		s.offset++
 	} else {
 		return s.expected("[")
@@ -257,66 +265,41 @@ func isDigit(c byte) bool {
 	return c >= '0' && c <= '9'
 }
 
-func isDigit19(c byte) bool {
-	return c >= '1' && c <= '9'
+//scanDigits scans one or more digits.
+func (s *jsonParser) scanDigits() error {
+	start := s.offset
+	for s.offset < len(s.buf) && isDigit(s.buf[s.offset]) {
+		s.offset++
+	}
+	if s.offset == start {
+		return s.expected("digit")
+	}
+	return nil
 }
 
 func (s *jsonParser) scanNumber() error {
 	s.startValueOffset = s.offset
-	if s.buf[s.offset] == '-' {
+	if s.at('-') {
 		s.offset++
-		if s.offset >= len(s.buf) {
-			return io.ErrShortBuffer
-		}
 	}
-	if s.buf[s.offset] == '0' {
-		s.offset++
-		if s.offset > len(s.buf) {
-			return io.ErrShortBuffer
-		}
-	} else if isDigit19(s.buf[s.offset]) {
+	if s.at('0') {
 		s.offset++
-		if s.offset > len(s.buf) {
-			return io.ErrShortBuffer
-		}
-		for s.offset < len(s.buf) && isDigit(s.buf[s.offset]) {
-			s.offset++
-			if s.offset > len(s.buf) {
-				return io.ErrShortBuffer
-			}
-		}
+	} else if err := s.scanDigits(); err != nil {
+		return err
 	}
-	if s.offset < len(s.buf) && s.buf[s.offset] == '.' {
+	if s.at('.') {
 		s.offset++
-		if s.offset > len(s.buf) {
-			return io.ErrShortBuffer
-		}
-		for s.offset < len(s.buf) && isDigit(s.buf[s.offset]) {
-			s.offset++
-			if s.offset > len(s.buf) {
-				return io.ErrShortBuffer
-			}
+		if err := s.scanDigits(); err != nil {
+			return err
 		}
 	}
-	if s.offset < len(s.buf) &&
-		(s.buf[s.offset] == 'e' || s.buf[s.offset] == 'E') {
+	if s.at('e') || s.at('E') {
 		s.offset++
-		if s.offset > len(s.buf) {
-			return io.ErrShortBuffer
-		}
-		if s.offset < len(s.buf) {
-			if s.buf[s.offset] == '+' || s.buf[s.offset] == '-' {
-				s.offset++
-				if s.offset > len(s.buf) {
-					return io.ErrShortBuffer
-				}
-			}
-		}
-		for s.offset < len(s.buf) && isDigit(s.buf[s.offset]) {
+		if s.at('+') || s.at('-') {
 			s.offset++
-			if s.offset > len(s.buf) {
-				return io.ErrShortBuffer
-			}
+		}
+		if err := s.scanDigits(); err != nil {
+			return err
 		}
 	}
 	s.endValueOffset = s.offset
@@ -324,6 +307,9 @@ func (s *jsonParser) scanNumber() error {
 }
 
 func (s *jsonParser) scanValue() error {
+	if s.offset >= len(s.buf) {
+		return io.ErrShortBuffer
+	}
 	c := s.buf[s.offset]
 	if isNumber(c) {
 		return s.scanNumber()
@@ -346,29 +332,44 @@ func (s *jsonParser) scanValue() error {
 }
 
 func (s *jsonParser) scanColon() error {
-	if s.buf[s.offset] != ':' {
+	if !s.at(':') {
 		return s.expected(":")
 	}
 	s.offset++
 	return s.skipSpace()
 }
 
+//scanEnd returns an error if anything other than space follows the value that ends at the given offset.
+func (s *jsonParser) scanEnd(offset int) error {
+	offset += skipSpace(s.buf[offset:])
+	if offset < len(s.buf) {
+		return fmt.Errorf("katydid/json/parser: unexpected '%c' at offset %d, after the value", s.buf[offset], offset)
+	}
+	return nil
+}
+
 func (s *jsonParser) scanCloseObject() error {
-	if s.buf[s.offset] == '}' {
-		return io.EOF
+	if !s.at('}') {
+		return s.expected("}")
 	}
-	return s.expected("}")
+	if err := s.scanEnd(s.offset + 1); err != nil {
+		return err
+	}
+	return io.EOF
 }
 
 func (s *jsonParser) scanCloseArray() error {
-	if s.buf[s.offset] == ']' {
-		return io.EOF
+	if !s.at(']') {
+		return s.expected("]")
 	}
-	return s.expected("]")
+	if err := s.scanEnd(s.offset + 1); err != nil {
+		return err
+	}
+	return io.EOF
 }
 
 func (s *jsonParser) scanComma() error {
-	if s.buf[s.offset] != ',' {
+	if !s.at(',') {
 		return s.expected(",")
 	}
 	s.offset++
@@ -381,18 +382,17 @@ func (s *jsonParser) nextValueInArray() error {
 			return err
 		}
 		s.firstArrayValue = false
-	} else {
-		if s.buf[s.offset] == ',' {
-			if err := s.scanComma(); err != nil {
-				return err
-			}
-		} else {
+		if s.at(']') {
 			return s.scanCloseArray()
 		}
+		return s.scanValue()
 	}
-	if s.buf[s.offset] == ']' {
+	if !s.at(',') {
 		return s.scanCloseArray()
 	}
+	if err := s.scanComma(); err != nil {
+		return err
+	}
 	return s.scanValue()
 }
 
@@ -402,30 +402,24 @@ func (s *jsonParser) nextValueInObject() error {
 			return err
 		}
 		s.firstObjectValue = false
-	} else {
-		if s.buf[s.offset] == ',' {
-			if err := s.scanComma(); err != nil {
-				return err
-			}
-		} else {
-			if err := s.scanCloseObject(); err != nil {
-				return err
-			}
-		}
-	}
-	if isString(s.buf[s.offset:]) {
-		if err := s.scanName(); err != nil {
-			return err
+		if s.at('}') {
+			return s.scanCloseObject()
 		}
-		if err := s.scanColon(); err != nil {
-			return err
+	} else {
+		if !s.at(',') {
+			return s.scanCloseObject()
 		}
-		if err := s.scanValue(); err != nil {
+		if err := s.scanComma(); err != nil {
 			return err
 		}
-		return nil
 	}
-	return s.scanCloseObject()
+	if err := s.scanName(); err != nil {
+		return err
+	}
+	if err := s.scanColon(); err != nil {
+		return err
+	}
+	return s.scanValue()
 }
 
 func (s *jsonParser) Next() error {
@@ -559,12 +553,15 @@ func (s *jsonParser) Init(buf []byte) error {
 	if err := s.skipSpace(); err != nil {
 		return err
 	}
-	if s.buf[s.offset] == '{' {
+	if s.at('{') {
 		//do nothing
-	} else if s.buf[s.offset] == '[' {
+	} else if s.at('[') {
 		if err := s.scanValue(); err != nil {
 			return err
 		}
+		if err := s.scanEnd(s.endValueOffset); err != nil {
+			return err
+		}
 		s.inArray = true
 		s.firstArrayValue = true
 		s.buf = s.buf[s.startValueOffset:s.endValueOffset]
@@ -573,6 +570,9 @@ func (s *jsonParser) Init(buf []byte) error {
 		if err := s.scanValue(); err != nil {
 			return err
 		}
+		if err := s.scanEnd(s.endValueOffset); err != nil {
+			return err
+		}
 		s.state.isLeaf = true
 		s.state.firstObjectValue = true
 	}
-- 
2.43.0


From f4ad3257ea8ae48e8ec7cac2369b3422441fce23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:23 +0000
Subject: [PATCH 19/50] fix: a JSON integer just below the int64 range is not
 read as the smallest int64

---
 parser/json/json.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/json/json.go b/parser/json/json.go
index 1133e9c..2e69cd5 100644
--- a/parser/json/json.go
+++ b/parser/json/json.go
@@ -465,7 +465,7 @@ func (s *jsonParser) Int() (int64, error) {
 	if s.isLeaf {
 		v := string(s.Value())
 		i, err := strconv.ParseInt(v, 10, 64)
-		if err != nil {
+		if err != nil && bytes.ContainsAny(s.Value(), ".eE") {
 			f, ferr := strconv.ParseFloat(v, 64)
 			if ferr != nil {
 				return i, err
-- 
2.43.0


From 43fd6d2d0f081de32a44e353699dd3046df72a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:47 +0000
Subject: [PATCH 20/50] fix: elements of a packed field are labelled by their
 index only

---
 parser/proto/proto.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/proto/proto.go b/parser/proto/proto.go
index 8866993..4de0f03 100644
--- a/parser/proto/proto.go
+++ b/parser/proto/proto.go
@@ -370,7 +370,7 @@ func (s *protoParser) Bool() (bool, error) {
 
 func (s *protoParser) String() (string, error) {
 	if !s.isLeaf {
-		if s.fieldNames && !s.inRepeated {
+		if s.fieldNames && !s.inRepeated && !s.inPacked {
 			return s.field.GetName(), nil
 		}
 		return "", parser.ErrNotString
-- 
2.43.0


From ee68d7cb91e1b80cb827b11fc0ca26ae3b32d4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:47 +0000
Subject: [PATCH 21/50] fix: negative sint32 values are decoded with their sign

---
 parser/proto/proto.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/proto/proto.go b/parser/proto/proto.go
index 4de0f03..16bba78 100644
--- a/parser/proto/proto.go
+++ b/parser/proto/proto.go
@@ -465,7 +465,7 @@ func (s *protoParser) decodeSint32() (int32, error) {
 	if n <= 0 {
 		return 0, fmt.Errorf("decodeVarint n = %d", n)
 	}
-	return int32((uint32(v) >> 1) ^ uint32(((v&1)<<31)>>31)), nil
+	return int32((uint32(v) >> 1) ^ -uint32(v&1)), nil
 }
 
 func (s *protoParser) decodeSint64() (int64, error) {
-- 
2.43.0


From aef90f26ac6de70493c3f7aae2bc846883fa8f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:47 +0000
Subject: [PATCH 22/50] fix: a protobuf value that exceeds its buffer is an
 error instead of a panic

---
 parser/proto/proto.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/parser/proto/proto.go b/parser/proto/proto.go
index 16bba78..ac6064a 100644
--- a/parser/proto/proto.go
+++ b/parser/proto/proto.go
@@ -71,16 +71,29 @@ func length(wireType int, buf []byte) (prefix int, l int, err error) {
 		_, n2, err := uvarint(buf)
 		return 0, n2, err
 	case 1:
-		return 0, 8, nil
+		return fixedLength(8, buf)
 	case 2:
 		l, n2, err := uvarint(buf)
-		return n2, int(l), err
+		if err != nil {
+			return 0, 0, err
+		}
+		if l > uint64(len(buf)-n2) {
+			return 0, 0, io.ErrShortBuffer
+		}
+		return n2, int(l), nil
 	case 5:
-		return 0, 4, nil
+		return fixedLength(4, buf)
 	}
 	return 0, 0, errUnknownWireType
 }
 
+func fixedLength(l int, buf []byte) (int, int, error) {
+	if len(buf) < l {
+		return 0, 0, io.ErrShortBuffer
+	}
+	return 0, l, nil
+}
+
 type protoParser struct {
 	descMap DescMap
 	state
-- 
2.43.0


From f350e1055cf2ab56b84243fa00045370673b5e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:47 +0000
Subject: [PATCH 23/50] fix: a repeated protobuf field ends where the key
 changes

---
 parser/proto/proto.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parser/proto/proto.go b/parser/proto/proto.go
index ac6064a..b2b4a09 100644
--- a/parser/proto/proto.go
+++ b/parser/proto/proto.go
@@ -110,6 +110,7 @@ type state struct {
 	offset        int
 	length        int
 	field         *descriptor.FieldDescriptorProto
+	key           uint64
 	isLeaf        bool
 	hadLeaf       bool
 	isRepeated    bool
@@ -212,8 +213,7 @@ func (s *protoParser) Next() error {
 		if err != nil {
 			return err
 		}
-		fieldNumber := int32(v >> 3)
-		if fieldNumber != s.field.GetNumber() {
+		if v != s.key {
 			s.length = 0
 			s.isRepeated = false
 			return io.EOF
@@ -265,6 +265,7 @@ func (s *protoParser) Next() error {
 			s.length = 0
 		}
 		s.field = field
+		s.key = v
 		return nil
 	}
 	return s.Next()
-- 
2.43.0


From 2e8c6089ccd49def7bc5a3f34861c2868a03ce96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:47 +0000
Subject: [PATCH 24/50] fix: the merge check identifies fields by number, since
 an extension can share a field's name

---
 parser/proto/nomerge.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/parser/proto/nomerge.go b/parser/proto/nomerge.go
index 6ce8108..ce0668a 100644
--- a/parser/proto/nomerge.go
+++ b/parser/proto/nomerge.go
@@ -23,7 +23,7 @@ import (
 //Latent fields are those fields you have already seen on your walk, but then after seeing a different field you see this field again.
 //This typically happens when the protocol buffer user created an object marshaled it and then merged it with another value.
 func NoLatentAppendingOrMerging(parser ProtoParser) error {
-	seen := make(map[string]bool)
+	seen := make(map[int32]bool)
 	for {
 		if err := parser.Next(); err != nil {
 			if err == io.EOF {
@@ -34,11 +34,12 @@ func NoLatentAppendingOrMerging(parser ProtoParser) error {
 		}
 		if !parser.IsLeaf() {
 			if _, err := parser.Int(); err != nil {
-				if fieldName, err := parser.String(); err == nil {
-					if _, ok := seen[fieldName]; ok {
+				if _, err := parser.String(); err == nil {
+					fieldNumber := parser.Field().GetNumber()
+					if _, ok := seen[fieldNumber]; ok {
 						return fmt.Errorf("%s requires merging", parser.Field().GetName())
 					}
-					seen[fieldName] = true
+					seen[fieldNumber] = true
 				} else {
 					return fmt.Errorf("not an index, field or leaf: %v", err)
 				}
-- 
2.43.0


From ae877e313375d0c42e54d028696640c345274eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:15 +0000
Subject: [PATCH 25/50] fix: protobuf types and extensions are found by their
 full name

---
 parser/proto/desc.go | 118 ++++++++++++++++++++++++++-----------------
 1 file changed, 71 insertions(+), 47 deletions(-)

diff --git a/parser/proto/desc.go b/parser/proto/desc.go
index ff9a3b8..ab03c27 100644
--- a/parser/proto/desc.go
+++ b/parser/proto/desc.go
@@ -40,48 +40,79 @@ type DescMap interface {
 type descMap struct {
 	desc       *descriptor.FileDescriptorSet
 	root       *descriptor.DescriptorProto
+	types      map[string]*descriptor.DescriptorProto
+	scopes     map[interface{}]string
+	exts       []*descriptor.FieldDescriptorProto
 	fieldToMsg map[*descriptor.FieldDescriptorProto]*descriptor.DescriptorProto
 	msgToField map[*descriptor.DescriptorProto]map[uint64]*descriptor.FieldDescriptorProto
 }
 
 //NewDescriptorMap returns a map of the FileDescriptorSet starting at the message represented by the package name and message name.
 func NewDescriptorMap(pkgName, msgName string, desc *descriptor.FileDescriptorSet) (DescMap, error) {
-	root := desc.GetMessage(pkgName, msgName)
-	if root == nil {
-		return nil, &errUnknown{pkgName + "." + msgName}
-	}
 	d := &descMap{
 		desc:       desc,
-		root:       root,
+		types:      make(map[string]*descriptor.DescriptorProto),
+		scopes:     make(map[interface{}]string),
 		fieldToMsg: make(map[*descriptor.FieldDescriptorProto]*descriptor.DescriptorProto),
 		msgToField: make(map[*descriptor.DescriptorProto]map[uint64]*descriptor.FieldDescriptorProto),
 	}
-	err := d.visit(pkgName, root)
+	for _, file := range desc.GetFile() {
+		d.index(packageScope(file.GetPackage()), file.GetMessageType(), file.GetExtension())
+	}
+	root := d.types[packageScope(pkgName)+"."+msgName]
+	if root == nil {
+		root = desc.GetMessage(pkgName, msgName)
+	}
+	if root == nil {
+		return nil, &errUnknown{pkgName + "." + msgName}
+	}
+	d.root = root
+	err := d.visit(root)
 	return d, err
 }
 
-func dotToUnderscore(r rune) rune {
-	if r == '.' {
-		return '_'
+func packageScope(pkgName string) string {
+	if len(pkgName) == 0 {
+		return ""
+	}
+	return "." + pkgName
+}
+
+//index records the fully qualified name of every message and the scope of every extension that is declared in the scope.
+func (this *descMap) index(scope string, msgs []*descriptor.DescriptorProto, exts []*descriptor.FieldDescriptorProto) {
+	for _, ext := range exts {
+		this.scopes[ext] = scope
+		this.exts = append(this.exts, ext)
+	}
+	for _, msg := range msgs {
+		name := scope + "." + msg.GetName()
+		this.types[name] = msg
+		this.scopes[msg] = name
+		this.index(name, msg.GetNestedType(), msg.GetExtension())
 	}
-	return r
 }
 
-func (this *descMap) findExts(pkgName string, msgName string) []*descriptor.FieldDescriptorProto {
+//resolve returns the message that the type name, which is possibly not fully qualified, represents in the scope.
+func (this *descMap) resolve(scope string, typeName string) *descriptor.DescriptorProto {
+	if strings.HasPrefix(typeName, ".") {
+		return this.types[typeName]
+	}
+	for {
+		if msg, ok := this.types[scope+"."+typeName]; ok {
+			return msg
+		}
+		if len(scope) == 0 {
+			return nil
+		}
+		scope = scope[:strings.LastIndex(scope, ".")]
+	}
+}
+
+func (this *descMap) findExts(msg *descriptor.DescriptorProto) []*descriptor.FieldDescriptorProto {
 	exts := []*descriptor.FieldDescriptorProto{}
-	extendee := "." + pkgName + "." + msgName
-	for _, file := range this.desc.GetFile() {
-		for i, ext := range file.GetExtension() {
-			if strings.Map(dotToUnderscore, file.GetPackage()) == strings.Map(dotToUnderscore, pkgName) {
-				if !(ext.GetExtendee() == msgName || ext.GetExtendee() == extendee) {
-					continue
-				}
-			} else {
-				if ext.GetExtendee() != extendee {
-					continue
-				}
-			}
-			exts = append(exts, file.Extension[i])
+	for _, ext := range this.exts {
+		if this.resolve(this.scopes[ext], ext.GetExtendee()) == msg {
+			exts = append(exts, ext)
 		}
 	}
 	return exts
@@ -105,43 +136,36 @@ func keysOf(field *descriptor.FieldDescriptorProto) []uint64 {
 	return keys
 }
 
-func (this *descMap) visit(pkgName string, msg *descriptor.DescriptorProto) error {
+func (this *descMap) visit(msg *descriptor.DescriptorProto) error {
 	if _, ok := this.msgToField[msg]; ok {
 		return nil
 	}
-	fields := msg.GetField()
+	this.msgToField[msg] = make(map[uint64]*descriptor.FieldDescriptorProto)
+	fields := append([]*descriptor.FieldDescriptorProto{}, msg.GetField()...)
 	if msg.HasExtension() {
-		exts := this.findExts(pkgName, msg.GetName())
-		fields = append(fields, exts...)
+		fields = append(fields, this.findExts(msg)...)
 	}
-	for i, f := range fields {
-		if _, ok := this.msgToField[msg]; !ok {
-			this.msgToField[msg] = make(map[uint64]*descriptor.FieldDescriptorProto)
-		}
-		keys := keysOf(f)
-		for _, k := range keys {
-			this.msgToField[msg][k] = fields[i]
+	for _, f := range fields {
+		for _, k := range keysOf(f) {
+			this.msgToField[msg][k] = f
 		}
 		if f.GetType() == descriptor.FieldDescriptorProto_TYPE_MESSAGE {
-			newPkgName, newMsgName := this.desc.FindMessage(pkgName, msg.GetName(), f.GetName())
-			if len(newMsgName) == 0 {
-				return &errUnknown{pkgName + "." + msg.GetName() + "." + f.GetName()}
+			scope, ok := this.scopes[f]
+			if !ok {
+				scope = this.scopes[msg]
 			}
-			newMsg := this.desc.GetMessage(newPkgName, newMsgName)
+			newMsg := this.resolve(scope, f.GetTypeName())
 			if newMsg == nil {
-				return &errUnknown{newPkgName + "." + newMsgName}
-			}
-			this.fieldToMsg[fields[i]] = newMsg
-			if _, ok := this.msgToField[newMsg]; ok {
-				continue
+				return &errUnknown{f.GetTypeName() + ", the type of " + this.scopes[msg] + "." + f.GetName()}
 			}
-			if err := this.visit(newPkgName, newMsg); err != nil {
+			this.fieldToMsg[f] = newMsg
+			if err := this.visit(newMsg); err != nil {
 				return err
 			}
 		}
 	}
-	for i := range msg.GetNestedType() {
-		if err := this.visit(pkgName, msg.GetNestedType()[i]); err != nil {
+	for _, nested := range msg.GetNestedType() {
+		if err := this.visit(nested); err != nil {
 			return err
 		}
 	}
-- 
2.43.0


From c5350626e009fe9921a97980359795d04ae5412b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:30 +0000
Subject: [PATCH 26/50] fix: elements of a reflected slice are labelled by
 their index only

---
 parser/reflect/reflect.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/reflect/reflect.go b/parser/reflect/reflect.go
index ea52340..9c91d6b 100644
--- a/parser/reflect/reflect.go
+++ b/parser/reflect/reflect.go
@@ -160,6 +160,9 @@ func (s *reflectParser) Bool() (bool, error) {
 }
 
 func (s *reflectParser) String() (string, error) {
+	if s.isArray {
+		return "", parser.ErrNotString
+	}
 	if !s.isLeaf {
 		return s.typ.Name, nil
 	}
-- 
2.43.0


From d50f1eadf771b9fcfe376263cd22b87782f7d1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:30 +0000
Subject: [PATCH 27/50] fix: a reflected uint8 or int8 has no bytes value
 instead of panicking

---
 parser/reflect/reflect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/reflect/reflect.go b/parser/reflect/reflect.go
index 9c91d6b..05745e0 100644
--- a/parser/reflect/reflect.go
+++ b/parser/reflect/reflect.go
@@ -178,7 +178,7 @@ func (s *reflectParser) Bytes() ([]byte, error) {
 	if s.isLeaf {
 		value := s.getValue()
 		switch value.Kind() {
-		case reflect.Slice, reflect.Uint8, reflect.Int8:
+		case reflect.Slice:
 			return value.Bytes(), nil
 		}
 	}
-- 
2.43.0


From cf80c49086613ab27a87814c84ee208bbb1e8dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:07 +0000
Subject: [PATCH 28/50] fix: xml between two processing instructions is no
 longer dropped

---
 parser/xml/parser.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/parser/xml/parser.go b/parser/xml/parser.go
index e731336..20eada3 100644
--- a/parser/xml/parser.go
+++ b/parser/xml/parser.go
@@ -19,7 +19,6 @@ import (
 	"bytes"
 	"fmt"
 	"io"
-	"regexp"
 	"strconv"
 	"strings"
 
@@ -80,11 +79,28 @@ func WithTextPrefix(e string) func(x *xmlParser) {
 	}
 }
 
-var procInstPattern = regexp.MustCompile(`<\?.*\?>`)
+var (
+	procInstStart = []byte("<?")
+	procInstEnd   = []byte("?>")
+)
 
-func (p *xmlParser) Init(buf []byte) error {
-	buf = procInstPattern.ReplaceAll(buf, []byte{})
+// trimProlog removes the xml declaration and other processing instructions before the root element.
+// The decoder skips those that are found later.
+func trimProlog(buf []byte) []byte {
 	buf = bytes.TrimSpace(buf)
+	for bytes.HasPrefix(buf, procInstStart) {
+		buf1 := buf[len(procInstStart):]
+		end := bytes.Index(buf1, procInstEnd)
+		if end < 0 {
+			return buf
+		}
+		buf = bytes.TrimSpace(buf1[end+len(procInstEnd):])
+	}
+	return buf
+}
+
+func (p *xmlParser) Init(buf []byte) error {
+	buf = trimProlog(buf)
 	p.buf = buf
 	p.dec = NewDecoder(NewBuffer(buf))
 	p.dec.Strict = false
-- 
2.43.0


From d4538b7f23bfa881d231c67825620a041d0cb672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:07 +0000
Subject: [PATCH 29/50] fix: white space between comments and directives
 outside the root element is not text

---
 parser/xml/parser.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/parser/xml/parser.go b/parser/xml/parser.go
index 20eada3..4d2ea72 100644
--- a/parser/xml/parser.go
+++ b/parser/xml/parser.go
@@ -111,8 +111,12 @@ func (s *xmlParser) Reset() error {
 	return s.Init(s.buf)
 }
 
-func hasContent(c CharData) bool {
-	return len(string(c)) > 0
+func (p *xmlParser) hasContent(c CharData) bool {
+	if p.dec.stk == nil {
+		// white space outside the root element is not content
+		return len(bytes.TrimSpace(c)) > 0
+	}
+	return len(c) > 0
 }
 
 func (p *xmlParser) Next() (err error) {
@@ -143,10 +147,8 @@ func (p *xmlParser) Next() (err error) {
 				break
 			} else if _, ok := p.tok.(EndElement); ok {
 				return io.EOF
-			} else if c, ok := p.tok.(CharData); ok {
-				if hasContent(c) {
-					break
-				}
+			} else if _, ok := p.tok.(CharData); ok {
+				break
 			} else if _, ok := p.tok.(Comment); ok {
 				p.tok, err = p.dec.Token()
 				//fmt.Printf("Comment Next Token %#v, err = %v\n", p.tok, err)
@@ -164,7 +166,7 @@ func (p *xmlParser) Next() (err error) {
 		if _, ok := p.tok.(StartElement); ok {
 			break
 		} else if c, ok := p.tok.(CharData); ok {
-			if hasContent(c) {
+			if p.hasContent(c) {
 				break
 			}
 		} else if _, ok := p.tok.(EndElement); ok {
-- 
2.43.0


From 81b50b75f3ffaa459a80e93ac9d76b8392fff6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:07 +0000
Subject: [PATCH 30/50] fix: an xml document that ends inside an element is an
 error

---
 parser/xml/xml.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/xml/xml.go b/parser/xml/xml.go
index c43616c..c6a7c6d 100644
--- a/parser/xml/xml.go
+++ b/parser/xml/xml.go
@@ -244,6 +244,9 @@ func (d *Decoder) Token() (t Token, err error) {
 		t = d.nextToken
 		d.nextToken = nil
 	} else if t, err = d.rawToken(); err != nil {
+		if err == io.EOF && d.stk != nil {
+			err = d.syntaxError("unexpected EOF")
+		}
 		return
 	}
 
-- 
2.43.0


From a83f4d6adcc314fd8854f8540ea0d0a3a5cfe302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:07 +0000
Subject: [PATCH 31/50] fix: ascending from an xml element skips its attributes
 and reports errors through Next

---
 parser/xml/parser.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/parser/xml/parser.go b/parser/xml/parser.go
index 4d2ea72..ce81278 100644
--- a/parser/xml/parser.go
+++ b/parser/xml/parser.go
@@ -36,6 +36,7 @@ type xmlParser struct {
 	attrPrefix string
 	elemPrefix string
 	textPrefix string
+	err        error
 }
 
 //XMLParser is an xml parser.
@@ -104,6 +105,7 @@ func (p *xmlParser) Init(buf []byte) error {
 	p.buf = buf
 	p.dec = NewDecoder(NewBuffer(buf))
 	p.dec.Strict = false
+	p.err = nil
 	return nil
 }
 
@@ -120,6 +122,9 @@ func (p *xmlParser) hasContent(c CharData) bool {
 }
 
 func (p *xmlParser) Next() (err error) {
+	if p.err != nil {
+		return p.err
+	}
 	if p.attrValue {
 		if p.attrFirst {
 			p.attrFirst = false
@@ -256,10 +261,13 @@ func (p *xmlParser) Up() {
 		p.attrIndex = 0
 		return
 	}
+	if p.tok == nil {
+		// the rest of the attributes are skipped with the rest of the element
+		p.attrs = nil
+		p.attrIndex = 0
+	}
 	if err := p.dec.Skip(); err != nil {
-		if err != io.EOF {
-			panic(err)
-		}
+		p.err = err
 	}
 }
 
-- 
2.43.0


From c614f70b44af9b0ea15666ebfea7d610684b72e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:07 +0000
Subject: [PATCH 32/50] fix: initialising the xml parser forgets where it was
 in the previous document

---
 parser/xml/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/xml/parser.go b/parser/xml/parser.go
index ce81278..d2b2059 100644
--- a/parser/xml/parser.go
+++ b/parser/xml/parser.go
@@ -106,6 +106,11 @@ func (p *xmlParser) Init(buf []byte) error {
 	p.dec = NewDecoder(NewBuffer(buf))
 	p.dec.Strict = false
 	p.err = nil
+	p.tok = nil
+	p.attrs = nil
+	p.attrIndex = 0
+	p.attrValue = false
+	p.attrFirst = false
 	return nil
 }
 
-- 
2.43.0


From 6d3de286191f24a2a565b24cac9f92f1583bd4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:41 +0000
Subject: [PATCH 33/50] fix: yaml values are read without the space that
 surrounds them

---
 parser/yaml/yaml.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/parser/yaml/yaml.go b/parser/yaml/yaml.go
index 11c751c..10a9b94 100644
--- a/parser/yaml/yaml.go
+++ b/parser/yaml/yaml.go
@@ -16,6 +16,7 @@
 package yaml
 
 import (
+	"bytes"
 	"errors"
 	"fmt"
 	"io"
@@ -323,6 +324,9 @@ func (s *yamlParser) Bytes() ([]byte, error) {
 func (s *yamlParser) Double() (float64, error) {
 	if s.isLeaf {
 		v := string(s.Value())
+		if hasLeadingZero(v) {
+			return 0, parser.ErrNotDouble
+		}
 		i, err := strconv.ParseFloat(v, 64)
 		return i, err
 	}
@@ -332,6 +336,9 @@ func (s *yamlParser) Double() (float64, error) {
 func (s *yamlParser) Int() (int64, error) {
 	if s.isLeaf {
 		v := string(s.Value())
+		if hasLeadingZero(v) {
+			return 0, parser.ErrNotInt
+		}
 		i, err := strconv.ParseInt(v, 10, 64)
 		if err != nil {
 			f, ferr := strconv.ParseFloat(v, 64)
@@ -373,6 +380,9 @@ func (s *yamlParser) String() (string, error) {
 func (s *yamlParser) Uint() (uint64, error) {
 	if s.isLeaf {
 		v := string(s.Value())
+		if hasLeadingZero(v) {
+			return 0, parser.ErrNotUint
+		}
 		i, err := strconv.ParseUint(v, 10, 64)
 		return uint64(i), err
 	}
@@ -380,7 +390,12 @@ func (s *yamlParser) Uint() (uint64, error) {
 }
 
 func (s *yamlParser) Value() []byte {
-	return s.buf[s.startValueOffset:s.endValueOffset]
+	return bytes.TrimSpace(s.buf[s.startValueOffset:s.endValueOffset])
+}
+
+//hasLeadingZero returns whether the value is a sequence of digits, like a telephone number, rather than a number.
+func hasLeadingZero(v string) bool {
+	return len(v) > 1 && v[0] == '0' && isDigit(v[1])
 }
 
 func isSpace(c byte) bool {
-- 
2.43.0


From 04c673570f84d7ed34577daca3a12af4c36c1d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:11 +0000
Subject: [PATCH 34/50] fix: a yaml array element without a value is null, also
 at the end of the document

---
 parser/yaml/yaml.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/parser/yaml/yaml.go b/parser/yaml/yaml.go
index 10a9b94..8064e84 100644
--- a/parser/yaml/yaml.go
+++ b/parser/yaml/yaml.go
@@ -507,6 +507,13 @@ func (s *yamlParser) peekNextLine() (*Line, error) {
 				break
 			}
 		}
+		// nothing follows the dash
+		if i >= len(buf) {
+			return &Line{
+					isArray: true, indent: indent,
+				},
+				nil
+		}
 	}
 
 	var name []byte
@@ -678,7 +685,7 @@ func (s *yamlParser) scanLine() (*Line, error) {
 			if buf[i] == '\n' {
 				s.offset += i
 				return &Line{
-						isArray: true, indent: indent,
+						isArray: true, indent: indent, nameStart: s.offset,
 					},
 					nil
 			}
@@ -686,6 +693,14 @@ func (s *yamlParser) scanLine() (*Line, error) {
 				break
 			}
 		}
+		// nothing follows the dash
+		if i >= len(buf) {
+			s.offset += len(buf)
+			return &Line{
+					isArray: true, indent: indent, nameStart: s.offset,
+				},
+				nil
+		}
 	}
 
 	var name []byte
-- 
2.43.0


From 63d8beec2485c177be24b5920990ac02c4d15b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:11 +0000
Subject: [PATCH 35/50] fix: a yaml key without a value in the last array
 element is a key

---
 parser/yaml/yaml.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/yaml/yaml.go b/parser/yaml/yaml.go
index 8064e84..7a033b7 100644
--- a/parser/yaml/yaml.go
+++ b/parser/yaml/yaml.go
@@ -226,6 +226,7 @@ func (s *yamlParser) nextValueInArray() error {
 	if err != nil { // no next line
 		s.startValueOffset = line.nameStart
 		s.endValueOffset = s.offset
+		s.isValueObject = true
 		return nil
 	}
 
-- 
2.43.0


From 178ba6106236fd18eb6160e91ea9aebf3a24ae0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:56 +0000
Subject: [PATCH 36/50] fix: yaml keys are read without the space that
 surrounds them

---
 parser/yaml/yaml.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/yaml/yaml.go b/parser/yaml/yaml.go
index 7a033b7..9f1592c 100644
--- a/parser/yaml/yaml.go
+++ b/parser/yaml/yaml.go
@@ -375,7 +375,7 @@ func (s *yamlParser) String() (string, error) {
 	if s.inArray {
 		return "", parser.ErrNotString
 	}
-	return s.name, nil
+	return strings.TrimSpace(s.name), nil
 }
 
 func (s *yamlParser) Uint() (uint64, error) {
-- 
2.43.0


From 6601cf5ff678e84645ccd7d580efcf3b23fcaf1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:08 +0000
Subject: [PATCH 37/50] fix: the protobuf encoder's buffer grows enough for
 what is written

---
 encode/proto/proto.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encode/proto/proto.go b/encode/proto/proto.go
index 18f293d..7eb55de 100644
--- a/encode/proto/proto.go
+++ b/encode/proto/proto.go
@@ -210,7 +210,7 @@ func (this *msgField) encode(buf []byte, offset int, p parser.Interface) ([]byte
 
 func checkSize(buf []byte, offset int, size int) []byte {
 	if offset+size > len(buf) {
-		newbuf := make([]byte, len(buf)*3+size+1)
+		newbuf := make([]byte, len(buf)*2+offset+size)
 		copy(newbuf, buf)
 		buf = newbuf
 	}
-- 
2.43.0


From 3cf9f7c84c4d1fbc9d8f0a35dfe281adf8e67064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:09 +0000
Subject: [PATCH 38/50] fix: the protobuf encoder reports the parser's errors

---
 encode/proto/proto.go | 65 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 52 insertions(+), 13 deletions(-)

diff --git a/encode/proto/proto.go b/encode/proto/proto.go
index 7eb55de..f911475 100644
--- a/encode/proto/proto.go
+++ b/encode/proto/proto.go
@@ -266,7 +266,10 @@ type doubleField struct {
 
 func (this *doubleField) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
 	if err := p.Next(); err != nil {
-		return buf, offset, nil
+		if err == io.EOF {
+			return buf, offset, nil
+		}
+		return nil, 0, err
 	}
 	if !p.IsLeaf() {
 		return buf, offset, nil
@@ -290,7 +293,10 @@ type floatField struct {
 
 func (this *floatField) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
 	if err := p.Next(); err != nil {
-		return buf, offset, nil
+		if err == io.EOF {
+			return buf, offset, nil
+		}
+		return nil, 0, err
 	}
 	if !p.IsLeaf() {
 		return buf, offset, nil
@@ -314,7 +320,10 @@ type intField struct {
 
 func (this *intField) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
 	if err := p.Next(); err != nil {
-		return buf, offset, nil
+		if err == io.EOF {
+			return buf, offset, nil
+		}
+		return nil, 0, err
 	}
 	if !p.IsLeaf() {
 		return buf, offset, nil
@@ -338,7 +347,10 @@ type uintField struct {
 
 func (this *uintField) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
 	if err := p.Next(); err != nil {
-		return buf, offset, nil
+		if err == io.EOF {
+			return buf, offset, nil
+		}
+		return nil, 0, err
 	}
 	if !p.IsLeaf() {
 		return buf, offset, nil
@@ -362,7 +374,10 @@ type fixed64UintField struct {
 
 func (this *fixed64UintField) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
 	if err := p.Next(); err != nil {
-		return buf, offset, nil
+		if err == io.EOF {
+			return buf, offset, nil
+		}
+		return nil, 0, err
 	}
 	if !p.IsLeaf() {
 		return buf, offset, nil
@@ -386,7 +401,10 @@ type fixed32UintField struct {
 
 func (this *fixed32UintField) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
 	if err := p.Next(); err != nil {
-		return buf, offset, nil
+		if err == io.EOF {
+			return buf, offset, nil
+		}
+		return nil, 0, err
 	}
 	if !p.IsLeaf() {
 		return buf, offset, nil
@@ -410,7 +428,10 @@ type boolField struct {
 
 func (this *boolField) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
 	if err := p.Next(); err != nil {
-		return buf, offset, nil
+		if err == io.EOF {
+			return buf, offset, nil
+		}
+		return nil, 0, err
 	}
 	if !p.IsLeaf() {
 		return buf, offset, nil
@@ -438,7 +459,10 @@ type stringField struct {
 
 func (this *stringField) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
 	if err := p.Next(); err != nil {
-		return buf, offset, nil
+		if err == io.EOF {
+			return buf, offset, nil
+		}
+		return nil, 0, err
 	}
 	if !p.IsLeaf() {
 		return buf, offset, nil
@@ -464,7 +488,10 @@ type bytesField struct {
 
 func (this *bytesField) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
 	if err := p.Next(); err != nil {
-		return buf, offset, nil
+		if err == io.EOF {
+			return buf, offset, nil
+		}
+		return nil, 0, err
 	}
 	if !p.IsLeaf() {
 		return buf, offset, nil
@@ -489,7 +516,10 @@ type fixed64IntField struct {
 
 func (this *fixed64IntField) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
 	if err := p.Next(); err != nil {
-		return buf, offset, nil
+		if err == io.EOF {
+			return buf, offset, nil
+		}
+		return nil, 0, err
 	}
 	if !p.IsLeaf() {
 		return buf, offset, nil
@@ -513,7 +543,10 @@ type fixed32IntField struct {
 
 func (this *fixed32IntField) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
 	if err := p.Next(); err != nil {
-		return buf, offset, nil
+		if err == io.EOF {
+			return buf, offset, nil
+		}
+		return nil, 0, err
 	}
 	if !p.IsLeaf() {
 		return buf, offset, nil
@@ -537,7 +570,10 @@ type sint32Field struct {
 
 func (this *sint32Field) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
 	if err := p.Next(); err != nil {
-		return buf, offset, nil
+		if err == io.EOF {
+			return buf, offset, nil
+		}
+		return nil, 0, err
 	}
 	if !p.IsLeaf() {
 		return buf, offset, nil
@@ -561,7 +597,10 @@ type sint64Field struct {
 
 func (this *sint64Field) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
 	if err := p.Next(); err != nil {
-		return buf, offset, nil
+		if err == io.EOF {
+			return buf, offset, nil
+		}
+		return nil, 0, err
 	}
 	if !p.IsLeaf() {
 		return buf, offset, nil
-- 
2.43.0


From 99b24a7214359e9e81654c263c3d9755f94ce402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:12 +0000
Subject: [PATCH 39/50] fix: a protobuf encoder for a recursive message type

---
 encode/proto/proto.go | 43 ++++++++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/encode/proto/proto.go b/encode/proto/proto.go
index f911475..5d791c4 100644
--- a/encode/proto/proto.go
+++ b/encode/proto/proto.go
@@ -42,7 +42,7 @@ func NewEncoder(desc *descriptor.FileDescriptorSet, pkgName, msgName string) (En
 	if err != nil {
 		return nil, err
 	}
-	return &encoder{msg: newMsg(descMap, descMap.GetRoot())}, nil
+	return &encoder{msg: newBuilder(descMap).newMsg(descMap.GetRoot())}, nil
 }
 
 type encoder struct {
@@ -67,23 +67,36 @@ type fieldEncoder interface {
 	encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error)
 }
 
-func newMsg(desc protoparser.DescMap, protomsg *descriptor.DescriptorProto) *msg {
-	msg := &msg{make(map[string]fieldEncoder)}
+//builder builds the encoder of every message once, since messages can be recursive.
+type builder struct {
+	desc protoparser.DescMap
+	msgs map[*descriptor.DescriptorProto]*msg
+}
+
+func newBuilder(desc protoparser.DescMap) *builder {
+	return &builder{desc, make(map[*descriptor.DescriptorProto]*msg)}
+}
+
+func (this *builder) newMsg(protomsg *descriptor.DescriptorProto) *msg {
+	if m, ok := this.msgs[protomsg]; ok {
+		return m
+	}
+	m := &msg{make(map[string]fieldEncoder)}
+	this.msgs[protomsg] = m
 	for _, f := range protomsg.GetField() {
-		fieldEnc := newFieldEncoder(desc, f)
-		msg.fieldEncoders[f.GetName()] = fieldEnc
+		m.fieldEncoders[f.GetName()] = this.newFieldEncoder(f)
 	}
-	return msg
+	return m
 }
 
-func newFieldEncoder(desc protoparser.DescMap, f *descriptor.FieldDescriptorProto) fieldEncoder {
+func (this *builder) newFieldEncoder(f *descriptor.FieldDescriptorProto) fieldEncoder {
 	if f.IsRepeated() {
-		return newRepeatedField(desc, f)
+		return this.newRepeatedField(f)
 	}
-	return newSingleField(desc, f)
+	return this.newSingleField(f)
 }
 
-func newSingleField(desc protoparser.DescMap, f *descriptor.FieldDescriptorProto) fieldEncoder {
+func (this *builder) newSingleField(f *descriptor.FieldDescriptorProto) fieldEncoder {
 	switch f.GetType() {
 	case descriptor.FieldDescriptorProto_TYPE_DOUBLE:
 		return newDoubleField(f)
@@ -104,7 +117,7 @@ func newSingleField(desc protoparser.DescMap, f *descriptor.FieldDescriptorProto
 	case descriptor.FieldDescriptorProto_TYPE_STRING:
 		return newStringField(f)
 	case descriptor.FieldDescriptorProto_TYPE_MESSAGE:
-		return newMsgField(desc, f, desc.LookupMessage(f))
+		return newMsgField(f, this.newMsg(this.desc.LookupMessage(f)))
 	case descriptor.FieldDescriptorProto_TYPE_BYTES:
 		return newBytesField(f)
 	case descriptor.FieldDescriptorProto_TYPE_UINT32:
@@ -154,10 +167,10 @@ type repeatedField struct {
 	fieldEnc fieldEncoder
 }
 
-func newRepeatedField(desc protoparser.DescMap, f *descriptor.FieldDescriptorProto) *repeatedField {
+func (this *builder) newRepeatedField(f *descriptor.FieldDescriptorProto) *repeatedField {
 	return &repeatedField{
 		key:      f.GetKey(),
-		fieldEnc: newSingleField(desc, f),
+		fieldEnc: this.newSingleField(f),
 	}
 }
 
@@ -183,10 +196,10 @@ func (this *repeatedField) encode(buf []byte, offset int, p parser.Interface) ([
 	}
 }
 
-func newMsgField(desc protoparser.DescMap, field *descriptor.FieldDescriptorProto, msg *descriptor.DescriptorProto) *msgField {
+func newMsgField(field *descriptor.FieldDescriptorProto, msg *msg) *msgField {
 	return &msgField{
 		key: field.GetKey(),
-		msg: newMsg(desc, msg),
+		msg: msg,
 	}
 }
 
-- 
2.43.0


From 60b4aeadfad1305852b327f13ab473305341fce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:13 +0000
Subject: [PATCH 40/50] fix: the protobuf encoder labels the elements of a
 packed field with their own wire type

---
 encode/proto/proto.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/encode/proto/proto.go b/encode/proto/proto.go
index 5d791c4..5df81ef 100644
--- a/encode/proto/proto.go
+++ b/encode/proto/proto.go
@@ -168,6 +168,12 @@ type repeatedField struct {
 }
 
 func (this *builder) newRepeatedField(f *descriptor.FieldDescriptorProto) *repeatedField {
+	if f.IsPacked() {
+		//every element is encoded on its own, with the key of a field that is not packed, which decoders accept.
+		elem := *f
+		elem.Options = nil
+		f = &elem
+	}
 	return &repeatedField{
 		key:      f.GetKey(),
 		fieldEnc: this.newSingleField(f),
-- 
2.43.0


From da7093a303e92947aeb0563e999170a651e83768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:14 +0000
Subject: [PATCH 41/50] fix: the protobuf encoder encodes extensions

---
 encode/proto/proto.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/encode/proto/proto.go b/encode/proto/proto.go
index 5df81ef..a03d358 100644
--- a/encode/proto/proto.go
+++ b/encode/proto/proto.go
@@ -83,6 +83,11 @@ func (this *builder) newMsg(protomsg *descriptor.DescriptorProto) *msg {
 	}
 	m := &msg{make(map[string]fieldEncoder)}
 	this.msgs[protomsg] = m
+	for _, f := range this.desc.LookupFields(protomsg) {
+		if len(f.GetExtendee()) > 0 {
+			m.fieldEncoders[f.GetName()] = this.newFieldEncoder(f)
+		}
+	}
 	for _, f := range protomsg.GetField() {
 		m.fieldEncoders[f.GetName()] = this.newFieldEncoder(f)
 	}
-- 
2.43.0


From 544515e205cb9236b659cde4ef73cf3172d3b9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:20 +0000
Subject: [PATCH 42/50] fix: encoding into a go structure converts values to
 the field's type and reports errors

---
 encode/reflect/reflect.go | 252 ++++++++++++++++++++++----------------
 1 file changed, 144 insertions(+), 108 deletions(-)

diff --git a/encode/reflect/reflect.go b/encode/reflect/reflect.go
index 4703e2c..e4ee7d9 100644
--- a/encode/reflect/reflect.go
+++ b/encode/reflect/reflect.go
@@ -23,167 +23,203 @@ import (
 	"reflect"
 )
 
-//Encode encodes a parser.Interface into a go structure value.
+//Encode encodes a parser.Interface into a go structure value, which v points to.
 func Encode(p parser.Interface, v interface{}) error {
 	r := reflect.ValueOf(v)
-	return encodeStruct(p, r)
-}
-
-func encodeStruct(p parser.Interface, v reflect.Value) error {
-	kind := v.Type().Kind()
-	isPtr := false
-	if kind == reflect.Ptr {
-		kind = v.Type().Elem().Kind()
-		isPtr = true
+	if r.Kind() != reflect.Ptr || r.IsNil() || r.Type().Elem().Kind() != reflect.Struct {
+		return fmt.Errorf("expected a pointer to a struct")
 	}
-	if kind != reflect.Struct {
-		return fmt.Errorf("expected struct")
+	isLeaf, err := encodeStruct(p, r.Elem())
+	if err != nil {
+		return err
 	}
+	if isLeaf {
+		return fmt.Errorf("struct: did not expect leaf")
+	}
+	return nil
+}
+
+//encodeStruct sets the fields of strct and returns whether the parser presents a leaf instead of fields.
+func encodeStruct(p parser.Interface, strct reflect.Value) (bool, error) {
 	for {
 		if err := p.Next(); err != nil {
 			if err == io.EOF {
-				return nil
-			} else {
-				panic(err)
+				return false, nil
 			}
+			return false, err
 		}
 		if p.IsLeaf() {
-			return fmt.Errorf("struct: did not expect leaf")
+			return true, nil
 		}
 		name, err := p.String()
 		if err != nil {
-			return err
-		}
-		strct := v
-		if isPtr {
-			strct = v.Elem()
+			return false, err
 		}
 		field := strct.FieldByName(name)
-		if !field.IsValid() {
+		if !field.IsValid() || !field.CanSet() {
 			continue //skip field
 		}
-		fieldKind := field.Kind()
-		fieldIsPtr := false
-		fieldType := field.Type()
-		if fieldKind == reflect.Ptr {
-			fieldIsPtr = true
-			fieldKind = field.Type().Elem().Kind()
-			fieldType = field.Type().Elem()
-		}
 		p.Down()
-		switch fieldKind {
-		case reflect.Struct:
-			if !p.IsLeaf() {
-				if fieldIsPtr {
-					field.Set(reflect.New(field.Type().Elem()))
-				}
-				if err := encodeStruct(p, field); err != nil {
-					return err
-				}
-			}
-		case reflect.Slice:
-			list, err := newList(p, fieldType)
-			if err != nil {
-				return err
-			}
-			field.Set(list)
-		default:
-
-			value, err := newValue(p, fieldType)
-			if err != nil {
-				return err
-			}
-			field.Set(value)
+		if err := encodeValue(p, field); err != nil {
+			return false, err
 		}
 		p.Up()
 	}
 }
 
-func newList(p parser.Interface, typ reflect.Type) (reflect.Value, error) {
-	list := reflect.MakeSlice(typ, 0, 0)
+//encodeValue sets the field or list element v, a leaf without a value leaves it as it is.
+func encodeValue(p parser.Interface, v reflect.Value) error {
+	elem := v
+	if v.Kind() == reflect.Ptr {
+		elem = reflect.New(v.Type().Elem()).Elem()
+	}
+	typ := elem.Type()
+	isSet := false
+	switch {
+	case typ.Kind() == reflect.Struct:
+		isLeaf, err := encodeStruct(p, elem)
+		if err != nil {
+			return err
+		}
+		isSet = !isLeaf
+	case typ.Kind() == reflect.Slice && typ.Elem().Kind() != reflect.Uint8:
+		isNull, err := encodeList(p, elem)
+		if err != nil {
+			return err
+		}
+		isSet = !isNull
+	default:
+		var err error
+		isSet, err = encodeLeaf(p, elem)
+		if err != nil {
+			return err
+		}
+	}
+	if isSet && v.Kind() == reflect.Ptr {
+		v.Set(elem.Addr())
+	}
+	return nil
+}
+
+//encodeList sets v and returns whether the parser presents a leaf without a value instead of elements.
+func encodeList(p parser.Interface, v reflect.Value) (bool, error) {
+	list := reflect.MakeSlice(v.Type(), 0, 0)
 	for {
 		if err := p.Next(); err != nil {
 			if err == io.EOF {
-				return list, nil
-			} else {
-				panic(err)
+				v.Set(list)
+				return false, nil
 			}
+			return false, err
 		}
 		if p.IsLeaf() {
-			return reflect.ValueOf(nil), fmt.Errorf("list: did not expect leaf")
-		}
-		_, err := p.Int()
-		if err != nil {
-			return reflect.ValueOf(nil), err
+			if getValue(p) == nil {
+				return true, nil
+			}
+			return false, fmt.Errorf("list: did not expect leaf")
 		}
-		elemType := typ.Elem()
-		elemKind := elemType.Kind()
-		elemIsPtr := false
-		if elemKind == reflect.Ptr {
-			elemIsPtr = true
-			elemType = typ.Elem().Elem()
-			elemKind = elemType.Kind()
+		if _, err := p.Int(); err != nil {
+			return false, err
 		}
+		elem := reflect.New(v.Type().Elem()).Elem()
 		p.Down()
-		switch elemKind {
-		case reflect.Struct:
-			if !p.IsLeaf() {
-				elem := reflect.New(elemType).Elem()
-				if err := encodeStruct(p, elem); err != nil {
-					return reflect.ValueOf(nil), err
-				}
-				if elemIsPtr {
-					elem = elem.Addr()
-				}
-				list = reflect.Append(list, elem)
-			} else {
-				list = reflect.Append(list, reflect.Zero(typ.Elem()))
-			}
-		case reflect.Slice:
-			newList, err := newList(p, elemType)
-			if err != nil {
-				return reflect.ValueOf(nil), err
-			}
-			list = reflect.Append(list, newList)
-		default:
-			elem, err := newValue(p, typ.Elem())
-			if err != nil {
-				return reflect.ValueOf(nil), err
-			}
-			list = reflect.Append(list, elem)
+		if err := encodeValue(p, elem); err != nil {
+			return false, err
 		}
 		p.Up()
+		list = reflect.Append(list, elem)
 	}
 }
 
-func newValue(p parser.Interface, typ reflect.Type) (reflect.Value, error) {
+//encodeLeaf sets v to the value that the parser presents as the type of v and returns whether there is a value.
+func encodeLeaf(p parser.Interface, v reflect.Value) (bool, error) {
 	if err := p.Next(); err != nil {
 		if err == io.EOF {
-			return reflect.ValueOf(nil), nil
-		} else {
-			panic(err)
+			return false, nil
 		}
+		return false, err
 	}
 	if !p.IsLeaf() {
-		return reflect.ValueOf(nil), fmt.Errorf("expected leaf")
+		return false, fmt.Errorf("expected leaf")
+	}
+	if getValue(p) == nil {
+		return false, nil
+	}
+	switch v.Kind() {
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		value, err := p.Int()
+		if err != nil {
+			return false, err
+		}
+		if v.OverflowInt(value) {
+			return false, fmt.Errorf("%d overflows %v", value, v.Type())
+		}
+		v.SetInt(value)
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		value, err := p.Uint()
+		if err != nil {
+			return false, err
+		}
+		if v.OverflowUint(value) {
+			return false, fmt.Errorf("%d overflows %v", value, v.Type())
+		}
+		v.SetUint(value)
+	case reflect.Float32, reflect.Float64:
+		value, err := p.Double()
+		if err != nil {
+			return false, err
+		}
+		if v.OverflowFloat(value) {
+			return false, fmt.Errorf("%v overflows %v", value, v.Type())
+		}
+		v.SetFloat(value)
+	case reflect.Bool:
+		value, err := p.Bool()
+		if err != nil {
+			return false, err
+		}
+		v.SetBool(value)
+	case reflect.String:
+		value, err := p.String()
+		if err != nil {
+			return false, err
+		}
+		v.SetString(value)
+	case reflect.Slice:
+		value, err := p.Bytes()
+		if err != nil {
+			return false, err
+		}
+		v.SetBytes(append([]byte{}, value...))
+	default:
+		value := reflect.ValueOf(getValue(p))
+		if !value.Type().AssignableTo(v.Type()) {
+			return false, fmt.Errorf("unsupported type %v", v.Type())
+		}
+		v.Set(value)
 	}
+	return true, nil
+}
+
+//getValue returns the value of a leaf or nil if it has none.
+func getValue(p parser.Value) interface{} {
 	if value, err := p.Int(); err == nil {
-		return reflect.ValueOf(value), nil
+		return value
 	}
 	if value, err := p.Uint(); err == nil {
-		return reflect.ValueOf(value), nil
+		return value
 	}
 	if value, err := p.Double(); err == nil {
-		return reflect.ValueOf(value), nil
+		return value
 	}
 	if value, err := p.Bool(); err == nil {
-		return reflect.ValueOf(value), nil
+		return value
 	}
 	if value, err := p.String(); err == nil {
-		return reflect.ValueOf(value), nil
+		return value
 	}
 	if value, err := p.Bytes(); err == nil {
-		return reflect.ValueOf(value), nil
+		return value
 	}
-	return reflect.ValueOf(nil), nil
+	return nil
 }
-- 
2.43.0


From 1f025bef34a27b61ff3026842c3ae2972c9f9761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:35 +0000
Subject: [PATCH 43/50] fix: encoding an empty object as json is not null

---
 encode/json/json.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/encode/json/json.go b/encode/json/json.go
index 46f18b1..830c8be 100644
--- a/encode/json/json.go
+++ b/encode/json/json.go
@@ -39,13 +39,10 @@ func encode(p parser.Interface) (interface{}, error) {
 	for {
 		if err := p.Next(); err != nil {
 			if err == io.EOF {
-				if len(fields) > 0 {
-					return fields, nil
-				}
 				if list != nil {
 					return list, nil
 				}
-				return nil, nil
+				return fields, nil
 			}
 			return nil, err
 		}
-- 
2.43.0


From 694deca39be5e4a910ddec9b8e29ded3a373b9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:53 +0000
Subject: [PATCH 44/50] fix: text that only looks like a boolean or infinity is
 encoded as a json string

---
 encode/json/json.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/encode/json/json.go b/encode/json/json.go
index 830c8be..24bf866 100644
--- a/encode/json/json.go
+++ b/encode/json/json.go
@@ -21,6 +21,8 @@ import (
 	"encoding/json"
 	"github.com/katydid/katydid/parser"
 	"io"
+	"math"
+	"strconv"
 )
 
 //Encode encodes a parser.Interface into a byte slice containing valid json.
@@ -53,14 +55,19 @@ func encode(p parser.Interface) (interface{}, error) {
 			if v, err := p.Uint(); err == nil {
 				return v, nil
 			}
+			text, textErr := p.String()
 			if v, err := p.Double(); err == nil {
-				return v, nil
+				if textErr != nil || !math.IsNaN(v) && !math.IsInf(v, 0) {
+					return v, nil
+				}
 			}
 			if v, err := p.Bool(); err == nil {
-				return v, nil
+				if textErr != nil || text == strconv.FormatBool(v) {
+					return v, nil
+				}
 			}
-			if v, err := p.String(); err == nil {
-				return v, nil
+			if textErr == nil {
+				return text, nil
 			}
 			if v, err := p.Bytes(); err == nil {
 				return base64.StdEncoding.EncodeToString(v), nil
-- 
2.43.0


From 912070a311498c9efe724e4fa84f8b7ef0bf27a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:53 +0000
Subject: [PATCH 45/50] fix: the xml encoder writes text as it is presented

---
 encode/xml/xml.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/encode/xml/xml.go b/encode/xml/xml.go
index 92c0187..6818e0b 100644
--- a/encode/xml/xml.go
+++ b/encode/xml/xml.go
@@ -100,6 +100,10 @@ func getName(p parser.Interface) xml.Name {
 }
 
 func getCharData(p parser.Interface) xml.CharData {
+	s, err := p.String()
+	if err == nil {
+		return xml.CharData([]byte(s))
+	}
 	i, err := p.Int()
 	if err == nil {
 		return xml.CharData([]byte(strconv.FormatInt(i, 10)))
@@ -116,10 +120,6 @@ func getCharData(p parser.Interface) xml.CharData {
 	if err == nil {
 		return xml.CharData([]byte(strconv.FormatBool(b)))
 	}
-	s, err := p.String()
-	if err == nil {
-		return xml.CharData([]byte(s))
-	}
 	v, err := p.Bytes()
 	if err == nil {
 		return xml.CharData([]byte(base64.StdEncoding.EncodeToString(v)))
-- 
2.43.0


From d8b0da9b53403790ebda0692339bc5c5612c1372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:48 +0000
Subject: [PATCH 46/50] fix: the protobuf encoder makes room before it encodes
 a nested message

---
 encode/proto/proto.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/encode/proto/proto.go b/encode/proto/proto.go
index a03d358..97d88ef 100644
--- a/encode/proto/proto.go
+++ b/encode/proto/proto.go
@@ -221,6 +221,7 @@ type msgField struct {
 
 func (this *msgField) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
 	msginitoff := offset + 20
+	buf = checkSize(buf, offset, 20)
 	msgbuf, msgfinaloff, err := this.msg.encode(buf, msginitoff, p)
 	if err != nil {
 		return nil, 0, err
-- 
2.43.0


From b26c8f5f8ab596efb4334d1a4bd9b11dc96f02c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:09 +0000
Subject: [PATCH 47/50] fix: building a function or a list modified the
 parameters it was given

An expression that was used as a parameter more than once, for example as
the second parameter of one function and the first parameter of another,
was left with a comma in the wrong place and the result did not parse.
---
 relapse/ast/new.go | 46 ++++++++++++++++++++++------------------------
 1 file changed, 22 insertions(+), 24 deletions(-)

diff --git a/relapse/ast/new.go b/relapse/ast/new.go
index b63b6fa..c6bda17 100644
--- a/relapse/ast/new.go
+++ b/relapse/ast/new.go
@@ -361,20 +361,31 @@ func newInterleave(patterns []*Pattern) *Pattern {
 	}
 }
 
-//NewFunction returns a function expression given a name and a list of parameters.
-//  ->name(param1, param2, ...)
-//This function should be the top level function and not a nested function.
-//If the parameters don't have populated Comma fields, this function will add them.
-//If a parameter has a populared RightArrow field, the contents of the RightArrow field is thrown away.
-func NewFunction(name string, params ...*Expr) *Expr {
-	for i, p := range params {
+//asParams returns copies of the expressions with the punctuation of a list of parameters.
+//The given expressions are not modified, since they can also be in use somewhere else.
+func asParams(exprs []*Expr) []*Expr {
+	params := make([]*Expr, len(exprs))
+	for i, e := range exprs {
+		p := *e
 		p.RightArrow = nil
 		if i == 0 {
 			p.Comma = nil
 		} else if p.Comma == nil {
 			p.Comma = newComma()
 		}
+		params[i] = &p
 	}
+	return params
+}
+
+//NewFunction returns a function expression given a name and a list of parameters.
+//  ->name(param1, param2, ...)
+//This function should be the top level function and not a nested function.
+//The parameters themselves are copied and not modified:
+//If the parameters don't have populated Comma fields, they are added to the copies.
+//If a parameter has a populared RightArrow field, the contents of the RightArrow field is thrown away.
+func NewFunction(name string, params ...*Expr) *Expr {
+	params = asParams(params)
 	return &Expr{
 		RightArrow: newRightArrow(),
 		Function: &Function{
@@ -388,17 +399,11 @@ func NewFunction(name string, params ...*Expr) *Expr {
 
 //NewNestedFunction returns a function expression given a name and a list of parameters.
 //  name(param1, param2, ...)
-//If the parameters don't have populated Comma fields, this function will add them.
+//The parameters themselves are copied and not modified:
+//If the parameters don't have populated Comma fields, they are added to the copies.
 //If a parameter has a populared RightArrow field, the contents of the RightArrow field is thrown away.
 func NewNestedFunction(name string, params ...*Expr) *Expr {
-	for i, p := range params {
-		p.RightArrow = nil
-		if i == 0 {
-			p.Comma = nil
-		} else if p.Comma == nil {
-			p.Comma = newComma()
-		}
-	}
+	params = asParams(params)
 	return &Expr{Function: &Function{
 		Name:       name,
 		OpenParen:  newOpenParen(),
@@ -525,14 +530,7 @@ func NewBytesConst(buf []byte) *Expr {
 //NewList returns a typed list of expressions.
 //  []typ{elems}
 func NewList(typ types.Type, elems ...*Expr) *Expr {
-	for i, e := range elems {
-		e.RightArrow = nil
-		if i == 0 {
-			e.Comma = nil
-		} else if e.Comma == nil {
-			e.Comma = newComma()
-		}
-	}
+	elems = asParams(elems)
 	return &Expr{
 		List: &List{
 			Type:       typ,
-- 
2.43.0


From f2550263d0c73a267699d023fba0ff183c0fa505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:44 +0000
Subject: [PATCH 48/50] fix: a value built from a variable and a constant of
 another type is not a comparison

Value turned eq($int, "a") into == "a", which compares the string value, and
regex($string, "a") into ~= "a", which swaps the expression and the input.
As text both are errors.
---
 relapse/combinator/funcs.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/relapse/combinator/funcs.go b/relapse/combinator/funcs.go
index f6d6579..a77e70a 100644
--- a/relapse/combinator/funcs.go
+++ b/relapse/combinator/funcs.go
@@ -16,6 +16,7 @@ package combinator
 
 import (
 	"github.com/katydid/katydid/relapse/ast"
+	"github.com/katydid/katydid/relapse/compose"
 	"github.com/katydid/katydid/relapse/parser"
 	"github.com/katydid/katydid/relapse/types"
 )
@@ -27,13 +28,11 @@ func Value(expr *ast.Expr) *ast.Pattern {
 		if constructor != nil {
 			p1 := expr.Function.Params[0]
 			p2 := expr.Function.Params[1]
-			if p1.Terminal != nil && p1.Terminal.Variable != nil &&
-				p2.Terminal != nil && p2.Terminal.Variable == nil {
+			if isVariableOf(p1, p2) && expr.Function.Name != "regex" {
 				p := p2.Clone()
 				p.Comma = nil
 				expr = constructor(p)
-			} else if p2.Terminal != nil && p2.Terminal.Variable != nil &&
-				p1.Terminal != nil && p1.Terminal.Variable == nil {
+			} else if isVariableOf(p2, p1) {
 				if flipped := flip(expr.Function.Name); flipped != nil {
 					p := p1.Clone()
 					p.Comma = nil
@@ -49,6 +48,16 @@ func Value(expr *ast.Expr) *ast.Pattern {
 	return ast.NewLeafNode(e)
 }
 
+//isVariableOf returns whether the first expression is a variable and the second a constant of the same type.
+//The builtin, which only holds the constant, takes the type of the variable from the constant.
+func isVariableOf(v, c *ast.Expr) bool {
+	if v.GetTerminal().GetVariable() == nil || c.Terminal == nil || c.Terminal.Variable != nil {
+		return false
+	}
+	typ, err := compose.Which(c)
+	return err == nil && typ == v.Terminal.Variable.Type
+}
+
 //flip returns the builtin constructor for the given function name, when the variable is the second parameter.
 //It returns nil when there is no builtin for this parameter order.
 func flip(name string) func(*ast.Expr) *ast.Expr {
-- 
2.43.0


From 7300421dcf795f878a76fd7261b24cb25d6f87d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:23 +0000
Subject: [PATCH 49/50] fix: setting a context reaches the functions inside of
 a zero or more pattern

---
 relapse/intern/context.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/relapse/intern/context.go b/relapse/intern/context.go
index 7238cec..83c2451 100644
--- a/relapse/intern/context.go
+++ b/relapse/intern/context.go
@@ -46,7 +46,7 @@ func (c *construct) setContext(p *Pattern) {
 			c.setContext(pp)
 		}
 	case ZeroOrMore:
-		return
+		c.setContext(p.Patterns[0])
 	case Reference:
 		return
 	case Not:
-- 
2.43.0


From 2d48ddf842146969876533c33f1138106c22fe2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:11 +0000
Subject: [PATCH 50/50] fix: a list or function without parameters has no
 parameters, as it has when it is parsed

---
 relapse/ast/new.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/relapse/ast/new.go b/relapse/ast/new.go
index c6bda17..4d0794e 100644
--- a/relapse/ast/new.go
+++ b/relapse/ast/new.go
@@ -364,6 +364,9 @@ func newInterleave(patterns []*Pattern) *Pattern {
 //asParams returns copies of the expressions with the punctuation of a list of parameters.
 //The given expressions are not modified, since they can also be in use somewhere else.
 func asParams(exprs []*Expr) []*Expr {
+	if len(exprs) == 0 {
+		return nil
+	}
 	params := make([]*Expr, len(exprs))
 	for i, e := range exprs {
 		p := *e
-- 
2.43.0

