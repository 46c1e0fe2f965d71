From 73a5dfde2fad619ae89131c1f37ea715ad9ae61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:22 +0000
Subject: [PATCH 01/64] fix: negating a comparison keeps its exact complement

not(eq(...)) was rewritten to ne(...), but both are false on a label without
the compared type, so !(name) did not match labels of another type.
---
 relapse/funcs/logic.go | 57 +++++++++++++++++++++++-------------------
 1 file changed, 31 insertions(+), 26 deletions(-)

diff --git a/relapse/funcs/logic.go b/relapse/funcs/logic.go
index f2cdfde..438a758 100644
--- a/relapse/funcs/logic.go
+++ b/relapse/funcs/logic.go
@@ -30,32 +30,6 @@ func Not(v1 Bool) Bool {
 	if vv, ok := v1.(*or); ok {
 		return And(Not(vv.V1), Not(vv.V2))
 	}
-	switch vv := v1.(type) {
-	case *boolEq:
-		return BoolNe(vv.V1, vv.V2)
-	case *bytesEq:
-		return BytesNe(vv.V1, vv.V2)
-	case *doubleEq:
-		return DoubleNe(vv.V1, vv.V2)
-	case *intEq:
-		return IntNe(vv.V1, vv.V2)
-	case *stringEq:
-		return StringNe(vv.V1, vv.V2)
-	case *uintEq:
-		return UintNe(vv.V1, vv.V2)
-	case *boolNe:
-		return BoolEq(vv.V1, vv.V2)
-	case *bytesNe:
-		return BytesEq(vv.V1, vv.V2)
-	case *doubleNe:
-		return DoubleEq(vv.V1, vv.V2)
-	case *intNe:
-		return IntEq(vv.V1, vv.V2)
-	case *stringNe:
-		return StringEq(vv.V1, vv.V2)
-	case *uintNe:
-		return UintEq(vv.V1, vv.V2)
-	}
 	return TrimBool(&not{
 		V1:          v1,
 		hash:        hashWithId(23, v1),
@@ -109,6 +83,31 @@ func init() {
 	Register("not", Not)
 }
 
+//areDisjoint returns whether both functions compare the variable to a constant and the constants are different.
+func areDisjoint(v1, v2 Bool) bool {
+	switch vv1 := v1.(type) {
+	case *stringEq:
+		if vv2, ok := v2.(*stringEq); ok {
+			c1, ok1 := isVarConst(vv1.V1, vv1.V2)
+			c2, ok2 := isVarConst(vv2.V1, vv2.V2)
+			return ok1 && ok2 && !Equal(c1, c2)
+		}
+	case *intEq:
+		if vv2, ok := v2.(*intEq); ok {
+			c1, ok1 := isVarConst(vv1.V1, vv1.V2)
+			c2, ok2 := isVarConst(vv2.V1, vv2.V2)
+			return ok1 && ok2 && !Equal(c1, c2)
+		}
+	case *uintEq:
+		if vv2, ok := v2.(*uintEq); ok {
+			c1, ok1 := isVarConst(vv1.V1, vv1.V2)
+			c2, ok2 := isVarConst(vv2.V1, vv2.V2)
+			return ok1 && ok2 && !Equal(c1, c2)
+		}
+	}
+	return false
+}
+
 //And returns a new and function with the two input functions as its parameters.
 func And(v1, v2 Bool) Bool {
 	if l, ok := v1.(*constBool); ok {
@@ -138,6 +137,12 @@ func And(v1, v2 Bool) Bool {
 			return BoolConst(false)
 		}
 	}
+	if l, ok := v1.(*not); ok && areDisjoint(l.V1, v2) {
+		return v2
+	}
+	if r, ok := v2.(*not); ok && areDisjoint(v1, r.V1) {
+		return v1
+	}
 	switch vv1 := v1.(type) {
 	case *stringEq:
 		if vv2, ok := v2.(*stringEq); ok {
-- 
2.43.0


From d961afaf193593c768b671ea551759219e558fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:08 +0000
Subject: [PATCH 02/64] fix: simplifying a value expression keeps its meaning

The simplifier printed the composed function and parsed the text again, but
the text of some functions reads back as another function: ge(1,$int) was
printed as >= 1, doubles lost precision and patterns were not quoted.
---
 relapse/interp/simplify.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/relapse/interp/simplify.go b/relapse/interp/simplify.go
index f8eede6..d976e42 100644
--- a/relapse/interp/simplify.go
+++ b/relapse/interp/simplify.go
@@ -127,12 +127,20 @@ func (this *simplifier) simplify(p *ast.Pattern, top bool) *ast.Pattern {
 		if funcs.IsFalse(b) {
 			return emptyset
 		}
-		e, err := parser.ParseExpr(funcs.Sprint(b))
-		if err != nil {
-			//Don't simplify if there is an error to keep this function signature simple.
-			return p
+		for _, s := range []string{funcs.Sprint(b), "->" + b.String()} {
+			e, err := parser.ParseExpr(s)
+			if err != nil {
+				continue
+			}
+			//Only use the printed expression if it is read back as the same function.
+			bb, err := compose.NewBool(e)
+			if err != nil || !funcs.Equal(b, bb) {
+				continue
+			}
+			return ast.NewLeafNode(e)
 		}
-		return ast.NewLeafNode(e)
+		//Don't simplify if there is an error to keep this function signature simple.
+		return p
 	case *ast.Concat:
 		return cRef(simplifyConcat(
 			simp(v.GetLeftPattern()),
-- 
2.43.0


From 2792f5fb327188158f85996a61f6c469da21e527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:11 +0000
Subject: [PATCH 03/64] fix: negative list indexes count from the end instead
 of panicking

elem and range reduced a negative index modulo the length of the list, which
in Go stays negative, and then indexed the list with it.
---
 relapse/funcs/elem.gen.go       | 18 +++++++++++++++++
 relapse/funcs/funcs-gen/main.go |  9 +++++++++
 relapse/funcs/range.gen.go      | 36 +++++++++++++++++++++++++++++++++
 3 files changed, 63 insertions(+)

diff --git a/relapse/funcs/elem.gen.go b/relapse/funcs/elem.gen.go
index f6f8bb7..85cac00 100644
--- a/relapse/funcs/elem.gen.go
+++ b/relapse/funcs/elem.gen.go
@@ -27,6 +27,9 @@ func (this *elemDoubles) Eval() (float64, error) {
 	}
 	if index < 0 {
 		index = index % len(list)
+		if index < 0 {
+			index += len(list)
+		}
 	}
 	if len(list) <= index {
 		return 0, NewRangeCheckErr(index, len(list))
@@ -101,6 +104,9 @@ func (this *elemInts) Eval() (int64, error) {
 	}
 	if index < 0 {
 		index = index % len(list)
+		if index < 0 {
+			index += len(list)
+		}
 	}
 	if len(list) <= index {
 		return 0, NewRangeCheckErr(index, len(list))
@@ -175,6 +181,9 @@ func (this *elemUints) Eval() (uint64, error) {
 	}
 	if index < 0 {
 		index = index % len(list)
+		if index < 0 {
+			index += len(list)
+		}
 	}
 	if len(list) <= index {
 		return 0, NewRangeCheckErr(index, len(list))
@@ -249,6 +258,9 @@ func (this *elemBools) Eval() (bool, error) {
 	}
 	if index < 0 {
 		index = index % len(list)
+		if index < 0 {
+			index += len(list)
+		}
 	}
 	if len(list) <= index {
 		return false, NewRangeCheckErr(index, len(list))
@@ -323,6 +335,9 @@ func (this *elemStrings) Eval() (string, error) {
 	}
 	if index < 0 {
 		index = index % len(list)
+		if index < 0 {
+			index += len(list)
+		}
 	}
 	if len(list) <= index {
 		return "", NewRangeCheckErr(index, len(list))
@@ -397,6 +412,9 @@ func (this *elemListOfBytes) Eval() ([]byte, error) {
 	}
 	if index < 0 {
 		index = index % len(list)
+		if index < 0 {
+			index += len(list)
+		}
 	}
 	if len(list) <= index {
 		return nil, NewRangeCheckErr(index, len(list))
diff --git a/relapse/funcs/funcs-gen/main.go b/relapse/funcs/funcs-gen/main.go
index 22dcdf1..3564c58 100644
--- a/relapse/funcs/funcs-gen/main.go
+++ b/relapse/funcs/funcs-gen/main.go
@@ -439,6 +439,9 @@ func (this *elem{{.ListType}}) Eval() ({{.ReturnType}}, error) {
 	}
 	if index < 0 {
 		index = index % len(list)
+		if index < 0 {
+			index += len(list)
+		}
 	}
 	if len(list) <= index {
 		return {{.Default}}, NewRangeCheckErr(index, len(list))
@@ -527,6 +530,9 @@ func (this *range{{.ListType}}) Eval() ({{.ReturnType}}, error) {
 	}
 	if first < 0 {
 		first = first % len(list)
+		if first < 0 {
+			first += len(list)
+		}
 	}
 	if first > len(list) {
 		return nil, NewRangeCheckErr(first, len(list))
@@ -538,6 +544,9 @@ func (this *range{{.ListType}}) Eval() ({{.ReturnType}}, error) {
 	last := int(last64)
 	if last < 0 {
 		last = last % len(list)
+		if last < 0 {
+			last += len(list)
+		}
 	}
 	if last > len(list) {
 		return nil, NewRangeCheckErr(last, len(list))
diff --git a/relapse/funcs/range.gen.go b/relapse/funcs/range.gen.go
index a38d2c7..297e227 100644
--- a/relapse/funcs/range.gen.go
+++ b/relapse/funcs/range.gen.go
@@ -28,6 +28,9 @@ func (this *rangeDoubles) Eval() ([]float64, error) {
 	}
 	if first < 0 {
 		first = first % len(list)
+		if first < 0 {
+			first += len(list)
+		}
 	}
 	if first > len(list) {
 		return nil, NewRangeCheckErr(first, len(list))
@@ -39,6 +42,9 @@ func (this *rangeDoubles) Eval() ([]float64, error) {
 	last := int(last64)
 	if last < 0 {
 		last = last % len(list)
+		if last < 0 {
+			last += len(list)
+		}
 	}
 	if last > len(list) {
 		return nil, NewRangeCheckErr(last, len(list))
@@ -121,6 +127,9 @@ func (this *rangeInts) Eval() ([]int64, error) {
 	}
 	if first < 0 {
 		first = first % len(list)
+		if first < 0 {
+			first += len(list)
+		}
 	}
 	if first > len(list) {
 		return nil, NewRangeCheckErr(first, len(list))
@@ -132,6 +141,9 @@ func (this *rangeInts) Eval() ([]int64, error) {
 	last := int(last64)
 	if last < 0 {
 		last = last % len(list)
+		if last < 0 {
+			last += len(list)
+		}
 	}
 	if last > len(list) {
 		return nil, NewRangeCheckErr(last, len(list))
@@ -214,6 +226,9 @@ func (this *rangeUints) Eval() ([]uint64, error) {
 	}
 	if first < 0 {
 		first = first % len(list)
+		if first < 0 {
+			first += len(list)
+		}
 	}
 	if first > len(list) {
 		return nil, NewRangeCheckErr(first, len(list))
@@ -225,6 +240,9 @@ func (this *rangeUints) Eval() ([]uint64, error) {
 	last := int(last64)
 	if last < 0 {
 		last = last % len(list)
+		if last < 0 {
+			last += len(list)
+		}
 	}
 	if last > len(list) {
 		return nil, NewRangeCheckErr(last, len(list))
@@ -307,6 +325,9 @@ func (this *rangeBools) Eval() ([]bool, error) {
 	}
 	if first < 0 {
 		first = first % len(list)
+		if first < 0 {
+			first += len(list)
+		}
 	}
 	if first > len(list) {
 		return nil, NewRangeCheckErr(first, len(list))
@@ -318,6 +339,9 @@ func (this *rangeBools) Eval() ([]bool, error) {
 	last := int(last64)
 	if last < 0 {
 		last = last % len(list)
+		if last < 0 {
+			last += len(list)
+		}
 	}
 	if last > len(list) {
 		return nil, NewRangeCheckErr(last, len(list))
@@ -400,6 +424,9 @@ func (this *rangeStrings) Eval() ([]string, error) {
 	}
 	if first < 0 {
 		first = first % len(list)
+		if first < 0 {
+			first += len(list)
+		}
 	}
 	if first > len(list) {
 		return nil, NewRangeCheckErr(first, len(list))
@@ -411,6 +438,9 @@ func (this *rangeStrings) Eval() ([]string, error) {
 	last := int(last64)
 	if last < 0 {
 		last = last % len(list)
+		if last < 0 {
+			last += len(list)
+		}
 	}
 	if last > len(list) {
 		return nil, NewRangeCheckErr(last, len(list))
@@ -493,6 +523,9 @@ func (this *rangeListOfBytes) Eval() ([][]byte, error) {
 	}
 	if first < 0 {
 		first = first % len(list)
+		if first < 0 {
+			first += len(list)
+		}
 	}
 	if first > len(list) {
 		return nil, NewRangeCheckErr(first, len(list))
@@ -504,6 +537,9 @@ func (this *rangeListOfBytes) Eval() ([][]byte, error) {
 	last := int(last64)
 	if last < 0 {
 		last = last % len(list)
+		if last < 0 {
+			last += len(list)
+		}
 	}
 	if last > len(list) {
 		return nil, NewRangeCheckErr(last, len(list))
-- 
2.43.0


From b9c8cfa7a1390a043b8d5348f1653798ad46880a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:36 +0000
Subject: [PATCH 04/64] fix: simplifying an interleave keeps equal operands

{a:*;a:*} matches two nodes, but the simplifier removed duplicate operands as
if interleave were idempotent.
---
 relapse/interp/order.go    | 22 ++++++++++++++++------
 relapse/interp/simplify.go |  3 ++-
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/relapse/interp/order.go b/relapse/interp/order.go
index d105e8f..394a8e1 100644
--- a/relapse/interp/order.go
+++ b/relapse/interp/order.go
@@ -49,12 +49,13 @@ func (ps *sortable) Less(i, j int) bool {
 	return ps.list[i].GetTreeNode() == nil
 }
 
-// orderedSet creates a stable order, while taking into account treenodes and removing duplicates.
-func orderedSet(ps []*ast.Pattern) []*ast.Pattern {
-	if len(ps) == 0 || len(ps) == 1 {
-		return ps
-	}
+// ordered creates a stable order, while taking into account treenodes.
+func ordered(ps []*ast.Pattern) []*ast.Pattern {
+	sort.Sort(newSortable(ps))
+	return ps
+}
 
+func newSortable(ps []*ast.Pattern) *sortable {
 	hashes := make([]uint64, len(ps))
 	for i, p := range ps {
 		if p.GetTreeNode() == nil {
@@ -63,9 +64,18 @@ func orderedSet(ps []*ast.Pattern) []*ast.Pattern {
 			hashes[i] = p.GetTreeNode().GetPattern().Hash()
 		}
 	}
+	return &sortable{hashes, ps}
+}
+
+// orderedSet creates a stable order, while taking into account treenodes and removing duplicates.
+func orderedSet(ps []*ast.Pattern) []*ast.Pattern {
+	if len(ps) == 0 || len(ps) == 1 {
+		return ps
+	}
 
-	sortable := &sortable{hashes, ps}
+	sortable := newSortable(ps)
 	sort.Sort(sortable)
+	hashes := sortable.hashes
 
 	u := 0
 	for i := 1; i < len(ps); i++ {
diff --git a/relapse/interp/simplify.go b/relapse/interp/simplify.go
index d976e42..a492954 100644
--- a/relapse/interp/simplify.go
+++ b/relapse/interp/simplify.go
@@ -388,7 +388,8 @@ func simplifyInterleave(refs ast.RefLookup, p1, p2 *ast.Pattern) *ast.Pattern {
 	}
 	left := getInterleaves(p1)
 	right := getInterleaves(p2)
-	list := orderedSet(append(left, right...))
+	//An interleave is not idempotent, so duplicates are kept.
+	list := ordered(append(left, right...))
 	var p *ast.Pattern = list[0]
 	for i := range list {
 		if i == 0 {
-- 
2.43.0


From 1f5ca8666a6be9f1f52d318c0eb97cac6c8692f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:50 +0000
Subject: [PATCH 05/64] fix: NewHasSuffix builds the has suffix notation

It built *=, which is contains.
---
 relapse/ast/keywords.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/relapse/ast/keywords.go b/relapse/ast/keywords.go
index 0cd3c2a..ac76cdc 100644
--- a/relapse/ast/keywords.go
+++ b/relapse/ast/keywords.go
@@ -82,7 +82,7 @@ func newCaretEqual() *Keyword {
 
 func newDollarEqual() *Keyword {
 	return &Keyword{
-		Value: "*=",
+		Value: "$=",
 	}
 }
 
-- 
2.43.0


From 524b752ef6bf64ef83079daa9c933884bec04767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:00 +0000
Subject: [PATCH 06/64] fix: HasRecursion no longer reports references that are
 only used twice

---
 relapse/interp/recursion.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/relapse/interp/recursion.go b/relapse/interp/recursion.go
index ea1672d..77b91d9 100644
--- a/relapse/interp/recursion.go
+++ b/relapse/interp/recursion.go
@@ -31,19 +31,28 @@ import (
 func HasRecursion(g *ast.Grammar) bool {
 	refs := ast.NewRefLookup(g)
 	for name := range refs {
-		visited := make(map[*ast.Pattern]bool)
-		if hasRecursion(visited, refs, refs[name]) {
+		if hasRecursion(make(map[*ast.Pattern]bool), refs, refs[name]) {
 			return true
 		}
 	}
 	return false
 }
 
+//hasRecursion returns whether a pattern that is still being visited can be reached again.
+//A pattern in visited is still being visited when its value is true and has been found to not be recursive when its value is false.
 func hasRecursion(visited map[*ast.Pattern]bool, refs ast.RefLookup, p *ast.Pattern) bool {
-	if _, ok := visited[p]; ok {
-		return true
+	if visiting, ok := visited[p]; ok {
+		return visiting
 	}
 	visited[p] = true
+	if hasRecursiveChild(visited, refs, p) {
+		return true
+	}
+	visited[p] = false
+	return false
+}
+
+func hasRecursiveChild(visited map[*ast.Pattern]bool, refs ast.RefLookup, p *ast.Pattern) bool {
 	typ := p.GetValue()
 	switch v := typ.(type) {
 	case *ast.Empty:
-- 
2.43.0


From 0d83d6489f46d46953d5d03a97c869c117f68f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:02 +0000
Subject: [PATCH 07/64] fix: simplifying a pattern leaves the original
 pattern's expressions unmodified

---
 relapse/interp/simplify.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/relapse/interp/simplify.go b/relapse/interp/simplify.go
index a492954..bb652a7 100644
--- a/relapse/interp/simplify.go
+++ b/relapse/interp/simplify.go
@@ -239,10 +239,11 @@ func simplifyOr(refs ast.RefLookup, p1, p2 *ast.Pattern, record bool) *ast.Patte
 		return p1
 	}
 	if p1.GetLeafNode() != nil && p2.GetLeafNode() != nil {
+		//NewFunction modifies its parameters, which are possibly still part of the original pattern.
 		expr1, err1 := compose.ConvertBuiltInIntoFunction(p1.GetLeafNode().GetExpr())
 		expr2, err2 := compose.ConvertBuiltInIntoFunction(p2.GetLeafNode().GetExpr())
 		if err1 == nil && err2 == nil {
-			return ast.NewLeafNode(ast.NewFunction("or", expr1, expr2))
+			return ast.NewLeafNode(ast.NewFunction("or", expr1.Clone(), expr2.Clone()))
 		}
 	}
 	left := getOrs(p1)
@@ -323,10 +324,11 @@ func simplifyAnd(refs ast.RefLookup, p1, p2 *ast.Pattern, record bool) *ast.Patt
 		}
 	}
 	if p1.GetLeafNode() != nil && p2.GetLeafNode() != nil {
+		//NewFunction modifies its parameters, which are possibly still part of the original pattern.
 		expr1, err1 := compose.ConvertBuiltInIntoFunction(p1.GetLeafNode().GetExpr())
 		expr2, err2 := compose.ConvertBuiltInIntoFunction(p2.GetLeafNode().GetExpr())
 		if err1 == nil && err2 == nil {
-			return ast.NewLeafNode(ast.NewFunction("and", expr1, expr2))
+			return ast.NewLeafNode(ast.NewFunction("and", expr1.Clone(), expr2.Clone()))
 		}
 	}
 	left := getAnds(p1)
-- 
2.43.0


From 4bb77b336060833947f08686552d0241102eb9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:57 +0000
Subject: [PATCH 08/64] verif: a limit on the states of a compilation, guarded
 by the build tag verif

---
 relapse/auto/compile.go     |  3 +++
 relapse/auto/limit.go       | 22 ++++++++++++++++++++++
 relapse/auto/limit_verif.go | 33 +++++++++++++++++++++++++++++++++
 3 files changed, 58 insertions(+)
 create mode 100644 relapse/auto/limit.go
 create mode 100644 relapse/auto/limit_verif.go

diff --git a/relapse/auto/compile.go b/relapse/auto/compile.go
index ac15054..7ae337f 100644
--- a/relapse/auto/compile.go
+++ b/relapse/auto/compile.go
@@ -99,6 +99,9 @@ func compile(c *compiler, patterns int) error {
 		for {
 			nullIndex := c.nullables.Add(possibleNullables)
 			c.getReturn(call.stackIndex, nullIndex)
+			if exploded(c) {
+				return ErrTooManyStates
+			}
 			if possibleNullables.Equal(maxPossibleNullables) {
 				break
 			}
diff --git a/relapse/auto/limit.go b/relapse/auto/limit.go
new file mode 100644
index 0000000..dede97a
--- /dev/null
+++ b/relapse/auto/limit.go
@@ -0,0 +1,22 @@
+//  Copyright 2016 Walter Schulze
+//
+//  Licensed under the Apache License, Version 2.0 (the "License");
+//  you may not use this file except in compliance with the License.
+//  You may obtain a copy of the License at
+//
+//    http://www.apache.org/licenses/LICENSE-2.0
+//
+//  Unless required by applicable law or agreed to in writing, software
+//  distributed under the License is distributed on an "AS IS" BASIS,
+//  WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+//  See the License for the specific language governing permissions and
+//  limitations under the License.
+
+//go:build !verif
+// +build !verif
+
+package auto
+
+func exploded(c *compiler) bool {
+	return false
+}
diff --git a/relapse/auto/limit_verif.go b/relapse/auto/limit_verif.go
new file mode 100644
index 0000000..8c5e0aa
--- /dev/null
+++ b/relapse/auto/limit_verif.go
@@ -0,0 +1,33 @@
+//  Copyright 2016 Walter Schulze
+//
+//  Licensed under the Apache License, Version 2.0 (the "License");
+//  you may not use this file except in compliance with the License.
+//  You may obtain a copy of the License at
+//
+//    http://www.apache.org/licenses/LICENSE-2.0
+//
+//  Unless required by applicable law or agreed to in writing, software
+//  distributed under the License is distributed on an "AS IS" BASIS,
+//  WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+//  See the License for the specific language governing permissions and
+//  limitations under the License.
+
+//go:build verif
+// +build verif
+
+package auto
+
+//VerifLimit bounds the number of states and transitions that a compilation may reach before it returns ErrTooManyStates.
+//Zero means no bound.  It only exists with the build tag verif.
+var VerifLimit = 0
+
+func exploded(c *compiler) bool {
+	if VerifLimit == 0 {
+		return false
+	}
+	n := len(c.patterns)
+	for _, r := range c.returns {
+		n += len(r)
+	}
+	return n > VerifLimit
+}
-- 
2.43.0


From 0288fcf27e3e2453a3153df0370b7eb7ff9c3a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:33 +0000
Subject: [PATCH 09/64] fix: compiling an automaton keeps the complement of an
 implied condition

---
 relapse/auto/ifs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/relapse/auto/ifs.go b/relapse/auto/ifs.go
index 66225e1..bc3c854 100644
--- a/relapse/auto/ifs.go
+++ b/relapse/auto/ifs.go
@@ -113,8 +113,8 @@ func (this *ifExprs) addIfExpr(cond funcs.Bool, then, els *ast.Pattern) {
 	}
 	// remove impossible (always false) else condition
 	if funcs.IsFalse(funcs.And(this.cond, funcs.Not(cond))) {
-		this.then.addIfExpr(cond, then, els)
-		this.els.addReturn(then)
+		this.then.addReturn(then)
+		this.els.addIfExpr(cond, then, els)
 		return
 	}
 	this.then.addIfExpr(cond, then, els)
-- 
2.43.0


From dfef32c363b4793f043d891c2b994272f4ee75bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:53 +0000
Subject: [PATCH 10/64] fix: comparing single constants is a total order with
 the other functions

---
 relapse/funcs/const.go | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/relapse/funcs/const.go b/relapse/funcs/const.go
index e0c73ff..2dfa0e0 100644
--- a/relapse/funcs/const.go
+++ b/relapse/funcs/const.go
@@ -39,6 +39,12 @@ func (this *constString) aConst() {}
 func (this *constUint) aConst()   {}
 
 func (this *constDouble) Compare(that Comparable) int {
+	if this.Hash() != that.Hash() {
+		if this.Hash() < that.Hash() {
+			return -1
+		}
+		return 1
+	}
 	if other, ok := that.(*constDouble); ok {
 		if this.v != other.v {
 			if this.v < other.v {
@@ -52,6 +58,12 @@ func (this *constDouble) Compare(that Comparable) int {
 }
 
 func (this *constInt) Compare(that Comparable) int {
+	if this.Hash() != that.Hash() {
+		if this.Hash() < that.Hash() {
+			return -1
+		}
+		return 1
+	}
 	if other, ok := that.(*constInt); ok {
 		if this.v != other.v {
 			if this.v < other.v {
@@ -65,6 +77,12 @@ func (this *constInt) Compare(that Comparable) int {
 }
 
 func (this *constUint) Compare(that Comparable) int {
+	if this.Hash() != that.Hash() {
+		if this.Hash() < that.Hash() {
+			return -1
+		}
+		return 1
+	}
 	if other, ok := that.(*constUint); ok {
 		if this.v != other.v {
 			if this.v < other.v {
@@ -78,6 +96,12 @@ func (this *constUint) Compare(that Comparable) int {
 }
 
 func (this *constBool) Compare(that Comparable) int {
+	if this.Hash() != that.Hash() {
+		if this.Hash() < that.Hash() {
+			return -1
+		}
+		return 1
+	}
 	if other, ok := that.(*constBool); ok {
 		if this.v != other.v {
 			if !this.v {
@@ -91,6 +115,12 @@ func (this *constBool) Compare(that Comparable) int {
 }
 
 func (this *constString) Compare(that Comparable) int {
+	if this.Hash() != that.Hash() {
+		if this.Hash() < that.Hash() {
+			return -1
+		}
+		return 1
+	}
 	if other, ok := that.(*constString); ok {
 		return strings.Compare(this.v, other.v)
 	}
@@ -98,6 +128,12 @@ func (this *constString) Compare(that Comparable) int {
 }
 
 func (this *constBytes) Compare(that Comparable) int {
+	if this.Hash() != that.Hash() {
+		if this.Hash() < that.Hash() {
+			return -1
+		}
+		return 1
+	}
 	if other, ok := that.(*constBytes); ok {
 		return bytes.Compare(this.v, other.v)
 	}
-- 
2.43.0


From 0f7c3fecc6e1fc26a7d08d5bd7e2278b34d513d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:27 +0000
Subject: [PATCH 11/64] fix: literals denote the value they spell or are an
 error

---
 relapse/ast/util.go | 132 +++++++++++++++++++++++---------------------
 1 file changed, 68 insertions(+), 64 deletions(-)

diff --git a/relapse/ast/util.go b/relapse/ast/util.go
index 3dcc395..7866d43 100644
--- a/relapse/ast/util.go
+++ b/relapse/ast/util.go
@@ -19,9 +19,9 @@ import (
 	"github.com/gogo/protobuf/proto"
 	"github.com/katydid/katydid/relapse/token"
 	"github.com/katydid/katydid/relapse/types"
+	"math/big"
 	"strconv"
 	"strings"
-	"unicode/utf8"
 )
 
 //NewKeyword is a parser utility function that returns a Keyword given a space and a token.
@@ -95,8 +95,13 @@ func NewBoolTerminal(v interface{}) *Terminal {
 
 //NewStringTerminal is a parser utility function that returns a Terminal of type string given a string literal.
 //The input string is also unquoted.
+//An error is returned, if the string literal does not denote a string.
 func NewStringTerminal(slit string) (*Terminal, error) {
-	return &Terminal{StringValue: proto.String(ToString(slit)), Literal: slit}, nil
+	v, err := strconv.Unquote(slit)
+	if err != nil {
+		return nil, fmt.Errorf("invalid string literal %s: %v", slit, err)
+	}
+	return &Terminal{StringValue: proto.String(v), Literal: slit}, nil
 }
 
 //ToString unquotes a quoted string or returns the original string.
@@ -108,9 +113,14 @@ func ToString(s1 string) string {
 	return s
 }
 
-//NewIntTerminal is a parser utility function that parses the int value out of the input string and returns a Terminal of type int.
+//NewIntTerminal is a parser utility function that parses the decimal, octal or hexadecimal int value out of the input string and returns a Terminal of type int.
+//An error is returned, if the value is not an int64.
 func NewIntTerminal(slit string) (*Terminal, error) {
-	return &Terminal{IntValue: ToInt64(Strip(slit, "int")), Literal: slit}, nil
+	v, err := strconv.ParseInt(string(Strip(slit, "int")), 0, 64)
+	if err != nil {
+		return nil, fmt.Errorf("invalid int literal %s: %v", slit, err)
+	}
+	return &Terminal{IntValue: proto.Int64(v), Literal: slit}, nil
 }
 
 //ToInt64 is a parser utility function that returns a pointer to a parsed an int64 or panics.
@@ -122,9 +132,14 @@ func ToInt64(tok []byte) *int64 {
 	return &i
 }
 
-//NewUintTerminal is a parser utility function that parses the uint value out of the input string and returns a Terminal of type uint.
+//NewUintTerminal is a parser utility function that parses the decimal, octal or hexadecimal uint value out of the input string and returns a Terminal of type uint.
+//An error is returned, if the value is not an uint64.
 func NewUintTerminal(slit string) (*Terminal, error) {
-	return &Terminal{UintValue: ToUint64(Strip(slit, "uint")), Literal: slit}, nil
+	v, err := strconv.ParseUint(string(Strip(slit, "uint")), 0, 64)
+	if err != nil {
+		return nil, fmt.Errorf("invalid uint literal %s: %v", slit, err)
+	}
+	return &Terminal{UintValue: proto.Uint64(v), Literal: slit}, nil
 }
 
 //ToUint64 is a parser utility function that returns a pointer to a parsed an uint64 or panics.
@@ -137,8 +152,27 @@ func ToUint64(tok []byte) *uint64 {
 }
 
 //NewDoubleTerminal is a parser utility function that parses the double value out of the input string and returns a Terminal of type double.
+//The value is a float or a decimal, octal or hexadecimal integer.
+//An error is returned, if the value is not a float64.
 func NewDoubleTerminal(slit string) (*Terminal, error) {
-	return &Terminal{DoubleValue: ToFloat64(Strip(slit, "double")), Literal: slit}, nil
+	s := string(Strip(slit, "double"))
+	if digits := strings.TrimPrefix(s, "-"); len(digits) > 1 && digits[0] == '0' && !isFloat(digits) {
+		i, ok := new(big.Int).SetString(s, 0)
+		if !ok {
+			return nil, fmt.Errorf("invalid double literal %s", slit)
+		}
+		s = i.String()
+	}
+	v, err := strconv.ParseFloat(s, 64)
+	if err != nil {
+		return nil, fmt.Errorf("invalid double literal %s: %v", slit, err)
+	}
+	return &Terminal{DoubleValue: proto.Float64(v), Literal: slit}, nil
+}
+
+//isFloat returns whether the digits of a literal has a fraction or an exponent and is not an integer, where a hexadecimal integer can have the digit e.
+func isFloat(digits string) bool {
+	return !strings.HasPrefix(digits, "0x") && !strings.HasPrefix(digits, "0X") && strings.ContainsAny(digits, ".eE")
 }
 
 //ToFloat64 is a parser utility function that returns a pointer to a parsed an float64 or panics.
@@ -160,79 +194,49 @@ func NewBytesTerminal(stringLit string) (*Terminal, error) {
 }
 
 func parseBytes(s string) ([]byte, error) {
-	byteElems := strings.Split(s[strings.Index(s, "{")+1:strings.LastIndex(s, "}")], ",")
-	data := make([]byte, 0, len(byteElems))
-	for _, b := range byteElems {
-		s := strings.TrimSpace(b)
-		if len(s) == 0 {
-			continue
+	rest := s[strings.Index(s, "{")+1 : strings.LastIndex(s, "}")]
+	data := []byte{}
+	for {
+		rest = strings.TrimLeft(rest, bytesSpace)
+		if len(rest) == 0 {
+			return data, nil
 		}
-		d, err := parseByte(s)
+		d, r, err := parseByte(rest)
 		if err != nil {
 			return nil, err
 		}
 		data = append(data, d)
+		rest = strings.TrimPrefix(strings.TrimLeft(r, bytesSpace), ",")
 	}
-	return data, nil
 }
 
-func hexToByte(c byte) byte {
-	if 'a' <= c && c <= 'f' {
-		return c - 'a' + 10
-	}
-	if 'A' <= c && c <= 'F' {
-		return c - 'A' + 10
-	}
-	return c - '0'
-}
+const bytesSpace = " \t\n\r"
 
-func hexesToByte(a byte, b byte) byte {
-	aa, bb := hexToByte(a), hexToByte(b)
-	return byte(aa*16 + bb)
-}
-
-func parseByte(s string) (byte, error) {
+//parseByte parses the first element of the list of bytes and also returns the rest of the list.
+func parseByte(s string) (byte, string, error) {
 	if s[0] == '\'' {
-		r, _ := utf8.DecodeRune([]byte(s)[1:])
-		if r <= 255 {
-			return byte(r), nil
+		quote := byte(0)
+		if strings.HasPrefix(s[1:], "\\'") || strings.HasPrefix(s[1:], "\\\"") {
+			quote = s[2]
 		}
-		return 0, fmt.Errorf("rune too large %v", r)
-	} else if s[0] == '0' {
-		if len(s) == 1 {
-			return 0, nil
+		c, _, r, err := strconv.UnquoteChar(s[1:], quote)
+		if err != nil || !strings.HasPrefix(r, "'") {
+			return 0, "", fmt.Errorf("invalid char in %s", s)
 		}
-		if s[1] == 'x' || s[1] == 'X' {
-			if len(s) == 4 {
-				return hexesToByte(s[2], s[3]), nil
-			} else if len(s) == 3 {
-				return hexToByte(s[2]), nil
-			}
-			return 0, fmt.Errorf("not a hex digit %v", s)
-		} else {
-			switch len(s) {
-			case 4:
-				o := (int(s[1]-'0') * 64) + (int(s[2]-'0') * 8) + int(s[3]-'0')
-				if o >= 255 {
-					return 0, fmt.Errorf("octal too large %d", o)
-				}
-				return byte(o), nil
-			case 3:
-				return byte((s[1]-'0')*8 + (s[2] - '0')), nil
-			case 2:
-				return byte(s[1] - '0'), nil
-			}
-			return 0, nil
+		if c > 255 {
+			return 0, "", fmt.Errorf("rune too large %v", c)
 		}
+		return byte(c), r[1:], nil
 	}
-	i, err := strconv.Atoi(s)
-	if err != nil {
-		return 0, err
+	elem, rest := s, ""
+	if end := strings.IndexAny(s, ","+bytesSpace); end != -1 {
+		elem, rest = s[:end], s[end:]
 	}
-	if i >= 0 && i <= 255 {
-		return byte(i), nil
+	i, err := strconv.ParseUint(elem, 0, 8)
+	if err != nil {
+		return 0, "", fmt.Errorf("invalid byte %s: %v", elem, err)
 	}
-	return 0, fmt.Errorf("int too large %d", i)
+	return byte(i), rest, nil
 }
 
 //NewSDTName is a parser utility function that returns a NameExpr given a white space and a terminal value expression.
-- 
2.43.0


From 65b4514f493e67726f11cfaeeffe1813c7f20df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:48 +0000
Subject: [PATCH 12/64] fix: printing a grammar writes doubles as double
 literals

---
 relapse/ast/string.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/relapse/ast/string.go b/relapse/ast/string.go
index 03d3d40..93b3a1a 100644
--- a/relapse/ast/string.go
+++ b/relapse/ast/string.go
@@ -166,7 +166,7 @@ func isId(s string) bool {
 //String returns the relapse string representation of the Name instance.
 func (this *Name) String() string {
 	if this.DoubleValue != nil {
-		return this.Before.String() + strconv.FormatFloat(this.GetDoubleValue(), 'f', -1, 64)
+		return this.Before.String() + "double(" + strconv.FormatFloat(this.GetDoubleValue(), 'f', -1, 64) + ")"
 	}
 	if this.IntValue != nil {
 		return this.Before.String() + strconv.FormatInt(this.GetIntValue(), 10)
@@ -251,7 +251,7 @@ func (this *BuiltIn) String() string {
 //String returns the relapse string representation of the Terminal instance.
 func (this *Terminal) String() string {
 	if this.DoubleValue != nil {
-		return this.Before.String() + strconv.FormatFloat(this.GetDoubleValue(), 'f', -1, 64)
+		return this.Before.String() + "double(" + strconv.FormatFloat(this.GetDoubleValue(), 'f', -1, 64) + ")"
 	}
 	if this.IntValue != nil {
 		return this.Before.String() + strconv.FormatInt(this.GetIntValue(), 10)
-- 
2.43.0


From 4a8918d7502490f71389efc0a4d816a8ecc4b56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:52 +0000
Subject: [PATCH 13/64] fix: printing a grammar quotes names that are keywords

---
 relapse/ast/string.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/relapse/ast/string.go b/relapse/ast/string.go
index 93b3a1a..89124c9 100644
--- a/relapse/ast/string.go
+++ b/relapse/ast/string.go
@@ -159,8 +159,9 @@ func (this *NameExpr) String() string {
 // id : _id ;
 var idRegexp = regexp.MustCompile("^[a-zA-Z_][_a-zA-Z0-9]*$")
 
+//isId returns whether the string is lexed as an id, which the keywords _, true and false are not.
 func isId(s string) bool {
-	return idRegexp.MatchString(s)
+	return idRegexp.MatchString(s) && s != "_" && s != "true" && s != "false"
 }
 
 //String returns the relapse string representation of the Name instance.
-- 
2.43.0


From 7c1d5addd5c419c3fb10b7c5dc6a572476582b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:56 +0000
Subject: [PATCH 14/64] fix: printing a grammar keeps the separator before a
 builtin expression

---
 relapse/ast/string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/relapse/ast/string.go b/relapse/ast/string.go
index 89124c9..31dc18a 100644
--- a/relapse/ast/string.go
+++ b/relapse/ast/string.go
@@ -140,7 +140,7 @@ func (this *Expr) String() string {
 	if this.Function != nil {
 		return space + this.GetFunction().String()
 	}
-	return this.BuiltIn.String()
+	return space + this.BuiltIn.String()
 }
 
 //String returns the relapse string representation of the NameExpr instance.
-- 
2.43.0


From 99863b42bc4ddc1d737927451688c70331683588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:33 +0000
Subject: [PATCH 15/64] fix: the text of a constant denotes the constant

---
 relapse/funcs/const.gen.go      | 8 ++++----
 relapse/funcs/funcs-gen/main.go | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/relapse/funcs/const.gen.go b/relapse/funcs/const.gen.go
index d92aa08..05e6332 100644
--- a/relapse/funcs/const.gen.go
+++ b/relapse/funcs/const.gen.go
@@ -39,7 +39,7 @@ func (this *constDouble) Hash() uint64 {
 }
 
 func (this *constDouble) String() string {
-	return fmt.Sprintf("double(%f)", this.v)
+	return fmt.Sprintf("double(%v)", this.v)
 }
 
 // TrimDouble turns functions into constants, if they can be evaluated at compile time.
@@ -239,7 +239,7 @@ func (this *constString) Hash() uint64 {
 }
 
 func (this *constString) String() string {
-	return fmt.Sprintf("`%s`", this.v)
+	return fmt.Sprintf("%#q", this.v)
 }
 
 // TrimString turns functions into constants, if they can be evaluated at compile time.
@@ -341,7 +341,7 @@ func (this *constDoubles) Hash() uint64 {
 func (this *constDoubles) String() string {
 	ss := make([]string, len(this.v))
 	for i := range this.v {
-		ss[i] = fmt.Sprintf("double(%f)", this.v[i])
+		ss[i] = fmt.Sprintf("double(%v)", this.v[i])
 	}
 	return "[]double{" + strings.Join(ss, ",") + "}"
 }
@@ -557,7 +557,7 @@ func (this *constStrings) Hash() uint64 {
 func (this *constStrings) String() string {
 	ss := make([]string, len(this.v))
 	for i := range this.v {
-		ss[i] = fmt.Sprintf("`%s`", this.v[i])
+		ss[i] = fmt.Sprintf("%#q", this.v[i])
 	}
 	return "[]string{" + strings.Join(ss, ",") + "}"
 }
diff --git a/relapse/funcs/funcs-gen/main.go b/relapse/funcs/funcs-gen/main.go
index 3564c58..08a0b1e 100644
--- a/relapse/funcs/funcs-gen/main.go
+++ b/relapse/funcs/funcs-gen/main.go
@@ -885,17 +885,17 @@ func main() {
 		"ListOfBytes",
 	})
 	gen(constStr, "const.gen.go", []interface{}{
-		&conster{"Double", "float64", "double(%f)", ""},
+		&conster{"Double", "float64", "double(%v)", ""},
 		&conster{"Int", "int64", "int(%d)", ""},
 		&conster{"Uint", "uint64", "uint(%d)", ""},
 		&conster{"Bool", "bool", "%v", ""},
-		&conster{"String", "string", "`%s`", ""},
+		&conster{"String", "string", "%#q", ""},
 		&conster{"Bytes", "[]byte", "%#v", ""},
-		&conster{"Doubles", "[]float64", "double(%f)", "double"},
+		&conster{"Doubles", "[]float64", "double(%v)", "double"},
 		&conster{"Ints", "[]int64", "int(%d)", "int"},
 		&conster{"Uints", "[]uint64", "uint(%d)", "uint"},
 		&conster{"Bools", "[]bool", "%v", "bool"},
-		&conster{"Strings", "[]string", "`%s`", "string"},
+		&conster{"Strings", "[]string", "%#q", "string"},
 		&conster{"ListOfBytes", "[][]byte", "%#v", "[]byte"},
 	}, `"fmt"`, `"strings"`, `"reflect"`)
 	gen(listStr, "list.gen.go", []interface{}{
-- 
2.43.0


From 97e6c4973934303db96043e7d81a88ac35f0096d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:36 +0000
Subject: [PATCH 16/64] fix: the text of a regex quotes its expression

---
 relapse/funcs/regex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/relapse/funcs/regex.go b/relapse/funcs/regex.go
index 4194742..52c33c1 100644
--- a/relapse/funcs/regex.go
+++ b/relapse/funcs/regex.go
@@ -55,7 +55,7 @@ func (this *regex) HasVariable() bool {
 }
 
 func (this *regex) String() string {
-	return "regex(" + this.expr + "," + this.S.String() + ")"
+	return fmt.Sprintf("regex(%#q,%s)", this.expr, this.S.String())
 }
 
 func (this *regex) Eval() (bool, error) {
-- 
2.43.0


From 8c0518647dbdaa57da3228614476132f0e4e4b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:35 +0000
Subject: [PATCH 17/64] fix: decompiling a name supports nested names,
 complements and choices

---
 relapse/name/name.go | 68 +++++++++++++++++++++++++++-----------------
 1 file changed, 42 insertions(+), 26 deletions(-)

diff --git a/relapse/name/name.go b/relapse/name/name.go
index 213f37b..a48a19b 100644
--- a/relapse/name/name.go
+++ b/relapse/name/name.go
@@ -82,25 +82,7 @@ func exprToName(e *ast.Expr) (*ast.NameExpr, error) {
 	if e.GetBuiltIn() != nil {
 		if e.GetBuiltIn().GetSymbol().String() == "==" {
 			if e.GetBuiltIn().GetExpr().GetTerminal() != nil {
-				t := e.GetBuiltIn().GetExpr().GetTerminal()
-				if t.DoubleValue != nil {
-					return ast.NewDoubleName(t.GetDoubleValue()), nil
-				}
-				if t.IntValue != nil {
-					return ast.NewIntName(t.GetIntValue()), nil
-				}
-				if t.UintValue != nil {
-					return ast.NewUintName(t.GetUintValue()), nil
-				}
-				if t.BoolValue != nil {
-					return ast.NewBoolName(t.GetBoolValue()), nil
-				}
-				if t.StringValue != nil {
-					return ast.NewStringName(t.GetStringValue()), nil
-				}
-				if t.BytesValue != nil {
-					return ast.NewBytesName(t.GetBytesValue()), nil
-				}
+				return terminalToName(e.GetBuiltIn().GetExpr().GetTerminal())
 			} else {
 				return nil, fmt.Errorf("unknown terminal: %v", e.GetBuiltIn().GetExpr())
 			}
@@ -109,22 +91,34 @@ func exprToName(e *ast.Expr) (*ast.NameExpr, error) {
 		}
 	}
 	if e.GetFunction() != nil {
-		if e.GetFunction().GetName() == "not" {
-			e, err := exprToName(e.GetFunction().GetParams()[0])
+		params := e.GetFunction().GetParams()
+		switch e.GetFunction().GetName() {
+		case "eq":
+			left, right := params[0].GetTerminal(), params[1].GetTerminal()
+			if left.GetVariable() != nil && right != nil {
+				return terminalToName(right)
+			}
+			if right.GetVariable() != nil && left != nil {
+				return terminalToName(left)
+			}
+		case "not":
+			e, err := exprToName(params[0])
 			if err != nil {
 				return nil, err
 			}
 			return ast.NewAnyNameExcept(e), nil
-		}
-		if e.GetFunction().GetName() == "or" {
-			e1, err := exprToName(e.GetFunction().GetParams()[0])
+		case "or", "and":
+			e1, err := exprToName(params[0])
 			if err != nil {
 				return nil, err
 			}
-			e2, err := exprToName(e.GetFunction().GetParams()[1])
+			e2, err := exprToName(params[1])
 			if err != nil {
 				return nil, err
 			}
+			if e.GetFunction().GetName() == "and" {
+				return ast.NewAnyNameExcept(ast.NewNameChoice(ast.NewAnyNameExcept(e1), ast.NewAnyNameExcept(e2))), nil
+			}
 			return ast.NewNameChoice(e1, e2), nil
 		}
 		return nil, fmt.Errorf("unsupported function: %v", e)
@@ -134,7 +128,7 @@ func exprToName(e *ast.Expr) (*ast.NameExpr, error) {
 			if e.GetTerminal().GetBoolValue() {
 				return ast.NewAnyName(), nil
 			} else {
-				return nil, fmt.Errorf("not true")
+				return ast.NewAnyNameExcept(ast.NewAnyName()), nil
 			}
 		} else {
 			return nil, fmt.Errorf("not bool")
@@ -142,3 +136,25 @@ func exprToName(e *ast.Expr) (*ast.NameExpr, error) {
 	}
 	return nil, fmt.Errorf("unsupported expression: %v", e)
 }
+
+func terminalToName(t *ast.Terminal) (*ast.NameExpr, error) {
+	if t.DoubleValue != nil {
+		return ast.NewDoubleName(t.GetDoubleValue()), nil
+	}
+	if t.IntValue != nil {
+		return ast.NewIntName(t.GetIntValue()), nil
+	}
+	if t.UintValue != nil {
+		return ast.NewUintName(t.GetUintValue()), nil
+	}
+	if t.BoolValue != nil {
+		return ast.NewBoolName(t.GetBoolValue()), nil
+	}
+	if t.StringValue != nil {
+		return ast.NewStringName(t.GetStringValue()), nil
+	}
+	if t.BytesValue != nil {
+		return ast.NewBytesName(t.GetBytesValue()), nil
+	}
+	return nil, fmt.Errorf("not a constant: %v", t)
+}
-- 
2.43.0


From 737fc66798d53a8969e817be4c66fc17aa97e046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:44 +0000
Subject: [PATCH 18/64] fix: constructing a grammar finds the main pattern in
 the declarations

---
 relapse/intern/construct.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/relapse/intern/construct.go b/relapse/intern/construct.go
index ce7f68e..fa42ce9 100644
--- a/relapse/intern/construct.go
+++ b/relapse/intern/construct.go
@@ -91,12 +91,15 @@ func (c *construct) AddGrammar(g *ast.Grammar) (*Pattern, error) {
 		c.nullRefs[name] = interp.Nullable(refs, p)
 	}
 
-	main, err := c.AddPatternDecl("main", g.GetTopPattern())
+	main, err := c.AddPatternDecl("main", refs["main"])
 	if err != nil {
 		return nil, err
 	}
 
 	for _, p := range ps {
+		if p.GetName() == "main" {
+			continue
+		}
 		if _, err := c.AddPatternDecl(p.GetName(), p.GetPattern()); err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 3b30d407e9a173e9786373da732677cd244db6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:46 +0000
Subject: [PATCH 19/64] fix: a context also reaches the functions in a zero or
 more pattern

---
 relapse/intern/context.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/relapse/intern/context.go b/relapse/intern/context.go
index 7238cec..83c2451 100644
--- a/relapse/intern/context.go
+++ b/relapse/intern/context.go
@@ -46,7 +46,7 @@ func (c *construct) setContext(p *Pattern) {
 			c.setContext(pp)
 		}
 	case ZeroOrMore:
-		return
+		c.setContext(p.Patterns[0])
 	case Reference:
 		return
 	case Not:
-- 
2.43.0


From 12dc2dda876ac12c1a21f41d933093633ba67f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:33 +0000
Subject: [PATCH 20/64] fix: merging patterns leaves the patterns that are
 merged alone

MergeOr and MergeAnd appended to the slice of the left pattern, which has
spare capacity after duplicates were dropped, and the result is filtered and
sorted in place, so that the left pattern, possibly part of the grammar or of
another state, got other alternatives.
---
 relapse/intern/construct.go | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/relapse/intern/construct.go b/relapse/intern/construct.go
index fa42ce9..a55f4e5 100644
--- a/relapse/intern/construct.go
+++ b/relapse/intern/construct.go
@@ -350,19 +350,18 @@ func isNullable(p *Pattern) bool {
 }
 
 func (c *construct) MergeOr(l, r *Pattern) (*Pattern, error) {
-	var left []*Pattern
+	var ps []*Pattern // a new slice, since the given patterns keep theirs
 	if l.Type == Or {
-		left = l.Patterns
+		ps = append(ps, l.Patterns...)
 	} else {
-		left = []*Pattern{l}
+		ps = append(ps, l)
 	}
-	var right []*Pattern
 	if r.Type == Or {
-		right = r.Patterns
+		ps = append(ps, r.Patterns...)
 	} else {
-		right = []*Pattern{r}
+		ps = append(ps, r)
 	}
-	return c.NewOr(append(left, right...))
+	return c.NewOr(ps)
 }
 
 func (c *construct) NewOr(ps []*Pattern) (*Pattern, error) {
@@ -491,19 +490,18 @@ func (c *construct) NewConcat(ps []*Pattern) (*Pattern, error) {
 }
 
 func (c *construct) MergeAnd(l, r *Pattern) (*Pattern, error) {
-	var left []*Pattern
+	var ps []*Pattern // a new slice, since the given patterns keep theirs
 	if l.Type == And {
-		left = l.Patterns
+		ps = append(ps, l.Patterns...)
 	} else {
-		left = []*Pattern{l}
+		ps = append(ps, l)
 	}
-	var right []*Pattern
 	if r.Type == And {
-		right = r.Patterns
+		ps = append(ps, r.Patterns...)
 	} else {
-		right = []*Pattern{r}
+		ps = append(ps, r)
 	}
-	return c.NewAnd(append(left, right...))
+	return c.NewAnd(ps)
 }
 
 func (c *construct) NewAnd(ps []*Pattern) (*Pattern, error) {
-- 
2.43.0


From b83c9cad1945b3b9923af40cf1feb0f06357926a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:48 +0000
Subject: [PATCH 21/64] fix: printing separates tokens that would be lexed as
 others

A value in :: notation after the colon of a node, one in == notation after
the = of a declaration, and operands after < and > printed without a space,
which does not parse. Formatting removed the space from such a text, too.
---
 relapse/ast/string.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/relapse/ast/string.go b/relapse/ast/string.go
index 31dc18a..68193e4 100644
--- a/relapse/ast/string.go
+++ b/relapse/ast/string.go
@@ -38,8 +38,13 @@ func (this *Grammar) String() string {
 
 //String returns the relapse string representation of the PatternDecl instance.
 func (this *PatternDecl) String() string {
+	pattern := this.Pattern.String()
+	if strings.HasPrefix(pattern, "=") {
+		// without a space = and == are lexed as == and =
+		pattern = " " + pattern
+	}
 	return this.Hash.String() + this.Before.String() + this.Name +
-		this.Eq.String() + this.Pattern.String()
+		this.Eq.String() + pattern
 }
 
 //String returns the relapse string representation of the Pattern instance.
@@ -57,8 +62,12 @@ func (this *Empty) String() string {
 
 //String returns the relapse string representation of the TreeNode instance.
 func (this *TreeNode) String() string {
-	return this.Name.String() + this.Colon.String() +
-		this.Pattern.String()
+	pattern := this.Pattern.String()
+	if this.Colon != nil && strings.HasPrefix(pattern, ":") {
+		// without a space : and :: are lexed as :: and :
+		pattern = " " + pattern
+	}
+	return this.Name.String() + this.Colon.String() + pattern
 }
 
 //String returns the relapse string representation of the Contains instance.
@@ -246,7 +255,13 @@ func (this *Function) String() string {
 
 //String returns the relapse string representation of the BuiltIn instance.
 func (this *BuiltIn) String() string {
-	return this.Symbol.String() + this.Expr.String()
+	symbol, expr := this.Symbol.String(), this.Expr.String()
+	if strings.HasSuffix(symbol, "<") && (strings.HasPrefix(expr, "=") || strings.HasPrefix(expr, "e")) ||
+		strings.HasSuffix(symbol, ">") && strings.HasPrefix(expr, "=") {
+		// without a space < is lexed as the start of <= or <empty> and > as the start of >=
+		expr = " " + expr
+	}
+	return symbol + expr
 }
 
 //String returns the relapse string representation of the Terminal instance.
-- 
2.43.0


From ef0308f323147ca5c5580cd2c72aead1e1afccf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:45 +0000
Subject: [PATCH 22/64] fix: the value pattern of a constant, variable or list
 prints its arrow

There is no constructor for the arrow, so that the text of
NewLeafNode(NewBoolVar()) did not parse.
---
 relapse/ast/new.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/relapse/ast/new.go b/relapse/ast/new.go
index b63b6fa..824ca7d 100644
--- a/relapse/ast/new.go
+++ b/relapse/ast/new.go
@@ -125,7 +125,12 @@ func NewContains(pattern *Pattern) *Pattern {
 }
 
 //NewLeafNode returns a new LeafNode pattern.
+//  ->expr
+//If the expression does not have a populated RightArrow field and is not a builtin, this function will add it.
 func NewLeafNode(e *Expr) *Pattern {
+	if e.RightArrow == nil && e.BuiltIn == nil {
+		e.RightArrow = newRightArrow()
+	}
 	return &Pattern{
 		LeafNode: &LeafNode{
 			Expr: e,
-- 
2.43.0


From aab4906d4f22583574b172dbcadb6249f38fe45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:50 +0000
Subject: [PATCH 23/64] fix: constants and names of nil bytes are empty bytes

They had no value at all and printing them panicked.
---
 relapse/ast/new.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/relapse/ast/new.go b/relapse/ast/new.go
index 824ca7d..c4bd3ef 100644
--- a/relapse/ast/new.go
+++ b/relapse/ast/new.go
@@ -520,6 +520,9 @@ func NewStringConst(s string) *Expr {
 //NewBytesConst returns a new terminal expression containing the given bytes value.
 //  []byte(fmt.Sprintf("%#v", buf))
 func NewBytesConst(buf []byte) *Expr {
+	if buf == nil {
+		buf = []byte{} // nil would be no value
+	}
 	return &Expr{
 		Terminal: &Terminal{
 			BytesValue: buf,
@@ -637,6 +640,9 @@ func NewStringName(name string) *NameExpr {
 //NewBytesName returns a name expression containing the given []byte value.
 //  []byte(name)
 func NewBytesName(name []byte) *NameExpr {
+	if name == nil {
+		name = []byte{} // nil would be no value
+	}
 	return &NameExpr{
 		Name: &Name{
 			BytesValue: name,
-- 
2.43.0


From a14ba9b2e74826a5816948a1e7926dee290bdf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:17 +0000
Subject: [PATCH 24/64] fix: json strings may have unicode escapes

---
 parser/json/json.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/json/json.go b/parser/json/json.go
index d4eb643..db76537 100644
--- a/parser/json/json.go
+++ b/parser/json/json.go
@@ -48,6 +48,7 @@ func scanString(buf []byte) (int, error) {
 				escaped = false
 				continue
 			case 'u':
+				escaped = false
 				udigits = 0
 				continue
 			}
-- 
2.43.0


From 53bb83209bcb06bf22a26068353cc3bb576a38ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:19 +0000
Subject: [PATCH 25/64] fix: brackets inside of json strings are not structure

---
 parser/json/json.go | 58 +++++++++++++++++----------------------------
 1 file changed, 22 insertions(+), 36 deletions(-)

diff --git a/parser/json/json.go b/parser/json/json.go
index db76537..69d4896 100644
--- a/parser/json/json.go
+++ b/parser/json/json.go
@@ -197,54 +197,40 @@ func (s *jsonParser) scanNull() error {
 	return s.skipSpace()
 }
 
-func (s *jsonParser) scanArray() error {
+//scanBrackets scans a value from its open bracket to the matching close bracket, without looking inside of strings.
+func (s *jsonParser) scanBrackets(open, close byte) error {
 	count := 0
-	index := 0
-	for i, c := range s.buf[s.offset:] {
-		if c == '[' {
+	for i := s.offset; i < len(s.buf); i++ {
+		switch s.buf[i] {
+		case '"':
+			n, err := scanString(s.buf[i:])
+			if err != nil {
+				return err
+			}
+			i += n - 1
+		case open:
 			count++
-		}
-		if c == ']' {
+		case close:
 			count--
 		}
 		if count == 0 {
-			index = i
-			break
+			s.startValueOffset = s.offset
+			s.endValueOffset = i + 1
+			s.offset = i + 1
+			return s.skipSpace()
 		}
 	}
-	if count != 0 {
-		return s.expected("]")
-	}
-	s.startValueOffset = s.offset
-	s.endValueOffset = s.offset + index + 1
-	s.offset += index + 1
+	return io.ErrShortBuffer
+}
+
+func (s *jsonParser) scanArray() error {
 	s.isValueArray = true
-	return s.skipSpace()
+	return s.scanBrackets('[', ']')
 }
 
 func (s *jsonParser) scanObject() error {
-	count := 0
-	index := 0
-	for i, c := range s.buf[s.offset:] {
-		if c == '{' {
-			count++
-		}
-		if c == '}' {
-			count--
-		}
-		if count == 0 {
-			index = i
-			break
-		}
-	}
-	if count != 0 {
-		return s.expected("}")
-	}
-	s.startValueOffset = s.offset
-	s.endValueOffset = s.offset + index + 1
-	s.offset += index + 1
 	s.isValueObject = true
-	return s.skipSpace()
+	return s.scanBrackets('{', '}')
 }
 
 func isDigit(c byte) bool {
-- 
2.43.0


From a2c83b3448d0bbbad6de7e1fc802ae83d8d0ecab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:21 +0000
Subject: [PATCH 26/64] fix: truncated json is an error

---
 parser/json/json.go | 61 ++++++++++++++++++++++++++-------------------
 1 file changed, 36 insertions(+), 25 deletions(-)

diff --git a/parser/json/json.go b/parser/json/json.go
index 69d4896..081619a 100644
--- a/parser/json/json.go
+++ b/parser/json/json.go
@@ -31,8 +31,8 @@ func errInString(buf []byte) error {
 	return fmt.Errorf("katydid/json error in json string: %s", string(buf))
 }
 
-func isString(buf []byte) bool {
-	return buf[0] == '"'
+func isString(c byte) bool {
+	return c == '"'
 }
 
 func scanString(buf []byte) (int, error) {
@@ -76,7 +76,7 @@ func scanString(buf []byte) (int, error) {
 			return 0, errInString(buf)
 		}
 	}
-	panic("unreachable")
+	return 0, io.ErrShortBuffer
 }
 
 func isNumber(c byte) bool {
@@ -96,12 +96,23 @@ func skipSpace(buf []byte) int {
 	return len(buf)
 }
 
+//current returns the byte at the current offset or zero at the end of the buffer.
+func (s *jsonParser) current() byte {
+	if s.offset < len(s.buf) {
+		return s.buf[s.offset]
+	}
+	return 0
+}
+
 func (s *jsonParser) expected(expected string) error {
+	if s.offset >= len(s.buf) {
+		return io.ErrShortBuffer
+	}
 	return fmt.Errorf("katydid/json/parser: expected '%s' at offset %d, but got '%c'", expected, s.offset, s.buf[s.offset])
 }
 
 func (s *jsonParser) scanOpenObject() error {
-	if s.buf[s.offset] == '{' {
+	if s.current() == '{' {
 		s.offset++
 	} else {
 		return s.expected("{")
@@ -110,7 +121,7 @@ func (s *jsonParser) scanOpenObject() error {
 }
 
 func (s *jsonParser) scanOpenArray() error {
-	if s.buf[s.offset] == '[' {
+	if s.current() == '[' {
 		s.offset++
 	} else {
 		return s.expected("[")
@@ -243,35 +254,35 @@ func isDigit19(c byte) bool {
 
 func (s *jsonParser) scanNumber() error {
 	s.startValueOffset = s.offset
-	if s.buf[s.offset] == '-' {
+	if s.current() == '-' {
 		s.offset++
 		if s.offset >= len(s.buf) {
 			return io.ErrShortBuffer
 		}
 	}
-	if s.buf[s.offset] == '0' {
+	if s.current() == '0' {
 		s.offset++
 		if s.offset > len(s.buf) {
 			return io.ErrShortBuffer
 		}
-	} else if isDigit19(s.buf[s.offset]) {
+	} else if isDigit19(s.current()) {
 		s.offset++
 		if s.offset > len(s.buf) {
 			return io.ErrShortBuffer
 		}
-		for s.offset < len(s.buf) && isDigit(s.buf[s.offset]) {
+		for s.offset < len(s.buf) && isDigit(s.current()) {
 			s.offset++
 			if s.offset > len(s.buf) {
 				return io.ErrShortBuffer
 			}
 		}
 	}
-	if s.offset < len(s.buf) && s.buf[s.offset] == '.' {
+	if s.offset < len(s.buf) && s.current() == '.' {
 		s.offset++
 		if s.offset > len(s.buf) {
 			return io.ErrShortBuffer
 		}
-		for s.offset < len(s.buf) && isDigit(s.buf[s.offset]) {
+		for s.offset < len(s.buf) && isDigit(s.current()) {
 			s.offset++
 			if s.offset > len(s.buf) {
 				return io.ErrShortBuffer
@@ -279,20 +290,20 @@ func (s *jsonParser) scanNumber() error {
 		}
 	}
 	if s.offset < len(s.buf) &&
-		(s.buf[s.offset] == 'e' || s.buf[s.offset] == 'E') {
+		(s.current() == 'e' || s.current() == 'E') {
 		s.offset++
 		if s.offset > len(s.buf) {
 			return io.ErrShortBuffer
 		}
 		if s.offset < len(s.buf) {
-			if s.buf[s.offset] == '+' || s.buf[s.offset] == '-' {
+			if s.current() == '+' || s.current() == '-' {
 				s.offset++
 				if s.offset > len(s.buf) {
 					return io.ErrShortBuffer
 				}
 			}
 		}
-		for s.offset < len(s.buf) && isDigit(s.buf[s.offset]) {
+		for s.offset < len(s.buf) && isDigit(s.current()) {
 			s.offset++
 			if s.offset > len(s.buf) {
 				return io.ErrShortBuffer
@@ -304,7 +315,7 @@ func (s *jsonParser) scanNumber() error {
 }
 
 func (s *jsonParser) scanValue() error {
-	c := s.buf[s.offset]
+	c := s.current()
 	if isNumber(c) {
 		return s.scanNumber()
 	}
@@ -326,7 +337,7 @@ func (s *jsonParser) scanValue() error {
 }
 
 func (s *jsonParser) scanColon() error {
-	if s.buf[s.offset] != ':' {
+	if s.current() != ':' {
 		return s.expected(":")
 	}
 	s.offset++
@@ -334,21 +345,21 @@ func (s *jsonParser) scanColon() error {
 }
 
 func (s *jsonParser) scanCloseObject() error {
-	if s.buf[s.offset] == '}' {
+	if s.current() == '}' {
 		return io.EOF
 	}
 	return s.expected("}")
 }
 
 func (s *jsonParser) scanCloseArray() error {
-	if s.buf[s.offset] == ']' {
+	if s.current() == ']' {
 		return io.EOF
 	}
 	return s.expected("]")
 }
 
 func (s *jsonParser) scanComma() error {
-	if s.buf[s.offset] != ',' {
+	if s.current() != ',' {
 		return s.expected(",")
 	}
 	s.offset++
@@ -362,7 +373,7 @@ func (s *jsonParser) nextValueInArray() error {
 		}
 		s.firstArrayValue = false
 	} else {
-		if s.buf[s.offset] == ',' {
+		if s.current() == ',' {
 			if err := s.scanComma(); err != nil {
 				return err
 			}
@@ -370,7 +381,7 @@ func (s *jsonParser) nextValueInArray() error {
 			return s.scanCloseArray()
 		}
 	}
-	if s.buf[s.offset] == ']' {
+	if s.current() == ']' {
 		return s.scanCloseArray()
 	}
 	return s.scanValue()
@@ -383,7 +394,7 @@ func (s *jsonParser) nextValueInObject() error {
 		}
 		s.firstObjectValue = false
 	} else {
-		if s.buf[s.offset] == ',' {
+		if s.current() == ',' {
 			if err := s.scanComma(); err != nil {
 				return err
 			}
@@ -393,7 +404,7 @@ func (s *jsonParser) nextValueInObject() error {
 			}
 		}
 	}
-	if isString(s.buf[s.offset:]) {
+	if isString(s.current()) {
 		if err := s.scanName(); err != nil {
 			return err
 		}
@@ -539,9 +550,9 @@ func (s *jsonParser) Init(buf []byte) error {
 	if err := s.skipSpace(); err != nil {
 		return err
 	}
-	if s.buf[s.offset] == '{' {
+	if s.current() == '{' {
 		//do nothing
-	} else if s.buf[s.offset] == '[' {
+	} else if s.current() == '[' {
 		if err := s.scanValue(); err != nil {
 			return err
 		}
-- 
2.43.0


From 264b2bab7a7bc4a3676560c1e89ba16639374d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:24 +0000
Subject: [PATCH 27/64] fix: malformed json is an error

---
 parser/json/json.go | 90 ++++++++++++++++++++-------------------------
 1 file changed, 40 insertions(+), 50 deletions(-)

diff --git a/parser/json/json.go b/parser/json/json.go
index 081619a..da02798 100644
--- a/parser/json/json.go
+++ b/parser/json/json.go
@@ -248,70 +248,43 @@ func isDigit(c byte) bool {
 	return c >= '0' && c <= '9'
 }
 
-func isDigit19(c byte) bool {
-	return c >= '1' && c <= '9'
+func (s *jsonParser) scanDigits() error {
+	if !isDigit(s.current()) {
+		return s.expected("digit")
+	}
+	for isDigit(s.current()) {
+		s.offset++
+	}
+	return nil
 }
 
 func (s *jsonParser) scanNumber() error {
 	s.startValueOffset = s.offset
 	if s.current() == '-' {
 		s.offset++
-		if s.offset >= len(s.buf) {
-			return io.ErrShortBuffer
-		}
 	}
 	if s.current() == '0' {
 		s.offset++
-		if s.offset > len(s.buf) {
-			return io.ErrShortBuffer
-		}
-	} else if isDigit19(s.current()) {
-		s.offset++
-		if s.offset > len(s.buf) {
-			return io.ErrShortBuffer
-		}
-		for s.offset < len(s.buf) && isDigit(s.current()) {
-			s.offset++
-			if s.offset > len(s.buf) {
-				return io.ErrShortBuffer
-			}
-		}
+	} else if err := s.scanDigits(); err != nil {
+		return err
 	}
-	if s.offset < len(s.buf) && s.current() == '.' {
+	if s.current() == '.' {
 		s.offset++
-		if s.offset > len(s.buf) {
-			return io.ErrShortBuffer
-		}
-		for s.offset < len(s.buf) && isDigit(s.current()) {
-			s.offset++
-			if s.offset > len(s.buf) {
-				return io.ErrShortBuffer
-			}
+		if err := s.scanDigits(); err != nil {
+			return err
 		}
 	}
-	if s.offset < len(s.buf) &&
-		(s.current() == 'e' || s.current() == 'E') {
+	if c := s.current(); c == 'e' || c == 'E' {
 		s.offset++
-		if s.offset > len(s.buf) {
-			return io.ErrShortBuffer
-		}
-		if s.offset < len(s.buf) {
-			if s.current() == '+' || s.current() == '-' {
-				s.offset++
-				if s.offset > len(s.buf) {
-					return io.ErrShortBuffer
-				}
-			}
-		}
-		for s.offset < len(s.buf) && isDigit(s.current()) {
+		if c := s.current(); c == '+' || c == '-' {
 			s.offset++
-			if s.offset > len(s.buf) {
-				return io.ErrShortBuffer
-			}
+		}
+		if err := s.scanDigits(); err != nil {
+			return err
 		}
 	}
 	s.endValueOffset = s.offset
-	return nil
+	return s.skipSpace()
 }
 
 func (s *jsonParser) scanValue() error {
@@ -346,18 +319,26 @@ func (s *jsonParser) scanColon() error {
 
 func (s *jsonParser) scanCloseObject() error {
 	if s.current() == '}' {
-		return io.EOF
+		return s.scanEnd(s.offset + 1)
 	}
 	return s.expected("}")
 }
 
 func (s *jsonParser) scanCloseArray() error {
 	if s.current() == ']' {
-		return io.EOF
+		return s.scanEnd(s.offset + 1)
 	}
 	return s.expected("]")
 }
 
+//scanEnd returns io.EOF if only spaces are left in the buffer from the given offset.
+func (s *jsonParser) scanEnd(offset int) error {
+	if n := offset + skipSpace(s.buf[offset:]); n < len(s.buf) {
+		return fmt.Errorf("katydid/json/parser: expected the end at offset %d, but got '%c'", n, s.buf[n])
+	}
+	return io.EOF
+}
+
 func (s *jsonParser) scanComma() error {
 	if s.current() != ',' {
 		return s.expected(",")
@@ -377,9 +358,9 @@ func (s *jsonParser) nextValueInArray() error {
 			if err := s.scanComma(); err != nil {
 				return err
 			}
-		} else {
-			return s.scanCloseArray()
+			return s.scanValue()
 		}
+		return s.scanCloseArray()
 	}
 	if s.current() == ']' {
 		return s.scanCloseArray()
@@ -398,6 +379,9 @@ func (s *jsonParser) nextValueInObject() error {
 			if err := s.scanComma(); err != nil {
 				return err
 			}
+			if !isString(s.current()) {
+				return s.expected("\"")
+			}
 		} else {
 			if err := s.scanCloseObject(); err != nil {
 				return err
@@ -556,6 +540,9 @@ func (s *jsonParser) Init(buf []byte) error {
 		if err := s.scanValue(); err != nil {
 			return err
 		}
+		if err := s.scanEnd(s.offset); err != io.EOF {
+			return err
+		}
 		s.inArray = true
 		s.firstArrayValue = true
 		s.buf = s.buf[s.startValueOffset:s.endValueOffset]
@@ -564,6 +551,9 @@ func (s *jsonParser) Init(buf []byte) error {
 		if err := s.scanValue(); err != nil {
 			return err
 		}
+		if err := s.scanEnd(s.offset); err != io.EOF {
+			return err
+		}
 		s.state.isLeaf = true
 		s.state.firstObjectValue = true
 	}
-- 
2.43.0


From 1acf67ad1692f587ce513f038ab7b0cf96e680a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:26 +0000
Subject: [PATCH 28/64] fix: json integers have exactly their value

---
 parser/json/json.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/parser/json/json.go b/parser/json/json.go
index da02798..d86f792 100644
--- a/parser/json/json.go
+++ b/parser/json/json.go
@@ -442,16 +442,21 @@ func (s *jsonParser) Double() (float64, error) {
 	return 0, parser.ErrNotDouble
 }
 
+func isOutOfRange(err error) bool {
+	nerr, ok := err.(*strconv.NumError)
+	return ok && nerr.Err == strconv.ErrRange
+}
+
 func (s *jsonParser) Int() (int64, error) {
 	if s.isLeaf {
 		v := string(s.Value())
 		i, err := strconv.ParseInt(v, 10, 64)
-		if err != nil {
+		if err != nil && !isOutOfRange(err) {
 			f, ferr := strconv.ParseFloat(v, 64)
 			if ferr != nil {
 				return i, err
 			}
-			if float64(int64(f)) == f {
+			if f >= -(1<<63) && f < 1<<63 && float64(int64(f)) == f {
 				return int64(f), nil
 			}
 		}
@@ -467,7 +472,16 @@ func (s *jsonParser) Uint() (uint64, error) {
 	if s.isLeaf {
 		v := string(s.Value())
 		i, err := strconv.ParseUint(v, 10, 64)
-		return uint64(i), err
+		if err != nil && !isOutOfRange(err) {
+			f, ferr := strconv.ParseFloat(v, 64)
+			if ferr != nil {
+				return i, err
+			}
+			if f >= 0 && f < 1<<64 && float64(uint64(f)) == f {
+				return uint64(f), nil
+			}
+		}
+		return i, err
 	}
 	return 0, parser.ErrNotUint
 }
-- 
2.43.0


From d3fea452ab6c29438ae35aab4b38614418f8bd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:32 +0000
Subject: [PATCH 29/64] fix: message types and extensions of protobuf fields
 are looked up by their full names

---
 parser/proto/desc.go | 143 +++++++++++++++++++++++++++----------------
 1 file changed, 90 insertions(+), 53 deletions(-)

diff --git a/parser/proto/desc.go b/parser/proto/desc.go
index ff9a3b8..1e8928c 100644
--- a/parser/proto/desc.go
+++ b/parser/proto/desc.go
@@ -27,7 +27,7 @@ func (this *errUnknown) Error() string {
 	return "parser/proto: Could not find " + this.msg
 }
 
-//DescMap is a map of the descriptor.FileDescriptorSet
+// DescMap is a map of the descriptor.FileDescriptorSet
 type DescMap interface {
 	//GetRoot returns the root message that was used to create this map.
 	GetRoot() *descriptor.DescriptorProto
@@ -38,53 +38,96 @@ type DescMap interface {
 }
 
 type descMap struct {
-	desc       *descriptor.FileDescriptorSet
 	root       *descriptor.DescriptorProto
+	msgs       map[string]*descriptor.DescriptorProto        //full name to message
+	names      map[*descriptor.DescriptorProto]string        //message to full name
+	exts       map[string][]*descriptor.FieldDescriptorProto //full name of the extended message to its extensions
+	extScopes  map[*descriptor.FieldDescriptorProto]string   //extension to the full name of the scope it is declared in
 	fieldToMsg map[*descriptor.FieldDescriptorProto]*descriptor.DescriptorProto
 	msgToField map[*descriptor.DescriptorProto]map[uint64]*descriptor.FieldDescriptorProto
 }
 
-//NewDescriptorMap returns a map of the FileDescriptorSet starting at the message represented by the package name and message name.
+// NewDescriptorMap returns a map of the FileDescriptorSet starting at the message represented by the package name and message name.
 func NewDescriptorMap(pkgName, msgName string, desc *descriptor.FileDescriptorSet) (DescMap, error) {
-	root := desc.GetMessage(pkgName, msgName)
-	if root == nil {
-		return nil, &errUnknown{pkgName + "." + msgName}
-	}
 	d := &descMap{
-		desc:       desc,
-		root:       root,
+		msgs:       make(map[string]*descriptor.DescriptorProto),
+		names:      make(map[*descriptor.DescriptorProto]string),
+		exts:       make(map[string][]*descriptor.FieldDescriptorProto),
+		extScopes:  make(map[*descriptor.FieldDescriptorProto]string),
 		fieldToMsg: make(map[*descriptor.FieldDescriptorProto]*descriptor.DescriptorProto),
 		msgToField: make(map[*descriptor.DescriptorProto]map[uint64]*descriptor.FieldDescriptorProto),
 	}
-	err := d.visit(pkgName, root)
+	for _, file := range desc.GetFile() {
+		d.addMsgs(fileScope(file), file.GetMessageType())
+	}
+	for _, file := range desc.GetFile() {
+		d.addExts(fileScope(file), file.GetExtension(), file.GetMessageType())
+	}
+	d.root = d.msgs[fullName(pkgName, msgName)]
+	if d.root == nil {
+		d.root = desc.GetMessage(pkgName, msgName)
+	}
+	if d.root == nil {
+		return nil, &errUnknown{pkgName + "." + msgName}
+	}
+	err := d.visit(d.root)
 	return d, err
 }
 
-func dotToUnderscore(r rune) rune {
-	if r == '.' {
-		return '_'
+func fullName(pkgName, msgName string) string {
+	if len(pkgName) == 0 {
+		return "." + msgName
 	}
-	return r
+	return "." + pkgName + "." + msgName
 }
 
-func (this *descMap) findExts(pkgName string, msgName string) []*descriptor.FieldDescriptorProto {
-	exts := []*descriptor.FieldDescriptorProto{}
-	extendee := "." + pkgName + "." + msgName
-	for _, file := range this.desc.GetFile() {
-		for i, ext := range file.GetExtension() {
-			if strings.Map(dotToUnderscore, file.GetPackage()) == strings.Map(dotToUnderscore, pkgName) {
-				if !(ext.GetExtendee() == msgName || ext.GetExtendee() == extendee) {
-					continue
-				}
-			} else {
-				if ext.GetExtendee() != extendee {
-					continue
-				}
-			}
-			exts = append(exts, file.Extension[i])
+func fileScope(file *descriptor.FileDescriptorProto) string {
+	if len(file.GetPackage()) == 0 {
+		return ""
+	}
+	return "." + file.GetPackage()
+}
+
+func (this *descMap) addMsgs(scope string, msgs []*descriptor.DescriptorProto) {
+	for _, msg := range msgs {
+		name := scope + "." + msg.GetName()
+		if _, ok := this.msgs[name]; !ok {
+			this.msgs[name] = msg
+		}
+		this.names[msg] = name
+		this.addMsgs(name, msg.GetNestedType())
+	}
+}
+
+func (this *descMap) addExts(scope string, exts []*descriptor.FieldDescriptorProto, msgs []*descriptor.DescriptorProto) {
+	for _, ext := range exts {
+		if msg := this.lookup(scope, ext.GetExtendee()); msg != nil {
+			name := this.names[msg]
+			this.exts[name] = append(this.exts[name], ext)
+			this.extScopes[ext] = scope
+		}
+	}
+	for _, msg := range msgs {
+		this.addExts(scope+"."+msg.GetName(), msg.GetExtension(), msg.GetNestedType())
+	}
+}
+
+// lookup returns the message with the given name.
+// A name that does not start with a dot is first looked up in the given scope and then in each scope around it.
+func (this *descMap) lookup(scope string, name string) *descriptor.DescriptorProto {
+	if strings.HasPrefix(name, ".") {
+		return this.msgs[name]
+	}
+	for {
+		if msg, ok := this.msgs[scope+"."+name]; ok {
+			return msg
 		}
+		i := strings.LastIndex(scope, ".")
+		if i < 0 {
+			return nil
+		}
+		scope = scope[:i]
 	}
-	return exts
 }
 
 func couldBePacked(field *descriptor.FieldDescriptorProto) bool {
@@ -105,43 +148,37 @@ func keysOf(field *descriptor.FieldDescriptorProto) []uint64 {
 	return keys
 }
 
-func (this *descMap) visit(pkgName string, msg *descriptor.DescriptorProto) error {
+func (this *descMap) visit(msg *descriptor.DescriptorProto) error {
 	if _, ok := this.msgToField[msg]; ok {
 		return nil
 	}
-	fields := msg.GetField()
+	this.msgToField[msg] = make(map[uint64]*descriptor.FieldDescriptorProto)
+	scope := this.names[msg]
+	fields := append([]*descriptor.FieldDescriptorProto{}, msg.GetField()...)
 	if msg.HasExtension() {
-		exts := this.findExts(pkgName, msg.GetName())
-		fields = append(fields, exts...)
+		fields = append(fields, this.exts[scope]...)
 	}
-	for i, f := range fields {
-		if _, ok := this.msgToField[msg]; !ok {
-			this.msgToField[msg] = make(map[uint64]*descriptor.FieldDescriptorProto)
-		}
-		keys := keysOf(f)
-		for _, k := range keys {
-			this.msgToField[msg][k] = fields[i]
+	for _, f := range fields {
+		for _, k := range keysOf(f) {
+			this.msgToField[msg][k] = f
 		}
 		if f.GetType() == descriptor.FieldDescriptorProto_TYPE_MESSAGE {
-			newPkgName, newMsgName := this.desc.FindMessage(pkgName, msg.GetName(), f.GetName())
-			if len(newMsgName) == 0 {
-				return &errUnknown{pkgName + "." + msg.GetName() + "." + f.GetName()}
+			fieldScope := scope
+			if extScope, ok := this.extScopes[f]; ok {
+				fieldScope = extScope
 			}
-			newMsg := this.desc.GetMessage(newPkgName, newMsgName)
+			newMsg := this.lookup(fieldScope, f.GetTypeName())
 			if newMsg == nil {
-				return &errUnknown{newPkgName + "." + newMsgName}
-			}
-			this.fieldToMsg[fields[i]] = newMsg
-			if _, ok := this.msgToField[newMsg]; ok {
-				continue
+				return &errUnknown{scope + "." + f.GetName() + " " + f.GetTypeName()}
 			}
-			if err := this.visit(newPkgName, newMsg); err != nil {
+			this.fieldToMsg[f] = newMsg
+			if err := this.visit(newMsg); err != nil {
 				return err
 			}
 		}
 	}
-	for i := range msg.GetNestedType() {
-		if err := this.visit(pkgName, msg.GetNestedType()[i]); err != nil {
+	for _, nested := range msg.GetNestedType() {
+		if err := this.visit(nested); err != nil {
 			return err
 		}
 	}
-- 
2.43.0


From 1faf6ccebd7e5bed66ec3e7d0bf66b6faa90767b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:51 +0000
Subject: [PATCH 30/64] fix: a protobuf length beyond the end of the message is
 an error

---
 parser/proto/proto.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/parser/proto/proto.go b/parser/proto/proto.go
index 8866993..0a8e357 100644
--- a/parser/proto/proto.go
+++ b/parser/proto/proto.go
@@ -65,20 +65,32 @@ func uvarint(buf []byte) (uint64, int, error) {
 	return 0, 0, newErrVarint(buf)
 }
 
+//length returns the length of the prefix and the length of the value at the start of the buffer, which contains both.
 func length(wireType int, buf []byte) (prefix int, l int, err error) {
 	switch wireType {
 	case 0:
 		_, n2, err := uvarint(buf)
 		return 0, n2, err
 	case 1:
-		return 0, 8, nil
+		l = 8
 	case 2:
-		l, n2, err := uvarint(buf)
-		return n2, int(l), err
+		v, n2, err := uvarint(buf)
+		if err != nil {
+			return 0, 0, err
+		}
+		if v > uint64(len(buf)-n2) {
+			return 0, 0, io.ErrShortBuffer
+		}
+		return n2, int(v), nil
 	case 5:
-		return 0, 4, nil
+		l = 4
+	default:
+		return 0, 0, errUnknownWireType
+	}
+	if l > len(buf) {
+		return 0, 0, io.ErrShortBuffer
 	}
-	return 0, 0, errUnknownWireType
+	return 0, l, nil
 }
 
 type protoParser struct {
-- 
2.43.0


From 6086d52d1a65d387465a60a9e5a1d0b7948aa32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:20 +0000
Subject: [PATCH 31/64] fix: the sign of protobuf sint32 values

---
 parser/proto/proto.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/proto/proto.go b/parser/proto/proto.go
index 0a8e357..e06c060 100644
--- a/parser/proto/proto.go
+++ b/parser/proto/proto.go
@@ -477,7 +477,7 @@ func (s *protoParser) decodeSint32() (int32, error) {
 	if n <= 0 {
 		return 0, fmt.Errorf("decodeVarint n = %d", n)
 	}
-	return int32((uint32(v) >> 1) ^ uint32(((v&1)<<31)>>31)), nil
+	return int32((uint32(v) >> 1) ^ -uint32(v&1)), nil
 }
 
 func (s *protoParser) decodeSint64() (int64, error) {
-- 
2.43.0


From ed87d97bd61d1d9e3f2c32c3400ad8cd9825898b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:22 +0000
Subject: [PATCH 32/64] fix: the index of a packed element is not also the name
 of the field

---
 parser/proto/proto.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/proto/proto.go b/parser/proto/proto.go
index e06c060..4702922 100644
--- a/parser/proto/proto.go
+++ b/parser/proto/proto.go
@@ -382,7 +382,7 @@ func (s *protoParser) Bool() (bool, error) {
 
 func (s *protoParser) String() (string, error) {
 	if !s.isLeaf {
-		if s.fieldNames && !s.inRepeated {
+		if s.fieldNames && !s.inRepeated && !s.inPacked {
 			return s.field.GetName(), nil
 		}
 		return "", parser.ErrNotString
-- 
2.43.0


From bd4c5aca9fe452d805baa38b9d478bbc5f3b8205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:43 +0000
Subject: [PATCH 33/64] fix: a repeated protobuf field ends where the wire type
 changes

---
 parser/proto/proto.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/parser/proto/proto.go b/parser/proto/proto.go
index 4702922..2e7df1f 100644
--- a/parser/proto/proto.go
+++ b/parser/proto/proto.go
@@ -211,14 +211,13 @@ func (s *protoParser) Next() error {
 		if err != nil {
 			return err
 		}
-		fieldNumber := int32(v >> 3)
-		if fieldNumber != s.field.GetNumber() {
+		wireType := int(v & 0x7)
+		if v>>3 != uint64(s.field.GetNumber()) || wireType != s.field.WireType() {
 			s.length = 0
 			s.isRepeated = false
 			return io.EOF
 		}
 		s.offset += n
-		wireType := int(v & 0x7)
 		n, l, err := length(wireType, s.buf[s.offset:])
 		if err != nil {
 			return err
-- 
2.43.0


From f7cb24465357309c53bf7c5e3e2d088cc9dfb4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:37 +0000
Subject: [PATCH 34/64] fix: leaving an xml element early skips the rest of it,
 and an xml parser can be reused from any point

---
 parser/xml/parser.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/parser/xml/parser.go b/parser/xml/parser.go
index e731336..871f6d6 100644
--- a/parser/xml/parser.go
+++ b/parser/xml/parser.go
@@ -37,6 +37,7 @@ type xmlParser struct {
 	attrPrefix string
 	elemPrefix string
 	textPrefix string
+	err        error //the error of a skip that is returned by the following Next
 }
 
 //XMLParser is an xml parser.
@@ -88,6 +89,12 @@ func (p *xmlParser) Init(buf []byte) error {
 	p.buf = buf
 	p.dec = NewDecoder(NewBuffer(buf))
 	p.dec.Strict = false
+	p.tok = nil
+	p.attrs = nil
+	p.attrIndex = 0
+	p.attrValue = false
+	p.attrFirst = false
+	p.err = nil
 	return nil
 }
 
@@ -108,6 +115,9 @@ func (p *xmlParser) Next() (err error) {
 			return io.EOF
 		}
 	}
+	if p.err != nil {
+		return p.err
+	}
 	if p.tok == nil {
 		if p.attrs != nil {
 			p.attrIndex++
@@ -238,11 +248,18 @@ func (p *xmlParser) Up() {
 		p.attrIndex = 0
 		return
 	}
-	if err := p.dec.Skip(); err != nil {
-		if err != io.EOF {
-			panic(err)
+	if _, ok := p.tok.(StartElement); ok {
+		// first skip the child that was not visited
+		if err := p.dec.Skip(); err != nil {
+			p.err = err
 		}
 	}
+	if err := p.dec.Skip(); err != nil {
+		p.err = err
+	}
+	p.tok = nil
+	p.attrs = nil
+	p.attrIndex = 0
 }
 
 func (p *xmlParser) Down() {
-- 
2.43.0


From f7cdc49ea2dca3d4c176492eaa4ce9ec61130320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:39 +0000
Subject: [PATCH 35/64] fix: a truncated xml document is an error

---
 parser/xml/xml.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/xml/xml.go b/parser/xml/xml.go
index c43616c..d3cda7b 100644
--- a/parser/xml/xml.go
+++ b/parser/xml/xml.go
@@ -244,6 +244,9 @@ func (d *Decoder) Token() (t Token, err error) {
 		t = d.nextToken
 		d.nextToken = nil
 	} else if t, err = d.rawToken(); err != nil {
+		if err == io.EOF && d.stk != nil && d.stk.kind != stkEOF {
+			err = d.syntaxError("unexpected EOF")
+		}
 		return
 	}
 
-- 
2.43.0


From e0ef8c4af625923a53019ab2eea29ac03ee87497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:56 +0000
Subject: [PATCH 36/64] fix: an xml attribute may contain ]]>

---
 parser/xml/xml.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parser/xml/xml.go b/parser/xml/xml.go
index d3cda7b..c3e827f 100644
--- a/parser/xml/xml.go
+++ b/parser/xml/xml.go
@@ -960,8 +960,9 @@ Input:
 		}
 
 		// <![CDATA[ section ends with ]]>.
-		// It is an error for ]]> to appear in ordinary text.
-		if b0 == ']' && b1 == ']' && b == '>' {
+		// It is an error for ]]> to appear in ordinary text,
+		// but it is allowed in quoted strings.
+		if quote < 0 && b0 == ']' && b1 == ']' && b == '>' {
 			if cdata {
 				trunc = 2
 				break Input
-- 
2.43.0


From a66fde5417fac35867ec8ed4bba968c6f0961ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:15 +0000
Subject: [PATCH 37/64] fix: xml processing instructions are skipped without
 the text between them, and spaces around the root element are not text

---
 parser/xml/parser.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/parser/xml/parser.go b/parser/xml/parser.go
index 871f6d6..1a8fffb 100644
--- a/parser/xml/parser.go
+++ b/parser/xml/parser.go
@@ -37,6 +37,7 @@ type xmlParser struct {
 	attrPrefix string
 	elemPrefix string
 	textPrefix string
+	depth      int   //the number of elements around the current token
 	err        error //the error of a skip that is returned by the following Next
 }
 
@@ -81,14 +82,15 @@ func WithTextPrefix(e string) func(x *xmlParser) {
 	}
 }
 
-var procInstPattern = regexp.MustCompile(`<\?.*\?>`)
+var xmlDeclPattern = regexp.MustCompile(`(?s)^<\?xml\s.*?\?>`)
 
 func (p *xmlParser) Init(buf []byte) error {
-	buf = procInstPattern.ReplaceAll(buf, []byte{})
 	buf = bytes.TrimSpace(buf)
+	buf = xmlDeclPattern.ReplaceAll(buf, []byte{})
 	p.buf = buf
 	p.dec = NewDecoder(NewBuffer(buf))
 	p.dec.Strict = false
+	p.depth = 0
 	p.tok = nil
 	p.attrs = nil
 	p.attrIndex = 0
@@ -102,7 +104,11 @@ func (s *xmlParser) Reset() error {
 	return s.Init(s.buf)
 }
 
-func hasContent(c CharData) bool {
+//hasContent returns whether the text is part of the document, which spaces around the root element are not.
+func (p *xmlParser) hasContent(c CharData) bool {
+	if p.depth == 0 {
+		return len(bytes.TrimSpace(c)) > 0
+	}
 	return len(string(c)) > 0
 }
 
@@ -138,7 +144,7 @@ func (p *xmlParser) Next() (err error) {
 			} else if _, ok := p.tok.(EndElement); ok {
 				return io.EOF
 			} else if c, ok := p.tok.(CharData); ok {
-				if hasContent(c) {
+				if p.hasContent(c) {
 					break
 				}
 			} else if _, ok := p.tok.(Comment); ok {
@@ -158,7 +164,7 @@ func (p *xmlParser) Next() (err error) {
 		if _, ok := p.tok.(StartElement); ok {
 			break
 		} else if c, ok := p.tok.(CharData); ok {
-			if hasContent(c) {
+			if p.hasContent(c) {
 				break
 			}
 		} else if _, ok := p.tok.(EndElement); ok {
@@ -242,6 +248,7 @@ func (p *xmlParser) Up() {
 			return
 		}
 	}
+	p.depth--
 	if _, ok := p.tok.(EndElement); ok {
 		p.tok = nil
 		p.attrs = nil
@@ -274,6 +281,7 @@ func (p *xmlParser) Down() {
 		p.tok = nil
 		p.attrs = s.Attr
 		p.attrIndex = -1
+		p.depth++
 		return
 	}
 	panic(fmt.Sprintf("not a start element %T", p.tok))
-- 
2.43.0


From 3c4f4984a6994f60554ded5d97fc3030285a98a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:49 +0000
Subject: [PATCH 38/64] fix: an index in a reflected slice is not also an empty
 string

---
 parser/reflect/reflect.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/reflect/reflect.go b/parser/reflect/reflect.go
index ea52340..9c91d6b 100644
--- a/parser/reflect/reflect.go
+++ b/parser/reflect/reflect.go
@@ -160,6 +160,9 @@ func (s *reflectParser) Bool() (bool, error) {
 }
 
 func (s *reflectParser) String() (string, error) {
+	if s.isArray {
+		return "", parser.ErrNotString
+	}
 	if !s.isLeaf {
 		return s.typ.Name, nil
 	}
-- 
2.43.0


From ed08cfa33c96ccb428800c9e9606597a84bd268d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:50 +0000
Subject: [PATCH 39/64] fix: reading bytes of a reflected uint8 or int8 is an
 error

---
 parser/reflect/reflect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/reflect/reflect.go b/parser/reflect/reflect.go
index 9c91d6b..05745e0 100644
--- a/parser/reflect/reflect.go
+++ b/parser/reflect/reflect.go
@@ -178,7 +178,7 @@ func (s *reflectParser) Bytes() ([]byte, error) {
 	if s.isLeaf {
 		value := s.getValue()
 		switch value.Kind() {
-		case reflect.Slice, reflect.Uint8, reflect.Int8:
+		case reflect.Slice:
 			return value.Bytes(), nil
 		}
 	}
-- 
2.43.0


From e0fdd3aa0fe8a4f9d732072a68ca41b9ec2fbc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:55 +0000
Subject: [PATCH 40/64] fix: a colon inside of a yaml key or scalar does not
 end the key

---
 parser/yaml/yaml.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/parser/yaml/yaml.go b/parser/yaml/yaml.go
index 11c751c..2f60c07 100644
--- a/parser/yaml/yaml.go
+++ b/parser/yaml/yaml.go
@@ -509,7 +509,7 @@ func (s *yamlParser) peekNextLine() (*Line, error) {
 				nameStart: nameStart,
 			}, nil
 		}
-		if buf[j] == ':' {
+		if isColon(buf, j) {
 			name = buf[i:j]
 			break
 		}
@@ -555,6 +555,11 @@ func (s *yamlParser) peekNextLine() (*Line, error) {
 		nil
 }
 
+//isColon returns whether a name ends at this position, with a colon that is followed by space or the end of the buffer.
+func isColon(buf []byte, i int) bool {
+	return buf[i] == ':' && (i == len(buf)-1 || isSpace(buf[i+1]))
+}
+
 func isNumber(c byte) bool {
 	return (c == '-') || ((c >= '0') && (c <= '9'))
 }
@@ -690,7 +695,7 @@ func (s *yamlParser) scanLine() (*Line, error) {
 				nameStart: nameStart,
 			}, nil
 		}
-		if buf[j] == ':' {
+		if isColon(buf, j) {
 			name = buf[i:j]
 			break
 		}
-- 
2.43.0


From 24a010e17aa802735984dc2b3642c987953ed734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:34 +0000
Subject: [PATCH 41/64] fix: yaml scalars are readable as the numbers and
 booleans they spell

---
 parser/yaml/yaml.go | 77 +++++++++++++++++++++++++++------------------
 1 file changed, 47 insertions(+), 30 deletions(-)

diff --git a/parser/yaml/yaml.go b/parser/yaml/yaml.go
index 2f60c07..9b17369 100644
--- a/parser/yaml/yaml.go
+++ b/parser/yaml/yaml.go
@@ -16,9 +16,12 @@
 package yaml
 
 import (
+	"bytes"
 	"errors"
 	"fmt"
 	"io"
+	"math"
+	"regexp"
 	"strconv"
 	"strings"
 
@@ -320,34 +323,43 @@ func (s *yamlParser) Bytes() ([]byte, error) {
 	return nil, parser.ErrNotBytes
 }
 
+//number matches the scalars that are numbers, which are the numbers of JSON.
+//Other scalars, for example ones with leading zeros, are strings.
+var number = regexp.MustCompile(`^-?(0|[1-9][0-9]*)(\.[0-9]+)?([eE][-+]?[0-9]+)?$`)
+
+//number returns the text of a scalar that is a number and whether the text has a fraction or an exponent.
+func (s *yamlParser) number() (v string, isFloat bool, ok bool) {
+	if !s.isLeaf {
+		return "", false, false
+	}
+	v = string(s.Value())
+	return v, strings.ContainsAny(v, ".eE"), number.MatchString(v)
+}
+
 func (s *yamlParser) Double() (float64, error) {
-	if s.isLeaf {
-		v := string(s.Value())
-		i, err := strconv.ParseFloat(v, 64)
-		return i, err
+	v, _, ok := s.number()
+	if !ok {
+		return 0, parser.ErrNotDouble
 	}
-	return 0, parser.ErrNotDouble
+	return strconv.ParseFloat(v, 64)
 }
 
 func (s *yamlParser) Int() (int64, error) {
-	if s.isLeaf {
-		v := string(s.Value())
-		i, err := strconv.ParseInt(v, 10, 64)
-		if err != nil {
-			f, ferr := strconv.ParseFloat(v, 64)
-			if ferr != nil {
-				return i, err
-			}
-			if float64(int64(f)) == f {
-				return int64(f), nil
-			}
-		}
-		return i, err
-	}
-	if s.inArray {
+	if !s.isLeaf && s.inArray {
 		return int64(s.arrayIndex), nil
 	}
-	return 0, parser.ErrNotInt
+	v, isFloat, ok := s.number()
+	if !ok {
+		return 0, parser.ErrNotInt
+	}
+	if isFloat {
+		f, err := strconv.ParseFloat(v, 64)
+		if err != nil || f != math.Trunc(f) || f < -(1<<63) || f >= 1<<63 {
+			return 0, parser.ErrNotInt
+		}
+		return int64(f), nil
+	}
+	return strconv.ParseInt(v, 10, 64)
 }
 
 func (s *yamlParser) IsLeaf() bool {
@@ -357,12 +369,11 @@ func (s *yamlParser) IsLeaf() bool {
 func (s *yamlParser) String() (string, error) {
 	if s.isLeaf {
 		v := s.Value()
-		s := strings.TrimSpace(string(v))
-		if len(s) == 0 {
+		if len(v) == 0 {
 			// for nulls
 			return "", parser.ErrNotString
 		}
-		return strings.TrimSpace(string(v)), nil
+		return string(v), nil
 	}
 	if s.inArray {
 		return "", parser.ErrNotString
@@ -371,16 +382,22 @@ func (s *yamlParser) String() (string, error) {
 }
 
 func (s *yamlParser) Uint() (uint64, error) {
-	if s.isLeaf {
-		v := string(s.Value())
-		i, err := strconv.ParseUint(v, 10, 64)
-		return uint64(i), err
+	v, isFloat, ok := s.number()
+	if !ok {
+		return 0, parser.ErrNotUint
+	}
+	if isFloat {
+		f, err := strconv.ParseFloat(v, 64)
+		if err != nil || f != math.Trunc(f) || f < 0 || f >= 1<<64 {
+			return 0, parser.ErrNotUint
+		}
+		return uint64(f), nil
 	}
-	return 0, parser.ErrNotUint
+	return strconv.ParseUint(v, 10, 64)
 }
 
 func (s *yamlParser) Value() []byte {
-	return s.buf[s.startValueOffset:s.endValueOffset]
+	return bytes.TrimSpace(s.buf[s.startValueOffset:s.endValueOffset])
 }
 
 func isSpace(c byte) bool {
-- 
2.43.0


From 52a1e2ea73a93576286d3a74632dc9fb7eb09eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:36 +0000
Subject: [PATCH 42/64] fix: spaces at the end of a line are not part of a yaml
 key

---
 parser/yaml/yaml.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/yaml/yaml.go b/parser/yaml/yaml.go
index 9b17369..7888b9d 100644
--- a/parser/yaml/yaml.go
+++ b/parser/yaml/yaml.go
@@ -378,7 +378,7 @@ func (s *yamlParser) String() (string, error) {
 	if s.inArray {
 		return "", parser.ErrNotString
 	}
-	return s.name, nil
+	return strings.TrimSpace(s.name), nil
 }
 
 func (s *yamlParser) Uint() (uint64, error) {
-- 
2.43.0


From a31813ac314dfdcfc9050a643e52251dd63cd101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:51 +0000
Subject: [PATCH 43/64] fix: a yaml key without a value in the last array
 element is a key

---
 parser/yaml/yaml.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/yaml/yaml.go b/parser/yaml/yaml.go
index 7888b9d..25602c8 100644
--- a/parser/yaml/yaml.go
+++ b/parser/yaml/yaml.go
@@ -228,6 +228,7 @@ func (s *yamlParser) nextValueInArray() error {
 	if err != nil { // no next line
 		s.startValueOffset = line.nameStart
 		s.endValueOffset = s.offset
+		s.isValueObject = true
 		return nil
 	}
 
-- 
2.43.0


From 9f257c9963e23301fd4831f9a5aec5394bf61cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:26 +0000
Subject: [PATCH 44/64] fix: a dash without a value is an empty yaml array
 element

---
 parser/yaml/yaml.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/parser/yaml/yaml.go b/parser/yaml/yaml.go
index 25602c8..165952d 100644
--- a/parser/yaml/yaml.go
+++ b/parser/yaml/yaml.go
@@ -502,7 +502,7 @@ func (s *yamlParser) peekNextLine() (*Line, error) {
 		for ; i < len(buf); i++ {
 			if buf[i] == '\n' {
 				return &Line{
-						isArray: true, indent: indent,
+						isArray: true, indent: indent, nameStart: i + s.offset,
 					},
 					nil
 			}
@@ -512,6 +512,10 @@ func (s *yamlParser) peekNextLine() (*Line, error) {
 		}
 	}
 
+	if i == len(buf) { // a dash at the end of the buffer
+		return &Line{isArray: isArray, indent: indent, nameStart: i + s.offset}, nil
+	}
+
 	var name []byte
 
 	// scan name
@@ -686,7 +690,7 @@ func (s *yamlParser) scanLine() (*Line, error) {
 			if buf[i] == '\n' {
 				s.offset += i
 				return &Line{
-						isArray: true, indent: indent,
+						isArray: true, indent: indent, nameStart: s.offset,
 					},
 					nil
 			}
@@ -696,6 +700,11 @@ func (s *yamlParser) scanLine() (*Line, error) {
 		}
 	}
 
+	if i == len(buf) { // a dash at the end of the buffer
+		s.offset += i
+		return &Line{isArray: isArray, indent: indent, nameStart: s.offset}, nil
+	}
+
 	var name []byte
 
 	// scan name
-- 
2.43.0


From cde29f725efa352caf5d7e7863397c65e42f7093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:04 +0000
Subject: [PATCH 45/64] fix: an empty object is encoded as an empty json object
 and not as null

---
 encode/json/json.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/encode/json/json.go b/encode/json/json.go
index 46f18b1..bc36658 100644
--- a/encode/json/json.go
+++ b/encode/json/json.go
@@ -39,13 +39,10 @@ func encode(p parser.Interface) (interface{}, error) {
 	for {
 		if err := p.Next(); err != nil {
 			if err == io.EOF {
-				if len(fields) > 0 {
-					return fields, nil
-				}
-				if list != nil {
+				if len(fields) == 0 && list != nil {
 					return list, nil
 				}
-				return nil, nil
+				return fields, nil
 			}
 			return nil, err
 		}
-- 
2.43.0


From 074829ec7048937cce7c931a87723f4b2ab60f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:05 +0000
Subject: [PATCH 46/64] fix: a protobuf encoder for a recursive message type

---
 encode/proto/proto.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/encode/proto/proto.go b/encode/proto/proto.go
index 18f293d..88b016a 100644
--- a/encode/proto/proto.go
+++ b/encode/proto/proto.go
@@ -42,7 +42,7 @@ func NewEncoder(desc *descriptor.FileDescriptorSet, pkgName, msgName string) (En
 	if err != nil {
 		return nil, err
 	}
-	return &encoder{msg: newMsg(descMap, descMap.GetRoot())}, nil
+	return &encoder{msg: newMsg(&descMsgs{descMap, make(map[*descriptor.DescriptorProto]*msg)}, descMap.GetRoot())}, nil
 }
 
 type encoder struct {
@@ -67,8 +67,18 @@ type fieldEncoder interface {
 	encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error)
 }
 
-func newMsg(desc protoparser.DescMap, protomsg *descriptor.DescriptorProto) *msg {
+//descMsgs is a description together with the message types that already have an encoder, since message types can be recursive.
+type descMsgs struct {
+	protoparser.DescMap
+	msgs map[*descriptor.DescriptorProto]*msg
+}
+
+func newMsg(desc *descMsgs, protomsg *descriptor.DescriptorProto) *msg {
+	if m, ok := desc.msgs[protomsg]; ok {
+		return m
+	}
 	msg := &msg{make(map[string]fieldEncoder)}
+	desc.msgs[protomsg] = msg
 	for _, f := range protomsg.GetField() {
 		fieldEnc := newFieldEncoder(desc, f)
 		msg.fieldEncoders[f.GetName()] = fieldEnc
@@ -76,14 +86,14 @@ func newMsg(desc protoparser.DescMap, protomsg *descriptor.DescriptorProto) *msg
 	return msg
 }
 
-func newFieldEncoder(desc protoparser.DescMap, f *descriptor.FieldDescriptorProto) fieldEncoder {
+func newFieldEncoder(desc *descMsgs, f *descriptor.FieldDescriptorProto) fieldEncoder {
 	if f.IsRepeated() {
 		return newRepeatedField(desc, f)
 	}
 	return newSingleField(desc, f)
 }
 
-func newSingleField(desc protoparser.DescMap, f *descriptor.FieldDescriptorProto) fieldEncoder {
+func newSingleField(desc *descMsgs, f *descriptor.FieldDescriptorProto) fieldEncoder {
 	switch f.GetType() {
 	case descriptor.FieldDescriptorProto_TYPE_DOUBLE:
 		return newDoubleField(f)
@@ -154,7 +164,7 @@ type repeatedField struct {
 	fieldEnc fieldEncoder
 }
 
-func newRepeatedField(desc protoparser.DescMap, f *descriptor.FieldDescriptorProto) *repeatedField {
+func newRepeatedField(desc *descMsgs, f *descriptor.FieldDescriptorProto) *repeatedField {
 	return &repeatedField{
 		key:      f.GetKey(),
 		fieldEnc: newSingleField(desc, f),
@@ -183,7 +193,7 @@ func (this *repeatedField) encode(buf []byte, offset int, p parser.Interface) ([
 	}
 }
 
-func newMsgField(desc protoparser.DescMap, field *descriptor.FieldDescriptorProto, msg *descriptor.DescriptorProto) *msgField {
+func newMsgField(desc *descMsgs, field *descriptor.FieldDescriptorProto, msg *descriptor.DescriptorProto) *msgField {
 	return &msgField{
 		key: field.GetKey(),
 		msg: newMsg(desc, msg),
-- 
2.43.0


From e525f3a7385872fd3ba0881afcf81b45cde7cdba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:33 +0000
Subject: [PATCH 47/64] fix: an empty protobuf message fits at the end of any
 buffer

---
 encode/proto/proto.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/encode/proto/proto.go b/encode/proto/proto.go
index 88b016a..4c817ba 100644
--- a/encode/proto/proto.go
+++ b/encode/proto/proto.go
@@ -206,6 +206,7 @@ type msgField struct {
 }
 
 func (this *msgField) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
+	buf = checkSize(buf, offset, 20)
 	msginitoff := offset + 20
 	msgbuf, msgfinaloff, err := this.msg.encode(buf, msginitoff, p)
 	if err != nil {
-- 
2.43.0


From 5e39f5e960a0ab0a7be13a68a96deacc4ac607ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:00 +0000
Subject: [PATCH 48/64] fix: the elements of a packed protobuf field are
 encoded one by one

---
 encode/proto/proto.go | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/encode/proto/proto.go b/encode/proto/proto.go
index 4c817ba..d251946 100644
--- a/encode/proto/proto.go
+++ b/encode/proto/proto.go
@@ -93,6 +93,14 @@ func newFieldEncoder(desc *descMsgs, f *descriptor.FieldDescriptorProto) fieldEn
 	return newSingleField(desc, f)
 }
 
+//getKey returns the key of a single value of the field.
+//The elements of a packed field are also encoded one by one, since a decoder has to accept both encodings.
+func getKey(f *descriptor.FieldDescriptorProto) []byte {
+	key := make([]byte, maxVarintSize)
+	_, n := safeVarint(key, 0, uint64(f.GetNumber())<<3|uint64(f.WireType()))
+	return key[:n]
+}
+
 func newSingleField(desc *descMsgs, f *descriptor.FieldDescriptorProto) fieldEncoder {
 	switch f.GetType() {
 	case descriptor.FieldDescriptorProto_TYPE_DOUBLE:
@@ -166,7 +174,7 @@ type repeatedField struct {
 
 func newRepeatedField(desc *descMsgs, f *descriptor.FieldDescriptorProto) *repeatedField {
 	return &repeatedField{
-		key:      f.GetKey(),
+		key:      getKey(f),
 		fieldEnc: newSingleField(desc, f),
 	}
 }
@@ -195,7 +203,7 @@ func (this *repeatedField) encode(buf []byte, offset int, p parser.Interface) ([
 
 func newMsgField(desc *descMsgs, field *descriptor.FieldDescriptorProto, msg *descriptor.DescriptorProto) *msgField {
 	return &msgField{
-		key: field.GetKey(),
+		key: getKey(field),
 		msg: newMsg(desc, msg),
 	}
 }
@@ -268,7 +276,7 @@ func safeCopy(dst []byte, offset int, src []byte) ([]byte, int) {
 }
 
 func newDoubleField(f *descriptor.FieldDescriptorProto) *doubleField {
-	return &doubleField{f.GetKey()}
+	return &doubleField{getKey(f)}
 }
 
 type doubleField struct {
@@ -292,7 +300,7 @@ func (this *doubleField) encode(buf []byte, offset int, p parser.Interface) ([]b
 }
 
 func newFloatField(f *descriptor.FieldDescriptorProto) *floatField {
-	return &floatField{f.GetKey()}
+	return &floatField{getKey(f)}
 }
 
 type floatField struct {
@@ -316,7 +324,7 @@ func (this *floatField) encode(buf []byte, offset int, p parser.Interface) ([]by
 }
 
 func newIntField(f *descriptor.FieldDescriptorProto) *intField {
-	return &intField{f.GetKey()}
+	return &intField{getKey(f)}
 }
 
 type intField struct {
@@ -340,7 +348,7 @@ func (this *intField) encode(buf []byte, offset int, p parser.Interface) ([]byte
 }
 
 func newUintField(f *descriptor.FieldDescriptorProto) *uintField {
-	return &uintField{f.GetKey()}
+	return &uintField{getKey(f)}
 }
 
 type uintField struct {
@@ -364,7 +372,7 @@ func (this *uintField) encode(buf []byte, offset int, p parser.Interface) ([]byt
 }
 
 func newFixed64UintField(f *descriptor.FieldDescriptorProto) *fixed64UintField {
-	return &fixed64UintField{f.GetKey()}
+	return &fixed64UintField{getKey(f)}
 }
 
 type fixed64UintField struct {
@@ -388,7 +396,7 @@ func (this *fixed64UintField) encode(buf []byte, offset int, p parser.Interface)
 }
 
 func newFixed32UintField(f *descriptor.FieldDescriptorProto) *fixed32UintField {
-	return &fixed32UintField{f.GetKey()}
+	return &fixed32UintField{getKey(f)}
 }
 
 type fixed32UintField struct {
@@ -412,7 +420,7 @@ func (this *fixed32UintField) encode(buf []byte, offset int, p parser.Interface)
 }
 
 func newBoolField(f *descriptor.FieldDescriptorProto) *boolField {
-	return &boolField{f.GetKey()}
+	return &boolField{getKey(f)}
 }
 
 type boolField struct {
@@ -440,7 +448,7 @@ func (this *boolField) encode(buf []byte, offset int, p parser.Interface) ([]byt
 }
 
 func newStringField(f *descriptor.FieldDescriptorProto) *stringField {
-	return &stringField{f.GetKey()}
+	return &stringField{getKey(f)}
 }
 
 type stringField struct {
@@ -466,7 +474,7 @@ func (this *stringField) encode(buf []byte, offset int, p parser.Interface) ([]b
 }
 
 func newBytesField(f *descriptor.FieldDescriptorProto) *bytesField {
-	return &bytesField{f.GetKey()}
+	return &bytesField{getKey(f)}
 }
 
 type bytesField struct {
@@ -491,7 +499,7 @@ func (this *bytesField) encode(buf []byte, offset int, p parser.Interface) ([]by
 }
 
 func newFixed64IntField(f *descriptor.FieldDescriptorProto) *fixed64IntField {
-	return &fixed64IntField{f.GetKey()}
+	return &fixed64IntField{getKey(f)}
 }
 
 type fixed64IntField struct {
@@ -515,7 +523,7 @@ func (this *fixed64IntField) encode(buf []byte, offset int, p parser.Interface)
 }
 
 func newFixed32IntField(f *descriptor.FieldDescriptorProto) *fixed32IntField {
-	return &fixed32IntField{f.GetKey()}
+	return &fixed32IntField{getKey(f)}
 }
 
 type fixed32IntField struct {
@@ -539,7 +547,7 @@ func (this *fixed32IntField) encode(buf []byte, offset int, p parser.Interface)
 }
 
 func newSint32Field(f *descriptor.FieldDescriptorProto) *sint32Field {
-	return &sint32Field{f.GetKey()}
+	return &sint32Field{getKey(f)}
 }
 
 type sint32Field struct {
@@ -563,7 +571,7 @@ func (this *sint32Field) encode(buf []byte, offset int, p parser.Interface) ([]b
 }
 
 func newSint64Field(f *descriptor.FieldDescriptorProto) *sint64Field {
-	return &sint64Field{f.GetKey()}
+	return &sint64Field{getKey(f)}
 }
 
 type sint64Field struct {
-- 
2.43.0


From fd428221f228a2035a9ffcca697f3f78949da7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:02 +0000
Subject: [PATCH 49/64] fix: protobuf extensions are encoded

---
 encode/proto/proto.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/encode/proto/proto.go b/encode/proto/proto.go
index d251946..cb559c2 100644
--- a/encode/proto/proto.go
+++ b/encode/proto/proto.go
@@ -79,7 +79,13 @@ func newMsg(desc *descMsgs, protomsg *descriptor.DescriptorProto) *msg {
 	}
 	msg := &msg{make(map[string]fieldEncoder)}
 	desc.msgs[protomsg] = msg
-	for _, f := range protomsg.GetField() {
+	fields := protomsg.GetField()
+	for _, f := range desc.LookupFields(protomsg) {
+		if len(f.GetExtendee()) > 0 {
+			fields = append(fields[:len(fields):len(fields)], f)
+		}
+	}
+	for _, f := range fields {
 		fieldEnc := newFieldEncoder(desc, f)
 		msg.fieldEncoders[f.GetName()] = fieldEnc
 	}
-- 
2.43.0


From 23a5d90bda4a35965c24d228c2cce4d5c4a21634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:26 +0000
Subject: [PATCH 50/64] fix: a value where a protobuf message or list is
 expected is an error

---
 encode/proto/proto.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/encode/proto/proto.go b/encode/proto/proto.go
index cb559c2..45163ac 100644
--- a/encode/proto/proto.go
+++ b/encode/proto/proto.go
@@ -22,6 +22,7 @@
 package proto
 
 import (
+	"errors"
 	"github.com/gogo/protobuf/protoc-gen-gogo/descriptor"
 	"github.com/katydid/katydid/parser"
 	protoparser "github.com/katydid/katydid/parser/proto"
@@ -31,6 +32,8 @@ import (
 
 const maxVarintSize = 10
 
+var errLeaf = errors.New("encode/proto: expected a field or an index, but got a value")
+
 //Encoder encodes a parser.Interface into a byte slice containing marshaled protocol buffer.
 type Encoder interface {
 	Encode([]byte, parser.Interface) ([]byte, error)
@@ -156,6 +159,9 @@ func (this *msg) encode(buf []byte, offset int, p parser.Interface) ([]byte, int
 				return nil, 0, err
 			}
 		}
+		if p.IsLeaf() {
+			return nil, 0, errLeaf
+		}
 		name, err := p.String()
 		if err != nil {
 			return nil, 0, err
@@ -194,6 +200,9 @@ func (this *repeatedField) encode(buf []byte, offset int, p parser.Interface) ([
 				return nil, 0, err
 			}
 		}
+		if p.IsLeaf() {
+			return nil, 0, errLeaf
+		}
 		_, err := p.Int()
 		if err != nil {
 			return nil, 0, err
-- 
2.43.0


From a4a3555cb46cc6d616f9f89e726499a806d03c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:30 +0000
Subject: [PATCH 51/64] fix: a value that does not fit in a 32 bit protobuf
 field is an error

---
 encode/proto/proto.go | 80 +++++++++++++++++++++++++++++++++++++++----
 1 file changed, 74 insertions(+), 6 deletions(-)

diff --git a/encode/proto/proto.go b/encode/proto/proto.go
index 45163ac..6c5053e 100644
--- a/encode/proto/proto.go
+++ b/encode/proto/proto.go
@@ -32,6 +32,8 @@ import (
 
 const maxVarintSize = 10
 
+var errOverflow = errors.New("encode/proto: value does not fit in a 32 bit field")
+
 var errLeaf = errors.New("encode/proto: expected a field or an index, but got a value")
 
 //Encoder encodes a parser.Interface into a byte slice containing marshaled protocol buffer.
@@ -121,7 +123,7 @@ func newSingleField(desc *descMsgs, f *descriptor.FieldDescriptorProto) fieldEnc
 	case descriptor.FieldDescriptorProto_TYPE_UINT64:
 		return newUintField(f)
 	case descriptor.FieldDescriptorProto_TYPE_INT32:
-		return newIntField(f)
+		return newInt32Field(f)
 	case descriptor.FieldDescriptorProto_TYPE_FIXED64:
 		return newFixed64UintField(f)
 	case descriptor.FieldDescriptorProto_TYPE_FIXED32:
@@ -135,9 +137,9 @@ func newSingleField(desc *descMsgs, f *descriptor.FieldDescriptorProto) fieldEnc
 	case descriptor.FieldDescriptorProto_TYPE_BYTES:
 		return newBytesField(f)
 	case descriptor.FieldDescriptorProto_TYPE_UINT32:
-		return newUintField(f)
+		return newUint32Field(f)
 	case descriptor.FieldDescriptorProto_TYPE_ENUM:
-		return newIntField(f)
+		return newInt32Field(f)
 	case descriptor.FieldDescriptorProto_TYPE_SFIXED32:
 		return newFixed32IntField(f)
 	case descriptor.FieldDescriptorProto_TYPE_SFIXED64:
@@ -290,6 +292,24 @@ func safeCopy(dst []byte, offset int, src []byte) ([]byte, int) {
 	return dst, offset
 }
 
+//int32Value returns the value of the parser, which has to fit in a 32 bit field.
+func int32Value(p parser.Interface) (int64, error) {
+	v, err := p.Int()
+	if err == nil && v != int64(int32(v)) {
+		return 0, errOverflow
+	}
+	return v, err
+}
+
+//uint32Value returns the value of the parser, which has to fit in a 32 bit field.
+func uint32Value(p parser.Interface) (uint64, error) {
+	v, err := p.Uint()
+	if err == nil && v != uint64(uint32(v)) {
+		return 0, errOverflow
+	}
+	return v, err
+}
+
 func newDoubleField(f *descriptor.FieldDescriptorProto) *doubleField {
 	return &doubleField{getKey(f)}
 }
@@ -362,6 +382,30 @@ func (this *intField) encode(buf []byte, offset int, p parser.Interface) ([]byte
 	return buf, offset, nil
 }
 
+func newInt32Field(f *descriptor.FieldDescriptorProto) *int32Field {
+	return &int32Field{getKey(f)}
+}
+
+type int32Field struct {
+	key []byte
+}
+
+func (this *int32Field) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
+	if err := p.Next(); err != nil {
+		return buf, offset, nil
+	}
+	if !p.IsLeaf() {
+		return buf, offset, nil
+	}
+	buf, offset = safeCopy(buf, offset, this.key)
+	v, err := int32Value(p)
+	if err != nil {
+		return nil, 0, err
+	}
+	buf, offset = safeVarint(buf, offset, uint64(v))
+	return buf, offset, nil
+}
+
 func newUintField(f *descriptor.FieldDescriptorProto) *uintField {
 	return &uintField{getKey(f)}
 }
@@ -386,6 +430,30 @@ func (this *uintField) encode(buf []byte, offset int, p parser.Interface) ([]byt
 	return buf, offset, nil
 }
 
+func newUint32Field(f *descriptor.FieldDescriptorProto) *uint32Field {
+	return &uint32Field{getKey(f)}
+}
+
+type uint32Field struct {
+	key []byte
+}
+
+func (this *uint32Field) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
+	if err := p.Next(); err != nil {
+		return buf, offset, nil
+	}
+	if !p.IsLeaf() {
+		return buf, offset, nil
+	}
+	buf, offset = safeCopy(buf, offset, this.key)
+	v, err := uint32Value(p)
+	if err != nil {
+		return nil, 0, err
+	}
+	buf, offset = safeVarint(buf, offset, uint64(v))
+	return buf, offset, nil
+}
+
 func newFixed64UintField(f *descriptor.FieldDescriptorProto) *fixed64UintField {
 	return &fixed64UintField{getKey(f)}
 }
@@ -426,7 +494,7 @@ func (this *fixed32UintField) encode(buf []byte, offset int, p parser.Interface)
 		return buf, offset, nil
 	}
 	buf, offset = safeCopy(buf, offset, this.key)
-	v, err := p.Uint()
+	v, err := uint32Value(p)
 	if err != nil {
 		return nil, 0, err
 	}
@@ -553,7 +621,7 @@ func (this *fixed32IntField) encode(buf []byte, offset int, p parser.Interface)
 		return buf, offset, nil
 	}
 	buf, offset = safeCopy(buf, offset, this.key)
-	v, err := p.Int()
+	v, err := int32Value(p)
 	if err != nil {
 		return nil, 0, err
 	}
@@ -577,7 +645,7 @@ func (this *sint32Field) encode(buf []byte, offset int, p parser.Interface) ([]b
 		return buf, offset, nil
 	}
 	buf, offset = safeCopy(buf, offset, this.key)
-	v, err := p.Int()
+	v, err := int32Value(p)
 	if err != nil {
 		return nil, 0, err
 	}
-- 
2.43.0


From 577a4d0e9ffec1227b860a4cf9d0c8ede6999fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:41 +0000
Subject: [PATCH 52/64] fix: encoding into a go value follows the types of its
 fields, and errors are returned

---
 encode/reflect/reflect.go | 266 ++++++++++++++++++++++----------------
 1 file changed, 152 insertions(+), 114 deletions(-)

diff --git a/encode/reflect/reflect.go b/encode/reflect/reflect.go
index 4703e2c..19658c9 100644
--- a/encode/reflect/reflect.go
+++ b/encode/reflect/reflect.go
@@ -23,167 +23,205 @@ import (
 	"reflect"
 )
 
-//Encode encodes a parser.Interface into a go structure value.
+//Encode encodes a parser.Interface into a go structure value, which is given as a pointer to a structure.
 func Encode(p parser.Interface, v interface{}) error {
 	r := reflect.ValueOf(v)
-	return encodeStruct(p, r)
+	if r.Kind() != reflect.Ptr || r.IsNil() || r.Elem().Kind() != reflect.Struct {
+		return fmt.Errorf("expected pointer to struct")
+	}
+	isNull, err := encodeStruct(p, r.Elem())
+	if err != nil {
+		return err
+	}
+	if isNull {
+		return fmt.Errorf("struct: did not expect leaf")
+	}
+	return nil
 }
 
-func encodeStruct(p parser.Interface, v reflect.Value) error {
-	kind := v.Type().Kind()
-	isPtr := false
-	if kind == reflect.Ptr {
-		kind = v.Type().Elem().Kind()
-		isPtr = true
+//encodeValue encodes the value, that the parser is about to parse, into v.
+//It returns true if this is a leaf without a value, in which case v is left as it is.
+func encodeValue(p parser.Interface, v reflect.Value) (isNull bool, err error) {
+	switch v.Kind() {
+	case reflect.Ptr:
+		elem := reflect.New(v.Type().Elem())
+		isNull, err := encodeValue(p, elem.Elem())
+		if err == nil && !isNull {
+			v.Set(elem)
+		}
+		return isNull, err
+	case reflect.Struct:
+		return encodeStruct(p, v)
+	case reflect.Slice:
+		if v.Type().Elem().Kind() != reflect.Uint8 {
+			return encodeList(p, v)
+		}
 	}
-	if kind != reflect.Struct {
-		return fmt.Errorf("expected struct")
+	return encodeLeaf(p, v)
+}
+
+func fieldByIndex(v reflect.Value, index []int) (reflect.Value, error) {
+	for i, x := range index {
+		if i > 0 && v.Kind() == reflect.Ptr {
+			if v.IsNil() {
+				return v, fmt.Errorf("embedded %v is nil", v.Type())
+			}
+			v = v.Elem()
+		}
+		v = v.Field(x)
 	}
-	for {
+	return v, nil
+}
+
+func encodeStruct(p parser.Interface, strct reflect.Value) (isNull bool, err error) {
+	for first := true; ; first = false {
 		if err := p.Next(); err != nil {
 			if err == io.EOF {
-				return nil
-			} else {
-				panic(err)
+				return false, nil
 			}
+			return false, err
 		}
 		if p.IsLeaf() {
-			return fmt.Errorf("struct: did not expect leaf")
+			if first && isNullLeaf(p) {
+				return true, nil
+			}
+			return false, fmt.Errorf("struct: did not expect leaf")
 		}
 		name, err := p.String()
 		if err != nil {
-			return err
-		}
-		strct := v
-		if isPtr {
-			strct = v.Elem()
+			return false, err
 		}
-		field := strct.FieldByName(name)
-		if !field.IsValid() {
+		structField, ok := strct.Type().FieldByName(name)
+		if !ok {
 			continue //skip field
 		}
-		fieldKind := field.Kind()
-		fieldIsPtr := false
-		fieldType := field.Type()
-		if fieldKind == reflect.Ptr {
-			fieldIsPtr = true
-			fieldKind = field.Type().Elem().Kind()
-			fieldType = field.Type().Elem()
+		field, err := fieldByIndex(strct, structField.Index)
+		if err != nil {
+			return false, err
+		}
+		if !field.CanSet() {
+			continue //skip unexported field
 		}
 		p.Down()
-		switch fieldKind {
-		case reflect.Struct:
-			if !p.IsLeaf() {
-				if fieldIsPtr {
-					field.Set(reflect.New(field.Type().Elem()))
-				}
-				if err := encodeStruct(p, field); err != nil {
-					return err
-				}
-			}
-		case reflect.Slice:
-			list, err := newList(p, fieldType)
-			if err != nil {
-				return err
-			}
-			field.Set(list)
-		default:
-
-			value, err := newValue(p, fieldType)
-			if err != nil {
-				return err
-			}
-			field.Set(value)
+		if _, err := encodeValue(p, field); err != nil {
+			return false, err
 		}
 		p.Up()
 	}
 }
 
-func newList(p parser.Interface, typ reflect.Type) (reflect.Value, error) {
-	list := reflect.MakeSlice(typ, 0, 0)
-	for {
+func encodeList(p parser.Interface, v reflect.Value) (isNull bool, err error) {
+	list := reflect.MakeSlice(v.Type(), 0, 0)
+	for first := true; ; first = false {
 		if err := p.Next(); err != nil {
 			if err == io.EOF {
-				return list, nil
-			} else {
-				panic(err)
+				v.Set(list)
+				return false, nil
 			}
+			return false, err
 		}
 		if p.IsLeaf() {
-			return reflect.ValueOf(nil), fmt.Errorf("list: did not expect leaf")
-		}
-		_, err := p.Int()
-		if err != nil {
-			return reflect.ValueOf(nil), err
+			if first && isNullLeaf(p) {
+				return true, nil
+			}
+			return false, fmt.Errorf("list: did not expect leaf")
 		}
-		elemType := typ.Elem()
-		elemKind := elemType.Kind()
-		elemIsPtr := false
-		if elemKind == reflect.Ptr {
-			elemIsPtr = true
-			elemType = typ.Elem().Elem()
-			elemKind = elemType.Kind()
+		if _, err := p.Int(); err != nil {
+			return false, err
 		}
+		elem := reflect.New(v.Type().Elem()).Elem()
 		p.Down()
-		switch elemKind {
-		case reflect.Struct:
-			if !p.IsLeaf() {
-				elem := reflect.New(elemType).Elem()
-				if err := encodeStruct(p, elem); err != nil {
-					return reflect.ValueOf(nil), err
-				}
-				if elemIsPtr {
-					elem = elem.Addr()
-				}
-				list = reflect.Append(list, elem)
-			} else {
-				list = reflect.Append(list, reflect.Zero(typ.Elem()))
-			}
-		case reflect.Slice:
-			newList, err := newList(p, elemType)
-			if err != nil {
-				return reflect.ValueOf(nil), err
-			}
-			list = reflect.Append(list, newList)
-		default:
-			elem, err := newValue(p, typ.Elem())
-			if err != nil {
-				return reflect.ValueOf(nil), err
-			}
-			list = reflect.Append(list, elem)
+		if _, err := encodeValue(p, elem); err != nil {
+			return false, err
 		}
 		p.Up()
+		list = reflect.Append(list, elem)
 	}
 }
 
-func newValue(p parser.Interface, typ reflect.Type) (reflect.Value, error) {
+func encodeLeaf(p parser.Interface, v reflect.Value) (isNull bool, err error) {
 	if err := p.Next(); err != nil {
 		if err == io.EOF {
-			return reflect.ValueOf(nil), nil
-		} else {
-			panic(err)
+			return true, nil
 		}
+		return false, err
 	}
 	if !p.IsLeaf() {
-		return reflect.ValueOf(nil), fmt.Errorf("expected leaf")
+		return false, fmt.Errorf("expected leaf")
+	}
+	if isNullLeaf(p) {
+		return true, nil
+	}
+	switch v.Kind() {
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		value, err := p.Int()
+		if err != nil {
+			return false, err
+		}
+		if v.OverflowInt(value) {
+			return false, fmt.Errorf("%d overflows %v", value, v.Type())
+		}
+		v.SetInt(value)
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
+		value, err := p.Uint()
+		if err != nil {
+			return false, err
+		}
+		if v.OverflowUint(value) {
+			return false, fmt.Errorf("%d overflows %v", value, v.Type())
+		}
+		v.SetUint(value)
+	case reflect.Float32, reflect.Float64:
+		value, err := p.Double()
+		if err != nil {
+			return false, err
+		}
+		if v.OverflowFloat(value) {
+			return false, fmt.Errorf("%v overflows %v", value, v.Type())
+		}
+		v.SetFloat(value)
+	case reflect.Bool:
+		value, err := p.Bool()
+		if err != nil {
+			return false, err
+		}
+		v.SetBool(value)
+	case reflect.String:
+		value, err := p.String()
+		if err != nil {
+			return false, err
+		}
+		v.SetString(value)
+	case reflect.Slice:
+		value, err := p.Bytes()
+		if err != nil {
+			return false, err
+		}
+		v.SetBytes(append([]byte{}, value...))
+	default:
+		return false, fmt.Errorf("unsupported type %v", v.Type())
 	}
-	if value, err := p.Int(); err == nil {
-		return reflect.ValueOf(value), nil
+	return false, nil
+}
+
+func isNullLeaf(p parser.Interface) bool {
+	if _, err := p.Int(); err == nil {
+		return false
 	}
-	if value, err := p.Uint(); err == nil {
-		return reflect.ValueOf(value), nil
+	if _, err := p.Uint(); err == nil {
+		return false
 	}
-	if value, err := p.Double(); err == nil {
-		return reflect.ValueOf(value), nil
+	if _, err := p.Double(); err == nil {
+		return false
 	}
-	if value, err := p.Bool(); err == nil {
-		return reflect.ValueOf(value), nil
+	if _, err := p.Bool(); err == nil {
+		return false
 	}
-	if value, err := p.String(); err == nil {
-		return reflect.ValueOf(value), nil
+	if _, err := p.String(); err == nil {
+		return false
 	}
-	if value, err := p.Bytes(); err == nil {
-		return reflect.ValueOf(value), nil
+	if _, err := p.Bytes(); err == nil {
+		return false
 	}
-	return reflect.ValueOf(nil), nil
+	return true
 }
-- 
2.43.0


From f5f3e1875cc586e04ef1e3c61f97f72fadaa029e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:26 +0000
Subject: [PATCH 53/64] fix: xml text is encoded as it is, also when it spells
 a number

---
 encode/xml/xml.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/encode/xml/xml.go b/encode/xml/xml.go
index 92c0187..9b6a425 100644
--- a/encode/xml/xml.go
+++ b/encode/xml/xml.go
@@ -72,6 +72,10 @@ func encode(e *xml.Encoder, p parser.Interface) error {
 }
 
 func getName(p parser.Interface) xml.Name {
+	s, err := p.String()
+	if err == nil {
+		return xml.Name{Local: s}
+	}
 	i, err := p.Int()
 	if err == nil {
 		return xml.Name{Local: strconv.FormatInt(i, 10)}
@@ -88,10 +92,6 @@ func getName(p parser.Interface) xml.Name {
 	if err == nil {
 		return xml.Name{Local: strconv.FormatBool(b)}
 	}
-	s, err := p.String()
-	if err == nil {
-		return xml.Name{Local: s}
-	}
 	v, err := p.Bytes()
 	if err == nil {
 		return xml.Name{Local: base64.StdEncoding.EncodeToString(v)}
@@ -100,6 +100,10 @@ func getName(p parser.Interface) xml.Name {
 }
 
 func getCharData(p parser.Interface) xml.CharData {
+	s, err := p.String()
+	if err == nil {
+		return xml.CharData([]byte(s))
+	}
 	i, err := p.Int()
 	if err == nil {
 		return xml.CharData([]byte(strconv.FormatInt(i, 10)))
@@ -116,10 +120,6 @@ func getCharData(p parser.Interface) xml.CharData {
 	if err == nil {
 		return xml.CharData([]byte(strconv.FormatBool(b)))
 	}
-	s, err := p.String()
-	if err == nil {
-		return xml.CharData([]byte(s))
-	}
 	v, err := p.Bytes()
 	if err == nil {
 		return xml.CharData([]byte(base64.StdEncoding.EncodeToString(v)))
-- 
2.43.0


From 55fc0f5d41155fd003761c88716a6a95422d3cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:47 +0000
Subject: [PATCH 54/64] fix: a parser error in the value of a protobuf field is
 an error

---
 encode/proto/proto.go | 75 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 60 insertions(+), 15 deletions(-)

diff --git a/encode/proto/proto.go b/encode/proto/proto.go
index 6c5053e..ffb03e5 100644
--- a/encode/proto/proto.go
+++ b/encode/proto/proto.go
@@ -320,7 +320,10 @@ type doubleField struct {
 
 func (this *doubleField) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
 	if err := p.Next(); err != nil {
-		return buf, offset, nil
+		if err == io.EOF {
+			return buf, offset, nil
+		}
+		return nil, 0, err
 	}
 	if !p.IsLeaf() {
 		return buf, offset, nil
@@ -344,7 +347,10 @@ type floatField struct {
 
 func (this *floatField) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
 	if err := p.Next(); err != nil {
-		return buf, offset, nil
+		if err == io.EOF {
+			return buf, offset, nil
+		}
+		return nil, 0, err
 	}
 	if !p.IsLeaf() {
 		return buf, offset, nil
@@ -368,7 +374,10 @@ type intField struct {
 
 func (this *intField) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
 	if err := p.Next(); err != nil {
-		return buf, offset, nil
+		if err == io.EOF {
+			return buf, offset, nil
+		}
+		return nil, 0, err
 	}
 	if !p.IsLeaf() {
 		return buf, offset, nil
@@ -392,7 +401,10 @@ type int32Field struct {
 
 func (this *int32Field) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
 	if err := p.Next(); err != nil {
-		return buf, offset, nil
+		if err == io.EOF {
+			return buf, offset, nil
+		}
+		return nil, 0, err
 	}
 	if !p.IsLeaf() {
 		return buf, offset, nil
@@ -416,7 +428,10 @@ type uintField struct {
 
 func (this *uintField) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
 	if err := p.Next(); err != nil {
-		return buf, offset, nil
+		if err == io.EOF {
+			return buf, offset, nil
+		}
+		return nil, 0, err
 	}
 	if !p.IsLeaf() {
 		return buf, offset, nil
@@ -440,7 +455,10 @@ type uint32Field struct {
 
 func (this *uint32Field) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
 	if err := p.Next(); err != nil {
-		return buf, offset, nil
+		if err == io.EOF {
+			return buf, offset, nil
+		}
+		return nil, 0, err
 	}
 	if !p.IsLeaf() {
 		return buf, offset, nil
@@ -464,7 +482,10 @@ type fixed64UintField struct {
 
 func (this *fixed64UintField) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
 	if err := p.Next(); err != nil {
-		return buf, offset, nil
+		if err == io.EOF {
+			return buf, offset, nil
+		}
+		return nil, 0, err
 	}
 	if !p.IsLeaf() {
 		return buf, offset, nil
@@ -488,7 +509,10 @@ type fixed32UintField struct {
 
 func (this *fixed32UintField) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
 	if err := p.Next(); err != nil {
-		return buf, offset, nil
+		if err == io.EOF {
+			return buf, offset, nil
+		}
+		return nil, 0, err
 	}
 	if !p.IsLeaf() {
 		return buf, offset, nil
@@ -512,7 +536,10 @@ type boolField struct {
 
 func (this *boolField) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
 	if err := p.Next(); err != nil {
-		return buf, offset, nil
+		if err == io.EOF {
+			return buf, offset, nil
+		}
+		return nil, 0, err
 	}
 	if !p.IsLeaf() {
 		return buf, offset, nil
@@ -540,7 +567,10 @@ type stringField struct {
 
 func (this *stringField) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
 	if err := p.Next(); err != nil {
-		return buf, offset, nil
+		if err == io.EOF {
+			return buf, offset, nil
+		}
+		return nil, 0, err
 	}
 	if !p.IsLeaf() {
 		return buf, offset, nil
@@ -566,7 +596,10 @@ type bytesField struct {
 
 func (this *bytesField) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
 	if err := p.Next(); err != nil {
-		return buf, offset, nil
+		if err == io.EOF {
+			return buf, offset, nil
+		}
+		return nil, 0, err
 	}
 	if !p.IsLeaf() {
 		return buf, offset, nil
@@ -591,7 +624,10 @@ type fixed64IntField struct {
 
 func (this *fixed64IntField) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
 	if err := p.Next(); err != nil {
-		return buf, offset, nil
+		if err == io.EOF {
+			return buf, offset, nil
+		}
+		return nil, 0, err
 	}
 	if !p.IsLeaf() {
 		return buf, offset, nil
@@ -615,7 +651,10 @@ type fixed32IntField struct {
 
 func (this *fixed32IntField) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
 	if err := p.Next(); err != nil {
-		return buf, offset, nil
+		if err == io.EOF {
+			return buf, offset, nil
+		}
+		return nil, 0, err
 	}
 	if !p.IsLeaf() {
 		return buf, offset, nil
@@ -639,7 +678,10 @@ type sint32Field struct {
 
 func (this *sint32Field) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
 	if err := p.Next(); err != nil {
-		return buf, offset, nil
+		if err == io.EOF {
+			return buf, offset, nil
+		}
+		return nil, 0, err
 	}
 	if !p.IsLeaf() {
 		return buf, offset, nil
@@ -663,7 +705,10 @@ type sint64Field struct {
 
 func (this *sint64Field) encode(buf []byte, offset int, p parser.Interface) ([]byte, int, error) {
 	if err := p.Next(); err != nil {
-		return buf, offset, nil
+		if err == io.EOF {
+			return buf, offset, nil
+		}
+		return nil, 0, err
 	}
 	if !p.IsLeaf() {
 		return buf, offset, nil
-- 
2.43.0


From a934c9fe199d4fe43e328decf3e5ba66279a870e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:41 +0000
Subject: [PATCH 55/64] fix: expressions can be used as the parameters of
 several functions

---
 relapse/ast/new.go | 51 +++++++++++++++++++++++-----------------------
 1 file changed, 26 insertions(+), 25 deletions(-)

diff --git a/relapse/ast/new.go b/relapse/ast/new.go
index c4bd3ef..0650300 100644
--- a/relapse/ast/new.go
+++ b/relapse/ast/new.go
@@ -369,17 +369,11 @@ func newInterleave(patterns []*Pattern) *Pattern {
 //NewFunction returns a function expression given a name and a list of parameters.
 //  ->name(param1, param2, ...)
 //This function should be the top level function and not a nested function.
-//If the parameters don't have populated Comma fields, this function will add them.
+//The parameters are copied.
+//If the parameters don't have populated Comma fields, this function will add them to the copies.
 //If a parameter has a populared RightArrow field, the contents of the RightArrow field is thrown away.
 func NewFunction(name string, params ...*Expr) *Expr {
-	for i, p := range params {
-		p.RightArrow = nil
-		if i == 0 {
-			p.Comma = nil
-		} else if p.Comma == nil {
-			p.Comma = newComma()
-		}
-	}
+	params = newParams(params)
 	return &Expr{
 		RightArrow: newRightArrow(),
 		Function: &Function{
@@ -393,23 +387,37 @@ func NewFunction(name string, params ...*Expr) *Expr {
 
 //NewNestedFunction returns a function expression given a name and a list of parameters.
 //  name(param1, param2, ...)
-//If the parameters don't have populated Comma fields, this function will add them.
+//The parameters are copied.
+//If the parameters don't have populated Comma fields, this function will add them to the copies.
 //If a parameter has a populared RightArrow field, the contents of the RightArrow field is thrown away.
 func NewNestedFunction(name string, params ...*Expr) *Expr {
-	for i, p := range params {
+	params = newParams(params)
+	return &Expr{Function: &Function{
+		Name:       name,
+		OpenParen:  newOpenParen(),
+		Params:     params,
+		CloseParen: newCloseParen(),
+	}}
+}
+
+// newParams returns copies of the expressions with the punctuation of a comma separated list.
+// The input expressions are left as they are, since they can also be used elsewhere.
+func newParams(exprs []*Expr) []*Expr {
+	if len(exprs) == 0 {
+		return exprs
+	}
+	params := make([]*Expr, len(exprs))
+	for i := range exprs {
+		p := exprs[i].Clone()
 		p.RightArrow = nil
 		if i == 0 {
 			p.Comma = nil
 		} else if p.Comma == nil {
 			p.Comma = newComma()
 		}
+		params[i] = p
 	}
-	return &Expr{Function: &Function{
-		Name:       name,
-		OpenParen:  newOpenParen(),
-		Params:     params,
-		CloseParen: newCloseParen(),
-	}}
+	return params
 }
 
 //NewVar return a variable expression given a type.
@@ -533,14 +541,7 @@ func NewBytesConst(buf []byte) *Expr {
 //NewList returns a typed list of expressions.
 //  []typ{elems}
 func NewList(typ types.Type, elems ...*Expr) *Expr {
-	for i, e := range elems {
-		e.RightArrow = nil
-		if i == 0 {
-			e.Comma = nil
-		} else if e.Comma == nil {
-			e.Comma = newComma()
-		}
-	}
+	elems = newParams(elems)
 	return &Expr{
 		List: &List{
 			Type:       typ,
-- 
2.43.0


From a94dcf27b18fce51422a3cc1cdfe7eb944ebfaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:39 +0000
Subject: [PATCH 56/64] fix: a value comparison with the constant first keeps
 its meaning

---
 relapse/combinator/funcs.go | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/relapse/combinator/funcs.go b/relapse/combinator/funcs.go
index 7e85d2b..bdd28b5 100644
--- a/relapse/combinator/funcs.go
+++ b/relapse/combinator/funcs.go
@@ -25,16 +25,19 @@ func Value(expr *ast.Expr) *ast.Pattern {
 	if expr.Function != nil && len(expr.Function.Params) == 2 {
 		constructor := ast.FunctionNameToBuiltIn(expr.Function.Name)
 		if constructor != nil {
-			p1 := expr.Function.Params[0]
-			p2 := expr.Function.Params[1]
-			if p1.Terminal != nil && p1.Terminal.Variable != nil &&
-				p2.Terminal != nil && p2.Terminal.Variable == nil {
-				p := p2.Clone()
-				p.Comma = nil
-				expr = constructor(p)
-			} else if p2.Terminal != nil && p2.Terminal.Variable != nil &&
-				p1.Terminal != nil && p1.Terminal.Variable == nil {
-				p := p1.Clone()
+			variable, constant := expr.Function.Params[0], expr.Function.Params[1]
+			switch expr.Function.Name {
+			case "regex":
+				// the shorthand has the variable as the second parameter.
+				variable, constant = constant, variable
+			case "eq", "ne":
+				// the order of the parameters makes no difference.
+				if isConst(variable) && isVar(constant) {
+					variable, constant = constant, variable
+				}
+			}
+			if isVar(variable) && isConst(constant) {
+				p := constant.Clone()
 				p.Comma = nil
 				expr = constructor(p)
 			}
@@ -47,6 +50,14 @@ func Value(expr *ast.Expr) *ast.Pattern {
 	return ast.NewLeafNode(e)
 }
 
+func isVar(expr *ast.Expr) bool {
+	return expr.Terminal != nil && expr.Terminal.Variable != nil
+}
+
+func isConst(expr *ast.Expr) bool {
+	return expr.Terminal != nil && expr.Terminal.Variable == nil
+}
+
 func Eq(left, right *ast.Expr) *ast.Expr {
 	return ast.NewFunction("eq", left, right)
 }
-- 
2.43.0


From 5dd608af2bac68e67e54b5b3f660e5d16a7ccb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:20 +0000
Subject: [PATCH 57/64] fix: equal patterns are merged also when another
 pattern has their hash

---
 relapse/intern/order.go | 13 ++++++++++++-
 relapse/sets/zip.go     | 14 ++++++++++++--
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/relapse/intern/order.go b/relapse/intern/order.go
index b572d30..d3c4dd2 100644
--- a/relapse/intern/order.go
+++ b/relapse/intern/order.go
@@ -57,7 +57,7 @@ func orderedSet(ps []*Pattern) []*Pattern {
 	// remove duplicates from a sorted list
 	u := 0
 	for i := 1; i < len(ps); i++ {
-		if ps[i].Equal(ps[u]) {
+		if containsLast(ps[:u+1], ps[i]) {
 			continue
 		}
 		u++
@@ -70,3 +70,14 @@ func orderedSet(ps []*Pattern) []*Pattern {
 	return ps
 
 }
+
+// containsLast returns whether p is equal to one of the last patterns of the sorted list.
+// Patterns with the same hash have no order between them, so it is not only the very last pattern that can be equal to p.
+func containsLast(ps []*Pattern, p *Pattern) bool {
+	for i := len(ps) - 1; i >= 0 && ps[i].hash == p.hash; i-- {
+		if ps[i].Equal(p) {
+			return true
+		}
+	}
+	return false
+}
diff --git a/relapse/sets/zip.go b/relapse/sets/zip.go
index 3a2b649..525721f 100644
--- a/relapse/sets/zip.go
+++ b/relapse/sets/zip.go
@@ -67,8 +67,7 @@ func Zip(patterns []*ast.Pattern) ([]*ast.Pattern, []int) {
 	if len(ps) > 0 {
 		u = 0
 		for i := 1; i < len(ps); i++ {
-			if hashes[i] == hashes[u] &&
-				ps[i].Equal(ps[u]) {
+			if containsLast(hashes[:u+1], ps[:u+1], hashes[i], ps[i]) {
 				continue
 			}
 			u++
@@ -112,6 +111,17 @@ func Zip(patterns []*ast.Pattern) ([]*ast.Pattern, []int) {
 	return ps, indexes
 }
 
+// containsLast returns whether p is equal to one of the last patterns of the sorted list.
+// Patterns with the same hash have no order between them, so it is not only the very last pattern that can be equal to p.
+func containsLast(hashes []uint64, ps []*ast.Pattern, hash uint64, p *ast.Pattern) bool {
+	for i := len(ps) - 1; i >= 0 && hashes[i] == hash; i-- {
+		if ps[i].Equal(p) {
+			return true
+		}
+	}
+	return false
+}
+
 func Unzip(patterns []*ast.Pattern, indexes []int) []*ast.Pattern {
 	res := make([]*ast.Pattern, len(indexes))
 	for i, index := range indexes {
-- 
2.43.0


From a97ae25047325dca4305a404e528ca527da25de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:49 +0000
Subject: [PATCH 58/64] fix: the derivatives of a pattern do not grow with the
 document

---
 relapse/intern/construct.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/relapse/intern/construct.go b/relapse/intern/construct.go
index a55f4e5..a6c164d 100644
--- a/relapse/intern/construct.go
+++ b/relapse/intern/construct.go
@@ -364,7 +364,22 @@ func (c *construct) MergeOr(l, r *Pattern) (*Pattern, error) {
 	return c.NewOr(ps)
 }
 
+// flattenOrs replaces the patterns that are ors with their alternatives, in a new slice.
+// This keeps the number of different derivatives of a pattern finite.
+func flattenOrs(ps []*Pattern) []*Pattern {
+	res := make([]*Pattern, 0, len(ps))
+	for _, p := range ps {
+		if p.Type == Or {
+			res = append(res, p.Patterns...)
+		} else {
+			res = append(res, p)
+		}
+	}
+	return res
+}
+
 func (c *construct) NewOr(ps []*Pattern) (*Pattern, error) {
+	ps = flattenOrs(ps)
 	if deriveAny(isZAny, ps) {
 		return c.NewZAny(), nil
 	}
-- 
2.43.0


From 5d6b2e75bd1e5e2998f97512c67c9bff6f646a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:50 +0000
Subject: [PATCH 59/64] fix: reading a serialised grammar panics on lengths
 near the largest integer

The end of a field was computed as index plus length, which overflows for
lengths close to the largest int and then passed the bounds check: Unmarshal
panicked on damaged input.  Check the sum, as newer versions of the generator
do.
---
 relapse/ast/relapse.pb.go | 416 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 415 insertions(+), 1 deletion(-)

diff --git a/relapse/ast/relapse.pb.go b/relapse/ast/relapse.pb.go
index 2b62f0c..dff9f33 100644
--- a/relapse/ast/relapse.pb.go
+++ b/relapse/ast/relapse.pb.go
@@ -4459,6 +4459,9 @@ func (m *Grammar) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -4492,6 +4495,9 @@ func (m *Grammar) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -4523,6 +4529,9 @@ func (m *Grammar) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -4542,6 +4551,9 @@ func (m *Grammar) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -4606,6 +4618,9 @@ func (m *PatternDecl) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -4639,6 +4654,9 @@ func (m *PatternDecl) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -4673,6 +4691,9 @@ func (m *PatternDecl) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -4701,6 +4722,9 @@ func (m *PatternDecl) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -4734,6 +4758,9 @@ func (m *PatternDecl) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -4753,6 +4780,9 @@ func (m *PatternDecl) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -4817,6 +4847,9 @@ func (m *Pattern) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -4850,6 +4883,9 @@ func (m *Pattern) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -4883,6 +4919,9 @@ func (m *Pattern) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -4916,6 +4955,9 @@ func (m *Pattern) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -4949,6 +4991,9 @@ func (m *Pattern) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -4982,6 +5027,9 @@ func (m *Pattern) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5015,6 +5063,9 @@ func (m *Pattern) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5048,6 +5099,9 @@ func (m *Pattern) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5081,6 +5135,9 @@ func (m *Pattern) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5114,6 +5171,9 @@ func (m *Pattern) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5147,6 +5207,9 @@ func (m *Pattern) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5180,6 +5243,9 @@ func (m *Pattern) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5213,6 +5279,9 @@ func (m *Pattern) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5232,6 +5301,9 @@ func (m *Pattern) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5296,6 +5368,9 @@ func (m *Empty) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5315,6 +5390,9 @@ func (m *Empty) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5379,6 +5457,9 @@ func (m *TreeNode) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5412,6 +5493,9 @@ func (m *TreeNode) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5445,6 +5529,9 @@ func (m *TreeNode) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5464,6 +5551,9 @@ func (m *TreeNode) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5528,6 +5618,9 @@ func (m *Contains) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5561,6 +5654,9 @@ func (m *Contains) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5580,6 +5676,9 @@ func (m *Contains) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5644,6 +5743,9 @@ func (m *LeafNode) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5663,6 +5765,9 @@ func (m *LeafNode) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5727,6 +5832,9 @@ func (m *Concat) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5760,6 +5868,9 @@ func (m *Concat) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5793,6 +5904,9 @@ func (m *Concat) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5826,6 +5940,9 @@ func (m *Concat) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5859,6 +5976,9 @@ func (m *Concat) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5892,6 +6012,9 @@ func (m *Concat) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5911,6 +6034,9 @@ func (m *Concat) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -5975,6 +6101,9 @@ func (m *Or) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6008,6 +6137,9 @@ func (m *Or) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6041,6 +6173,9 @@ func (m *Or) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6074,6 +6209,9 @@ func (m *Or) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6107,6 +6245,9 @@ func (m *Or) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6126,6 +6267,9 @@ func (m *Or) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6190,6 +6334,9 @@ func (m *And) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6223,6 +6370,9 @@ func (m *And) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6256,6 +6406,9 @@ func (m *And) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6289,6 +6442,9 @@ func (m *And) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6322,6 +6478,9 @@ func (m *And) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6341,6 +6500,9 @@ func (m *And) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6405,6 +6567,9 @@ func (m *ZeroOrMore) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6438,6 +6603,9 @@ func (m *ZeroOrMore) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6471,6 +6639,9 @@ func (m *ZeroOrMore) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6504,6 +6675,9 @@ func (m *ZeroOrMore) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6523,6 +6697,9 @@ func (m *ZeroOrMore) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6587,6 +6764,9 @@ func (m *Reference) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6621,6 +6801,9 @@ func (m *Reference) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6635,6 +6818,9 @@ func (m *Reference) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6699,6 +6885,9 @@ func (m *Not) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6732,6 +6921,9 @@ func (m *Not) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6765,6 +6957,9 @@ func (m *Not) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6798,6 +6993,9 @@ func (m *Not) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6817,6 +7015,9 @@ func (m *Not) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6881,6 +7082,9 @@ func (m *ZAny) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6900,6 +7104,9 @@ func (m *ZAny) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6964,6 +7171,9 @@ func (m *Optional) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -6997,6 +7207,9 @@ func (m *Optional) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7030,6 +7243,9 @@ func (m *Optional) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7063,6 +7279,9 @@ func (m *Optional) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7082,6 +7301,9 @@ func (m *Optional) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7146,6 +7368,9 @@ func (m *Interleave) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7179,6 +7404,9 @@ func (m *Interleave) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7212,6 +7440,9 @@ func (m *Interleave) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7245,6 +7476,9 @@ func (m *Interleave) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7278,6 +7512,9 @@ func (m *Interleave) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7311,6 +7548,9 @@ func (m *Interleave) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7330,6 +7570,9 @@ func (m *Interleave) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7394,6 +7637,9 @@ func (m *Expr) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7427,6 +7673,9 @@ func (m *Expr) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7460,6 +7709,9 @@ func (m *Expr) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7493,6 +7745,9 @@ func (m *Expr) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7526,6 +7781,9 @@ func (m *Expr) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7559,6 +7817,9 @@ func (m *Expr) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7578,6 +7839,9 @@ func (m *Expr) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7642,6 +7906,9 @@ func (m *List) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7694,6 +7961,9 @@ func (m *List) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7727,6 +7997,9 @@ func (m *List) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7758,6 +8031,9 @@ func (m *List) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7777,6 +8053,9 @@ func (m *List) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7841,6 +8120,9 @@ func (m *Function) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7875,6 +8157,9 @@ func (m *Function) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7903,6 +8188,9 @@ func (m *Function) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7936,6 +8224,9 @@ func (m *Function) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7967,6 +8258,9 @@ func (m *Function) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -7986,6 +8280,9 @@ func (m *Function) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -8050,6 +8347,9 @@ func (m *BuiltIn) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -8083,6 +8383,9 @@ func (m *BuiltIn) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -8102,6 +8405,9 @@ func (m *BuiltIn) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -8166,6 +8472,9 @@ func (m *Terminal) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -8200,6 +8509,9 @@ func (m *Terminal) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -8302,6 +8614,9 @@ func (m *Terminal) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -8331,6 +8646,9 @@ func (m *Terminal) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + byteLen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -8362,6 +8680,9 @@ func (m *Terminal) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -8381,6 +8702,9 @@ func (m *Terminal) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -8450,6 +8774,9 @@ func (m *Variable) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -8514,6 +8841,9 @@ func (m *Keyword) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -8548,6 +8878,9 @@ func (m *Keyword) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -8562,6 +8895,9 @@ func (m *Keyword) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -8627,6 +8963,9 @@ func (m *Space) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -8641,6 +8980,9 @@ func (m *Space) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -8705,6 +9047,9 @@ func (m *NameExpr) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -8738,6 +9083,9 @@ func (m *NameExpr) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -8771,6 +9119,9 @@ func (m *NameExpr) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -8804,6 +9155,9 @@ func (m *NameExpr) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -8823,6 +9177,9 @@ func (m *NameExpr) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -8887,6 +9244,9 @@ func (m *Name) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -8994,6 +9354,9 @@ func (m *Name) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -9023,6 +9386,9 @@ func (m *Name) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + byteLen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -9040,6 +9406,9 @@ func (m *Name) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -9104,6 +9473,9 @@ func (m *AnyName) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -9123,6 +9495,9 @@ func (m *AnyName) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -9187,6 +9562,9 @@ func (m *AnyNameExcept) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -9220,6 +9598,9 @@ func (m *AnyNameExcept) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -9253,6 +9634,9 @@ func (m *AnyNameExcept) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -9286,6 +9670,9 @@ func (m *AnyNameExcept) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -9305,6 +9692,9 @@ func (m *AnyNameExcept) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -9369,6 +9759,9 @@ func (m *NameChoice) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -9402,6 +9795,9 @@ func (m *NameChoice) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -9435,6 +9831,9 @@ func (m *NameChoice) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -9468,6 +9867,9 @@ func (m *NameChoice) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -9501,6 +9903,9 @@ func (m *NameChoice) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRelapse
 			}
 			postIndex := iNdEx + msglen
+			if postIndex < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -9520,6 +9925,9 @@ func (m *NameChoice) Unmarshal(dAtA []byte) error {
 			if skippy < 0 {
 				return ErrInvalidLengthRelapse
 			}
+			if (iNdEx + skippy) < 0 {
+				return ErrInvalidLengthRelapse
+			}
 			if (iNdEx + skippy) > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -9586,10 +9994,13 @@ func skipRelapse(dAtA []byte) (n int, err error) {
 					break
 				}
 			}
-			iNdEx += length
 			if length < 0 {
 				return 0, ErrInvalidLengthRelapse
 			}
+			iNdEx += length
+			if iNdEx < 0 {
+				return 0, ErrInvalidLengthRelapse
+			}
 			return iNdEx, nil
 		case 3:
 			for {
@@ -9618,6 +10029,9 @@ func skipRelapse(dAtA []byte) (n int, err error) {
 					return 0, err
 				}
 				iNdEx = start + next
+				if iNdEx < 0 {
+					return 0, ErrInvalidLengthRelapse
+				}
 			}
 			return iNdEx, nil
 		case 4:
-- 
2.43.0


From 987b930320f9c9d7de198e0abb6d4adf4492e926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:53 +0000
Subject: [PATCH 60/64] fix: strings encoded into a go structure share memory
 with the parsed buffer

---
 encode/reflect/reflect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encode/reflect/reflect.go b/encode/reflect/reflect.go
index 19658c9..2f3c9c3 100644
--- a/encode/reflect/reflect.go
+++ b/encode/reflect/reflect.go
@@ -191,7 +191,7 @@ func encodeLeaf(p parser.Interface, v reflect.Value) (isNull bool, err error) {
 		if err != nil {
 			return false, err
 		}
-		v.SetString(value)
+		v.SetString(string([]byte(value))) //a copy, since the value may share the memory of the parser's buffer
 	case reflect.Slice:
 		value, err := p.Bytes()
 		if err != nil {
-- 
2.43.0


From 24d8779e155464756067fc674e1c7dc03d854f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:29 +0000
Subject: [PATCH 61/64] fix: parsing a protocol buffer with millions of unknown
 fields overflows the stack

---
 parser/proto/proto.go | 69 +++++++++++++++++++++++++------------------
 1 file changed, 41 insertions(+), 28 deletions(-)

diff --git a/parser/proto/proto.go b/parser/proto/proto.go
index 2e7df1f..8fd41b4 100644
--- a/parser/proto/proto.go
+++ b/parser/proto/proto.go
@@ -197,13 +197,8 @@ func (s *protoParser) Next() error {
 		s.length = 0
 	}
 
-	s.offset += s.length
-	if s.offset >= len(s.buf) {
-		if s.offset == len(s.buf) {
-			s.length = 0
-			return io.EOF
-		}
-		return io.ErrShortBuffer
+	if err := s.skipValue(); err != nil {
+		return err
 	}
 
 	if s.inRepeated {
@@ -238,34 +233,52 @@ func (s *protoParser) Next() error {
 		return nil
 	}
 
-	v, n, err := uvarint(s.buf[s.offset:])
-	if err != nil {
-		return err
-	}
-	field, ok := s.fieldsMap[v]
-	if ok {
-		wireType := int(v & 0x7)
-		s.isPacked = field.IsRepeated() && field.IsScalar() && wireType == 2
-	}
-	if !ok || !field.IsRepeated() || s.isPacked {
-		s.offset += n
-		wireType := int(v & 0x7)
-		n, l, err := length(wireType, s.buf[s.offset:])
+	for {
+		v, n, err := uvarint(s.buf[s.offset:])
 		if err != nil {
 			return err
 		}
-		s.offset += n
-		s.length = l
+		field, ok := s.fieldsMap[v]
+		if ok {
+			wireType := int(v & 0x7)
+			s.isPacked = field.IsRepeated() && field.IsScalar() && wireType == 2
+		}
+		if !ok || !field.IsRepeated() || s.isPacked {
+			s.offset += n
+			wireType := int(v & 0x7)
+			n, l, err := length(wireType, s.buf[s.offset:])
+			if err != nil {
+				return err
+			}
+			s.offset += n
+			s.length = l
+		}
+		if ok {
+			if field.IsRepeated() && !s.isPacked {
+				s.isRepeated = true
+				s.length = 0
+			}
+			s.field = field
+			return nil
+		}
+		// skip the unknown field
+		if err := s.skipValue(); err != nil {
+			return err
+		}
 	}
-	if ok {
-		if field.IsRepeated() && !s.isPacked {
-			s.isRepeated = true
+}
+
+//skipValue moves to the end of the current value, where something should follow.
+func (s *protoParser) skipValue() error {
+	s.offset += s.length
+	if s.offset >= len(s.buf) {
+		if s.offset == len(s.buf) {
 			s.length = 0
+			return io.EOF
 		}
-		s.field = field
-		return nil
+		return io.ErrShortBuffer
 	}
-	return s.Next()
+	return nil
 }
 
 func (s *protoParser) skipRepeated() error {
-- 
2.43.0


From 16211c9f1d5045c15d3eee06db0988377ab2b76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:09 +0000
Subject: [PATCH 62/64] fix: the xml buffer's UnreadRune goes back over more
 bytes than ReadRune read

---
 parser/xml/buffer.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/parser/xml/buffer.go b/parser/xml/buffer.go
index c22b521..9adbcec 100644
--- a/parser/xml/buffer.go
+++ b/parser/xml/buffer.go
@@ -25,12 +25,12 @@ type Buffer struct {
 // The readOp constants describe the last action performed on
 // the buffer, so that UnreadRune and UnreadByte can
 // check for invalid usage.
+// The values of a read rune are the number of bytes it took.
 type readOp int
 
 const (
-	opInvalid  readOp = iota // Non-read operation.
-	opReadRune               // Read rune.
-	opRead                   // Any other read operation.
+	opRead    readOp = -1 // Any other read operation.
+	opInvalid readOp = 0  // Non-read operation.
 )
 
 // ErrTooLarge is passed to panic if memory cannot be allocated to store data in a buffer.
@@ -316,14 +316,15 @@ func (b *Buffer) ReadRune() (r rune, size int, err error) {
 		b.Truncate(0)
 		return 0, 0, io.EOF
 	}
-	b.lastRead = opReadRune
 	c := b.buf[b.off]
 	if c < utf8.RuneSelf {
 		b.off++
+		b.lastRead = readOp(1)
 		return rune(c), 1, nil
 	}
 	r, n := utf8.DecodeRune(b.buf[b.off:])
 	b.off += n
+	b.lastRead = readOp(n)
 	return r, n, nil
 }
 
@@ -333,14 +334,13 @@ func (b *Buffer) ReadRune() (r rune, size int, err error) {
 // it is stricter than UnreadByte, which will unread the last byte
 // from any read operation.)
 func (b *Buffer) UnreadRune() error {
-	if b.lastRead != opReadRune {
+	if b.lastRead <= opInvalid {
 		return errors.New("bytes.Buffer: UnreadRune: previous operation was not ReadRune")
 	}
-	b.lastRead = opInvalid
-	if b.off > 0 {
-		_, n := utf8.DecodeLastRune(b.buf[0:b.off])
-		b.off -= n
+	if b.off >= int(b.lastRead) {
+		b.off -= int(b.lastRead)
 	}
+	b.lastRead = opInvalid
 	return nil
 }
 
@@ -348,7 +348,7 @@ func (b *Buffer) UnreadRune() error {
 // read operation.  If write has happened since the last read, UnreadByte
 // returns an error.
 func (b *Buffer) UnreadByte() error {
-	if b.lastRead != opReadRune && b.lastRead != opRead {
+	if b.lastRead == opInvalid {
 		return errors.New("bytes.Buffer: UnreadByte: previous operation was not a read")
 	}
 	b.lastRead = opInvalid
-- 
2.43.0


From c19eb60069ed4121414c427c421c4b60d4846fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:08 +0000
Subject: [PATCH 63/64] fix: the xml buffer writes a negative rune as a single
 arbitrary byte

---
 parser/xml/buffer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/xml/buffer.go b/parser/xml/buffer.go
index 9adbcec..94e29b8 100644
--- a/parser/xml/buffer.go
+++ b/parser/xml/buffer.go
@@ -239,7 +239,7 @@ func (b *Buffer) WriteByte(c byte) error {
 // included to match bufio.Writer's WriteRune. The buffer is grown as needed;
 // if it becomes too large, WriteRune will panic with ErrTooLarge.
 func (b *Buffer) WriteRune(r rune) (n int, err error) {
-	if r < utf8.RuneSelf {
+	if uint32(r) < utf8.RuneSelf {
 		if err := b.WriteByte(byte(r)); err != nil {
 			return 0, err
 		}
-- 
2.43.0


From 1d85530bec5485afa2f852703d724314c0e4b205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:06 +0000
Subject: [PATCH 64/64] fix: an extension with the name of another field is
 taken for that field by NoLatentAppendingOrMerging

---
 parser/proto/nomerge.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/parser/proto/nomerge.go b/parser/proto/nomerge.go
index 6ce8108..849a85e 100644
--- a/parser/proto/nomerge.go
+++ b/parser/proto/nomerge.go
@@ -23,7 +23,8 @@ import (
 //Latent fields are those fields you have already seen on your walk, but then after seeing a different field you see this field again.
 //This typically happens when the protocol buffer user created an object marshaled it and then merged it with another value.
 func NoLatentAppendingOrMerging(parser ProtoParser) error {
-	seen := make(map[string]bool)
+	// fields are distinguished by number, since an extension can have the same name as another field.
+	seen := make(map[int32]bool)
 	for {
 		if err := parser.Next(); err != nil {
 			if err == io.EOF {
@@ -34,11 +35,12 @@ func NoLatentAppendingOrMerging(parser ProtoParser) error {
 		}
 		if !parser.IsLeaf() {
 			if _, err := parser.Int(); err != nil {
-				if fieldName, err := parser.String(); err == nil {
-					if _, ok := seen[fieldName]; ok {
+				if _, err := parser.String(); err == nil {
+					number := parser.Field().GetNumber()
+					if _, ok := seen[number]; ok {
 						return fmt.Errorf("%s requires merging", parser.Field().GetName())
 					}
-					seen[fieldName] = true
+					seen[number] = true
 				} else {
 					return fmt.Errorf("not an index, field or leaf: %v", err)
 				}
-- 
2.43.0

