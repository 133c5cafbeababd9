From ac757fa2a2fa4d7ab0553a55f13509e060617462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:26 +0000
Subject: [PATCH 01/29] fix: string repetition with a negative or huge count no
 longer panics

The memory estimate wrapped around in uint64, so '' * -1 or a long
string times 2^60 reached strings.Repeat and aborted the process.
---
 protocols/protocol_mul.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/protocols/protocol_mul.go b/protocols/protocol_mul.go
index be4d3f1..d3fe925 100644
--- a/protocols/protocol_mul.go
+++ b/protocols/protocol_mul.go
@@ -34,10 +34,12 @@ func (self MulDispatcher) Mul(scope types.Scope, a types.Any, b types.Any) types
 		b_int, ok := utils.ToInt64(b)
 		if ok {
 			// Estimate how much memory we will use when duplicating the string
-			memory := uint64(len(t)) * uint64(b_int)
-			if memory > 100000000 { // 100mb
-				scope.Log("Multiply Str x Int exceeded memory limits. Len Str %v * Count %v = %v",
-					len(t), int(b_int), memory)
+			// (careful to not overflow). A negative count can not be
+			// repeated at all.
+			if b_int < 0 || len(t) > 0 &&
+				b_int > 100000000/int64(len(t)) { // 100mb
+				scope.Log("Multiply Str x Int exceeded memory limits. Len Str %v * Count %v",
+					len(t), b_int)
 				return &types.Null{}
 			}
 			return strings.Repeat(t, int(b_int))
-- 
2.43.0


From a0399d7cfbb17db663de0ab6ccfb353d944cc04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:26 +0000
Subject: [PATCH 02/29] fix: division by a float checks the divisor, and
 reduces lazy divisors

1 / 0.0 returned +Inf and 0 / 5.0 returned NULL because the dividend
was tested for zero; a lazy right operand was never evaluated.
---
 protocols/protocol_div.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/protocols/protocol_div.go b/protocols/protocol_div.go
index 71c493c..69dcd84 100644
--- a/protocols/protocol_div.go
+++ b/protocols/protocol_div.go
@@ -22,6 +22,7 @@ func (self DivDispatcher) Copy() DivDispatcher {
 
 func (self DivDispatcher) Div(scope types.Scope, a types.Any, b types.Any) types.Any {
 	a = maybeReduce(a)
+	b = maybeReduce(b)
 
 	switch t := a.(type) {
 	case types.Null, *types.Null, nil:
@@ -44,7 +45,7 @@ func (self DivDispatcher) Div(scope types.Scope, a types.Any, b types.Any) types
 	case float64:
 		a_float, ok := utils.ToFloat(a)
 		if ok {
-			if a_float == 0 {
+			if t == 0 {
 				return &types.Null{}
 			}
 			return a_float / t
-- 
2.43.0


From bc076dcd470804f3aecf7c3b4620d718619156e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:43 +0000
Subject: [PATCH 03/29] fix: < and > agree for every pair of operand kinds

TRUE > 0 was false while 0 < TRUE was true, and any string or dict
compared with an integer on the right was both less than and greater
than it. Booleans are now handled by > as they are by <, and an integer
on the right only orders numbers.
---
 protocols/protocol_gt.go | 15 +++++----------
 protocols/protocol_lt.go | 11 +++--------
 2 files changed, 8 insertions(+), 18 deletions(-)

diff --git a/protocols/protocol_gt.go b/protocols/protocol_gt.go
index 3842304..53df028 100644
--- a/protocols/protocol_gt.go
+++ b/protocols/protocol_gt.go
@@ -24,7 +24,7 @@ func (self GtDispatcher) Copy() GtDispatcher {
 
 func intGt(lhs int64, b types.Any) bool {
 	switch b.(type) {
-	case int, int8, int16, int32, int64, uint8, uint16, uint32, uint64:
+	case bool, int, int8, int16, int32, int64, uint8, uint16, uint32, uint64:
 		rhs, _ := utils.ToInt64(b)
 		return lhs > rhs
 	case float64, float32:
@@ -58,7 +58,7 @@ func (self GtDispatcher) Gt(scope types.Scope, a types.Any, b types.Any) bool {
 		}
 
 		// If it is integer like, coerce to int.
-	case int, int8, int16, int32, int64, uint8, uint16, uint32, uint64:
+	case bool, int, int8, int16, int32, int64, uint8, uint16, uint32, uint64:
 		if isTime(b) {
 			lhs, ok := utils.ToInt64(t)
 			if ok {
@@ -105,15 +105,10 @@ func (self GtDispatcher) Gt(scope types.Scope, a types.Any, b types.Any) bool {
 
 		// If it is integer like, coerce to int.
 	case int, int8, int16, int32, int64, uint8, uint16, uint32, uint64:
-		rhs, ok := utils.ToInt64(t)
+		lhs, ok := utils.ToFloat(a)
 		if ok {
-			if intLt(rhs, a) {
-				return false
-			}
-			if intEq(rhs, a) {
-				return false
-			}
-			return true
+			rhs, _ := utils.ToFloat(t)
+			return lhs > rhs
 		}
 
 	case float64:
diff --git a/protocols/protocol_lt.go b/protocols/protocol_lt.go
index 5123161..5867b71 100644
--- a/protocols/protocol_lt.go
+++ b/protocols/protocol_lt.go
@@ -113,15 +113,10 @@ func (self LtDispatcher) Lt(scope types.Scope, a types.Any, b types.Any) bool {
 
 		// If it is integer like, coerce to int.
 	case int, int8, int16, int32, int64, uint8, uint16, uint32, uint64:
-		rhs, ok := utils.ToInt64(t)
+		lhs, ok := utils.ToFloat(a)
 		if ok {
-			if intGt(rhs, a) {
-				return false
-			}
-			if intEq(rhs, a) {
-				return false
-			}
-			return true
+			rhs, _ := utils.ToFloat(t)
+			return lhs < rhs
 		}
 
 	case float64:
-- 
2.43.0


From 60aa18ca4c4f64c36dd527c38cd627c594c37137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:21 +0000
Subject: [PATCH 04/29] fix: = is symmetric for booleans with floats and
 numbers with times

TRUE = 1.5 was true (the float was truncated) while 1.5 = TRUE was
false, and 1 = timestamp(1) was false while timestamp(1) = 1 was true.
---
 protocols/protocol_eq.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/protocols/protocol_eq.go b/protocols/protocol_eq.go
index c1b2625..4bc523f 100644
--- a/protocols/protocol_eq.go
+++ b/protocols/protocol_eq.go
@@ -39,7 +39,7 @@ func (self EqDispatcher) Eq(scope types.Scope, a types.Any, b types.Any) bool {
 
 	case int, int8, int16, int32, int64, uint8, uint16, uint32, uint64:
 		lhs, ok := utils.ToInt64(a)
-		if ok {
+		if ok && !isTime(b) {
 			return intEq(lhs, b)
 		}
 
@@ -49,6 +49,12 @@ func (self EqDispatcher) Eq(scope types.Scope, a types.Any, b types.Any) bool {
 			return t == rhs
 		}
 
+		b_float, ok := b.(float64)
+		if ok {
+			lhs, _ := utils.ToFloat(t)
+			return lhs == b_float
+		}
+
 	case float64:
 		rhs, ok := utils.ToFloat(b)
 		if ok {
@@ -68,6 +74,15 @@ func (self EqDispatcher) Eq(scope types.Scope, a types.Any, b types.Any) bool {
 		}
 	}
 
+	// A number equals a time in the same way a time equals a number.
+	if isTime(b) {
+		lhs, ok := toTime(a)
+		if ok {
+			rhs, _ := toTime(b)
+			return lhs.UnixNano() == rhs.UnixNano()
+		}
+	}
+
 	lhs, ok := utils.ToInt64(a)
 	if ok {
 		rhs, ok := utils.ToInt64(b)
-- 
2.43.0


From 6d6d967f5210d8b5ef69542a04f300be24da9b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:21 +0000
Subject: [PATCH 05/29] fix: ToFloat converts float32

intAdd, intLt, intGt and intEq accept float32 operands and rely on
ToFloat, which silently gave them 0.
---
 utils/utils.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utils/utils.go b/utils/utils.go
index c3d8d4d..d0e12d1 100644
--- a/utils/utils.go
+++ b/utils/utils.go
@@ -92,6 +92,8 @@ func ToFloat(x interface{}) (float64, bool) {
 		}
 	case float64:
 		return t, true
+	case float32:
+		return float64(t), true
 	case int:
 		return float64(t), true
 	case uint:
-- 
2.43.0


From f00082fb7f40cff858d749464f8995fd4489cef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:53 +0000
Subject: [PATCH 06/29] fix: unsigned integers above 2^63 keep their value next
 to a float

intAdd, intLt, intGt and intEq were given the value wrapped to int64, so
uint64(1<<63) < 1.0 was true while 1.0 > uint64(1<<63) was false.
---
 protocols/protocol_add.go | 6 ++++++
 protocols/protocol_eq.go  | 6 ++++++
 protocols/protocol_gt.go  | 4 +++-
 protocols/protocol_lt.go  | 4 +++-
 4 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/protocols/protocol_add.go b/protocols/protocol_add.go
index 1936dab..beab4b0 100644
--- a/protocols/protocol_add.go
+++ b/protocols/protocol_add.go
@@ -71,6 +71,12 @@ func (self AddDispatcher) Add(scope types.Scope, a types.Any, b types.Any) types
 		return &types.Null{}
 
 	case int, int8, int16, int32, int64, uint8, uint16, uint32, uint64:
+		b_float, ok := b.(float64)
+		if ok {
+			lhs, _ := utils.ToFloat(t)
+			return lhs + b_float
+		}
+
 		lhs, ok := utils.ToInt64(t)
 		if ok {
 			res, ok := intAdd(lhs, b)
diff --git a/protocols/protocol_eq.go b/protocols/protocol_eq.go
index 4bc523f..f381f13 100644
--- a/protocols/protocol_eq.go
+++ b/protocols/protocol_eq.go
@@ -38,6 +38,12 @@ func (self EqDispatcher) Eq(scope types.Scope, a types.Any, b types.Any) bool {
 		}
 
 	case int, int8, int16, int32, int64, uint8, uint16, uint32, uint64:
+		b_float, ok := b.(float64)
+		if ok {
+			lhs, _ := utils.ToFloat(a)
+			return lhs == b_float
+		}
+
 		lhs, ok := utils.ToInt64(a)
 		if ok && !isTime(b) {
 			return intEq(lhs, b)
diff --git a/protocols/protocol_gt.go b/protocols/protocol_gt.go
index 53df028..0e777b2 100644
--- a/protocols/protocol_gt.go
+++ b/protocols/protocol_gt.go
@@ -69,8 +69,10 @@ func (self GtDispatcher) Gt(scope types.Scope, a types.Any, b types.Any) bool {
 			}
 		}
 
+		// A float on the other side is handled below.
+		_, b_is_float := b.(float64)
 		lhs, ok := utils.ToInt64(t)
-		if ok {
+		if ok && !b_is_float {
 			return intGt(lhs, b)
 		}
 
diff --git a/protocols/protocol_lt.go b/protocols/protocol_lt.go
index 5867b71..7d97aac 100644
--- a/protocols/protocol_lt.go
+++ b/protocols/protocol_lt.go
@@ -83,8 +83,10 @@ func (self LtDispatcher) Lt(scope types.Scope, a types.Any, b types.Any) bool {
 				}
 			}
 		}
+		// A float on the other side is handled below.
+		_, b_is_float := b.(float64)
 		lhs, ok := utils.ToInt64(t)
-		if ok {
+		if ok && !b_is_float {
 			return intLt(lhs, b)
 		}
 
-- 
2.43.0


From f9b65b83a1ed0396c30abcf663cf69bf65ee38e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:07 +0000
Subject: [PATCH 07/29] fix: the <> operator compares instead of always being
 false

---
 vfilter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vfilter.go b/vfilter.go
index f64a583..f349988 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -1581,7 +1581,7 @@ func (self *_ConditionOperand) Reduce(ctx context.Context, scope types.Scope) An
 		result = scope.Lt(lhs, rhs)
 	case "=":
 		result = scope.Eq(lhs, rhs)
-	case "!=":
+	case "!=", "<>":
 		result = !scope.Eq(lhs, rhs)
 	case "<=":
 		result = scope.Lt(lhs, rhs) || scope.Eq(lhs, rhs)
-- 
2.43.0


From 195d47a94e2051a4a87e52a471bbc7603c724f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:22 +0000
Subject: [PATCH 08/29] fix: LIMIT 0 and negative limits emit no rows

---
 vfilter.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vfilter.go b/vfilter.go
index f349988..625f221 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -620,6 +620,9 @@ func (self *_Select) Eval(ctx context.Context, scope types.Scope) <-chan Row {
 			defer close(output_chan)
 
 			limit := int(*self.Limit)
+			if limit <= 0 {
+				return
+			}
 			count := 1
 
 			self_copy := *self
-- 
2.43.0


From 7bfe22bca506141ae1074e63c0f16f9b69d2e20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:14 +0000
Subject: [PATCH 09/29] fix: a leading minus on a symbol negates on every
 evaluation

---
 vfilter.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vfilter.go b/vfilter.go
index 625f221..b4621c0 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -1029,6 +1029,7 @@ type _SymbolRef struct {
 	mu           sync.Mutex
 	function     FunctionInterface
 	split_symbol []string
+	negated      bool
 }
 
 type _Value struct {
@@ -1744,11 +1745,12 @@ func (self *_SymbolRef) getFunction(scope types.Scope) (res types.Any, negated,
 	if components == nil {
 		components = utils.SplitIdent(self.Symbol)
 		if len(components) > 0 && strings.HasPrefix(components[0], "-") {
-			negated = true
+			self.negated = true
 			components[0] = strings.TrimPrefix(components[0], "-")
 		}
 		self.split_symbol = components
 	}
+	negated = self.negated
 	self.mu.Unlock()
 
 	// Single item reference and called - call built in function.
-- 
2.43.0


From ac611bff448d8ca6a76cce5709e22f58b824fdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:14 +0000
Subject: [PATCH 10/29] fix: range terminates for a negative step and near the
 largest integer

---
 plugins/range.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/plugins/range.go b/plugins/range.go
index bf1c0a6..686f10a 100644
--- a/plugins/range.go
+++ b/plugins/range.go
@@ -36,6 +36,12 @@ func (self RangePlugin) Call(
 			arg.Step = 1
 		}
 
+		// A negative step never reaches the end.
+		if arg.Step < 0 {
+			scope.Log("range: step must be positive")
+			return
+		}
+
 		for i := arg.Start; i < arg.End; i += arg.Step {
 			select {
 			case <-ctx.Done():
@@ -43,6 +49,12 @@ func (self RangePlugin) Call(
 
 			case output_chan <- ordereddict.NewDict().Set("_value", i):
 			}
+
+			// The next value is not below the end (it may not
+			// even be representable).
+			if uint64(arg.End)-uint64(i) <= uint64(arg.Step) {
+				return
+			}
 		}
 	}()
 
-- 
2.43.0


From 175327a98c3c5df0cdff997aa9dce05ad492ceb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:14 +0000
Subject: [PATCH 11/29] fix: if() never falls through to the else branch when
 the condition holds

---
 functions/if.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/functions/if.go b/functions/if.go
index e96510e..51b82ce 100644
--- a/functions/if.go
+++ b/functions/if.go
@@ -52,11 +52,7 @@ func (self _IfFunction) Call(
 			return t
 
 		case types.LazyExpr:
-			exp := t.ReduceWithScope(ctx, scope)
-			s, ok := exp.(types.StoredQuery)
-			if ok {
-				return s
-			}
+			return t.ReduceWithScope(ctx, scope)
 
 		default:
 			return t
-- 
2.43.0


From 73d629a436044dc9cd20e350368517c404d0db07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:36 +0000
Subject: [PATCH 12/29] fix: ORDER BY orders rows without the key like NULL,
 and DESC strictly

---
 sort/sort.go | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/sort/sort.go b/sort/sort.go
index b9ed8ee..3480356 100644
--- a/sort/sort.go
+++ b/sort/sort.go
@@ -78,22 +78,19 @@ func (self *DefaultSorterCtx) Less(i, j int) bool {
 	element2, pres2 := self.Scope.Associative(
 		self.Items[j], self.OrderBy)
 
-	if !pres1 || !pres2 {
-		return false
-	}
-
-	// Sort NULL like an empty string because normally NULL
-	// comparisons are not stable.
-	if types.IsNil(element1) {
+	// Sort NULL (or a missing column) like an empty string because
+	// normally NULL comparisons are not stable.
+	if !pres1 || types.IsNil(element1) {
 		element1 = ""
 	}
 
-	if types.IsNil(element2) {
+	if !pres2 || types.IsNil(element2) {
 		element2 = ""
 	}
 
+	// Less must be a strict ordering in both directions.
 	if self.Desc {
-		return !self.Scope.Lt(element1, element2)
+		return self.Scope.Lt(element2, element1)
 	}
 
 	return self.Scope.Lt(element1, element2)
-- 
2.43.0


From f832208a9075064721dae685b3d9f7bb1225ef84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:37 +0000
Subject: [PATCH 13/29] fix: min() and max() ignore NULL items

---
 functions/aggregates.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/functions/aggregates.go b/functions/aggregates.go
index e5928af..fac85db 100644
--- a/functions/aggregates.go
+++ b/functions/aggregates.go
@@ -234,7 +234,10 @@ func (self _MinFunction) Call(
 
 	return scope.GetAggregatorCtx().Modify(self.id,
 		func(previous_value_any types.Any, pres bool) types.Any {
-			if pres && !scope.Lt(min_value, previous_value_any) {
+			// NULL items never change the aggregate.
+			if pres && !types.IsNil(previous_value_any) &&
+				(types.IsNil(min_value) ||
+					!scope.Lt(min_value, previous_value_any)) {
 				min_value = previous_value_any
 			}
 
@@ -277,7 +280,10 @@ func (self _MaxFunction) Call(
 
 	return scope.GetAggregatorCtx().Modify(self.id,
 		func(previous_value_any types.Any, pres bool) types.Any {
-			if pres && scope.Lt(max_value, previous_value_any) {
+			// NULL items never change the aggregate.
+			if pres && !types.IsNil(previous_value_any) &&
+				(types.IsNil(max_value) ||
+					scope.Lt(max_value, previous_value_any)) {
 				max_value = previous_value_any
 			}
 
-- 
2.43.0


From daff0979c07daf109da717aada5be0f4a48f59b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:52 +0000
Subject: [PATCH 14/29] fix: a lazy row lists each column once and keeps
 materialized values

---
 lazy.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/lazy.go b/lazy.go
index 88da892..13da13b 100644
--- a/lazy.go
+++ b/lazy.go
@@ -38,8 +38,20 @@ type LazyRowImpl struct {
 
 func (self *LazyRowImpl) AddColumn(
 	name string, getter func(ctx context.Context, scope types.Scope) types.Any) types.LazyRow {
-	self.getters[name] = getter
+	// A column which is added again is listed once, at its new place.
+	_, pres := self.getters[name]
+	if pres {
+		self.cache.Delete(name)
+		for idx, column := range self.columns {
+			if column == name {
+				self.columns = append(self.columns[:idx:idx],
+					self.columns[idx+1:]...)
+				break
+			}
+		}
+	}
 	self.columns = append(self.columns, name)
+	self.getters[name] = getter
 	return self
 }
 
@@ -106,6 +118,7 @@ func MaterializedLazyRow(ctx context.Context, row Row, scope types.Scope) *order
 			if !pres {
 				getter, _ := t.getters[column]
 				value = getter(ctx, scope)
+				t.cache.Set(column, value)
 			}
 
 			result.Set(column, value)
-- 
2.43.0


From 17938700013e2ebe8c43bcadaa35513dc111992a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:42 +0000
Subject: [PATCH 15/29] fix: foreach() does not block forever when it is
 cancelled while handing out work

---
 plugins/foreach.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/plugins/foreach.go b/plugins/foreach.go
index 6122d7a..0727206 100644
--- a/plugins/foreach.go
+++ b/plugins/foreach.go
@@ -90,7 +90,7 @@ func (self _ForeachPluginImpl) Call(ctx context.Context,
 				// child_scope is closed in the pool worker.
 
 				child_scope.AppendVars(row_item)
-				pool.RunScope(child_scope)
+				pool.RunScope(ctx, child_scope)
 			}
 		}
 	}()
@@ -118,8 +118,14 @@ type workerPool struct {
 	output_chan chan types.Row
 }
 
-func (self *workerPool) RunScope(scope types.Scope) {
-	self.ch <- scope
+func (self *workerPool) RunScope(ctx context.Context, scope types.Scope) {
+	select {
+	case <-ctx.Done():
+		// The workers may be gone already.
+		scope.Close()
+
+	case self.ch <- scope:
+	}
 }
 
 func (self *workerPool) Close() {
-- 
2.43.0


From 260c6e77697b513ad88ac5bec722bfd0597caca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:04 +0000
Subject: [PATCH 16/29] fix: ORDER BY stops feeding the sorter when the query
 is cancelled

---
 vfilter.go       | 7 ++++++-
 vfilter_group.go | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/vfilter.go b/vfilter.go
index b4621c0..730dc44 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -676,7 +676,12 @@ func (self *_Select) Eval(ctx context.Context, scope types.Scope) <-chan Row {
 			self_copy.OrderBy = nil
 
 			for row := range self_copy.Eval(ctx, scope) {
-				sorter_input_chan <- row
+				// The sorter stops reading when it is cancelled.
+				select {
+				case <-ctx.Done():
+					return
+				case sorter_input_chan <- row:
+				}
 			}
 		}()
 
diff --git a/vfilter_group.go b/vfilter_group.go
index 4912d39..3df6c59 100644
--- a/vfilter_group.go
+++ b/vfilter_group.go
@@ -114,7 +114,12 @@ func (self *_Select) EvalGroupBy(ctx context.Context, scope types.Scope) <-chan
 		self_copy.OrderBy = nil
 
 		for row := range grouper_output_chan {
-			sorter_input_chan <- row
+			// The sorter stops reading when it is cancelled.
+			select {
+			case <-ctx.Done():
+				return
+			case sorter_input_chan <- row:
+			}
 		}
 	}()
 
-- 
2.43.0


From d8bf5d2cf3490542d8be28a20b277ca41f2a55ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:43 +0000
Subject: [PATCH 17/29] fix: iterating over a Go array emits its members

---
 protocols/protocol_iterate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocols/protocol_iterate.go b/protocols/protocol_iterate.go
index 5f79041..c62db35 100644
--- a/protocols/protocol_iterate.go
+++ b/protocols/protocol_iterate.go
@@ -96,7 +96,7 @@ func _SliceIterator(ctx context.Context, scope types.Scope, a types.Any) <-chan
 		defer close(output_chan)
 
 		a_value := reflect.Indirect(reflect.ValueOf(a))
-		if a_value.Type().Kind() == reflect.Slice {
+		if is_array(a_value.Interface()) {
 			for i := 0; i < a_value.Len(); i++ {
 				value := a_value.Index(i).Interface()
 				if types.IsNil(value) {
-- 
2.43.0


From 3caf1a1767fd53855efe97400ad3deee3ad2967b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:45 +0000
Subject: [PATCH 18/29] fix: foreach() with a negative number of workers uses
 one worker

---
 plugins/foreach.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/foreach.go b/plugins/foreach.go
index 0727206..96b2316 100644
--- a/plugins/foreach.go
+++ b/plugins/foreach.go
@@ -39,7 +39,7 @@ func (self _ForeachPluginImpl) Call(ctx context.Context,
 		}
 
 		// At least one worker
-		if arg.Workers == 0 {
+		if arg.Workers < 1 {
 			arg.Workers = 1
 		}
 
-- 
2.43.0


From 8056cb22c9c8b51bcf55034d6629acef163a63e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:03 +0000
Subject: [PATCH 19/29] fix: an invalid hex escape is copied from its own place

---
 utils/unquote.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/unquote.go b/utils/unquote.go
index 2007877..d17b84d 100644
--- a/utils/unquote.go
+++ b/utils/unquote.go
@@ -63,7 +63,7 @@ outer:
 				// ignore it and copy the output
 				// verbatim.
 				if err != nil {
-					out[j] = in[j]
+					out[j] = in[i]
 					i++
 					j++
 				} else {
-- 
2.43.0


From 34c0ba6a988f55e4ee399d4572bb13d3a43b0b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:06 +0000
Subject: [PATCH 20/29] fix: unquoting a text shorter than its quotes does not
 panic

---
 utils/unquote.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/utils/unquote.go b/utils/unquote.go
index d17b84d..0c4e2ec 100644
--- a/utils/unquote.go
+++ b/utils/unquote.go
@@ -10,13 +10,17 @@ import (
 func Unquote(s string) string {
 	// If we start with ''' this is a literal string - do not
 	// interfere at all.
-	if strings.HasPrefix(s, "'''") {
+	if len(s) >= 6 && strings.HasPrefix(s, "'''") {
 		if strings.HasSuffix(s, "'''") {
 			return s[3 : len(s)-3]
 		}
 	}
 
 	// This should not happen but in case it does do not interfere at all.
+	if len(s) < 2 {
+		return s
+	}
+
 	quote := s[0]
 	if quote != '"' && quote != '\'' {
 		return s
@@ -108,8 +112,8 @@ outer:
 
 // Unquote a ` delimited string.
 func Unquote_ident(s string) string {
-	if s == "" {
-		return ""
+	if len(s) < 2 {
+		return s
 	}
 
 	quote := s[0]
-- 
2.43.0


From 4c1147e2ef9a9f584037251465ff1bec465f6013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:50 +0000
Subject: [PATCH 21/29] fix: a back-quoted identifier loses its quotes and
 nothing else

---
 utils/unquote.go | 26 ++++++--------------------
 1 file changed, 6 insertions(+), 20 deletions(-)

diff --git a/utils/unquote.go b/utils/unquote.go
index 0c4e2ec..7aa6e7d 100644
--- a/utils/unquote.go
+++ b/utils/unquote.go
@@ -2,7 +2,6 @@ package utils
 
 import (
 	"errors"
-	"strconv"
 	"strings"
 )
 
@@ -110,28 +109,15 @@ outer:
 	return string(out[:j])
 }
 
-// Unquote a ` delimited string.
+// Unquote a ` delimited identifier. Nothing inside the quotes is special
+// (See SplitIdent).
 func Unquote_ident(s string) string {
-	if len(s) < 2 {
-		return s
-	}
-
-	quote := s[0]
-	if quote != '`' {
+	// Only a single quoted identifier - the text of an expression may
+	// also start with a quoted identifier.
+	if len(s) < 2 || s[0] != '`' || strings.IndexByte(s[1:], '`') != len(s)-2 {
 		return s
 	}
-
-	s = s[1 : len(s)-1]
-	out := ""
-	for s != "" {
-		value, _, tail, err := strconv.UnquoteChar(s, quote)
-		if err != nil {
-			return s
-		}
-		s = tail
-		out += string(value)
-	}
-	return out
+	return s[1 : len(s)-1]
 }
 
 // Split an identifier to a list of components taking into account
-- 
2.43.0


From 049a043ff83ccc788e1f29340dc195f811f9238c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:35 +0000
Subject: [PATCH 22/29] fix: a back-quoted name starting with a minus is not
 negated

---
 vfilter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vfilter.go b/vfilter.go
index 730dc44..54a34b7 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -1749,7 +1749,7 @@ func (self *_SymbolRef) getFunction(scope types.Scope) (res types.Any, negated,
 	components := self.split_symbol
 	if components == nil {
 		components = utils.SplitIdent(self.Symbol)
-		if len(components) > 0 && strings.HasPrefix(components[0], "-") {
+		if strings.HasPrefix(self.Symbol, "-") {
 			self.negated = true
 			components[0] = strings.TrimPrefix(components[0], "-")
 		}
-- 
2.43.0


From 93f9a273541304acf8688ddee9939d5ff5156afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:45 +0000
Subject: [PATCH 23/29] fix: a token ends where its bytes end

---
 tokenizer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tokenizer.go b/tokenizer.go
index eadb9bc..64d3758 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -67,6 +67,8 @@ func Tokenize(expression string) ([]Token, error) {
 
 func findEndPos(start lexer.Position, value string) lexer.Position {
 	res := start
+	// The offset counts bytes, columns count characters.
+	res.Offset += len(value)
 	for _, c := range value {
 		if c == '\n' {
 			res.Line++
@@ -75,7 +77,6 @@ func findEndPos(start lexer.Position, value string) lexer.Position {
 		} else {
 			res.Column++
 		}
-		res.Offset++
 	}
 	return res
 }
-- 
2.43.0


From c89ba13303be19154e188f0fa2f19e5ed3f40b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:08 +0000
Subject: [PATCH 24/29] fix: a single member dict in a list of strings is one
 string, not two

---
 arg_parser/args.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arg_parser/args.go b/arg_parser/args.go
index 45d97cc..5eb4c32 100644
--- a/arg_parser/args.go
+++ b/arg_parser/args.go
@@ -132,6 +132,7 @@ func _ExtractStringArray(
 					item, ok := utils.ToString(member)
 					if ok {
 						result = append(result, item)
+						continue
 					}
 				}
 			}
-- 
2.43.0


From 0ab6f164572e97b733e14a6c882eaac4326d69eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:08 +0000
Subject: [PATCH 25/29] fix: a Go nil argument for a list does not panic

---
 arg_parser/args.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/arg_parser/args.go b/arg_parser/args.go
index 5eb4c32..ef1c7f8 100644
--- a/arg_parser/args.go
+++ b/arg_parser/args.go
@@ -114,7 +114,7 @@ func _ExtractStringArray(
 	slice := reflect.ValueOf(arg)
 
 	// A slice of strings.
-	if slice.Type().Kind() == reflect.Slice {
+	if slice.Kind() == reflect.Slice {
 		for i := 0; i < slice.Len(); i++ {
 			value := slice.Index(i).Interface()
 			item, ok := utils.ToString(value)
@@ -144,11 +144,11 @@ func _ExtractStringArray(
 	}
 
 	// A single string just expands into a list of length 1.
-	item, ok := utils.ToString(slice.Interface())
+	item, ok := utils.ToString(arg)
 	if !ok {
 		// If it has no StringProtocol fall back to golang
 		// default.
-		item = fmt.Sprintf("%v", slice.Interface())
+		item = fmt.Sprintf("%v", arg)
 	}
 	result = append(result, item)
 	return result, true
@@ -167,7 +167,7 @@ func _ExtractAnyArray(
 	slice := reflect.ValueOf(arg)
 
 	// A slice of strings.
-	if slice.Type().Kind() == reflect.Slice {
+	if slice.Kind() == reflect.Slice {
 		for i := 0; i < slice.Len(); i++ {
 			value := slice.Index(i).Interface()
 			result = append(result, value)
@@ -175,7 +175,7 @@ func _ExtractAnyArray(
 		return result, true
 	}
 
-	result = append(result, slice.Interface())
+	result = append(result, arg)
 	return result, true
 }
 
@@ -203,7 +203,7 @@ func (self *StoredQueryWrapper) Eval(ctx context.Context, scope types.Scope) <-c
 		defer close(output_chan)
 
 		slice := reflect.ValueOf(self.Value)
-		if slice.Type().Kind() == reflect.Slice {
+		if slice.Kind() == reflect.Slice {
 			for i := 0; i < slice.Len(); i++ {
 				value := slice.Index(i).Interface()
 				if !types.IsNil(value) {
-- 
2.43.0


From 05a163f83dd3a97a49e23c975d1b34c4bb2ad894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:08 +0000
Subject: [PATCH 26/29] fix: a value that does not fit its argument's field is
 reported, not a panic

---
 arg_parser/parser.go | 49 ++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 45 insertions(+), 4 deletions(-)

diff --git a/arg_parser/parser.go b/arg_parser/parser.go
index 801b144..42ecdf0 100644
--- a/arg_parser/parser.go
+++ b/arg_parser/parser.go
@@ -76,8 +76,10 @@ func (self *Parser) Parse(
 		}
 
 		// Now set the field on the struct.
-		field_value := target.Field(parser.FieldIdx)
-		field_value.Set(reflect.ValueOf(new_value))
+		err = setField(target.Field(parser.FieldIdx), new_value)
+		if err != nil {
+			return fmt.Errorf("Field %s %w", parser.Field, err)
+		}
 	}
 
 	// Something is wrong! We did not extract all the fields from
@@ -94,6 +96,43 @@ func (self *Parser) Parse(
 	return nil
 }
 
+// Set the struct's field to the parsed value. The parsers deal in the
+// basic types, while the field may be of a named or a smaller type.
+func setField(field reflect.Value, new_value interface{}) error {
+	// A Go nil leaves the field's zero value alone.
+	if new_value == nil {
+		return nil
+	}
+
+	value := reflect.ValueOf(new_value)
+	field_type := field.Type()
+	switch {
+	case value.Type().AssignableTo(field_type):
+		field.Set(value)
+
+	// A named type, or a smaller float.
+	case value.Type().ConvertibleTo(field_type) &&
+		(value.Kind() == field.Kind() ||
+			value.CanFloat() && field.CanFloat()):
+		field.Set(value.Convert(field_type))
+
+	// A slice of a named type.
+	case value.Kind() == reflect.Slice && field.Kind() == reflect.Slice &&
+		value.Type().Elem().Kind() == reflect.String &&
+		field_type.Elem().Kind() == reflect.String:
+		result := reflect.MakeSlice(field_type, 0, value.Len())
+		for i := 0; i < value.Len(); i++ {
+			result = reflect.Append(result,
+				value.Index(i).Convert(field_type.Elem()))
+		}
+		field.Set(result)
+
+	default:
+		return fmt.Errorf("should be a %v not %T.", field_type, new_value)
+	}
+	return nil
+}
+
 // Parses the args as free form args:
 // * Extract known fields into the target struct.
 // * Other fields will be returns as the kwargs dict.
@@ -121,8 +160,10 @@ func (self *Parser) ParseAsFreeForm(
 		}
 
 		// Now set the field on the struct.
-		field_value := target.Field(parser.FieldIdx)
-		field_value.Set(reflect.ValueOf(new_value))
+		err = setField(target.Field(parser.FieldIdx), new_value)
+		if err != nil {
+			return nil, fmt.Errorf("Field %s %w", parser.Field, err)
+		}
 	}
 
 	// Remaining fields are collected into the kwargs
-- 
2.43.0


From 84dcd1bb81b2d810d36b118da33967f241cda390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:08 +0000
Subject: [PATCH 27/29] fix: numbers and booleans given for a dict argument are
 reported

---
 arg_parser/parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/arg_parser/parser.go b/arg_parser/parser.go
index 42ecdf0..d0daba8 100644
--- a/arg_parser/parser.go
+++ b/arg_parser/parser.go
@@ -365,7 +365,9 @@ func dictParser(ctx context.Context, scope types.Scope,
 
 		// Trap some common types to return an error.
 		switch arg.(type) {
-		case string, int64, uint64, types.Null, *types.Null, []byte:
+		case string, bool, int, int8, int16, int32, int64,
+			uint8, uint16, uint32, uint64, float32, float64,
+			types.Null, *types.Null, []byte:
 			return nil, fmt.Errorf("should be a dict not %T.", arg)
 		}
 
-- 
2.43.0


From 5b034f3c17bbe0d1240fb0953bab4f64a92ec78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:08 +0000
Subject: [PATCH 28/29] fix: a back-quoted parameter with a query default is
 bound by its name

---
 stored.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stored.go b/stored.go
index 8ac8c51..b1c6bb1 100644
--- a/stored.go
+++ b/stored.go
@@ -197,7 +197,7 @@ func applyDefaults(ctx context.Context, scope types.Scope,
 			if arg.Right != nil {
 				args.Set(name, arg.Right.Reduce(ctx, scope))
 			} else if arg.SubSelect != nil {
-				args.Set(arg.Left, arg.SubSelect)
+				args.Set(name, arg.SubSelect)
 			} else if arg.Array != nil {
 				args.Set(name, arg.Array.Reduce(ctx, scope))
 			} else if arg.ArrayOpenBrace != "" {
-- 
2.43.0


From fbe050c992fac6807ce985de2c22892aef191390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:08 +0000
Subject: [PATCH 29/29] fix: a stored query called without arguments in an
 expression is evaluated

---
 vfilter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vfilter.go b/vfilter.go
index 54a34b7..c020dfa 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -1875,7 +1875,7 @@ func (self *_SymbolRef) Reduce(ctx context.Context, scope types.Scope) Any {
 			// we materialize the plugin at this
 			// point. Otherwise pass the stored query
 			// through.
-			if self.Parameters != nil {
+			if self.Called {
 
 				// When running a stored query as a function we need
 				// to use a brand new scope with its own aggregator
-- 
2.43.0

