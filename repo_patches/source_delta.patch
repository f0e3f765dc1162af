From 3775db9983daedac0fe21e2f7f10f9d352247d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:21 +0000
Subject: [PATCH 01/73] fix: negate a symbol each time it is evaluated

The leading - of -x was only seen on the first evaluation because it was
removed from the cached name. A quoted name starting with - is not negated.
---
 vfilter.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vfilter.go b/vfilter.go
index f64a583..129aeed 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -1740,12 +1740,13 @@ func (self *_SymbolRef) getFunction(scope types.Scope) (res types.Any, negated,
 	components := self.split_symbol
 	if components == nil {
 		components = utils.SplitIdent(self.Symbol)
-		if len(components) > 0 && strings.HasPrefix(components[0], "-") {
-			negated = true
+		if len(components) > 0 && strings.HasPrefix(self.Symbol, "-") {
+			self.Negated = true
 			components[0] = strings.TrimPrefix(components[0], "-")
 		}
 		self.split_symbol = components
 	}
+	negated = self.Negated
 	self.mu.Unlock()
 
 	// Single item reference and called - call built in function.
-- 
2.43.0


From b22dfd4ed68bb4ec09da10e5c14bb7eb52e456d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:24 +0000
Subject: [PATCH 02/73] fix: implement the <> operator

It was parsed but always gave FALSE. It is the same as !=.
---
 vfilter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vfilter.go b/vfilter.go
index 129aeed..46012af 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -1581,7 +1581,7 @@ func (self *_ConditionOperand) Reduce(ctx context.Context, scope types.Scope) An
 		result = scope.Lt(lhs, rhs)
 	case "=":
 		result = scope.Eq(lhs, rhs)
-	case "!=":
+	case "!=", "<>":
 		result = !scope.Eq(lhs, rhs)
 	case "<=":
 		result = scope.Lt(lhs, rhs) || scope.Eq(lhs, rhs)
-- 
2.43.0


From f488b8fa2ea9ae0c58ef7b193478ae2009432a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:26 +0000
Subject: [PATCH 03/73] fix: only a zero divisor makes a division NULL

With a float divisor the dividend was tested instead, so 0 / 2.5 was NULL
and 1 / 0.0 was infinite. The divisor is also reduced if it is lazy.
---
 protocols/protocol_div.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/protocols/protocol_div.go b/protocols/protocol_div.go
index 71c493c..69dcd84 100644
--- a/protocols/protocol_div.go
+++ b/protocols/protocol_div.go
@@ -22,6 +22,7 @@ func (self DivDispatcher) Copy() DivDispatcher {
 
 func (self DivDispatcher) Div(scope types.Scope, a types.Any, b types.Any) types.Any {
 	a = maybeReduce(a)
+	b = maybeReduce(b)
 
 	switch t := a.(type) {
 	case types.Null, *types.Null, nil:
@@ -44,7 +45,7 @@ func (self DivDispatcher) Div(scope types.Scope, a types.Any, b types.Any) types
 	case float64:
 		a_float, ok := utils.ToFloat(a)
 		if ok {
-			if a_float == 0 {
+			if t == 0 {
 				return &types.Null{}
 			}
 			return a_float / t
-- 
2.43.0


From a82ce288f094580c35ba21cf83973403d9251a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:29 +0000
Subject: [PATCH 04/73] fix: multiplying a string by a negative or huge number
 is NULL

An empty string panicked with a negative count, and the estimate of the
memory needed could overflow.
---
 protocols/protocol_mul.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/protocols/protocol_mul.go b/protocols/protocol_mul.go
index be4d3f1..9b10666 100644
--- a/protocols/protocol_mul.go
+++ b/protocols/protocol_mul.go
@@ -33,11 +33,19 @@ func (self MulDispatcher) Mul(scope types.Scope, a types.Any, b types.Any) types
 	case string:
 		b_int, ok := utils.ToInt64(b)
 		if ok {
+			if b_int < 0 {
+				scope.Log("Multiply Str x Int with a negative count %v", b_int)
+				return &types.Null{}
+			}
+
+			if len(t) == 0 {
+				return ""
+			}
+
 			// Estimate how much memory we will use when duplicating the string
-			memory := uint64(len(t)) * uint64(b_int)
-			if memory > 100000000 { // 100mb
-				scope.Log("Multiply Str x Int exceeded memory limits. Len Str %v * Count %v = %v",
-					len(t), int(b_int), memory)
+			if b_int > 100000000/int64(len(t)) { // 100mb
+				scope.Log("Multiply Str x Int exceeded memory limits. Len Str %v * Count %v",
+					len(t), b_int)
 				return &types.Null{}
 			}
 			return strings.Repeat(t, int(b_int))
-- 
2.43.0


From a3e6107e8a3afe9d05403380b6c3fe8b2ed2531e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:50 +0000
Subject: [PATCH 05/73] fix: operators support uint and float32 like the other
 numbers

Plugins may return rows with fields of any Go number type, but uint was not
an integer and float32 was not a float, so operators gave NULL or FALSE.
---
 protocols/protocol_add.go  |  9 +++++----
 protocols/protocol_bool.go |  4 ++++
 protocols/protocol_mul.go  | 10 ++++++----
 protocols/protocol_sub.go  | 10 ++++++----
 utils/utils.go             | 10 +++++++++-
 5 files changed, 30 insertions(+), 13 deletions(-)

diff --git a/protocols/protocol_add.go b/protocols/protocol_add.go
index 1936dab..062ecaa 100644
--- a/protocols/protocol_add.go
+++ b/protocols/protocol_add.go
@@ -34,7 +34,7 @@ func (self AddDispatcher) Copy() AddDispatcher {
 // We don't handle any other additions with ints here.
 func intAdd(lhs int64, b types.Any) (types.Any, bool) {
 	switch b.(type) {
-	case int, int8, int16, int32, int64, uint8, uint16, uint32, uint64:
+	case int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64:
 		rhs, _ := utils.ToInt64(b)
 		return lhs + rhs, true
 
@@ -70,7 +70,7 @@ func (self AddDispatcher) Add(scope types.Scope, a types.Any, b types.Any) types
 	case types.Null, *types.Null, nil:
 		return &types.Null{}
 
-	case int, int8, int16, int32, int64, uint8, uint16, uint32, uint64:
+	case int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64:
 		lhs, ok := utils.ToInt64(t)
 		if ok {
 			res, ok := intAdd(lhs, b)
@@ -79,10 +79,11 @@ func (self AddDispatcher) Add(scope types.Scope, a types.Any, b types.Any) types
 			}
 		}
 
-	case float64:
+	case float64, float32:
+		a_float, _ := utils.ToFloat(t)
 		b_float, ok := utils.ToFloat(b)
 		if ok {
-			return t + b_float
+			return a_float + b_float
 		}
 	}
 
diff --git a/protocols/protocol_bool.go b/protocols/protocol_bool.go
index e621c7e..5efa0e8 100644
--- a/protocols/protocol_bool.go
+++ b/protocols/protocol_bool.go
@@ -36,6 +36,8 @@ func (self BoolDispatcher) Bool(ctx context.Context, scope types.Scope, a types.
 		return t > 0
 	case int64:
 		return t > 0
+	case uint:
+		return t > 0
 	case uint8:
 		return t > 0
 	case uint16:
@@ -44,6 +46,8 @@ func (self BoolDispatcher) Bool(ctx context.Context, scope types.Scope, a types.
 		return t > 0
 	case uint64:
 		return t > 0
+	case float32:
+		return t > 0
 	case float64:
 		return t > 0
 
diff --git a/protocols/protocol_mul.go b/protocols/protocol_mul.go
index 9b10666..26b81b3 100644
--- a/protocols/protocol_mul.go
+++ b/protocols/protocol_mul.go
@@ -51,10 +51,11 @@ func (self MulDispatcher) Mul(scope types.Scope, a types.Any, b types.Any) types
 			return strings.Repeat(t, int(b_int))
 		}
 
-	case float64:
+	case float64, float32:
+		a_float, _ := utils.ToFloat(t)
 		b_float, ok := utils.ToFloat(b)
 		if ok {
-			return t * b_float
+			return a_float * b_float
 		}
 	}
 
@@ -62,10 +63,11 @@ func (self MulDispatcher) Mul(scope types.Scope, a types.Any, b types.Any) types
 	case types.Null, *types.Null, nil:
 		return &types.Null{}
 
-	case float64:
+	case float64, float32:
 		a_float, ok := utils.ToFloat(a)
 		if ok {
-			return t * a_float
+			b_float, _ := utils.ToFloat(t)
+			return a_float * b_float
 		}
 	}
 
diff --git a/protocols/protocol_sub.go b/protocols/protocol_sub.go
index 221fd27..6db6181 100644
--- a/protocols/protocol_sub.go
+++ b/protocols/protocol_sub.go
@@ -28,10 +28,11 @@ func (self SubDispatcher) Sub(scope types.Scope, a types.Any, b types.Any) types
 	case types.Null, *types.Null, nil:
 		return &types.Null{}
 
-	case float64:
+	case float64, float32:
+		a_float, _ := utils.ToFloat(t)
 		b_float, ok := utils.ToFloat(b)
 		if ok {
-			return t - b_float
+			return a_float - b_float
 		}
 	}
 
@@ -39,10 +40,11 @@ func (self SubDispatcher) Sub(scope types.Scope, a types.Any, b types.Any) types
 	case types.Null, *types.Null, nil:
 		return &types.Null{}
 
-	case float64:
+	case float64, float32:
 		a_float, ok := utils.ToFloat(a)
 		if ok {
-			return a_float - t
+			b_float, _ := utils.ToFloat(t)
+			return a_float - b_float
 		}
 	}
 
diff --git a/utils/utils.go b/utils/utils.go
index c3d8d4d..327d6ee 100644
--- a/utils/utils.go
+++ b/utils/utils.go
@@ -92,6 +92,8 @@ func ToFloat(x interface{}) (float64, bool) {
 		}
 	case float64:
 		return t, true
+	case float32:
+		return float64(t), true
 	case int:
 		return float64(t), true
 	case uint:
@@ -148,7 +150,7 @@ func ToFloat(x interface{}) (float64, bool) {
 func IsInt(x interface{}) bool {
 	switch x.(type) {
 	case bool, int, int8, int16, int32, int64,
-		uint8, uint16, uint32, uint64:
+		uint, uint8, uint16, uint32, uint64:
 		return true
 	}
 
@@ -165,6 +167,8 @@ func ToInt64(x interface{}) (int64, bool) {
 		}
 	case int:
 		return int64(t), true
+	case uint:
+		return int64(t), true
 	case uint8:
 		return int64(t), true
 	case int8:
@@ -183,9 +187,13 @@ func ToInt64(x interface{}) (int64, bool) {
 		return t, true
 	case float64:
 		return int64(t), true
+	case float32:
+		return int64(t), true
 
 	case *int:
 		return int64(*t), true
+	case *uint:
+		return int64(*t), true
 	case *uint8:
 		return int64(*t), true
 	case *int8:
-- 
2.43.0


From a88f5bbdf2ac654d551ba7185a13a5d8f702ec32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:43 +0000
Subject: [PATCH 06/73] fix: comparisons agree with each other for all the
 types of numbers

A value which is not a number was both less and greater than any integer,
booleans could be smaller but never greater than a number, and equality
with a boolean or a time depended on the order of the operands.
---
 protocols/protocol_eq.go | 24 ++++++++++--------
 protocols/protocol_gt.go | 41 +++++++++++++-----------------
 protocols/protocol_lt.go | 54 +++++++++++++++++++++-------------------
 3 files changed, 60 insertions(+), 59 deletions(-)

diff --git a/protocols/protocol_eq.go b/protocols/protocol_eq.go
index c1b2625..a1a411a 100644
--- a/protocols/protocol_eq.go
+++ b/protocols/protocol_eq.go
@@ -37,22 +37,18 @@ func (self EqDispatcher) Eq(scope types.Scope, a types.Any, b types.Any) bool {
 			return t == rhs
 		}
 
-	case int, int8, int16, int32, int64, uint8, uint16, uint32, uint64:
+	case bool, int, int8, int16, int32, int64,
+		uint, uint8, uint16, uint32, uint64:
 		lhs, ok := utils.ToInt64(a)
-		if ok {
+		if ok && isNumber(b) {
 			return intEq(lhs, b)
 		}
 
-	case bool:
-		rhs, ok := b.(bool)
-		if ok {
-			return t == rhs
-		}
-
-	case float64:
+	case float64, float32:
+		lhs, _ := utils.ToFloat(t)
 		rhs, ok := utils.ToFloat(b)
 		if ok {
-			return t == rhs
+			return lhs == rhs
 		}
 
 	case time.Time:
@@ -68,6 +64,14 @@ func (self EqDispatcher) Eq(scope types.Scope, a types.Any, b types.Any) bool {
 		}
 	}
 
+	if isTime(b) {
+		lhs, ok := toTime(a)
+		if ok {
+			rhs, _ := toTime(b)
+			return lhs.UnixNano() == rhs.UnixNano()
+		}
+	}
+
 	lhs, ok := utils.ToInt64(a)
 	if ok {
 		rhs, ok := utils.ToInt64(b)
diff --git a/protocols/protocol_gt.go b/protocols/protocol_gt.go
index 3842304..62dd658 100644
--- a/protocols/protocol_gt.go
+++ b/protocols/protocol_gt.go
@@ -24,7 +24,8 @@ func (self GtDispatcher) Copy() GtDispatcher {
 
 func intGt(lhs int64, b types.Any) bool {
 	switch b.(type) {
-	case int, int8, int16, int32, int64, uint8, uint16, uint32, uint64:
+	case bool, int, int8, int16, int32, int64,
+		uint, uint8, uint16, uint32, uint64:
 		rhs, _ := utils.ToInt64(b)
 		return lhs > rhs
 	case float64, float32:
@@ -58,7 +59,8 @@ func (self GtDispatcher) Gt(scope types.Scope, a types.Any, b types.Any) bool {
 		}
 
 		// If it is integer like, coerce to int.
-	case int, int8, int16, int32, int64, uint8, uint16, uint32, uint64:
+	case bool, int, int8, int16, int32, int64,
+		uint, uint8, uint16, uint32, uint64:
 		if isTime(b) {
 			lhs, ok := utils.ToInt64(t)
 			if ok {
@@ -70,14 +72,15 @@ func (self GtDispatcher) Gt(scope types.Scope, a types.Any, b types.Any) bool {
 		}
 
 		lhs, ok := utils.ToInt64(t)
-		if ok {
+		if ok && isNumber(b) {
 			return intGt(lhs, b)
 		}
 
-	case float64:
+	case float64, float32:
+		lhs, _ := utils.ToFloat(t)
 		rhs, ok := utils.ToFloat(b)
 		if ok {
-			return t > rhs
+			return lhs > rhs
 		}
 
 	case time.Time:
@@ -103,25 +106,6 @@ func (self GtDispatcher) Gt(scope types.Scope, a types.Any, b types.Any) bool {
 			return lhs > t
 		}
 
-		// If it is integer like, coerce to int.
-	case int, int8, int16, int32, int64, uint8, uint16, uint32, uint64:
-		rhs, ok := utils.ToInt64(t)
-		if ok {
-			if intLt(rhs, a) {
-				return false
-			}
-			if intEq(rhs, a) {
-				return false
-			}
-			return true
-		}
-
-	case float64:
-		lhs, ok := utils.ToFloat(a)
-		if ok {
-			return lhs > t
-		}
-
 	case time.Time:
 		lhs, ok := toTime(a)
 		if ok {
@@ -135,6 +119,15 @@ func (self GtDispatcher) Gt(scope types.Scope, a types.Any, b types.Any) bool {
 		}
 	}
 
+	// Pointers to numbers.
+	lhs, ok := utils.ToFloat(a)
+	if ok {
+		rhs, ok := utils.ToFloat(b)
+		if ok {
+			return lhs > rhs
+		}
+	}
+
 	for i, impl := range self.impl {
 		if impl.Applicable(a, b) {
 			scope.GetStats().IncProtocolSearch(i)
diff --git a/protocols/protocol_lt.go b/protocols/protocol_lt.go
index 5123161..9fb656f 100644
--- a/protocols/protocol_lt.go
+++ b/protocols/protocol_lt.go
@@ -32,7 +32,8 @@ func (self LtDispatcher) Copy() LtDispatcher {
 
 func intLt(lhs int64, b types.Any) bool {
 	switch b.(type) {
-	case bool, int, int8, int16, int32, int64, uint8, uint16, uint32, uint64:
+	case bool, int, int8, int16, int32, int64,
+		uint, uint8, uint16, uint32, uint64:
 		rhs, _ := utils.ToInt64(b)
 		return lhs < rhs
 	case float64, float32:
@@ -44,7 +45,8 @@ func intLt(lhs int64, b types.Any) bool {
 
 func intEq(lhs int64, b types.Any) bool {
 	switch b.(type) {
-	case bool, int, int8, int16, int32, int64, uint8, uint16, uint32, uint64:
+	case bool, int, int8, int16, int32, int64,
+		uint, uint8, uint16, uint32, uint64:
 		rhs, _ := utils.ToInt64(b)
 		return lhs == rhs
 	case float64, float32:
@@ -54,6 +56,16 @@ func intEq(lhs int64, b types.Any) bool {
 	return false
 }
 
+// Any two numbers can be compared.
+func isNumber(a types.Any) bool {
+	switch a.(type) {
+	case bool, int, int8, int16, int32, int64,
+		uint, uint8, uint16, uint32, uint64, float64, float32:
+		return true
+	}
+	return false
+}
+
 func (self LtDispatcher) Lt(scope types.Scope, a types.Any, b types.Any) bool {
 	a = maybeReduce(a)
 	b = maybeReduce(b)
@@ -73,7 +85,8 @@ func (self LtDispatcher) Lt(scope types.Scope, a types.Any, b types.Any) bool {
 		}
 
 		// If it is integer like, coerce to int.
-	case bool, int, int8, int16, int32, int64, uint8, uint16, uint32, uint64:
+	case bool, int, int8, int16, int32, int64,
+		uint, uint8, uint16, uint32, uint64:
 		if isTime(b) {
 			lhs, ok := utils.ToInt64(t)
 			if ok {
@@ -84,14 +97,15 @@ func (self LtDispatcher) Lt(scope types.Scope, a types.Any, b types.Any) bool {
 			}
 		}
 		lhs, ok := utils.ToInt64(t)
-		if ok {
+		if ok && isNumber(b) {
 			return intLt(lhs, b)
 		}
 
-	case float64:
+	case float64, float32:
+		lhs, _ := utils.ToFloat(t)
 		rhs, ok := utils.ToFloat(b)
 		if ok {
-			return t < rhs
+			return lhs < rhs
 		}
 
 	case time.Time:
@@ -111,25 +125,6 @@ func (self LtDispatcher) Lt(scope types.Scope, a types.Any, b types.Any) bool {
 	case types.Null, *types.Null, nil:
 		return false
 
-		// If it is integer like, coerce to int.
-	case int, int8, int16, int32, int64, uint8, uint16, uint32, uint64:
-		rhs, ok := utils.ToInt64(t)
-		if ok {
-			if intGt(rhs, a) {
-				return false
-			}
-			if intEq(rhs, a) {
-				return false
-			}
-			return true
-		}
-
-	case float64:
-		lhs, ok := utils.ToFloat(a)
-		if ok {
-			return lhs < t
-		}
-
 	case time.Time:
 		lhs, ok := toTime(a)
 		if ok {
@@ -143,6 +138,15 @@ func (self LtDispatcher) Lt(scope types.Scope, a types.Any, b types.Any) bool {
 		}
 	}
 
+	// Pointers to numbers.
+	lhs, ok := utils.ToFloat(a)
+	if ok {
+		rhs, ok := utils.ToFloat(b)
+		if ok {
+			return lhs < rhs
+		}
+	}
+
 	for i, impl := range self.impl {
 		if impl.Applicable(a, b) {
 			scope.GetStats().IncProtocolSearch(i)
-- 
2.43.0


From e18cc4f46b454ec53afb788fea9929d6cc570ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:05 +0000
Subject: [PATCH 07/73] fix: LIMIT 0 emits no rows

It used to emit one.
---
 vfilter.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vfilter.go b/vfilter.go
index 46012af..2539785 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -620,6 +620,9 @@ func (self *_Select) Eval(ctx context.Context, scope types.Scope) <-chan Row {
 			defer close(output_chan)
 
 			limit := int(*self.Limit)
+			if limit <= 0 {
+				return
+			}
 			count := 1
 
 			self_copy := *self
-- 
2.43.0


From dd335dc6cb4d172c06d38d2dde6d826e85f72526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:07 +0000
Subject: [PATCH 08/73] fix: evaluate a repeated column of a SELECT once per
 row

The name was listed twice, so the last definition was evaluated twice for
each row. This is visible with aggregate functions.
---
 lazy.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lazy.go b/lazy.go
index 88da892..98d3fc8 100644
--- a/lazy.go
+++ b/lazy.go
@@ -38,6 +38,17 @@ type LazyRowImpl struct {
 
 func (self *LazyRowImpl) AddColumn(
 	name string, getter func(ctx context.Context, scope types.Scope) types.Any) types.LazyRow {
+	// A later column masks an earlier one with the same name.
+	_, pres := self.getters[name]
+	if pres {
+		for i, column := range self.columns {
+			if column == name {
+				self.columns = append(self.columns[:i], self.columns[i+1:]...)
+				break
+			}
+		}
+	}
+
 	self.getters[name] = getter
 	self.columns = append(self.columns, name)
 	return self
-- 
2.43.0


From 34a459ac3cf7988bf3176444a122215b61350178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:36 +0000
Subject: [PATCH 09/73] fix: GROUP BY with several columns keeps different
 values apart

The values were joined with spaces, so ('a b', 'c') and ('a', 'b c') shared
a bin.
---
 vfilter_group.go | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/vfilter_group.go b/vfilter_group.go
index 4912d39..22a2d0a 100644
--- a/vfilter_group.go
+++ b/vfilter_group.go
@@ -2,7 +2,10 @@ package vfilter
 
 import (
 	"context"
+	"fmt"
 	"io"
+	"reflect"
+	"strconv"
 
 	"github.com/Velocidex/ordereddict"
 	scope_module "www.velocidex.com/golang/vfilter/scope"
@@ -64,7 +67,7 @@ func (self *GroupbyActor) GetNextRow(ctx context.Context, scope types.Scope) (
 
 		// Materialize the group by value as much as possible - we
 		// don't want a lazy item here.
-		gb_element := types.ToString(ctx, new_scope,
+		gb_element := groupKey(ctx, new_scope,
 			self.delegate.GroupBy.Reduce(ctx, new_scope))
 
 		closer()
@@ -76,6 +79,31 @@ func (self *GroupbyActor) GetNextRow(ctx context.Context, scope types.Scope) (
 	return nil, nil, "", nil, io.EOF
 }
 
+// The name of the bin for a group by value. Arrays, and in particular
+// the values of several GROUP BY expressions, are quoted so that
+// different elements always end up in different bins.
+func groupKey(ctx context.Context, scope types.Scope, value types.Any) string {
+	switch value.(type) {
+	case []byte, fmt.Stringer, types.StringProtocol:
+		return types.ToString(ctx, scope, value)
+	}
+
+	if !utils.IsArray(value) {
+		return types.ToString(ctx, scope, value)
+	}
+
+	result := "["
+	array := reflect.ValueOf(value)
+	for i := 0; i < array.Len(); i++ {
+		if i > 0 {
+			result += " "
+		}
+		result += strconv.Quote(
+			groupKey(ctx, scope, array.Index(i).Interface()))
+	}
+	return result + "]"
+}
+
 func (self *GroupbyActor) MaterializeRow(ctx context.Context,
 	row types.Row, scope types.Scope) *ordereddict.Dict {
 	return MaterializedLazyRow(ctx, row, scope)
-- 
2.43.0


From bd9fd9f31dba16deb20af8c496ea6387aa79880c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:11 +0000
Subject: [PATCH 10/73] fix: GROUP BY closes the scope of each row once it is
 materialized

The scope of the columns was closed before they were evaluated, so functions
could not register destructors, and the scopes of the rows were kept until
the end of the query.
---
 grouper/grouper.go | 3 +++
 vfilter_group.go   | 2 --
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/grouper/grouper.go b/grouper/grouper.go
index 26cbafb..dbf3b04 100644
--- a/grouper/grouper.go
+++ b/grouper/grouper.go
@@ -74,6 +74,9 @@ func (self *DefaultGrouper) Group(
 			new_row := actor.MaterializeRow(ctx, row, new_scope)
 
 			aggregate_ctx.row = new_row
+
+			// The row is materialized now.
+			new_scope.Close()
 		}
 
 		// Emit the binned set as a new result set.
diff --git a/vfilter_group.go b/vfilter_group.go
index 22a2d0a..c177353 100644
--- a/vfilter_group.go
+++ b/vfilter_group.go
@@ -70,8 +70,6 @@ func (self *GroupbyActor) GetNextRow(ctx context.Context, scope types.Scope) (
 		gb_element := groupKey(ctx, new_scope,
 			self.delegate.GroupBy.Reduce(ctx, new_scope))
 
-		closer()
-
 		// Emit a single row.
 		return transformed_row, row, gb_element, new_scope, nil
 	}
-- 
2.43.0


From befe2159a1107aebe239f04135f9a1259142419e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:13 +0000
Subject: [PATCH 11/73] fix: ORDER BY does not leak a goroutine when it is
 cancelled

The sorter stops reading its input when the context is cancelled, and the
feeder was then blocked for ever.
---
 vfilter.go       | 7 ++++++-
 vfilter_group.go | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/vfilter.go b/vfilter.go
index 2539785..247295b 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -676,7 +676,12 @@ func (self *_Select) Eval(ctx context.Context, scope types.Scope) <-chan Row {
 			self_copy.OrderBy = nil
 
 			for row := range self_copy.Eval(ctx, scope) {
-				sorter_input_chan <- row
+				select {
+				case <-ctx.Done():
+					return
+
+				case sorter_input_chan <- row:
+				}
 			}
 		}()
 
diff --git a/vfilter_group.go b/vfilter_group.go
index c177353..f5da7a8 100644
--- a/vfilter_group.go
+++ b/vfilter_group.go
@@ -140,7 +140,12 @@ func (self *_Select) EvalGroupBy(ctx context.Context, scope types.Scope) <-chan
 		self_copy.OrderBy = nil
 
 		for row := range grouper_output_chan {
-			sorter_input_chan <- row
+			select {
+			case <-ctx.Done():
+				return
+
+			case sorter_input_chan <- row:
+			}
 		}
 	}()
 
-- 
2.43.0


From 0619d427705b44d1f507a97cdac30b4892ed28bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:31 +0000
Subject: [PATCH 12/73] fix: ORDER BY is consistent for NULL and for equal keys

NULL was compared as an empty string, which has no order with numbers, a row
without the column was equal to all the others, and the descending order was
not a strict order.
---
 sort/sort.go | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/sort/sort.go b/sort/sort.go
index b9ed8ee..a35078a 100644
--- a/sort/sort.go
+++ b/sort/sort.go
@@ -72,33 +72,36 @@ func (self *DefaultSorterCtx) Len() int {
 }
 
 func (self *DefaultSorterCtx) Less(i, j int) bool {
-	element1, pres1 := self.Scope.Associative(
-		self.Items[i], self.OrderBy)
-
-	element2, pres2 := self.Scope.Associative(
-		self.Items[j], self.OrderBy)
+	element1 := self.getKey(i)
+	element2 := self.getKey(j)
 
-	if !pres1 || !pres2 {
-		return false
+	if self.Desc {
+		element1, element2 = element2, element1
 	}
 
-	// Sort NULL like an empty string because normally NULL
-	// comparisons are not stable.
+	// Sort NULL before anything else because normally NULL comparisons
+	// are not stable.
 	if types.IsNil(element1) {
-		element1 = ""
+		return !types.IsNil(element2)
 	}
 
 	if types.IsNil(element2) {
-		element2 = ""
-	}
-
-	if self.Desc {
-		return !self.Scope.Lt(element1, element2)
+		return false
 	}
 
 	return self.Scope.Lt(element1, element2)
 }
 
+// A row without the sort column sorts like NULL.
+func (self *DefaultSorterCtx) getKey(i int) types.Any {
+	element, pres := self.Scope.Associative(
+		self.Items[i], self.OrderBy)
+	if !pres {
+		return types.Null{}
+	}
+	return element
+}
+
 func (self *DefaultSorterCtx) Swap(i, j int) {
 	element1 := self.Items[i]
 	self.Items[i] = self.Items[j]
-- 
2.43.0


From 1fc5bc2ce218ab498cec7733251e9a8f220cc481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:33 +0000
Subject: [PATCH 13/73] fix: a column of an empty list is an empty list

It was a nil slice, which is equal to NULL on one side of = but not on the
other.
---
 protocols/protocol_associative.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocols/protocol_associative.go b/protocols/protocol_associative.go
index 9ee988d..c721149 100644
--- a/protocols/protocol_associative.go
+++ b/protocols/protocol_associative.go
@@ -285,7 +285,7 @@ func (self DefaultAssociative) Associative(scope types.Scope, a types.Any, b typ
 
 		// An array - we call Associative on each member.
 		if a_type.Kind() == reflect.Slice {
-			var result []types.Any
+			result := []types.Any{}
 
 			for i := 0; i < a_value.Len(); i++ {
 				element := a_value.Index(i).Interface()
-- 
2.43.0


From 4f9b97fc2ceb2503c598953ade4d418e19798b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:36 +0000
Subject: [PATCH 14/73] fix: the truth of a query cancels it after the first
 row

The goroutines of the query were blocked for ever.
---
 protocols/stored_query.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/protocols/stored_query.go b/protocols/stored_query.go
index 3d7c933..4cd4a68 100644
--- a/protocols/stored_query.go
+++ b/protocols/stored_query.go
@@ -57,10 +57,13 @@ type _StoredQueryBool struct{}
 func (self _StoredQueryBool) Bool(ctx context.Context, scope types.Scope, a types.Any) bool {
 	stored_query, ok := a.(types.StoredQuery)
 	if ok {
+		sub_ctx, cancel := context.WithCancel(ctx)
+		defer cancel()
+
 		new_scope := scope.Copy()
 		defer new_scope.Close()
 
-		from_chan := stored_query.Eval(ctx, new_scope)
+		from_chan := stored_query.Eval(sub_ctx, new_scope)
 		for {
 			// As soon as a single result is returned we
 			// can cancel the query.
-- 
2.43.0


From 4b57597d402b73f3f7cc0a7cb50f28886d8b03e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:48 +0000
Subject: [PATCH 15/73] fix: indexing a query works like indexing its rows

A negative index, or one past the end, gave an empty list.
---
 protocols/stored_query.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/protocols/stored_query.go b/protocols/stored_query.go
index 4cd4a68..d4087f3 100644
--- a/protocols/stored_query.go
+++ b/protocols/stored_query.go
@@ -37,11 +37,27 @@ func (self _StoredQueryAssociative) Associative(
 				return row, true
 			}
 
+			i++
+
+			// The negative index refers to the end of the query.
+			if b_is_int {
+				if int_b < 0 {
+					result = append(result, row)
+				}
+				continue
+			}
+
 			item, pres := scope.Associative(row, b)
 			if pres {
 				result = append(result, item)
 			}
-			i++
+		}
+
+		if b_is_int {
+			if int_b < 0 && i+int_b >= 0 {
+				return result[i+int_b], true
+			}
+			return &types.Null{}, true
 		}
 	}
 	return result, true
-- 
2.43.0


From dfd1c887e2741a06a405d68ead897aff994b67d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:32 +0000
Subject: [PATCH 16/73] fix: foreach stops when it is cancelled or has no
 workers

Once the context was cancelled the workers were gone, and passing them one
more row blocked for ever. The same happened with a negative workers arg.
---
 plugins/foreach.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/plugins/foreach.go b/plugins/foreach.go
index 6122d7a..df8c022 100644
--- a/plugins/foreach.go
+++ b/plugins/foreach.go
@@ -39,7 +39,7 @@ func (self _ForeachPluginImpl) Call(ctx context.Context,
 		}
 
 		// At least one worker
-		if arg.Workers == 0 {
+		if arg.Workers < 1 {
 			arg.Workers = 1
 		}
 
@@ -90,7 +90,7 @@ func (self _ForeachPluginImpl) Call(ctx context.Context,
 				// child_scope is closed in the pool worker.
 
 				child_scope.AppendVars(row_item)
-				pool.RunScope(child_scope)
+				pool.RunScope(ctx, child_scope)
 			}
 		}
 	}()
@@ -118,8 +118,14 @@ type workerPool struct {
 	output_chan chan types.Row
 }
 
-func (self *workerPool) RunScope(scope types.Scope) {
-	self.ch <- scope
+func (self *workerPool) RunScope(ctx context.Context, scope types.Scope) {
+	select {
+	// The workers exit when the context is cancelled.
+	case <-ctx.Done():
+		scope.Close()
+
+	case self.ch <- scope:
+	}
 }
 
 func (self *workerPool) Close() {
-- 
2.43.0


From bef5f33fc6038a7ec870322ed03e2f2deef66c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:42 +0000
Subject: [PATCH 17/73] fix: range() terminates with a negative step and at the
 end of the integers

---
 plugins/range.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/plugins/range.go b/plugins/range.go
index bf1c0a6..fa544e1 100644
--- a/plugins/range.go
+++ b/plugins/range.go
@@ -36,13 +36,22 @@ func (self RangePlugin) Call(
 			arg.Step = 1
 		}
 
-		for i := arg.Start; i < arg.End; i += arg.Step {
+		// A negative step counts down.
+		for i := arg.Start; (arg.Step > 0 && i < arg.End) ||
+			(arg.Step < 0 && i > arg.End); {
 			select {
 			case <-ctx.Done():
 				return
 
 			case output_chan <- ordereddict.NewDict().Set("_value", i):
 			}
+
+			// The next value may overflow.
+			next := i + arg.Step
+			if (next > i) != (arg.Step > 0) {
+				return
+			}
+			i = next
 		}
 	}()
 
-- 
2.43.0


From 7c914e048528fbeaf762347001f8205a931d0646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:59 +0000
Subject: [PATCH 18/73] fix: a nil value does not panic when it is used as a
 list or a query

---
 arg_parser/args.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/arg_parser/args.go b/arg_parser/args.go
index 45d97cc..c6f055f 100644
--- a/arg_parser/args.go
+++ b/arg_parser/args.go
@@ -111,6 +111,10 @@ func _ExtractStringArray(
 		arg = lazy_arg.Reduce(ctx)
 	}
 
+	if arg == nil {
+		arg = types.Null{}
+	}
+
 	slice := reflect.ValueOf(arg)
 
 	// A slice of strings.
@@ -163,6 +167,10 @@ func _ExtractAnyArray(
 		arg = lazy_arg.Reduce(ctx)
 	}
 
+	if arg == nil {
+		arg = types.Null{}
+	}
+
 	slice := reflect.ValueOf(arg)
 
 	// A slice of strings.
@@ -201,6 +209,10 @@ func (self *StoredQueryWrapper) Eval(ctx context.Context, scope types.Scope) <-c
 	go func() {
 		defer close(output_chan)
 
+		if types.IsNil(self.Value) {
+			return
+		}
+
 		slice := reflect.ValueOf(self.Value)
 		if slice.Type().Kind() == reflect.Slice {
 			for i := 0; i < slice.Len(); i++ {
-- 
2.43.0


From dff5a7e828407fcfabdd43421fa166aa9a716f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:01 +0000
Subject: [PATCH 19/73] fix: a dict with one member gives one string to a list
 of strings

---
 arg_parser/args.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arg_parser/args.go b/arg_parser/args.go
index c6f055f..dbdefdf 100644
--- a/arg_parser/args.go
+++ b/arg_parser/args.go
@@ -136,6 +136,7 @@ func _ExtractStringArray(
 					item, ok := utils.ToString(member)
 					if ok {
 						result = append(result, item)
+						continue
 					}
 				}
 			}
-- 
2.43.0


From f191db6cbd5c78542d1a49653c67bbac8bb1de56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:47 +0000
Subject: [PATCH 20/73] fix: a nil value does not panic when it is the value of
 an argument

---
 arg_parser/parser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/arg_parser/parser.go b/arg_parser/parser.go
index 801b144..ca68d3f 100644
--- a/arg_parser/parser.go
+++ b/arg_parser/parser.go
@@ -77,6 +77,9 @@ func (self *Parser) Parse(
 
 		// Now set the field on the struct.
 		field_value := target.Field(parser.FieldIdx)
+		if new_value == nil {
+			new_value = types.Null{}
+		}
 		field_value.Set(reflect.ValueOf(new_value))
 	}
 
@@ -122,6 +125,9 @@ func (self *Parser) ParseAsFreeForm(
 
 		// Now set the field on the struct.
 		field_value := target.Field(parser.FieldIdx)
+		if new_value == nil {
+			new_value = types.Null{}
+		}
 		field_value.Set(reflect.ValueOf(new_value))
 	}
 
-- 
2.43.0


From 9a73b0fd88f8318a09c0fb7ab053e52ad933b6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:05 +0000
Subject: [PATCH 21/73] fix: a nil value has no members

---
 protocols/protocol_associative.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/protocols/protocol_associative.go b/protocols/protocol_associative.go
index c721149..9cf8db6 100644
--- a/protocols/protocol_associative.go
+++ b/protocols/protocol_associative.go
@@ -338,6 +338,9 @@ func (self DefaultAssociative) GetMembers(scope types.Scope, a types.Any) []stri
 	}
 
 	a_value = reflect.ValueOf(a)
+	if !a_value.IsValid() {
+		return result
+	}
 
 	// If a value is a slice, we get the members of the
 	// first item. Hopefully they are the same as the
-- 
2.43.0


From d0923eaa4856e6f049513693e8d497c0ce007126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:46 +0000
Subject: [PATCH 22/73] fix: formatting a LET keeps its parentheses and quoted
 parameters

---
 visitor.go | 69 ++++++++++++++++++++++--------------------------------
 1 file changed, 28 insertions(+), 41 deletions(-)

diff --git a/visitor.go b/visitor.go
index 1fb0077..5e630f8 100644
--- a/visitor.go
+++ b/visitor.go
@@ -1149,47 +1149,7 @@ func (self *Visitor) visitVQL(node *VQL) {
 			self.push("LET ", node.Let)
 			parameters, defaults := node.getParameters()
 
-			if defaults != nil {
-				self.push("(")
-				if self.opts.CollectDefinitionSites {
-					defsite := DefinitionSite{
-						Type: "definition",
-						Name: node.Let,
-						Pos: RangePosition{
-							Pos:    node.Pos,
-							EndPos: node.EndPos,
-						},
-					}
-
-					for _, p := range parameters {
-						defsite.Args = append(defsite.Args, p)
-					}
-
-					for k := range defaults {
-						defsite.Defaults = append(defsite.Defaults,
-							utils.Unquote_ident(k))
-					}
-					self.Definitions = append(self.Definitions, defsite)
-				}
-
-				for idx, p := range parameters {
-					// Is it an arg with default?
-					def_value, pres := defaults[p.Name]
-					if pres {
-						self.Visit(def_value)
-
-					} else {
-						// Otherwise just emit the plain name
-						self.push(p.Name)
-					}
-
-					if idx < len(parameters)-1 {
-						self.push(",", " ")
-					}
-				}
-				self.push(")")
-
-			} else if self.opts.CollectDefinitionSites {
+			if self.opts.CollectDefinitionSites {
 				defsite := DefinitionSite{
 					Type: "definition",
 					Name: node.Let,
@@ -1203,8 +1163,35 @@ func (self *Visitor) visitVQL(node *VQL) {
 					defsite.Args = []ArgDesc{}
 				}
 
+				for _, p := range parameters {
+					defsite.Args = append(defsite.Args, p)
+
+					_, pres := defaults[p.Name]
+					if pres {
+						defsite.Defaults = append(defsite.Defaults, p.Name)
+					}
+				}
 				self.Definitions = append(self.Definitions, defsite)
 			}
+
+			if node.Called != "" {
+				self.push("(")
+				for idx, p := range node.LetParameters {
+					// Is it an arg with default?
+					if p.DefaultArg != nil {
+						self.Visit(p.DefaultArg)
+
+					} else if p.Name != nil {
+						// Otherwise just emit the plain name
+						self.push(*p.Name)
+					}
+
+					if idx < len(node.LetParameters)-1 {
+						self.push(",", " ")
+					}
+				}
+				self.push(")")
+			}
 		}
 		self.push(" ", operator, " ")
 		self.indent_in()
-- 
2.43.0


From 99bb5b573570c5aa432755d43dcf35427039216d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:58 +0000
Subject: [PATCH 23/73] fix: formatting keeps a number that is out of range

---
 visitor.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/visitor.go b/visitor.go
index 5e630f8..2b718ca 100644
--- a/visitor.go
+++ b/visitor.go
@@ -771,6 +771,13 @@ func (self *Visitor) visitValue(node *_Value) {
 
 	}
 
+	// This is not a valid number (e.g. it is out of range).
+	if node.StrNumber != nil {
+		self.push(*node.StrNumber)
+		node.mu.Unlock()
+		return
+	}
+
 	if node.Null {
 		node.mu.Unlock()
 		self.push("NULL")
-- 
2.43.0


From 36bb0ffc67a06e55a8a3f2d75d1903ef6587f382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:48 +0000
Subject: [PATCH 24/73] fix: reformatting does not change strings of several
 lines

---
 reformat/visitor.go | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/reformat/visitor.go b/reformat/visitor.go
index e472ef4..c48cfed 100644
--- a/reformat/visitor.go
+++ b/reformat/visitor.go
@@ -17,11 +17,34 @@ func ReFormatVQL(scope types.Scope, query string,
 	visitor := vfilter.NewVisitor(scope, options)
 	visitor.Visit(vql)
 
-	lines := strings.Split(visitor.ToString(), "\n")
-	result := make([]string, 0, len(lines))
-	for _, l := range lines {
-		result = append(result, strings.TrimRight(l, " "))
+	return trimTrailingSpaces(visitor.Fragments), nil
+}
+
+// Join the fragments without trailing spaces on any line. Only the
+// fragments which are line breaks end a line - strings and comments may
+// contain lines of their own, which must not change.
+func trimTrailingSpaces(fragments []string) string {
+	result := make([]string, 0, len(fragments))
+
+	trim := func() {
+		for len(result) > 0 {
+			last := len(result) - 1
+			trimmed := strings.TrimRight(result[last], " ")
+			if trimmed != "" {
+				result[last] = trimmed
+				return
+			}
+			result = result[:last]
+		}
+	}
+
+	for _, fragment := range fragments {
+		if fragment == "\n" {
+			trim()
+		}
+		result = append(result, fragment)
 	}
+	trim()
 
-	return strings.Join(result, "\n"), nil
+	return strings.Join(result, "")
 }
-- 
2.43.0


From 724fb401c961679e41b429278bc115a66710feef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:09 +0000
Subject: [PATCH 25/73] fix: comments at the end of a program are not lost

---
 vfilter.go | 8 ++++++++
 visitor.go | 2 ++
 2 files changed, 10 insertions(+)

diff --git a/vfilter.go b/vfilter.go
index 247295b..eaeb017 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -339,6 +339,11 @@ func (self *MultiVQL) GetStatements() []*VQL {
 		self.Comments2 = nil
 	}
 
+	// There is no next statement: keep the comments with the last one.
+	if len(self.Comments2) > 0 && self.VQL2 == nil {
+		self.VQL1.TrailingComments = self.Comments2
+	}
+
 	result := []*VQL{self.VQL1}
 	if self.VQL2 != nil {
 		return append(result, self.VQL2.GetStatements()...)
@@ -376,6 +381,9 @@ type VQL struct {
 	Query         *_Select        ` @@  `
 	Comments      []*_Comment
 
+	// Comments at the end of the program.
+	TrailingComments []*_Comment
+
 	// JIT Compile these for faster execution
 	mu              sync.Mutex
 	argsCache       map[string]*_Args
diff --git a/visitor.go b/visitor.go
index 2b718ca..f2d0661 100644
--- a/visitor.go
+++ b/visitor.go
@@ -1144,6 +1144,8 @@ func (self *Visitor) visitVQL(node *VQL) {
 		self.pos = 0
 		self.max_line = ""
 		self.max_width = 0
+
+		self.Visit(node.TrailingComments)
 	}()
 
 	if node.Let != "" {
-- 
2.43.0


From d6d5e574c3bc599f268b6bc978df2e528278e202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:12 +0000
Subject: [PATCH 26/73] fix: the visitor visits all the comments of an
 expression

---
 visitor.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/visitor.go b/visitor.go
index f2d0661..c5b6868 100644
--- a/visitor.go
+++ b/visitor.go
@@ -657,6 +657,7 @@ func (self *Visitor) visitSymbolRef(node *_SymbolRef) {
 }
 
 func (self *Visitor) visitAndExpression(node *_AndExpression) {
+	self.Visit(node.Comments)
 	self.Visit(node.Left)
 
 	for _, right := range node.Right {
@@ -675,12 +676,13 @@ func (self *Visitor) visitOrExpression(node *_OrExpression) {
 
 	for _, right := range node.Right {
 		self.push(" ", right.Operator, " ")
-		self.Visit(right.Term.Comments)
 		self.Visit(right.Term)
 	}
 }
 
 func (self *Visitor) visitConditionOperand(node *_ConditionOperand) {
+	self.Visit(node.Comments)
+
 	if node.Not != nil {
 		self.push("NOT ")
 		self.Visit(node.Not)
-- 
2.43.0


From 8f4fbb8c4e887553fcda89ae6902f241647a1571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:14 +0000
Subject: [PATCH 27/73] fix: a line is always broken after a one line comment

---
 visitor.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/visitor.go b/visitor.go
index c5b6868..c2714bc 100644
--- a/visitor.go
+++ b/visitor.go
@@ -256,6 +256,16 @@ func (self *Visitor) line_break() {
 	self.push(strings.Repeat(" ", last_indent))
 }
 
+// The line must be broken after a one line comment, even when
+// everything else is on the same line - otherwise what follows would
+// be a part of the comment.
+func (self *Visitor) comment_line_break() {
+	break_lines := self.opts.BreakLines
+	self.opts.BreakLines = true
+	self.line_break()
+	self.opts.BreakLines = break_lines
+}
+
 func (self *Visitor) current_line() string {
 	if len(self.line_breaks) == 0 {
 		return ""
@@ -393,7 +403,7 @@ func (self *Visitor) visitComment(node *_Comment) {
 		}
 
 		self.push(*node.Comment)
-		self.line_break()
+		self.comment_line_break()
 	}
 
 	// VQL Comments start with -- and generally follow the thing they
@@ -405,7 +415,7 @@ func (self *Visitor) visitComment(node *_Comment) {
 		}
 
 		self.push(*node.VQLComment)
-		self.line_break()
+		self.comment_line_break()
 	}
 
 	// Multi line comments always start at column 0 and follow by a
-- 
2.43.0


From f0de1f4d3529651e1d5688e159ca7f4d6af867ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:23 +0000
Subject: [PATCH 28/73] fix: the parser does not drop repeated operands
 silently

---
 vfilter.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/vfilter.go b/vfilter.go
index eaeb017..e8596b5 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -594,7 +594,7 @@ type _Select struct {
 	EndPos lexer.Position
 
 	Comments         []*_Comment        ` { @@ } `
-	Explain          *bool              ` { @EXPLAIN }`
+	Explain          *bool              ` [ @EXPLAIN ]`
 	SelectExpression *_SelectExpression `SELECT @@`
 	From             *_From             `FROM @@`
 	Where            *_CommaExpression  `[ WHERE @@ ]`
@@ -948,9 +948,9 @@ type _MemberExpression struct {
 }
 
 type _OpMembershipTerm struct {
-	Index    *_Value ` ( "[" {@@} `
-	Range    *string ` { @":" }`
-	RangeEnd *_Value ` { @@ } "]" |`
+	Index    *_Value ` ( "[" [ @@ ] `
+	Range    *string ` [ @":" `
+	RangeEnd *_Value ` [ @@ ] ] "]" |`
 	Term     *string `  "." @Ident )`
 }
 
@@ -976,7 +976,7 @@ type _OpArrayTerm struct {
 	Comments []*_Comment     ` [ @@ ] `
 	Operator string          `@","`
 	Comment2 []*_Comment     ` [ @@ ] `
-	Term     *_AndExpression `{ @@ }`
+	Term     *_AndExpression `[ @@ ]`
 }
 
 // Expressions separated by AND.
@@ -1012,7 +1012,7 @@ type _ConditionOperand struct {
 	Comments []*_Comment          ` [ @@ ] `
 	Not      *_ConditionOperand   `(NOT @@ | `
 	Left     *_AdditionExpression `@@)`
-	Right    *_OpComparison       `{ @@ }`
+	Right    *_OpComparison       `[ @@ ]`
 }
 
 type _OpComparison struct {
@@ -1036,8 +1036,8 @@ type _SymbolRef struct {
 	Comments   []*_Comment ` [ @@ ] `
 	Negated    bool
 	Symbol     string   `(@SymbolIdent | @Ident) { @"." @Ident }`
-	Called     bool     `{ @"(" `
-	Parameters []*_Args ` [ @@ { "," @@ } ] ")" } `
+	Called     bool     `[ @"(" `
+	Parameters []*_Args ` [ @@ { "," @@ } ] ")" ] `
 
 	mu           sync.Mutex
 	function     FunctionInterface
-- 
2.43.0


From 36e16082d9ef47ec3372c9cb1696865d3e02796a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:36 +0000
Subject: [PATCH 29/73] fix: several comments around a comma can be formatted

---
 vfilter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vfilter.go b/vfilter.go
index e8596b5..28ae76b 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -973,9 +973,9 @@ type _CommaExpression struct {
 }
 
 type _OpArrayTerm struct {
-	Comments []*_Comment     ` [ @@ ] `
+	Comments []*_Comment     ` { @@ } `
 	Operator string          `@","`
-	Comment2 []*_Comment     ` [ @@ ] `
+	Comment2 []*_Comment     ` { @@ } `
 	Term     *_AndExpression `[ @@ ]`
 }
 
-- 
2.43.0


From a7ea086d4449c1e5b9283e279eeb518682ff64a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:53 +0000
Subject: [PATCH 30/73] fix: the end of a token is a byte offset

---
 tokenizer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tokenizer.go b/tokenizer.go
index eadb9bc..2692c6f 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -75,7 +75,8 @@ func findEndPos(start lexer.Position, value string) lexer.Position {
 		} else {
 			res.Column++
 		}
-		res.Offset++
 	}
+	// Columns count characters but offsets are in bytes.
+	res.Offset += len(value)
 	return res
 }
-- 
2.43.0


From 04217faf924d2659400fc8d9ec773613e76697ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:07 +0000
Subject: [PATCH 31/73] fix: the defaults of a definition are in the order of
 its parameters

---
 visitor.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/visitor.go b/visitor.go
index c2714bc..3d21af4 100644
--- a/visitor.go
+++ b/visitor.go
@@ -1168,7 +1168,7 @@ func (self *Visitor) visitVQL(node *VQL) {
 
 		if node.Expression != nil || node.StoredQuery != nil {
 			self.push("LET ", node.Let)
-			parameters, defaults := node.getParameters()
+			parameters, _ := node.getParameters()
 
 			if self.opts.CollectDefinitionSites {
 				defsite := DefinitionSite{
@@ -1184,11 +1184,10 @@ func (self *Visitor) visitVQL(node *VQL) {
 					defsite.Args = []ArgDesc{}
 				}
 
-				for _, p := range parameters {
+				for idx, p := range parameters {
 					defsite.Args = append(defsite.Args, p)
 
-					_, pres := defaults[p.Name]
-					if pres {
+					if node.LetParameters[idx].DefaultArg != nil {
 						defsite.Defaults = append(defsite.Defaults, p.Name)
 					}
 				}
-- 
2.43.0


From c87b862086ba9c8bc91276fb41224ce76e796025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:08 +0000
Subject: [PATCH 32/73] fix: the visitor collects the comments inside of
 statements

---
 visitor.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/visitor.go b/visitor.go
index 3d21af4..c58d01a 100644
--- a/visitor.go
+++ b/visitor.go
@@ -157,6 +157,8 @@ func NewVisitor(scope types.Scope, options FormatOptions) *Visitor {
 func (self *Visitor) merge(in *Visitor) {
 	self.Fragments = append([]string{}, in.Fragments...)
 	self.CallSites = append(self.CallSites, in.CallSites...)
+	self.Definitions = append(self.Definitions, in.Definitions...)
+	self.Comments = append(self.Comments, in.Comments...)
 	self.line_breaks = in.line_breaks
 	self.indents = append([]int{}, in.indents...)
 	self.pos = in.pos
@@ -1270,7 +1272,7 @@ func (self *Visitor) abTest(
 			res = test_visitor
 
 		} else if res.is_better(test_visitor) {
-			res.merge(test_visitor)
+			res = test_visitor
 		}
 	}
 
-- 
2.43.0


From 4b441badb91f047feb17776cfa4b9ec63a178d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:51 +0000
Subject: [PATCH 33/73] fix: format an empty index

---
 visitor.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/visitor.go b/visitor.go
index c58d01a..0491534 100644
--- a/visitor.go
+++ b/visitor.go
@@ -839,9 +839,12 @@ func (self *Visitor) visitMemberExpression(node *_MemberExpression) {
 			self.Visit(right.Index)
 			self.push("]")
 
-		} else {
+		} else if right.Term != nil {
 			self.push(".")
 			self.Visit(right.Term)
+
+		} else {
+			self.push("[]")
 		}
 	}
 }
-- 
2.43.0


From 4522894d023846610eed39cc2cb79f29004b327e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:45 +0000
Subject: [PATCH 34/73] fix: an alias of * is a syntax error rather than
 ignored

---
 vfilter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vfilter.go b/vfilter.go
index 28ae76b..338bd5c 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -829,10 +829,10 @@ type _AliasedExpression struct {
 
 	Comments   []*_Comment     ` { @@ } `
 	Star       *bool           ` ( @"*" | `
-	SubSelect  *_Select        ` "{" @@ "}" |`
+	SubSelect  *_Select        ` ( "{" @@ "}" |`
 	Expression *_AndExpression ` @@ )`
 
-	As string `[ AS @Ident ]`
+	As string `[ AS @Ident ] )`
 
 	// The position of this column in the SELECT
 	pos                int
-- 
2.43.0


From c8c1fe0c85eeeeefd4db5e9b3f481b1ca10a2a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:01 +0000
Subject: [PATCH 35/73] fix: the parser does not drop operands after NOT
 silently

---
 vfilter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vfilter.go b/vfilter.go
index 338bd5c..8d8eb01 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -1011,8 +1011,8 @@ type _OpOrTerm struct {
 type _ConditionOperand struct {
 	Comments []*_Comment          ` [ @@ ] `
 	Not      *_ConditionOperand   `(NOT @@ | `
-	Left     *_AdditionExpression `@@)`
-	Right    *_OpComparison       `[ @@ ]`
+	Left     *_AdditionExpression `@@`
+	Right    *_OpComparison       `[ @@ ])`
 }
 
 type _OpComparison struct {
-- 
2.43.0


From 015ee5dc2b54619d08442b863e5891b9fc2a2fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:20 +0000
Subject: [PATCH 36/73] fix: an invalid hex escape is copied verbatim

---
 utils/unquote.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/unquote.go b/utils/unquote.go
index 2007877..d17b84d 100644
--- a/utils/unquote.go
+++ b/utils/unquote.go
@@ -63,7 +63,7 @@ outer:
 				// ignore it and copy the output
 				// verbatim.
 				if err != nil {
-					out[j] = in[j]
+					out[j] = in[i]
 					i++
 					j++
 				} else {
-- 
2.43.0


From 17ed65e70f62a17d8f01a347a854696dc73afcb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:25 +0000
Subject: [PATCH 37/73] fix: quoted identifiers are used verbatim everywhere

---
 utils/unquote.go | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/utils/unquote.go b/utils/unquote.go
index d17b84d..ada475f 100644
--- a/utils/unquote.go
+++ b/utils/unquote.go
@@ -2,7 +2,6 @@ package utils
 
 import (
 	"errors"
-	"strconv"
 	"strings"
 )
 
@@ -117,17 +116,14 @@ func Unquote_ident(s string) string {
 		return s
 	}
 
-	s = s[1 : len(s)-1]
-	out := ""
-	for s != "" {
-		value, _, tail, err := strconv.UnquoteChar(s, quote)
-		if err != nil {
-			return s
-		}
-		s = tail
-		out += string(value)
+	// Symbols are looked up by SplitIdent() which has no escape
+	// sequences, so there are none here either.
+	res := s[1 : len(s)-1]
+	if strings.IndexByte(res, quote) >= 0 {
+		// Several quoted components
+		return s
 	}
-	return out
+	return res
 }
 
 // Split an identifier to a list of components taking into account
-- 
2.43.0


From 6b287a8a53f57160c808badc5b8db23e8d36ee1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:52 +0000
Subject: [PATCH 38/73] fix: names which are not valid utf8 can be looked up

---
 utils/unquote.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/utils/unquote.go b/utils/unquote.go
index ada475f..f8c7daa 100644
--- a/utils/unquote.go
+++ b/utils/unquote.go
@@ -130,10 +130,12 @@ func Unquote_ident(s string) string {
 // backtick expansions.
 func SplitIdent(s string) []string {
 	result := make([]string, 0)
-	current := make([]rune, 0, len(s))
+	current := make([]byte, 0, len(s))
 	state_escaped := false
 
-	for _, c := range s {
+	// The delimiters are ASCII so we can pass all other bytes along.
+	for i := 0; i < len(s); i++ {
+		c := s[i]
 		if state_escaped {
 			switch c {
 			case '`':
-- 
2.43.0


From c7cee734d26a5cfd111d440554e148fb458be087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:28 +0000
Subject: [PATCH 39/73] fix: a column aliased as `*` is not all columns

---
 vfilter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vfilter.go b/vfilter.go
index 8d8eb01..52fd425 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -1132,7 +1132,7 @@ func (self *_SelectExpression) Transform(
 		// A copy of the expression for the lambda capture.
 		expr := expr_
 		name := expr.GetName(scope)
-		if name == "*" {
+		if expr.Star != nil {
 			self.mergeStarRow(scope, new_row, row)
 			continue
 		}
-- 
2.43.0


From 168e0db4134290d946d8f3c3241c18d8a7d4b076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:20 +0000
Subject: [PATCH 40/73] fix: arrays are lists like slices

---
 arg_parser/args.go                | 6 +++---
 functions/format.go               | 3 ++-
 protocols/protocol_associative.go | 9 +++++----
 protocols/protocol_iterate.go     | 2 +-
 4 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/arg_parser/args.go b/arg_parser/args.go
index dbdefdf..3338162 100644
--- a/arg_parser/args.go
+++ b/arg_parser/args.go
@@ -118,7 +118,7 @@ func _ExtractStringArray(
 	slice := reflect.ValueOf(arg)
 
 	// A slice of strings.
-	if slice.Type().Kind() == reflect.Slice {
+	if utils.IsArray(slice.Interface()) {
 		for i := 0; i < slice.Len(); i++ {
 			value := slice.Index(i).Interface()
 			item, ok := utils.ToString(value)
@@ -175,7 +175,7 @@ func _ExtractAnyArray(
 	slice := reflect.ValueOf(arg)
 
 	// A slice of strings.
-	if slice.Type().Kind() == reflect.Slice {
+	if utils.IsArray(slice.Interface()) {
 		for i := 0; i < slice.Len(); i++ {
 			value := slice.Index(i).Interface()
 			result = append(result, value)
@@ -215,7 +215,7 @@ func (self *StoredQueryWrapper) Eval(ctx context.Context, scope types.Scope) <-c
 		}
 
 		slice := reflect.ValueOf(self.Value)
-		if slice.Type().Kind() == reflect.Slice {
+		if utils.IsArray(slice.Interface()) {
 			for i := 0; i < slice.Len(); i++ {
 				value := slice.Index(i).Interface()
 				if !types.IsNil(value) {
diff --git a/functions/format.go b/functions/format.go
index d7d4101..55bf718 100644
--- a/functions/format.go
+++ b/functions/format.go
@@ -8,6 +8,7 @@ import (
 	"github.com/Velocidex/ordereddict"
 	"www.velocidex.com/golang/vfilter/arg_parser"
 	"www.velocidex.com/golang/vfilter/types"
+	"www.velocidex.com/golang/vfilter/utils"
 )
 
 type FormatArgs struct {
@@ -33,7 +34,7 @@ func (self FormatFunction) Call(ctx context.Context,
 		slice := reflect.ValueOf(arg.Args)
 
 		// A slice of strings.
-		if slice.Type().Kind() != reflect.Slice {
+		if !utils.IsArray(arg.Args) {
 			format_args = append(format_args, arg.Args)
 		} else {
 			for i := 0; i < slice.Len(); i++ {
diff --git a/protocols/protocol_associative.go b/protocols/protocol_associative.go
index 9cf8db6..43d218b 100644
--- a/protocols/protocol_associative.go
+++ b/protocols/protocol_associative.go
@@ -179,7 +179,7 @@ func (self DefaultAssociative) Associative(scope types.Scope, a types.Any, b typ
 
 		// Handle string especially
 		switch a_value.Type().Kind() {
-		case reflect.String, reflect.Slice:
+		case reflect.String, reflect.Slice, reflect.Array:
 		default:
 			return &types.Null{}, false
 		}
@@ -223,7 +223,8 @@ func (self DefaultAssociative) Associative(scope types.Scope, a types.Any, b typ
 			return value[int(start_range):int(end_range)], true
 		}
 
-		if a_value.Type().Kind() == reflect.Slice {
+		switch a_value.Type().Kind() {
+		case reflect.Slice, reflect.Array:
 			array_length := int64(a_value.Len())
 			start_range, end_range := getRanges(field_name, array_length)
 			if end_range <= start_range {
@@ -284,7 +285,7 @@ func (self DefaultAssociative) Associative(scope types.Scope, a types.Any, b typ
 		}
 
 		// An array - we call Associative on each member.
-		if a_type.Kind() == reflect.Slice {
+		if a_type.Kind() == reflect.Slice || a_type.Kind() == reflect.Array {
 			result := []types.Any{}
 
 			for i := 0; i < a_value.Len(); i++ {
@@ -348,7 +349,7 @@ func (self DefaultAssociative) GetMembers(scope types.Scope, a types.Any) []stri
 	// output of a query in the scope environment and then
 	// selecting from it, in which case the value is a
 	// list of Rows, each row has a Dict.
-	if a_value.Type().Kind() == reflect.Slice {
+	if is_array(a) {
 		for i := 0; i < a_value.Len(); i++ {
 			return scope.GetMembers(a_value.Index(i).Interface())
 		}
diff --git a/protocols/protocol_iterate.go b/protocols/protocol_iterate.go
index 5f79041..30f3f37 100644
--- a/protocols/protocol_iterate.go
+++ b/protocols/protocol_iterate.go
@@ -96,7 +96,7 @@ func _SliceIterator(ctx context.Context, scope types.Scope, a types.Any) <-chan
 		defer close(output_chan)
 
 		a_value := reflect.Indirect(reflect.ValueOf(a))
-		if a_value.Type().Kind() == reflect.Slice {
+		if is_array(a) {
 			for i := 0; i < a_value.Len(); i++ {
 				value := a_value.Index(i).Interface()
 				if types.IsNil(value) {
-- 
2.43.0


From 3881112c565655df1f9695d80a6febcccda336a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:09 +0000
Subject: [PATCH 41/73] fix: equality of times which nanoseconds can not
 represent

---
 protocols/protocol_eq.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/protocols/protocol_eq.go b/protocols/protocol_eq.go
index a1a411a..3f0d668 100644
--- a/protocols/protocol_eq.go
+++ b/protocols/protocol_eq.go
@@ -54,13 +54,13 @@ func (self EqDispatcher) Eq(scope types.Scope, a types.Any, b types.Any) bool {
 	case time.Time:
 		rhs, ok := toTime(b)
 		if ok {
-			return t.UnixNano() == rhs.UnixNano()
+			return t.Equal(*rhs)
 		}
 
 	case *time.Time:
 		rhs, ok := toTime(b)
 		if ok {
-			return t.UnixNano() == rhs.UnixNano()
+			return t.Equal(*rhs)
 		}
 	}
 
@@ -68,7 +68,7 @@ func (self EqDispatcher) Eq(scope types.Scope, a types.Any, b types.Any) bool {
 		lhs, ok := toTime(a)
 		if ok {
 			rhs, _ := toTime(b)
-			return lhs.UnixNano() == rhs.UnixNano()
+			return lhs.Equal(*rhs)
 		}
 	}
 
-- 
2.43.0


From 64e85711706540d1191e16adc4775c214c028ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:31 +0000
Subject: [PATCH 42/73] fix: a nil in a list is NULL

---
 protocols/protocol_associative.go | 10 ++++++----
 vfilter.go                        |  2 +-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/protocols/protocol_associative.go b/protocols/protocol_associative.go
index 43d218b..75cf876 100644
--- a/protocols/protocol_associative.go
+++ b/protocols/protocol_associative.go
@@ -192,15 +192,17 @@ func (self DefaultAssociative) Associative(scope types.Scope, a types.Any, b typ
 		}
 
 		// Index out of bounds - return NULL
-		if idx < 0 || idx > array_length {
+		if idx < 0 || idx >= array_length {
 			return &types.Null{}, false
 		}
 
-		value := a_value.Index(int(idx))
-		if value.Kind() == reflect.Ptr && value.IsNil() {
+		// Do not let naked nils to be retrieved from a list, instead
+		// return Null{}
+		value := a_value.Index(int(idx)).Interface()
+		if types.IsNil(value) {
 			return &types.Null{}, true
 		}
-		return value.Interface(), true
+		return value, true
 	}
 
 	switch field_name := b.(type) {
diff --git a/vfilter.go b/vfilter.go
index 52fd425..ee91926 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -1430,7 +1430,7 @@ func (self *_CommaExpression) IsAggregate(scope types.Scope) bool {
 func (self *_CommaExpression) Reduce(ctx context.Context, scope types.Scope) Any {
 	lhs := self.Left.Reduce(ctx, scope)
 	if lhs == nil {
-		return Null{}
+		lhs = Null{}
 	}
 
 	// Where there is no comma we return the actual element and
-- 
2.43.0


From f2e5e118812b40701baaa234582a02ce273536f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:35 +0000
Subject: [PATCH 43/73] fix: a destructor added while its scope is being closed
 may be lost

---
 scope/scope.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/scope/scope.go b/scope/scope.go
index 919f183..55ff73f 100644
--- a/scope/scope.go
+++ b/scope/scope.go
@@ -49,17 +49,30 @@ func (self *_destructors) IsDestroyed() bool {
 	return self.is_destroyed
 }
 
-func (self *_destructors) AddDestructor(fn func()) {
+// Returns false if the destructor can not be added any more.
+func (self *_destructors) AddDestructor(fn func()) bool {
 	self.mu.Lock()
 	defer self.mu.Unlock()
 
+	if self.is_destroyed {
+		return false
+	}
 	self.fn = append(self.fn, fn)
+	return true
 }
 
+// Remove all the destructors so they can be called. When there are none
+// left no more can be added - otherwise a destructor which is added
+// concurrently may be lost.
 func (self *_destructors) RemoveDestructors() []func() {
 	self.mu.Lock()
 	defer self.mu.Unlock()
 
+	if len(self.fn) == 0 {
+		self.is_destroyed = true
+		return nil
+	}
+
 	result := append(self.fn[:0:0], self.fn...)
 	self.fn = nil
 	return result
@@ -467,16 +480,14 @@ func (self *Scope) AddDestructor(fn func()) error {
 	defer self.Unlock()
 
 	// Scope is already destroyed - call the destructor now.
-	if self.destructors.IsDestroyed() {
+	if !self.destructors.AddDestructor(fn) {
 		_, file, line, ok := runtime.Caller(1)
 		if ok {
 			self.Log("Scope already closed when adding destructor %v:%d", file, line)
 		}
 		return errors.New("Scope already closed")
-	} else {
-		self.destructors.AddDestructor(fn)
-		return nil
 	}
+	return nil
 }
 
 func (self *Scope) IsClosed() bool {
-- 
2.43.0


From 65d9394b09961a2ac6595002ac6c53cdbf0c106e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:38 +0000
Subject: [PATCH 44/73] fix: the scope of a stored query with arguments is
 closed too early

---
 stored.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/stored.go b/stored.go
index 8ac8c51..b61341a 100644
--- a/stored.go
+++ b/stored.go
@@ -98,7 +98,6 @@ func (self *_StoredQuery) Call(ctx context.Context,
 	// functions inside the stored query start fresh.
 	sub_scope := scope.Copy()
 	sub_scope.SetAggregatorCtx(nil)
-	defer sub_scope.Close()
 
 	self.checkCallingArgs(sub_scope, args)
 
@@ -120,7 +119,25 @@ func (self *_StoredQuery) Call(ctx context.Context,
 	}
 
 	sub_scope.AppendVars(vars)
-	return self.Eval(ctx, sub_scope)
+
+	output_chan := make(chan Row)
+
+	go func() {
+		defer close(output_chan)
+
+		// The scope must stay open until the query is done with it.
+		defer sub_scope.Close()
+
+		for row := range self.query.Eval(ctx, sub_scope) {
+			select {
+			case <-ctx.Done():
+				return
+
+			case output_chan <- row:
+			}
+		}
+	}()
+	return output_chan
 }
 
 func (self *_StoredQuery) checkCallingArgs(scope types.Scope, args *ordereddict.Dict) {
-- 
2.43.0


From 57619f6bd8f352b2c0fbed37e0b01db1bb896e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:47 +0000
Subject: [PATCH 45/73] fix: a nil pointer to a number or string is not a
 number or string

---
 utils/utils.go | 103 ++++++++++++++++++++++++++++++++++---------------
 1 file changed, 72 insertions(+), 31 deletions(-)

diff --git a/utils/utils.go b/utils/utils.go
index 327d6ee..a7b5fa9 100644
--- a/utils/utils.go
+++ b/utils/utils.go
@@ -74,12 +74,13 @@ func ToString(x interface{}) (string, bool) {
 	case string:
 		return t, true
 	case *string:
-		return *t, true
+		if t != nil {
+			return *t, true
+		}
 	case []byte:
 		return string(t), true
-	default:
-		return "", false
 	}
+	return "", false
 }
 
 func ToFloat(x interface{}) (float64, bool) {
@@ -117,33 +118,53 @@ func ToFloat(x interface{}) (float64, bool) {
 	case int64:
 		return float64(t), true
 	case *float64:
-		return *t, true
+		if t != nil {
+			return *t, true
+		}
 	case *int:
-		return float64(*t), true
+		if t != nil {
+			return float64(*t), true
+		}
 	case *uint:
-		return float64(*t), true
+		if t != nil {
+			return float64(*t), true
+		}
 
 	case *int8:
-		return float64(*t), true
+		if t != nil {
+			return float64(*t), true
+		}
 	case *int16:
-		return float64(*t), true
+		if t != nil {
+			return float64(*t), true
+		}
 	case *uint8:
-		return float64(*t), true
+		if t != nil {
+			return float64(*t), true
+		}
 	case *uint16:
-		return float64(*t), true
+		if t != nil {
+			return float64(*t), true
+		}
 
 	case *uint32:
-		return float64(*t), true
+		if t != nil {
+			return float64(*t), true
+		}
 	case *int32:
-		return float64(*t), true
+		if t != nil {
+			return float64(*t), true
+		}
 	case *uint64:
-		return float64(*t), true
+		if t != nil {
+			return float64(*t), true
+		}
 	case *int64:
-		return float64(*t), true
-
-	default:
-		return 0, false
+		if t != nil {
+			return float64(*t), true
+		}
 	}
+	return 0, false
 }
 
 // Does x resemble a int?
@@ -191,29 +212,49 @@ func ToInt64(x interface{}) (int64, bool) {
 		return int64(t), true
 
 	case *int:
-		return int64(*t), true
+		if t != nil {
+			return int64(*t), true
+		}
 	case *uint:
-		return int64(*t), true
+		if t != nil {
+			return int64(*t), true
+		}
 	case *uint8:
-		return int64(*t), true
+		if t != nil {
+			return int64(*t), true
+		}
 	case *int8:
-		return int64(*t), true
+		if t != nil {
+			return int64(*t), true
+		}
 	case *uint16:
-		return int64(*t), true
+		if t != nil {
+			return int64(*t), true
+		}
 	case *int16:
-		return int64(*t), true
+		if t != nil {
+			return int64(*t), true
+		}
 	case *uint32:
-		return int64(*t), true
+		if t != nil {
+			return int64(*t), true
+		}
 	case *int32:
-		return int64(*t), true
+		if t != nil {
+			return int64(*t), true
+		}
 	case *uint64:
-		return int64(*t), true
+		if t != nil {
+			return int64(*t), true
+		}
 	case *int64:
-		return int64(*t), true
+		if t != nil {
+			return int64(*t), true
+		}
 	case *float64:
-		return int64(*t), true
-
-	default:
-		return 0, false
+		if t != nil {
+			return int64(*t), true
+		}
 	}
+	return 0, false
 }
-- 
2.43.0


From c8e4eb22ec54d88eb6e2ead21cf78611462c4462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:52 +0000
Subject: [PATCH 46/73] fix: a nil callable or string pointer in a row stands
 for NULL

---
 lazy.go            | 5 ++++-
 types/string.go    | 6 ++++++
 utils/dict/dict.go | 3 +++
 3 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/lazy.go b/lazy.go
index 98d3fc8..1e641ea 100644
--- a/lazy.go
+++ b/lazy.go
@@ -171,7 +171,10 @@ func (self *LazyExprImpl) ReduceWithScope(
 		result = t
 
 	case func() types.Any:
-		result = t()
+		result = &Null{}
+		if t != nil {
+			result = t()
+		}
 
 	case types.LazyExpr:
 		result = t.Reduce(ctx)
diff --git a/types/string.go b/types/string.go
index 602ba94..c2689e7 100644
--- a/types/string.go
+++ b/types/string.go
@@ -30,6 +30,9 @@ func ToString(ctx context.Context,
 		// A dict may expose a callable as a member - we just
 		// call it lazily if it is here.
 	case func() Any:
+		if t == nil {
+			return ToString(ctx, scope, Null{})
+		}
 		return ToString(ctx, scope, t())
 
 	case StringProtocol:
@@ -39,6 +42,9 @@ func ToString(ctx context.Context,
 		return t
 
 	case *string:
+		if t == nil {
+			return ToString(ctx, scope, Null{})
+		}
 		return *t
 
 	case []byte:
diff --git a/utils/dict/dict.go b/utils/dict/dict.go
index 9f6c03b..1032e4c 100644
--- a/utils/dict/dict.go
+++ b/utils/dict/dict.go
@@ -71,6 +71,9 @@ func normalize_value(ctx context.Context,
 		// A dict may expose a callable as a member - we just
 		// call it lazily if it is here.
 	case func() types.Any:
+		if t == nil {
+			return types.Null{}
+		}
 		return normalize_value(ctx, scope, t(), depth+1)
 
 	case types.Materializer:
-- 
2.43.0


From e541d77a66a69a9e85011e49a9a70ad30e8a9471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:40 +0000
Subject: [PATCH 47/73] fix: a nil dict in a row or list crashes the query

---
 functions/functions.go            | 4 ++++
 plugins/flatten.go                | 2 +-
 protocols/ordereddict.go          | 2 +-
 protocols/protocol_associative.go | 3 +++
 types/string.go                   | 3 +++
 5 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/functions/functions.go b/functions/functions.go
index 951e48b..b002180 100644
--- a/functions/functions.go
+++ b/functions/functions.go
@@ -247,6 +247,10 @@ func (self LenFunction) Call(ctx context.Context,
 		return &types.Null{}
 	}
 
+	if types.IsNil(arg.List) {
+		return 0
+	}
+
 	slice := reflect.ValueOf(arg.List)
 	// A slice of strings. Only the following are supported
 	// https://golang.org/pkg/reflect/#Value.Len
diff --git a/plugins/flatten.go b/plugins/flatten.go
index 5d6b43a..da01f57 100644
--- a/plugins/flatten.go
+++ b/plugins/flatten.go
@@ -55,7 +55,7 @@ func (self _FlattenPluginImpl) Call(ctx context.Context,
 
 func makeDict(scope types.Scope, item types.Any) *ordereddict.Dict {
 	result_dict, ok := item.(*ordereddict.Dict)
-	if ok {
+	if ok && result_dict != nil {
 		return result_dict
 	}
 
diff --git a/protocols/ordereddict.go b/protocols/ordereddict.go
index 00773ec..6e24266 100644
--- a/protocols/ordereddict.go
+++ b/protocols/ordereddict.go
@@ -40,7 +40,7 @@ func to_dict(a types.Any) (*ordereddict.Dict, bool) {
 	case ordereddict.Dict:
 		return &t, true
 	case *ordereddict.Dict:
-		return t, true
+		return t, t != nil
 	default:
 		return nil, false
 	}
diff --git a/protocols/protocol_associative.go b/protocols/protocol_associative.go
index 75cf876..376af08 100644
--- a/protocols/protocol_associative.go
+++ b/protocols/protocol_associative.go
@@ -129,6 +129,9 @@ func (self *AssociativeDispatcher) GetMembers(
 		return t.Columns()
 
 	case *ordereddict.Dict:
+		if t == nil {
+			return []string{}
+		}
 		return t.Keys()
 
 	case types.Null, *types.Null, nil:
diff --git a/types/string.go b/types/string.go
index c2689e7..44cabf0 100644
--- a/types/string.go
+++ b/types/string.go
@@ -14,6 +14,9 @@ func ToString(ctx context.Context,
 	scope Scope, x interface{}) string {
 	switch t := x.(type) {
 	case fmt.Stringer:
+		if IsNil(t) {
+			return Null{}.String()
+		}
 		return t.String()
 
 		// Reduce any LazyExpr to materialized types
-- 
2.43.0


From cdaaf65d016b42939354d53a70f389259deccacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:58 +0000
Subject: [PATCH 48/73] fix: reporting a stack overflow may overflow the stack
 again

---
 scope/scope.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/scope/scope.go b/scope/scope.go
index 55ff73f..810963d 100644
--- a/scope/scope.go
+++ b/scope/scope.go
@@ -270,10 +270,22 @@ func (self *Scope) CheckForOverflow() bool {
 		return false
 	}
 
-	// Log the query for overflow
-	query, _ := self._ResolveVars("$Query", vars)
-	self.Log("Stack Overflow: %v", query)
+	// Log the query for overflow. Do not look inside rows which may
+	// need to evaluate something as this can overflow again.
+	for i := len(vars) - 1; i >= 0; i-- {
+		row, ok := vars[i].(*ordereddict.Dict)
+		if !ok || row == nil {
+			continue
+		}
+
+		query, pres := row.Get("$Query")
+		if pres {
+			self.Log("Stack Overflow: %v", query)
+			return true
+		}
+	}
 
+	self.Log("Stack Overflow")
 	return true
 }
 
-- 
2.43.0


From b40585d73b5b85beff65f0b7e5566a89c61dce8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:17 +0000
Subject: [PATCH 49/73] fix: a stored query called without arguments in an
 expression gives NULL

---
 vfilter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vfilter.go b/vfilter.go
index ee91926..dc8838c 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -1882,7 +1882,7 @@ func (self *_SymbolRef) Reduce(ctx context.Context, scope types.Scope) Any {
 			// we materialize the plugin at this
 			// point. Otherwise pass the stored query
 			// through.
-			if self.Parameters != nil {
+			if self.Called {
 
 				// When running a stored query as a function we need
 				// to use a brand new scope with its own aggregator
-- 
2.43.0


From 65ef63816a396796d7af23fe3320beba5f05c1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:50 +0000
Subject: [PATCH 50/73] fix: a query in a row which looks up names in the row
 overflows the stack

---
 protocols/protocol_associative.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/protocols/protocol_associative.go b/protocols/protocol_associative.go
index 376af08..945314f 100644
--- a/protocols/protocol_associative.go
+++ b/protocols/protocol_associative.go
@@ -67,8 +67,11 @@ func (self *AssociativeDispatcher) Associative(
 			// Dereferencing a stored query expands all
 			// fields and extracts a single column
 		case types.StoredQuery:
+			sub_scope := scope.Copy()
+			defer sub_scope.Close()
+
 			result := []types.Row{}
-			for row := range t.Eval(ctx, scope) {
+			for row := range t.Eval(ctx, sub_scope) {
 				field, pres := scope.Associative(row, b_str)
 				if pres {
 					result = append(result, field)
-- 
2.43.0


From c64827af43e9f65b25df35c1a53890df318c75fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:34 +0000
Subject: [PATCH 51/73] fix: recursion in the default value of a parameter
 overflows the stack

---
 vfilter.go | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/vfilter.go b/vfilter.go
index dc8838c..72c1fec 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -1289,7 +1289,10 @@ func (self *Plugin) evalSymbolWithArgs(
 		defer subscope.Close()
 
 		args := buildArgsFromParameters(ctx, scope, self.Args)
-		types.MaybeApplyDefaultArgs(t, ctx, scope, args)
+
+		// The defaults may recurse so they need the stack depth of
+		// the subscope.
+		types.MaybeApplyDefaultArgs(t, ctx, subscope, args)
 
 		subscope.AppendVars(args)
 		return self.evalSymbol(ctx, scope, t.Reduce(ctx, subscope), name)
@@ -1857,20 +1860,21 @@ func (self *_SymbolRef) Reduce(ctx context.Context, scope types.Scope) Any {
 		// it.
 		case *StoredExpression:
 			subscope := scope.Copy()
-
-			// Only create a new context for called functions.
-			if self.Called {
-				subscope.SetAggregatorCtx(nil)
-			}
 			defer subscope.Close()
 
 			if subscope.CheckForOverflow() {
 				return &Null{}
 			}
 
+			// The defaults may recurse so they need the stack depth
+			// of the subscope.
 			args := self.buildArgsFromParameters(ctx, scope)
-			types.MaybeApplyDefaultArgs(t, ctx, scope, args)
+			types.MaybeApplyDefaultArgs(t, ctx, subscope, args)
 
+			// Only create a new context for called functions.
+			if self.Called {
+				subscope.SetAggregatorCtx(nil)
+			}
 			subscope.AppendVars(args)
 
 			scope.GetStats().IncFunctionsCalled()
@@ -1889,8 +1893,6 @@ func (self *_SymbolRef) Reduce(ctx context.Context, scope types.Scope) Any {
 				// context to make sure that aggregate functions
 				// inside the stored query start fresh.
 				subscope := scope.Copy()
-				subscope.SetAggregatorCtx(nil)
-
 				defer subscope.Close()
 
 				if subscope.CheckForOverflow() {
@@ -1898,8 +1900,9 @@ func (self *_SymbolRef) Reduce(ctx context.Context, scope types.Scope) Any {
 				}
 
 				vars := self.buildArgsFromParameters(ctx, scope)
-				types.MaybeApplyDefaultArgs(t, ctx, scope, vars)
+				types.MaybeApplyDefaultArgs(t, ctx, subscope, vars)
 
+				subscope.SetAggregatorCtx(nil)
 				subscope.AppendVars(vars)
 
 				scope.GetStats().IncFunctionsCalled()
-- 
2.43.0


From bd466d263d4b727838756e4281e99d70e978c00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:05 +0000
Subject: [PATCH 52/73] fix: a query as the default of a quoted parameter is
 lost

---
 stored.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stored.go b/stored.go
index b61341a..d318a88 100644
--- a/stored.go
+++ b/stored.go
@@ -214,7 +214,7 @@ func applyDefaults(ctx context.Context, scope types.Scope,
 			if arg.Right != nil {
 				args.Set(name, arg.Right.Reduce(ctx, scope))
 			} else if arg.SubSelect != nil {
-				args.Set(arg.Left, arg.SubSelect)
+				args.Set(name, arg.SubSelect)
 			} else if arg.Array != nil {
 				args.Set(name, arg.Array.Reduce(ctx, scope))
 			} else if arg.ArrayOpenBrace != "" {
-- 
2.43.0


From ad552430a8ec97e23d1c255eb6884dce26ec7682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:53 +0000
Subject: [PATCH 53/73] fix: a stored query as the WHERE condition does not see
 the row

---
 vfilter.go       | 2 +-
 vfilter_group.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/vfilter.go b/vfilter.go
index 72c1fec..41b3c6f 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -769,7 +769,7 @@ func (self *_Select) processSingleRow(
 
 		// If the filtered expression returns a bool true,
 		// then pass the row to the output.
-		if expression != nil && scope.Bool(expression) {
+		if expression != nil && new_scope.Bool(expression) {
 			materialized_row := MaterializedLazyRow(
 				ctx, transformed_row, new_scope)
 			select {
diff --git a/vfilter_group.go b/vfilter_group.go
index f5da7a8..ea6af2a 100644
--- a/vfilter_group.go
+++ b/vfilter_group.go
@@ -55,7 +55,7 @@ func (self *GroupbyActor) GetNextRow(ctx context.Context, scope types.Scope) (
 
 			// If the filtered expression returns a bool false, then
 			// skip the row.
-			if expression == nil || !scope.Bool(expression) {
+			if expression == nil || !new_scope.Bool(expression) {
 				new_scope.Trace("During Groupby: Row rejected")
 
 				// Prepare the next row
-- 
2.43.0


From 5fb8b66cd466f48bd4046f9fd08c0d53a32cee6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:16 +0000
Subject: [PATCH 54/73] fix: unknown names are NULL instead of unknown in WHERE

---
 lazy.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lazy.go b/lazy.go
index 1e641ea..0306026 100644
--- a/lazy.go
+++ b/lazy.go
@@ -77,7 +77,8 @@ func (self *LazyRowImpl) Get(key string) (types.Any, bool) {
 	// Not in cache, we need to get it.
 	getter, pres := self.getters[key]
 	if !pres {
-		return Null{}, false
+		// Not a default value: the row does not know this column.
+		return nil, false
 	}
 
 	res = getter(self.ctx, self.scope)
-- 
2.43.0


From 28a5609ec9dc91b0c7d8a7c0567c1747373ff47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:26 +0000
Subject: [PATCH 55/73] fix: a row of a type without members makes unknown
 names NULL

---
 protocols/lazy_wrapper.go         | 4 ++--
 protocols/protocol_associative.go | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/protocols/lazy_wrapper.go b/protocols/lazy_wrapper.go
index 59f2c1b..cc03516 100644
--- a/protocols/lazy_wrapper.go
+++ b/protocols/lazy_wrapper.go
@@ -55,7 +55,7 @@ func (self LazyWrapper) Associative(scope types.Scope, a types.Any, b types.Any)
 	switch field_name := b.(type) {
 	case string:
 		if !self.InAttributes(field_name) {
-			return &types.Null{}, false
+			return nil, false
 		}
 
 		field_value := a_value.FieldByName(field_name)
@@ -95,7 +95,7 @@ func (self LazyWrapper) Associative(scope types.Scope, a types.Any, b types.Any)
 
 		}
 	}
-	return &types.Null{}, false
+	return nil, false
 }
 
 func NewLazyStructWrapper(
diff --git a/protocols/protocol_associative.go b/protocols/protocol_associative.go
index 945314f..37cb071 100644
--- a/protocols/protocol_associative.go
+++ b/protocols/protocol_associative.go
@@ -187,7 +187,7 @@ func (self DefaultAssociative) Associative(scope types.Scope, a types.Any, b typ
 		switch a_value.Type().Kind() {
 		case reflect.String, reflect.Slice, reflect.Array:
 		default:
-			return &types.Null{}, false
+			return nil, false
 		}
 
 		array_length := int64(a_value.Len())
@@ -199,7 +199,7 @@ func (self DefaultAssociative) Associative(scope types.Scope, a types.Any, b typ
 
 		// Index out of bounds - return NULL
 		if idx < 0 || idx >= array_length {
-			return &types.Null{}, false
+			return nil, false
 		}
 
 		// Do not let naked nils to be retrieved from a list, instead
@@ -307,7 +307,7 @@ func (self DefaultAssociative) Associative(scope types.Scope, a types.Any, b typ
 		}
 	}
 
-	return &types.Null{}, false
+	return nil, false
 }
 
 func FieldMatchName(
-- 
2.43.0


From b0513751dfce3e2dea69e68bdb2cf1535383f510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:43 +0000
Subject: [PATCH 56/73] fix: materializing a query of more than 10,000 rows
 never ends

---
 types/stored_query.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/types/stored_query.go b/types/stored_query.go
index 05eb12c..07312c6 100644
--- a/types/stored_query.go
+++ b/types/stored_query.go
@@ -2,6 +2,7 @@ package types
 
 import (
 	"context"
+	"fmt"
 )
 
 // A plugin like object which takes no arguments but may be inserted
@@ -23,8 +24,13 @@ func Materialize(ctx context.Context, scope Scope, stored_query StoredQuery) []R
 		result = append(result, item)
 
 		if !warned && len(result) > 10000 {
+			// Describe the query without evaluating it again.
+			name := ""
+			if t, ok := stored_query.(fmt.GoStringer); ok {
+				name = t.GoString()
+			}
 			scope.Log("WARN:During Materialize of StoredQuery %s: Expand larger than 10,000 rows!",
-				ToString(ctx, scope, stored_query))
+				name)
 			warned = true
 		}
 	}
-- 
2.43.0


From 9dbfd3c1d25f9b42e139442f406f94ea93b38a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:01 +0000
Subject: [PATCH 57/73] fix: a query given for a string or list argument is
 replaced by its address

---
 arg_parser/parser.go | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/arg_parser/parser.go b/arg_parser/parser.go
index ca68d3f..cfa4784 100644
--- a/arg_parser/parser.go
+++ b/arg_parser/parser.go
@@ -179,13 +179,28 @@ func lazyAnyParser(ctx context.Context, scope types.Scope,
 	args *ordereddict.Dict, arg interface{}) (interface{}, error) {
 	return arg, nil
 }
-func sliceParser(ctx context.Context, scope types.Scope,
-	args *ordereddict.Dict, arg interface{}) (interface{}, error) {
+
+// Reduce an arg to a plain value: A query is expanded to its rows.
+func reduceArg(ctx context.Context, scope types.Scope, arg interface{}) interface{} {
 	lazy_arg, ok := arg.(types.LazyExpr)
 	if ok {
 		arg = lazy_arg.Reduce(ctx)
 	}
 
+	switch t := arg.(type) {
+	case types.Materializer:
+		return t.Materialize(ctx, scope)
+
+	case types.StoredQuery:
+		return types.Materialize(ctx, scope, t)
+	}
+	return arg
+}
+
+func sliceParser(ctx context.Context, scope types.Scope,
+	args *ordereddict.Dict, arg interface{}) (interface{}, error) {
+	arg = reduceArg(ctx, scope, arg)
+
 	new_value, pres := _ExtractStringArray(ctx, scope, arg)
 	if pres {
 		return new_value, nil
@@ -195,10 +210,7 @@ func sliceParser(ctx context.Context, scope types.Scope,
 
 func sliceAnyParser(ctx context.Context, scope types.Scope,
 	args *ordereddict.Dict, arg interface{}) (interface{}, error) {
-	lazy_arg, ok := arg.(types.LazyExpr)
-	if ok {
-		arg = lazy_arg.Reduce(ctx)
-	}
+	arg = reduceArg(ctx, scope, arg)
 
 	new_value, pres := _ExtractAnyArray(ctx, scope, arg)
 	if pres {
@@ -209,10 +221,7 @@ func sliceAnyParser(ctx context.Context, scope types.Scope,
 
 func sliceDictParser(ctx context.Context, scope types.Scope,
 	args *ordereddict.Dict, arg interface{}) (interface{}, error) {
-	lazy_arg, ok := arg.(types.LazyExpr)
-	if ok {
-		arg = lazy_arg.Reduce(ctx)
-	}
+	arg = reduceArg(ctx, scope, arg)
 
 	new_value, pres := _ExtractAnyArray(ctx, scope, arg)
 	if !pres {
@@ -232,10 +241,7 @@ func sliceDictParser(ctx context.Context, scope types.Scope,
 
 func stringParser(ctx context.Context, scope types.Scope,
 	args *ordereddict.Dict, arg interface{}) (interface{}, error) {
-	lazy_arg, ok := arg.(types.LazyExpr)
-	if ok {
-		arg = lazy_arg.Reduce(ctx)
-	}
+	arg = reduceArg(ctx, scope, arg)
 
 	// If we expect a string and we get an array
 	// of length 1 of strings, we just take the
-- 
2.43.0


From eacf1c779242a72229e15c80cfb10f4d77eaa81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:50 +0000
Subject: [PATCH 58/73] fix: len, format and encode of a query do not see its
 rows

---
 functions/format.go    |  1 +
 functions/functions.go | 14 +++++++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/functions/format.go b/functions/format.go
index 55bf718..87268b7 100644
--- a/functions/format.go
+++ b/functions/format.go
@@ -30,6 +30,7 @@ func (self FormatFunction) Call(ctx context.Context,
 
 	var format_args []interface{}
 
+	arg.Args = expandQuery(ctx, scope, arg.Args)
 	if arg.Args != nil {
 		slice := reflect.ValueOf(arg.Args)
 
diff --git a/functions/functions.go b/functions/functions.go
index b002180..3d167cd 100644
--- a/functions/functions.go
+++ b/functions/functions.go
@@ -191,7 +191,7 @@ func (self _EncodeFunction) Call(
 	}
 
 	var arg_string string
-	switch t := arg.String.(type) {
+	switch t := expandQuery(ctx, scope, arg.String).(type) {
 	case string:
 		arg_string = t
 
@@ -247,6 +247,7 @@ func (self LenFunction) Call(ctx context.Context,
 		return &types.Null{}
 	}
 
+	arg.List = expandQuery(ctx, scope, arg.List)
 	if types.IsNil(arg.List) {
 		return 0
 	}
@@ -277,6 +278,17 @@ func (self LenFunction) Info(scope types.Scope, type_map *types.TypeMap) *types.
 	}
 }
 
+// An arg which accepts any value may also receive a query: Expand it
+// to its rows.
+func expandQuery(ctx context.Context,
+	scope types.Scope, value types.Any) types.Any {
+	query, ok := value.(types.StoredQuery)
+	if ok {
+		return types.Materialize(ctx, scope, query)
+	}
+	return value
+}
+
 func Materialize(ctx context.Context,
 	scope types.Scope, stored_query types.StoredQuery) []types.Row {
 	result := []types.Row{}
-- 
2.43.0


From 5e6ca79757b3494fb09ae7ad7b5a78552b0e836c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:13 +0000
Subject: [PATCH 59/73] fix: arguments of float32 and named types panic when
 they are set

---
 arg_parser/parser.go | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/arg_parser/parser.go b/arg_parser/parser.go
index cfa4784..f447c83 100644
--- a/arg_parser/parser.go
+++ b/arg_parser/parser.go
@@ -76,11 +76,7 @@ func (self *Parser) Parse(
 		}
 
 		// Now set the field on the struct.
-		field_value := target.Field(parser.FieldIdx)
-		if new_value == nil {
-			new_value = types.Null{}
-		}
-		field_value.Set(reflect.ValueOf(new_value))
+		setField(target.Field(parser.FieldIdx), new_value)
 	}
 
 	// Something is wrong! We did not extract all the fields from
@@ -97,6 +93,32 @@ func (self *Parser) Parse(
 	return nil
 }
 
+// Set the field on the struct. The parsers produce the basic types so
+// we need to convert to the type of the field (e.g. float32, or types
+// derived from the basic types).
+func setField(field reflect.Value, value interface{}) {
+	if value == nil {
+		value = types.Null{}
+	}
+
+	v := reflect.ValueOf(value)
+	t := field.Type()
+	switch {
+	case v.Type().AssignableTo(t):
+
+	case v.Kind() == reflect.Slice && t.Kind() == reflect.Slice:
+		converted := reflect.MakeSlice(t, v.Len(), v.Len())
+		for i := 0; i < v.Len(); i++ {
+			converted.Index(i).Set(v.Index(i).Convert(t.Elem()))
+		}
+		v = converted
+
+	default:
+		v = v.Convert(t)
+	}
+	field.Set(v)
+}
+
 // Parses the args as free form args:
 // * Extract known fields into the target struct.
 // * Other fields will be returns as the kwargs dict.
@@ -124,11 +146,7 @@ func (self *Parser) ParseAsFreeForm(
 		}
 
 		// Now set the field on the struct.
-		field_value := target.Field(parser.FieldIdx)
-		if new_value == nil {
-			new_value = types.Null{}
-		}
-		field_value.Set(reflect.ValueOf(new_value))
+		setField(target.Field(parser.FieldIdx), new_value)
 	}
 
 	// Remaining fields are collected into the kwargs
-- 
2.43.0


From f2e67a86cd8f168cf808e781be2cb7acd1ea53ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 60/73] fix: workers which call a function for the first time
 may lose its state

---
 vfilter.go | 28 +++++++---------------------
 1 file changed, 7 insertions(+), 21 deletions(-)

diff --git a/vfilter.go b/vfilter.go
index 41b3c6f..03ba220 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -1985,8 +1985,14 @@ func (self *_SymbolRef) callFunction(
 	ctx context.Context, scope types.Scope,
 	func_obj FunctionInterface) Any {
 
+	// If this AST node previously called a function, we use the
+	// same function copy to ensure it may store internal state. Each
+	// reference in the AST is unique, so it has exactly one copy.
 	self.mu.Lock()
 	parameters := self.Parameters
+	if self.function == nil {
+		self.function = CopyFunction(func_obj)
+	}
 	function := self.function
 	self.mu.Unlock()
 
@@ -2010,30 +2016,10 @@ func (self *_SymbolRef) callFunction(
 		}
 	}
 
-	// If this AST node previously called a function, we use the
-	// same function copy to ensure it may store internal state.
-	if function != nil {
-		scope.GetStats().IncFunctionsCalled()
-		result := function.Call(ctx, scope, args)
-		if result == nil {
-			return &Null{}
-		}
-		return result
-	}
-
-	// Make a copy of the function and cache it for next time -
-	// this allows the function to store state since each
-	// reference in the AST is unique.
-	func_obj = CopyFunction(func_obj)
-
-	self.mu.Lock()
-	self.function = func_obj
-	self.mu.Unlock()
-
 	// Call the function now.
 	scope.GetStats().IncFunctionsCalled()
 
-	result := func_obj.Call(ctx, scope, args)
+	result := function.Call(ctx, scope, args)
 
 	// Do not allow nil in VQL since it is not compatible with
 	// reflect package. The VQL plugin might accidentally pass nil
-- 
2.43.0


From 9db9ece1a46c6e2931a7ac4df9c3ede8851649e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:07 +0000
Subject: [PATCH 61/73] fix: evaluating a query in two goroutines is a data
 race

---
 visitor.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/visitor.go b/visitor.go
index 0491534..f156db8 100644
--- a/visitor.go
+++ b/visitor.go
@@ -1027,7 +1027,9 @@ func (self *Visitor) visitSelectExpression(node *_SelectExpression) {
 	}
 
 	for idx, item := range node.Expressions {
+		item.mu.Lock()
 		item.pos = idx
+		item.mu.Unlock()
 
 		self.Visit(item)
 		// No trailing , in the last element.
-- 
2.43.0


From f20164be98f547b0f9d541a0e4c4e87e3eb5dda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:07 +0000
Subject: [PATCH 62/73] fix: restored lists and query results have no members

---
 marshal/unmarshal.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/marshal/unmarshal.go b/marshal/unmarshal.go
index 974b25c..db23bed 100644
--- a/marshal/unmarshal.go
+++ b/marshal/unmarshal.go
@@ -4,6 +4,7 @@ import (
 	"encoding/json"
 	"errors"
 
+	"github.com/Velocidex/ordereddict"
 	"www.velocidex.com/golang/vfilter/types"
 )
 
@@ -21,9 +22,7 @@ func (self *Unmarshaller) Unmarshal(
 	scope types.Scope, item *types.MarshalItem) (interface{}, error) {
 	switch item.Type {
 	case "JSON":
-		var value interface{}
-		err := json.Unmarshal(item.Data, &value)
-		return value, err
+		return decodeJSON(item.Data)
 
 	default:
 		handler, pres := self.Handlers[item.Type]
@@ -35,6 +34,24 @@ func (self *Unmarshaller) Unmarshal(
 	}
 }
 
+// Decode into the types VQL works with: ordered dicts instead of maps,
+// and integers instead of floats where possible.
+func decodeJSON(data json.RawMessage) (interface{}, error) {
+	serialized, err := json.Marshal(map[string]json.RawMessage{"value": data})
+	if err != nil {
+		return nil, err
+	}
+
+	dict := ordereddict.NewDict()
+	err = json.Unmarshal(serialized, dict)
+	if err != nil {
+		return nil, err
+	}
+
+	value, _ := dict.Get("value")
+	return value, nil
+}
+
 func NewUnmarshaller() *Unmarshaller {
 	return &Unmarshaller{
 		Handlers: make(map[string]types.Unmarshaller),
-- 
2.43.0


From 6f68fd98dd7c57e524659cfe270d1d075d2444f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:10 +0000
Subject: [PATCH 63/73] fix: marshalling loses the defaults and quotes of
 parameters

---
 marshal.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/marshal.go b/marshal.go
index 74b866d..ec1005d 100644
--- a/marshal.go
+++ b/marshal.go
@@ -26,7 +26,7 @@ func (self *_StoredQuery) Marshal(
 			FormatToString(scope, self.query))
 	} else {
 		query = fmt.Sprintf("LET `%v`(%s) = %s", self.name,
-			strings.Join(self.parameters, ", "),
+			formatParameters(scope, self.parameters, self.defaults),
 			FormatToString(scope, self.query))
 	}
 
@@ -46,7 +46,7 @@ func (self *StoredExpression) Marshal(
 			FormatToString(scope, self.Expr))
 	} else {
 		query = fmt.Sprintf("LET `%v`(%s) = %s", self.name,
-			strings.Join(self.parameters, ", "),
+			formatParameters(scope, self.parameters, self.defaults),
 			FormatToString(scope, self.Expr))
 	}
 
@@ -57,6 +57,27 @@ func (self *StoredExpression) Marshal(
 	}, err
 }
 
+// Format the parameters of a definition with their default values.
+func formatParameters(scope types.Scope,
+	parameters []string, defaults map[string]*_Args) string {
+	res := make([]string, 0, len(parameters))
+	for _, name := range parameters {
+		arg, pres := defaults[name]
+		if pres {
+			res = append(res, FormatToString(scope, arg))
+			continue
+		}
+
+		// Names which are not plain identifiers must be quoted.
+		tokens, err := Tokenize(name)
+		if err != nil || len(tokens) != 1 || tokens[0].Type != "Ident" {
+			name = "`" + name + "`"
+		}
+		res = append(res, name)
+	}
+	return strings.Join(res, ", ")
+}
+
 type ReplayUnmarshaller struct{}
 
 func (self ReplayUnmarshaller) Unmarshal(
-- 
2.43.0


From 3fd2ca9f7d468148f9513bade0a2d2ccaa37f390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:10 +0000
Subject: [PATCH 64/73] fix: EXPLAIN does not report the rows of GROUP BY
 queries

---
 grouper/grouper.go | 1 +
 vfilter_group.go   | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/grouper/grouper.go b/grouper/grouper.go
index dbf3b04..2d3b086 100644
--- a/grouper/grouper.go
+++ b/grouper/grouper.go
@@ -89,6 +89,7 @@ func (self *DefaultGrouper) Group(
 					return
 
 				case output_chan <- aggregate_ctx.row:
+					scope.Explainer().SelectOutput(aggregate_ctx.row)
 				}
 			}
 		}
diff --git a/vfilter_group.go b/vfilter_group.go
index ea6af2a..bfe8c41 100644
--- a/vfilter_group.go
+++ b/vfilter_group.go
@@ -30,6 +30,9 @@ func (self *GroupbyActor) GetNextRow(ctx context.Context, scope types.Scope) (
 	types.LazyRow, types.Row, string, types.Scope, error) {
 
 	for row := range self.row_source {
+		scope.Explainer().PluginOutput(
+			&self.delegate.From.Plugin, row)
+
 		// Create a new scope to carry the new vars. This ensures that
 		// when the scope is closed, the vars can be removed for the next
 		// row.
@@ -57,6 +60,7 @@ func (self *GroupbyActor) GetNextRow(ctx context.Context, scope types.Scope) (
 			// skip the row.
 			if expression == nil || !new_scope.Bool(expression) {
 				new_scope.Trace("During Groupby: Row rejected")
+				scope.Explainer().RejectRow(self.delegate.Where)
 
 				// Prepare the next row
 				new_scope.Close()
-- 
2.43.0


From 21420802dc0e63b25cd56a4cf79f060d907ec66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:36 +0000
Subject: [PATCH 65/73] fix: a wrapper of a type panics on nil pointers

---
 protocols/lazy_wrapper.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/protocols/lazy_wrapper.go b/protocols/lazy_wrapper.go
index cc03516..1e1af28 100644
--- a/protocols/lazy_wrapper.go
+++ b/protocols/lazy_wrapper.go
@@ -28,8 +28,14 @@ func (self LazyWrapper) Applicable(a types.Any, b types.Any) bool {
 		return false
 	}
 
+	// A nil (or a pointer to nil) has no type that we can wrap.
+	a_indirect_value := reflect.Indirect(reflect.ValueOf(a))
+	if !a_indirect_value.IsValid() {
+		return false
+	}
+
 	a_type := reflect.ValueOf(a).Type()
-	a_indirect_type := reflect.Indirect(reflect.ValueOf(a)).Type()
+	a_indirect_type := a_indirect_value.Type()
 
 	res := a_type == self.Type || a_type == self.IndirectType ||
 		a_indirect_type == self.Type || a_indirect_type == self.IndirectType
-- 
2.43.0


From efc39f7ae1baeb293d94ebf3a24d2612403cebce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:38 +0000
Subject: [PATCH 66/73] fix: wrapped getters which give nil are not NULL

---
 protocols/lazy_wrapper.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocols/lazy_wrapper.go b/protocols/lazy_wrapper.go
index 1e1af28..c23cbb5 100644
--- a/protocols/lazy_wrapper.go
+++ b/protocols/lazy_wrapper.go
@@ -88,7 +88,7 @@ func (self LazyWrapper) Associative(scope types.Scope, a types.Any, b types.Any)
 				if len(results) == 1 || len(results) == 2 {
 					res := results[0]
 					if res.CanInterface() {
-						if res.Kind() == reflect.Ptr && res.IsNil() {
+						if types.IsNil(res.Interface()) {
 							return &types.Null{}
 						}
 
-- 
2.43.0


From 1c0f4dd22766e0488b9b94dbafa700d0815f5a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:41 +0000
Subject: [PATCH 67/73] fix: members, indexes and format do not evaluate lazy
 values

---
 functions/format.go               |  4 ++++
 protocols/protocol_associative.go |  3 +++
 vfilter.go                        | 14 ++++++++++++--
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/functions/format.go b/functions/format.go
index 87268b7..6b6eeea 100644
--- a/functions/format.go
+++ b/functions/format.go
@@ -40,6 +40,10 @@ func (self FormatFunction) Call(ctx context.Context,
 		} else {
 			for i := 0; i < slice.Len(); i++ {
 				value := slice.Index(i).Interface()
+				lazy_value, ok := value.(types.LazyExpr)
+				if ok {
+					value = lazy_value.Reduce(ctx)
+				}
 				format_args = append(format_args, value)
 			}
 		}
diff --git a/protocols/protocol_associative.go b/protocols/protocol_associative.go
index 37cb071..9b7182b 100644
--- a/protocols/protocol_associative.go
+++ b/protocols/protocol_associative.go
@@ -46,6 +46,9 @@ func (self *AssociativeDispatcher) Associative(
 	scope types.Scope, a types.Any, b types.Any) (types.Any, bool) {
 	ctx := context.Background()
 
+	a = maybeReduce(a)
+	b = maybeReduce(b)
+
 	if types.IsNil(a) {
 		return types.Null{}, true
 	}
diff --git a/vfilter.go b/vfilter.go
index 03ba220..45df845 100644
--- a/vfilter.go
+++ b/vfilter.go
@@ -1373,6 +1373,14 @@ func (self *_MemberExpression) IsAggregate(scope types.Scope) bool {
 	return false
 }
 
+func reduceLazy(ctx context.Context, scope types.Scope, value Any) Any {
+	lazy_expr, ok := value.(LazyExpr)
+	if ok {
+		return lazy_expr.ReduceWithScope(ctx, scope)
+	}
+	return value
+}
+
 func (self *_MemberExpression) Reduce(ctx context.Context, scope types.Scope) Any {
 	lhs := self.Left.Reduce(ctx, scope)
 	for _, term := range self.Right {
@@ -1382,7 +1390,8 @@ func (self *_MemberExpression) Reduce(ctx context.Context, scope types.Scope) An
 		if term.Range != nil {
 			var range_start *int64
 			if term.Index != nil {
-				start, ok := utils.ToInt64(term.Index.Reduce(ctx, scope))
+				start, ok := utils.ToInt64(
+					reduceLazy(ctx, scope, term.Index.Reduce(ctx, scope)))
 				if !ok {
 					return types.Null{}
 				}
@@ -1391,7 +1400,8 @@ func (self *_MemberExpression) Reduce(ctx context.Context, scope types.Scope) An
 
 			var range_end *int64
 			if term.RangeEnd != nil {
-				end, ok := utils.ToInt64(term.RangeEnd.Reduce(ctx, scope))
+				end, ok := utils.ToInt64(
+					reduceLazy(ctx, scope, term.RangeEnd.Reduce(ctx, scope)))
 				if !ok {
 					return types.Null{}
 				}
-- 
2.43.0


From e2310afb87a5bc1d872e8e56ffe586c99e2921c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:45 +0000
Subject: [PATCH 68/73] fix: nil lists given by wrapped getters stay empty
 lists

---
 protocols/lazy_wrapper.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/protocols/lazy_wrapper.go b/protocols/lazy_wrapper.go
index c23cbb5..cc8316c 100644
--- a/protocols/lazy_wrapper.go
+++ b/protocols/lazy_wrapper.go
@@ -88,7 +88,12 @@ func (self LazyWrapper) Associative(scope types.Scope, a types.Any, b types.Any)
 				if len(results) == 1 || len(results) == 2 {
 					res := results[0]
 					if res.CanInterface() {
-						if types.IsNil(res.Interface()) {
+						if res.Kind() == reflect.Interface {
+							res = res.Elem()
+						}
+
+						if !res.IsValid() ||
+							res.Kind() == reflect.Ptr && res.IsNil() {
 							return &types.Null{}
 						}
 
-- 
2.43.0


From dac3d260d2624de07a0cf03404d9ad7cd730403e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:15 +0000
Subject: [PATCH 69/73] fix: parameters of lambdas in backticks are not the
 names they stand for

---
 lambda.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lambda.go b/lambda.go
index fb18e22..8b4ff16 100644
--- a/lambda.go
+++ b/lambda.go
@@ -6,6 +6,7 @@ import (
 	"github.com/Velocidex/ordereddict"
 	"github.com/alecthomas/participle/v2"
 	"www.velocidex.com/golang/vfilter/types"
+	"www.velocidex.com/golang/vfilter/utils"
 )
 
 var (
@@ -25,7 +26,7 @@ func (self *Lambda) GetParameters() []string {
 
 	var visitor func(parameters *_ParameterList)
 	visitor = func(parameters *_ParameterList) {
-		result = append(result, parameters.Left)
+		result = append(result, utils.Unquote_ident(parameters.Left))
 		if parameters.Right != nil {
 			visitor(parameters.Right.Term)
 		}
-- 
2.43.0


From d1117258c5b7ed891931225cde18b0c8857cfe63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:09 +0000
Subject: [PATCH 70/73] fix: a scope keeps its explainer when its context is
 cleared

---
 scope/dispatcher.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scope/dispatcher.go b/scope/dispatcher.go
index 5c9785d..4b39d4d 100644
--- a/scope/dispatcher.go
+++ b/scope/dispatcher.go
@@ -158,6 +158,7 @@ func (self *protocolDispatcher) WithNewContext() *protocolDispatcher {
 		Sorter:       self.Sorter,
 		Grouper:      self.Grouper,
 		Materializer: self.Materializer,
+		explainer:    self.explainer,
 		Logger:       self.Logger,
 		Tracer:       self.Tracer,
 	}
-- 
2.43.0


From 0518e092f5633a96f40c4ffe4903ec7fd4f94208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:45 +0000
Subject: [PATCH 71/73] fix: a field without a JSON tag is found by the empty
 name

---
 protocols/protocol_associative.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocols/protocol_associative.go b/protocols/protocol_associative.go
index 9b7182b..beaff7b 100644
--- a/protocols/protocol_associative.go
+++ b/protocols/protocol_associative.go
@@ -327,7 +327,7 @@ func FieldMatchName(
 		if pres {
 			tag := field.Tag.Get("json")
 			json_name, _, _ := strings.Cut(tag, ",")
-			if json_name == field_name {
+			if json_name != "" && json_name == field_name {
 				return true
 			}
 		}
-- 
2.43.0


From 62bb3b3d2708c07165ef8a2d70d6751cdcdd59d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:12 +0000
Subject: [PATCH 72/73] fix: report missing arguments of a stored query also
 when there are unknown ones

---
 stored.go | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/stored.go b/stored.go
index d318a88..39ac628 100644
--- a/stored.go
+++ b/stored.go
@@ -157,13 +157,11 @@ func (self *_StoredQuery) checkCallingArgs(scope types.Scope, args *ordereddict.
 	}
 
 	// Some args are missing.
-	if len(seen_map) < len(self.parameters) {
-		for _, k := range self.parameters {
-			_, pres := seen_map[k]
-			if !pres {
-				scope.Log("ERROR:Missing arg %v when calling %v",
-					k, self.name)
-			}
+	for _, k := range self.parameters {
+		_, pres := seen_map[k]
+		if !pres {
+			scope.Log("ERROR:Missing arg %v when calling %v",
+				k, self.name)
 		}
 	}
 }
@@ -269,13 +267,11 @@ func (self *StoredExpression) checkCallingArgs(scope types.Scope, args *orderedd
 	}
 
 	// Some args are missing.
-	if len(seen_map) < len(self.parameters) {
-		for _, k := range self.parameters {
-			_, pres := seen_map[k]
-			if !pres {
-				scope.Log("ERROR:Missing arg %v when calling %v",
-					k, self.name)
-			}
+	for _, k := range self.parameters {
+		_, pres := seen_map[k]
+		if !pres {
+			scope.Log("ERROR:Missing arg %v when calling %v",
+				k, self.name)
 		}
 	}
 }
-- 
2.43.0


From 147bc7859a16402c50985c5ae29fded7e52e170e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:47 +0000
Subject: [PATCH 73/73] fix: a query without rows added to an empty list gives
 an empty list

---
 protocols/protocol_add.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocols/protocol_add.go b/protocols/protocol_add.go
index 062ecaa..b5ddd93 100644
--- a/protocols/protocol_add.go
+++ b/protocols/protocol_add.go
@@ -125,7 +125,7 @@ func convertToSlice(scope types.Scope, a types.Any) []types.Any {
 
 	stored_query, ok := a.(types.StoredQuery)
 	if ok {
-		var res []types.Any
+		res := []types.Any{}
 		for _, x := range MaterializeToArray(context.Background(), scope, stored_query) {
 			res = append(res, x)
 		}
-- 
2.43.0

