From 9f2f54b8f4d37ca6a193fffaf03bb7be4d8ad2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:38 +0000
Subject: [PATCH 01/77] fix: applying a primitive to an empty argument list
 passes no argument, apply without a list is an error

---
 data.go               | 8 ++------
 prim_special_forms.go | 5 +++++
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/data.go b/data.go
index dcfe12f..98cfe18 100644
--- a/data.go
+++ b/data.go
@@ -728,12 +728,8 @@ func QuoteIt(value *Data) (result *Data) {
 
 func QuoteAll(d *Data) (result *Data) {
 	var l []*Data = make([]*Data, 0, 10)
-	if d == nil {
-		l = append(l, QuoteIt(nil))
-	} else {
-		for c := d; c != nil; c = Cdr(c) {
-			l = append(l, QuoteIt(Car(c)))
-		}
+	for c := d; NotNilP(c); c = Cdr(c) {
+		l = append(l, QuoteIt(Car(c)))
 	}
 	return ArrayToList(l)
 }
diff --git a/prim_special_forms.go b/prim_special_forms.go
index d742d1b..63edc85 100644
--- a/prim_special_forms.go
+++ b/prim_special_forms.go
@@ -453,6 +453,11 @@ func ApplyImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	}
 
 	ary := ToArray(Cdr(args))
+	if len(ary) == 0 {
+		err = ProcessError("The last argument to apply must be a list", env)
+		return
+	}
+
 	var argList *Data
 	if ListP(ary[len(ary)-1]) {
 		if len(ary) > 1 {
-- 
2.43.0


From 00f184cd2d1e90c51fb2be9fd2fae8a10208a2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:30 +0000
Subject: [PATCH 02/77] fix: flatten and list splicing do not append an extra
 empty list

---
 data.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/data.go b/data.go
index 98cfe18..8085a73 100644
--- a/data.go
+++ b/data.go
@@ -679,7 +679,7 @@ func Flatten(d *Data) (result *Data, err error) {
 	var l []*Data = make([]*Data, 0, 10)
 	for c := d; NotNilP(c); c = Cdr(c) {
 		if ListP(Car(c)) {
-			for i := Car(c); i != nil; i = Cdr(i) {
+			for i := Car(c); i == Car(c) || NotNilP(i); i = Cdr(i) {
 				l = append(l, Car(i))
 			}
 		} else {
@@ -707,7 +707,7 @@ func RecursiveFlatten(d *Data) (result *Data, err error) {
 			if err != nil {
 				return
 			}
-			for i := elem; i != nil; i = Cdr(i) {
+			for i := elem; i == elem || NotNilP(i); i = Cdr(i) {
 				l = append(l, Car(i))
 			}
 		} else {
-- 
2.43.0


From ba949f3d5e4684f7bbacf86fb7184e6767a843ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:37 +0000
Subject: [PATCH 03/77] fix: quasiquote keeps the tail of a dotted pair

---
 prim_macros.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/prim_macros.go b/prim_macros.go
index 3da49b1..7d4125d 100644
--- a/prim_macros.go
+++ b/prim_macros.go
@@ -78,8 +78,9 @@ func processQuasiquoted(sexpr *Data, level int, env *SymbolTableFrame) (result *
 		}
 	} else {
 		parts := make([]*Data, 0, Length(Cdr(sexpr)))
-		for _, exp := range ToArray(sexpr) {
-			processed, err := processQuasiquoted(exp, level, env)
+		tail := sexpr
+		for ; ListP(tail) && NotNilP(tail); tail = Cdr(tail) {
+			processed, err := processQuasiquoted(Car(tail), level, env)
 			if err != nil {
 				return nil, err
 			}
@@ -91,6 +92,9 @@ func processQuasiquoted(sexpr *Data, level int, env *SymbolTableFrame) (result *
 		if err != nil {
 			return nil, err
 		}
+		if NotNilP(tail) {
+			flat = ArrayToListWithTail(ToArray(flat), tail)
+		}
 		return Cons(flat, nil), nil
 	}
 }
-- 
2.43.0


From 6b48084e84c708da1b33a29f95a914bb604eac4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:43 +0000
Subject: [PATCH 04/77] fix: an error in a do step expression is reported

---
 prim_special_forms.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/prim_special_forms.go b/prim_special_forms.go
index 63edc85..8381995 100644
--- a/prim_special_forms.go
+++ b/prim_special_forms.go
@@ -437,8 +437,9 @@ func DoImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 			}
 		}
 
-		if rebindDoLocals(bindings, localEnv) != nil {
-			return
+		err = rebindDoLocals(bindings, localEnv)
+		if err != nil {
+			return nil, err
 		}
 	}
 	return
-- 
2.43.0


From 1b18fe347f6712aa62b483c34f42e79517d28102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:15 +0000
Subject: [PATCH 05/77] fix: -> and => pass on lists and symbols without
 evaluating them again

---
 prim_special_forms.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/prim_special_forms.go b/prim_special_forms.go
index 8381995..996bb30 100644
--- a/prim_special_forms.go
+++ b/prim_special_forms.go
@@ -474,6 +474,15 @@ func ApplyImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	return ApplyWithoutEval(f, argList, env)
 }
 
+// chainArgument returns an expression that evaluates to value, which has already
+// been evaluated.
+func chainArgument(value *Data) *Data {
+	if ListP(value) || (SymbolP(value) && !NakedP(value)) {
+		return QuoteIt(value)
+	}
+	return value
+}
+
 func ChainImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	var value *Data
 
@@ -486,9 +495,9 @@ func ChainImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 		sexpr := Car(cell)
 		var newExpr *Data
 		if ListP(sexpr) {
-			newExpr = Cons(Car(sexpr), Cons(value, Cdr(sexpr)))
+			newExpr = Cons(Car(sexpr), Cons(chainArgument(value), Cdr(sexpr)))
 		} else {
-			newExpr = Cons(sexpr, Cons(value, nil))
+			newExpr = Cons(sexpr, Cons(chainArgument(value), nil))
 		}
 		value, err = Eval(newExpr, env)
 		if err != nil {
@@ -512,9 +521,9 @@ func TapImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 		sexpr := Car(cell)
 		var newExpr *Data
 		if ListP(sexpr) {
-			newExpr = Cons(Car(sexpr), Cons(value, Cdr(sexpr)))
+			newExpr = Cons(Car(sexpr), Cons(chainArgument(value), Cdr(sexpr)))
 		} else {
-			newExpr = Cons(sexpr, Cons(value, nil))
+			newExpr = Cons(sexpr, Cons(chainArgument(value), nil))
 		}
 		_, err = Eval(newExpr, env)
 		if err != nil {
-- 
2.43.0


From 13ab336f692ebc09188f6b1884018abceabef069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:48 +0000
Subject: [PATCH 06/77] fix: functions and macros whose parameter list is a
 single rest parameter receive their arguments

---
 function.go | 3 +++
 macro.go    | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/function.go b/function.go
index 4bdd440..348362d 100644
--- a/function.go
+++ b/function.go
@@ -62,6 +62,9 @@ func (self *Function) makeLocalBindings(args *Data, argEnv *SymbolTableFrame, lo
 
 	var argValue *Data
 	var accumulatingParam *Data = nil
+	if SymbolP(self.Params) {
+		accumulatingParam = self.Params
+	}
 	accumulatedArgs := make([]*Data, 0)
 	for p, a := self.Params, args; NotNilP(a); a = Cdr(a) {
 		if eval {
diff --git a/macro.go b/macro.go
index c8f7f9c..778b48f 100644
--- a/macro.go
+++ b/macro.go
@@ -43,6 +43,9 @@ func (self *Macro) makeLocalBindings(args *Data, argEnv *SymbolTableFrame, local
 
 	var argValue *Data
 	var accumulatingParam *Data = nil
+	if SymbolP(self.Params) {
+		accumulatingParam = self.Params
+	}
 	accumulatedArgs := make([]*Data, 0)
 	for p, a := self.Params, args; NotNilP(a); a = Cdr(a) {
 		if eval {
-- 
2.43.0


From 803cf4d2712f671c0f878140222fe6ce3cbb6c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:20 +0000
Subject: [PATCH 07/77] fix: set-car!, set-cdr!, set-nth! and set! stop at an
 argument error instead of mutating

---
 prim_mutators.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/prim_mutators.go b/prim_mutators.go
index e1f8523..662e7b4 100644
--- a/prim_mutators.go
+++ b/prim_mutators.go
@@ -20,6 +20,7 @@ func SetVarImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	symbol := Car(args)
 	if !SymbolP(symbol) {
 		err = ProcessError("set! requires a raw (unevaluated) symbol as it's first argument.", env)
+		return
 	}
 	value, err := Eval(Cadr(args), env)
 	if err != nil {
@@ -30,8 +31,12 @@ func SetVarImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 
 func SetCarImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	pair, err := Eval(Car(args), env)
-	if !PairP(pair) {
+	if err != nil {
+		return
+	}
+	if !PairP(pair) || NilP(pair) {
 		err = ProcessError("set-car! requires a pair as it's first argument.", env)
+		return
 	}
 	value, err := Eval(Cadr(args), env)
 	if err != nil {
@@ -43,8 +48,12 @@ func SetCarImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 
 func SetCdrImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	pair, err := Eval(Car(args), env)
-	if !PairP(pair) {
+	if err != nil {
+		return
+	}
+	if !PairP(pair) || NilP(pair) {
 		err = ProcessError("set-cdr! requires a pair as it's first argument.", env)
+		return
 	}
 	value, err := Eval(Cadr(args), env)
 	if err != nil {
@@ -57,8 +66,12 @@ func SetCdrImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 
 func SetNthImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	l, err := Eval(First(args), env)
+	if err != nil {
+		return
+	}
 	if !ListP(l) {
 		err = ProcessError("set-nth! requires a list as it's first argument.", env)
+		return
 	}
 	index, err := Eval(Second(args), env)
 	if err != nil {
-- 
2.43.0


From ab8ba453e1d21b6280db377ad261d90497cb6e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:43 +0000
Subject: [PATCH 08/77] fix: storing a computed empty list in a cell does not
 make the cell disappear

---
 prim_mutators.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/prim_mutators.go b/prim_mutators.go
index 662e7b4..dc5e7d8 100644
--- a/prim_mutators.go
+++ b/prim_mutators.go
@@ -42,6 +42,9 @@ func SetCarImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	if err != nil {
 		return
 	}
+	if value == nil {
+		value = EmptyCons()
+	}
 	ConsValue(pair).Car = value
 	return value, nil
 }
@@ -82,5 +85,8 @@ func SetNthImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 		return
 	}
 
+	if value == nil {
+		value = EmptyCons()
+	}
 	return SetNth(l, int(IntegerValue(index)), value), nil
 }
-- 
2.43.0


From 3959cb2d0f59b4d6e154aaf51a411bd69dcfe968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:26 +0000
Subject: [PATCH 09/77] fix: equality compares the tails of improper lists

---
 data.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/data.go b/data.go
index 8085a73..be3656b 100644
--- a/data.go
+++ b/data.go
@@ -857,12 +857,13 @@ func IsEqual(d *Data, o *Data) bool {
 		if Length(d) != Length(o) {
 			return false
 		}
-		for a1, a2 := d, o; NotNilP(a1); a1, a2 = Cdr(a1), Cdr(a2) {
+		a1, a2 := d, o
+		for ; ListP(a1) && ListP(a2) && NotNilP(a1) && NotNilP(a2); a1, a2 = Cdr(a1), Cdr(a2) {
 			if !IsEqual(Car(a1), Car(a2)) {
 				return false
 			}
 		}
-		return true
+		return IsEqual(a1, a2)
 	}
 
 	if FrameP(d) {
-- 
2.43.0


From a312717df04ba2c61ac752fff26bd1a0f4b4035b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:32 +0000
Subject: [PATCH 10/77] fix: frames with different slot names are not equal

---
 data.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/data.go b/data.go
index be3656b..675abc5 100644
--- a/data.go
+++ b/data.go
@@ -877,7 +877,8 @@ func IsEqual(d *Data, o *Data) bool {
 			return false
 		}
 		for k, v := range frameD.Data {
-			if !IsEqual(v, frameO.Data[k]) {
+			other, found := frameO.Data[k]
+			if !found || !IsEqual(v, other) {
 				frameO.Mutex.RUnlock()
 				frameD.Mutex.RUnlock()
 				return false
-- 
2.43.0


From 1c73f71bff56897e14befac4a24cea4ce583dd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:38 +0000
Subject: [PATCH 11/77] fix: compare integers, and take their absolute value,
 without rounding them to floats

---
 prim_math.go             |  9 ++++++---
 prim_relative_logical.go | 12 ++++++++++++
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/prim_math.go b/prim_math.go
index 9438e10..938c8ff 100644
--- a/prim_math.go
+++ b/prim_math.go
@@ -596,11 +596,14 @@ func AbsImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 		err = ProcessError(fmt.Sprintf("abs expected a number, received %s", String(Car(args))), env)
 		return
 	}
-	absval := math.Abs(float64(FloatValue(val)))
 	if IntegerP(val) {
-		result = IntegerWithValue(int64(absval))
+		n := IntegerValue(val)
+		if n < 0 {
+			n = -n
+		}
+		result = IntegerWithValue(n)
 	} else {
-		result = FloatWithValue(float32(absval))
+		result = FloatWithValue(float32(math.Abs(float64(FloatValue(val)))))
 	}
 	return
 }
diff --git a/prim_relative_logical.go b/prim_relative_logical.go
index 9075e56..2558599 100644
--- a/prim_relative_logical.go
+++ b/prim_relative_logical.go
@@ -41,6 +41,9 @@ func LessThanImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 		return
 	}
 
+	if IntegerP(arg1) && IntegerP(arg2) {
+		return BooleanWithValue(IntegerValue(arg1) < IntegerValue(arg2)), nil
+	}
 	val := FloatValue(arg1) < FloatValue(arg2)
 	return BooleanWithValue(val), nil
 }
@@ -58,6 +61,9 @@ func GreaterThanImpl(args *Data, env *SymbolTableFrame) (result *Data, err error
 		return
 	}
 
+	if IntegerP(arg1) && IntegerP(arg2) {
+		return BooleanWithValue(IntegerValue(arg1) > IntegerValue(arg2)), nil
+	}
 	val := FloatValue(arg1) > FloatValue(arg2)
 	return BooleanWithValue(val), nil
 }
@@ -87,6 +93,9 @@ func LessThanOrEqualToImpl(args *Data, env *SymbolTableFrame) (result *Data, err
 		return
 	}
 
+	if IntegerP(arg1) && IntegerP(arg2) {
+		return BooleanWithValue(IntegerValue(arg1) <= IntegerValue(arg2)), nil
+	}
 	val := FloatValue(arg1) <= FloatValue(arg2)
 	return BooleanWithValue(val), nil
 }
@@ -104,6 +113,9 @@ func GreaterThanOrEqualToImpl(args *Data, env *SymbolTableFrame) (result *Data,
 		return
 	}
 
+	if IntegerP(arg1) && IntegerP(arg2) {
+		return BooleanWithValue(IntegerValue(arg1) >= IntegerValue(arg2)), nil
+	}
 	val := FloatValue(arg1) >= FloatValue(arg2)
 	return BooleanWithValue(val), nil
 }
-- 
2.43.0


From cb5c3783c7613cdfd426bf2829d7555be1fe4e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:44 +0000
Subject: [PATCH 12/77] fix: arithmetic rejects a non-number that follows a
 float

---
 prim_math.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prim_math.go b/prim_math.go
index 938c8ff..d1d95fd 100644
--- a/prim_math.go
+++ b/prim_math.go
@@ -168,10 +168,10 @@ func anyFloats(args *Data, env *SymbolTableFrame) (result bool, err error) {
 			return
 		}
 		if FloatP(Car(c)) {
-			return true, nil
+			result = true
 		}
 	}
-	return false, nil
+	return
 }
 
 func AddImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
-- 
2.43.0


From 2e38180e105429118477f034c88d76ed6e85fd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:21 +0000
Subject: [PATCH 13/77] fix: remainder by zero is an error instead of a crash

---
 prim_math.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/prim_math.go b/prim_math.go
index d1d95fd..6351cec 100644
--- a/prim_math.go
+++ b/prim_math.go
@@ -295,6 +295,11 @@ func RemainderImpl(args *Data, env *SymbolTableFrame) (result *Data, err error)
 		return
 	}
 
+	if IntegerValue(divisor) == 0 {
+		err = ProcessError("%/modulo: divide by zero", env)
+		return
+	}
+
 	val := IntegerValue(dividend) % IntegerValue(divisor)
 	return IntegerWithValue(val), nil
 }
-- 
2.43.0


From 13ae33313265e8cbcf2b997693526080b476e22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:26 +0000
Subject: [PATCH 14/77] fix: interval terminates at the limits of the integer
 range

---
 prim_math.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/prim_math.go b/prim_math.go
index 6351cec..e280717 100644
--- a/prim_math.go
+++ b/prim_math.go
@@ -346,15 +346,21 @@ func IntervalImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 			step = direction
 		}
 	}
-	var items []*Data = make([]*Data, 0, int(math.Abs(float64(end-start)))+1)
+	var items []*Data = make([]*Data, 0)
 
 	if direction == 1 {
 		for i := start; i <= end; i = i + step {
 			items = append(items, IntegerWithValue(i))
+			if i > math.MaxInt64-step {
+				break
+			}
 		}
 	} else {
 		for i := start; i >= end; i = i + step {
 			items = append(items, IntegerWithValue(i))
+			if i < math.MinInt64-step {
+				break
+			}
 		}
 	}
 
-- 
2.43.0


From fe2fa996a52e9ab43647e7d70410aecbab5b2cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:56 +0000
Subject: [PATCH 15/77] fix: append! to something that is not a list is an
 error instead of corrupting memory

---
 prim_list_manipulation.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/prim_list_manipulation.go b/prim_list_manipulation.go
index a2c6aea..a646ce6 100644
--- a/prim_list_manipulation.go
+++ b/prim_list_manipulation.go
@@ -8,6 +8,7 @@
 package golisp
 
 import (
+	"fmt"
 	"sort"
 )
 
@@ -100,6 +101,15 @@ func AppendBangImpl(args *Data, env *SymbolTableFrame) (result *Data, err error)
 		return
 	}
 
+	tail := firstList
+	for ListP(tail) && NotNilP(tail) {
+		tail = Cdr(tail)
+	}
+	if NotNilP(tail) {
+		err = ProcessError(fmt.Sprintf("append! requires a proper list as its first argument, but got %s.", String(firstList)), env)
+		return
+	}
+
 	if ListP(second) {
 		result = AppendBangList(firstList, second)
 	} else {
-- 
2.43.0


From 30e6e7d31d414f4baad1cdf3d3e17a750b847a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:01 +0000
Subject: [PATCH 16/77] fix: general-car-cdr terminates on a negative path

---
 prim_list_access.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prim_list_access.go b/prim_list_access.go
index 8ef0936..ad9c334 100644
--- a/prim_list_access.go
+++ b/prim_list_access.go
@@ -196,8 +196,8 @@ func CddddrImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 func GeneralCarCdrImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	list := Car(args)
 	path := IntegerValue(Cadr(args))
-	if path == 0 {
-		err = errors.New("general-car-cdr requires a non-zero path specifier")
+	if path <= 0 {
+		err = errors.New("general-car-cdr requires a positive path specifier")
 		return
 	}
 	for path != 1 {
-- 
2.43.0


From 42eef06fc082a542aec804589b9e32da6b942b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:07 +0000
Subject: [PATCH 17/77] fix: take and drop treat a negative count as zero for
 bytearrays, as they do for lists

---
 prim_list_access.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/prim_list_access.go b/prim_list_access.go
index ad9c334..0605682 100644
--- a/prim_list_access.go
+++ b/prim_list_access.go
@@ -271,8 +271,12 @@ func TakeImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	n := Car(args)
 	if !IntegerP(n) {
 		err = ProcessError("take requires a number as its first argument.", env)
+		return
 	}
 	size := int(IntegerValue(n))
+	if size < 0 {
+		size = 0
+	}
 
 	l := Cadr(args)
 	if ListP(l) {
@@ -304,8 +308,12 @@ func DropImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	n := Car(args)
 	if !IntegerP(n) {
 		err = ProcessError("drop requires a number as its first argument.", env)
+		return
 	}
 	size := int(IntegerValue(n))
+	if size < 0 {
+		size = 0
+	}
 
 	l := Cadr(args)
 
-- 
2.43.0


From e7620a3d3644c70b54ea86181313c985db0f000a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:37 +0000
Subject: [PATCH 18/77] fix: backslashes in strings are escaped when printed,
 so that the text reads back

---
 data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data.go b/data.go
index 675abc5..2e027df 100644
--- a/data.go
+++ b/data.go
@@ -931,7 +931,7 @@ func IsEqual(d *Data, o *Data) bool {
 func escapeQuotes(str string) string {
 	buffer := make([]rune, 0, 10)
 	for _, ch := range str {
-		if rune(ch) == '"' {
+		if rune(ch) == '"' || rune(ch) == '\\' {
 			buffer = append(buffer, '\\')
 		}
 		buffer = append(buffer, rune(ch))
-- 
2.43.0


From 9fbcf6d71ab36eef8eca540db38597764c428f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:44 +0000
Subject: [PATCH 19/77] fix: floats print without an exponent, which the reader
 does not know

---
 data.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/data.go b/data.go
index 2e027df..fcf6836 100644
--- a/data.go
+++ b/data.go
@@ -13,6 +13,7 @@ import (
 	"math"
 	"os"
 	"sort"
+	"strconv"
 	"strings"
 	"sync/atomic"
 	"unsafe"
@@ -999,7 +1000,7 @@ func String(d *Data) string {
 			if math.IsNaN(float64(v)) {
 				return "nan"
 			}
-			raw := fmt.Sprintf("%g", FloatValue(d))
+			raw := strconv.FormatFloat(float64(v), 'f', -1, 32)
 			if strings.ContainsRune(raw, '.') {
 				return raw
 			}
-- 
2.43.0


From 5ffe3a2086ae81e44f64f3178e1489b2ca2fd968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:51 +0000
Subject: [PATCH 20/77] fix: a list starting with quote that has more than one
 operand prints all its elements

---
 data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/data.go b/data.go
index fcf6836..febe2a6 100644
--- a/data.go
+++ b/data.go
@@ -959,7 +959,7 @@ func String(d *Data) string {
 				c = Cdr(c)
 			}
 			if NilP(c) {
-				if SymbolP(Car(d)) && StringValue(Car(d)) == "quote" {
+				if SymbolP(Car(d)) && StringValue(Car(d)) == "quote" && len(contents) <= 2 {
 					if len(contents) == 1 {
 						return fmt.Sprintf("'()")
 					} else {
-- 
2.43.0


From ce7d33dae3af5f2c7e028a8986eba7608550261a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:12 +0000
Subject: [PATCH 21/77] fix: an unterminated string is an error, not the end of
 the input

---
 tokenizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tokenizer.go b/tokenizer.go
index 0b3cf9f..cc4b71d 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -210,7 +210,7 @@ func (self *Tokenizer) readString() (token int, lit string) {
 		self.Advance()
 	}
 	if self.isEof() {
-		return EOF, ""
+		return ILLEGAL, "unterminated string"
 	}
 	self.Advance()
 	return STRING, string(buffer)
-- 
2.43.0


From f72fed03494f3fa0c2df997cc21461d3bdb54840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:28 +0000
Subject: [PATCH 22/77] fix: a closing delimiter that closes nothing inside an
 expression is an error, not a symbol

---
 parser.go | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/parser.go b/parser.go
index 174d45d..0e6ad8a 100644
--- a/parser.go
+++ b/parser.go
@@ -168,14 +168,6 @@ func parseBytearray(s *Tokenizer) (sexpr *Data, eof bool, err error) {
 
 func parseFrame(s *Tokenizer) (sexpr *Data, eof bool, err error) {
 	tok, _ := s.NextToken()
-	if tok == RBRACKET {
-		s.ConsumeToken()
-		f := FrameMap{}
-		f.Data = make(FrameMapData)
-		sexpr = FrameWithValue(&f)
-		return
-	}
-
 	var element *Data
 	cells := make([]*Data, 0, 10)
 	for tok != RBRACE {
@@ -282,6 +274,9 @@ func parseExpression(s *Tokenizer) (sexpr *Data, eof bool, err error) {
 		case ILLEGAL:
 			err = errors.New(fmt.Sprintf("Illegal character: %s", lit))
 			return
+		case RPAREN, RBRACKET, RBRACE:
+			err = errors.New(fmt.Sprintf("Unexpected '%s'", lit))
+			return
 		default:
 			s.ConsumeToken()
 			sexpr, err = makeSymbol(lit)
@@ -290,6 +285,14 @@ func parseExpression(s *Tokenizer) (sexpr *Data, eof bool, err error) {
 	}
 }
 
+// parseTopLevelExpression tolerates extra closing parentheses between expressions.
+func parseTopLevelExpression(s *Tokenizer) (sexpr *Data, eof bool, err error) {
+	for tok, _ := s.NextToken(); tok == RPAREN; tok, _ = s.NextToken() {
+		s.ConsumeToken()
+	}
+	return parseExpression(s)
+}
+
 func Parse(src string) (sexpr *Data, err error) {
 	s := NewTokenizerFromString(src)
 	sexpr, _, err = parseExpression(s)
@@ -301,7 +304,7 @@ func ParseAll(src string) (result []*Data, err error) {
 	var sexpr *Data
 	var eof bool
 	for {
-		sexpr, eof, err = parseExpression(s)
+		sexpr, eof, err = parseTopLevelExpression(s)
 		if err != nil || eof {
 			break
 		}
@@ -346,7 +349,7 @@ func ParseAndEvalAllInEnvironment(src string, env *SymbolTableFrame) (result *Da
 	var sexpr *Data
 	var eof bool
 	for {
-		sexpr, eof, err = parseExpression(s)
+		sexpr, eof, err = parseTopLevelExpression(s)
 		if err != nil {
 			return
 		}
-- 
2.43.0


From 6135fdb89a725f8618390ae21e1f711e7952cd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:52 +0000
Subject: [PATCH 23/77] fix: input that ends after a quote character or a dot
 is an error, not the end of the input

---
 parser.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 0e6ad8a..08042b8 100644
--- a/parser.go
+++ b/parser.go
@@ -77,7 +77,10 @@ func parseConsCell(s *Tokenizer) (sexpr *Data, eof bool, err error) {
 		if tok == PERIOD {
 			s.ConsumeToken()
 			cdr, eof, err = parseExpression(s)
-			if eof || err != nil {
+			if eof && err == nil {
+				err = errors.New("Unexpected EOF (expected the tail of a dotted pair)")
+			}
+			if err != nil {
 				return
 			}
 			tok, _ = s.NextToken()
@@ -246,6 +249,9 @@ func parseExpression(s *Tokenizer) (sexpr *Data, eof bool, err error) {
 		case QUOTE:
 			s.ConsumeToken()
 			sexpr, eof, err = parseExpression(s)
+			if eof && err == nil {
+				err = errors.New("Unexpected EOF (expected an expression after ')")
+			}
 			if sexpr != nil {
 				sexpr = Cons(Intern("quote"), Cons(sexpr, nil))
 			}
@@ -253,6 +259,9 @@ func parseExpression(s *Tokenizer) (sexpr *Data, eof bool, err error) {
 		case BACKQUOTE:
 			s.ConsumeToken()
 			sexpr, eof, err = parseExpression(s)
+			if eof && err == nil {
+				err = errors.New("Unexpected EOF (expected an expression after `)")
+			}
 			if sexpr != nil {
 				sexpr = Cons(Intern("quasiquote"), Cons(sexpr, nil))
 			}
@@ -260,6 +269,9 @@ func parseExpression(s *Tokenizer) (sexpr *Data, eof bool, err error) {
 		case COMMA:
 			s.ConsumeToken()
 			sexpr, eof, err = parseExpression(s)
+			if eof && err == nil {
+				err = errors.New("Unexpected EOF (expected an expression after ,)")
+			}
 			if sexpr != nil {
 				sexpr = Cons(Intern("unquote"), Cons(sexpr, nil))
 			}
@@ -267,6 +279,9 @@ func parseExpression(s *Tokenizer) (sexpr *Data, eof bool, err error) {
 		case COMMAAT:
 			s.ConsumeToken()
 			sexpr, eof, err = parseExpression(s)
+			if eof && err == nil {
+				err = errors.New("Unexpected EOF (expected an expression after ,@)")
+			}
 			if sexpr != nil {
 				sexpr = Cons(Intern("unquote-splicing"), Cons(sexpr, nil))
 			}
-- 
2.43.0


From e3b96e80514133857462a5d6139c3e0a65065fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:24 +0000
Subject: [PATCH 24/77] fix: a negative literal in a bytearray is an error, not
 a different byte

---
 parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser.go b/parser.go
index 08042b8..29c2c33 100644
--- a/parser.go
+++ b/parser.go
@@ -148,7 +148,7 @@ func parseBytearray(s *Tokenizer) (sexpr *Data, eof bool, err error) {
 		if err != nil {
 			return
 		}
-		if IntegerP(element) && IntegerValue(element) > 255 {
+		if IntegerP(element) && (IntegerValue(element) < 0 || IntegerValue(element) > 255) {
 			err = errors.New(fmt.Sprintf("Numeric literals in a bytearray must be bytes. Encountered %s.", String(element)))
 			return
 		}
-- 
2.43.0


From 9f48c78612a21cfd75603fb4187649579b588113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:31 +0000
Subject: [PATCH 25/77] fix: an empty list at top level does not end the
 evaluation of a program

---
 parser.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/parser.go b/parser.go
index 29c2c33..cce7edd 100644
--- a/parser.go
+++ b/parser.go
@@ -371,9 +371,6 @@ func ParseAndEvalAllInEnvironment(src string, env *SymbolTableFrame) (result *Da
 		if eof {
 			return
 		}
-		if NilP(sexpr) {
-			return
-		}
 		result, err = Eval(sexpr, env)
 		if err != nil {
 			return
-- 
2.43.0


From 250f4bc2b5c60377b278df790145f37c4e384a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:37 +0000
Subject: [PATCH 26/77] fix: the dot of a dotted pair may be followed by any
 white space

---
 tokenizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tokenizer.go b/tokenizer.go
index cc4b71d..8f4583f 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -276,7 +276,7 @@ func (self *Tokenizer) readNextToken() (token int, lit string) {
 	} else if self.CurrentCh == '}' {
 		self.Advance()
 		return RBRACE, "}"
-	} else if self.CurrentCh == '.' && self.NextCh == ' ' {
+	} else if self.CurrentCh == '.' && unicode.IsSpace(self.NextCh) {
 		self.Advance()
 		return PERIOD, "."
 	} else if self.isSymbolCharacter(self.CurrentCh) {
-- 
2.43.0


From 159fc26de4d8070b44d99cc62d842904529ee3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:05 +0000
Subject: [PATCH 27/77] fix: a number literal followed by a non-ASCII numeral
 is an error instead of losing the numeral

---
 parser.go | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/parser.go b/parser.go
index cce7edd..accee55 100644
--- a/parser.go
+++ b/parser.go
@@ -12,14 +12,14 @@ import (
 	"fmt"
 	"io/ioutil"
 	"os"
+	"strconv"
 	"unsafe"
 )
 
 var EofObject *Data = Intern("__EOF__")
 
 func makeInteger(str string) (n *Data, err error) {
-	var i int64
-	_, err = fmt.Sscanf(str, "%d", &i)
+	i, err := strconv.ParseInt(str, 10, 64)
 	if err != nil {
 		return
 	}
@@ -28,8 +28,7 @@ func makeInteger(str string) (n *Data, err error) {
 }
 
 func makeBinaryInteger(str string) (n *Data, err error) {
-	var i int64
-	_, err = fmt.Sscanf(str, "%b", &i)
+	i, err := strconv.ParseInt(str, 2, 64)
 	if err != nil {
 		return
 	}
@@ -38,8 +37,7 @@ func makeBinaryInteger(str string) (n *Data, err error) {
 }
 
 func makeHexInteger(str string) (n *Data, err error) {
-	var i int64
-	_, err = fmt.Sscanf(str, "%x", &i)
+	i, err := strconv.ParseInt(str, 16, 64)
 	if err != nil {
 		return
 	}
@@ -48,12 +46,11 @@ func makeHexInteger(str string) (n *Data, err error) {
 }
 
 func makeFloat(str string) (n *Data, err error) {
-	var i float32
-	_, err = fmt.Sscanf(str, "%f", &i)
+	f, err := strconv.ParseFloat(str, 32)
 	if err != nil {
 		return
 	}
-	n = FloatWithValue(i)
+	n = FloatWithValue(float32(f))
 	return
 }
 
-- 
2.43.0


From cdd1b789e21bad81db58e70951dab2917fe22977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:14 +0000
Subject: [PATCH 28/77] fix: NUL characters in source text are not silently
 dropped

---
 tokenizer.go | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/tokenizer.go b/tokenizer.go
index 8f4583f..9e79564 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -49,6 +49,7 @@ type Tokenizer struct {
 	NextCh         rune
 	Eof            bool
 	AlmostEof      bool
+	started        bool
 }
 
 var mostRecentFileTokenizer *Tokenizer
@@ -76,18 +77,28 @@ func NewTokenizerFromFile(src *os.File) *Tokenizer {
 	}
 }
 
+func (self *Tokenizer) readRune() rune {
+	ch, _, err := self.Source.ReadRune()
+	if err == io.EOF {
+		return bufrr.EOF
+	}
+	return ch
+}
+
 func (self *Tokenizer) Advance() {
-	var err error
-	self.CurrentCh, _, err = self.Source.ReadRune()
-	if err == io.EOF || self.CurrentCh == -1 {
+	// The lookahead is kept here and not by unreading: the reader loses a NUL that is unread.
+	if self.started {
+		self.CurrentCh = self.NextCh
+	} else {
+		self.started = true
+		self.CurrentCh = self.readRune()
+	}
+	if self.CurrentCh == bufrr.EOF {
 		self.Eof = true
-		self.NextCh = 0
 	} else {
-		self.NextCh, _, err = self.Source.ReadRune()
-		if err == io.EOF || self.NextCh == -1 {
+		self.NextCh = self.readRune()
+		if self.NextCh == bufrr.EOF {
 			self.AlmostEof = true
-		} else {
-			self.Source.UnreadRune()
 		}
 	}
 }
-- 
2.43.0


From bff629ebbf512810a9dbc97df9ba3d579a5f526c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:04 +0000
Subject: [PATCH 29/77] fix: a parent slot that does not hold a frame is no
 parent, instead of a crash

---
 frame.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frame.go b/frame.go
index 2430579..88d6ae0 100644
--- a/frame.go
+++ b/frame.go
@@ -51,7 +51,7 @@ func (self *FrameMap) hasParentSlots() bool {
 func (self *FrameMap) Parents() []*FrameMap {
 	parents := make([]*FrameMap, 0, 0)
 	for k, v := range self.Data {
-		if isParentKey(k) && v != nil {
+		if isParentKey(k) && FrameP(v) {
 			parents = append(parents, FrameValue(v))
 		}
 	}
-- 
2.43.0


From c371dc793cf3c2a90a1f792b3c1158ae4d107277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:27 +0000
Subject: [PATCH 30/77] fix: printing frames that refer to each other
 terminates

---
 data.go | 34 +++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/data.go b/data.go
index febe2a6..78834f3 100644
--- a/data.go
+++ b/data.go
@@ -940,7 +940,27 @@ func escapeQuotes(str string) string {
 	return string(buffer)
 }
 
+// enclosingFrames lists the frames around the value being printed.
+type enclosingFrames struct {
+	frame *FrameMap
+	outer *enclosingFrames
+}
+
+func (self *enclosingFrames) contains(f *FrameMap) bool {
+	for e := self; e != nil; e = e.outer {
+		if e.frame == f {
+			return true
+		}
+	}
+	return false
+}
+
 func String(d *Data) string {
+	return stringInside(d, nil)
+}
+
+// stringInside prints a frame that contains itself as {...} where it recurs.
+func stringInside(d *Data, inside *enclosingFrames) string {
 	if d == nil {
 		return "()"
 	}
@@ -955,7 +975,7 @@ func String(d *Data) string {
 
 			contents := make([]string, 0, Length(d))
 			for NotNilP(c) && PairP(c) {
-				contents = append(contents, String(Car(c)))
+				contents = append(contents, stringInside(Car(c), inside))
 				c = Cdr(c)
 			}
 			if NilP(c) {
@@ -969,7 +989,7 @@ func String(d *Data) string {
 					return fmt.Sprintf("(%s)", strings.Join(contents, " "))
 				}
 			} else {
-				return fmt.Sprintf("(%s . %s)", strings.Join(contents, " "), String(c))
+				return fmt.Sprintf("(%s . %s)", strings.Join(contents, " "), stringInside(c, inside))
 			}
 		}
 	case AlistType:
@@ -979,12 +999,12 @@ func String(d *Data) string {
 			}
 			contents := make([]string, 0, Length(d))
 			for c := d; NotNilP(c); c = Cdr(c) {
-				contents = append(contents, String(Car(c)))
+				contents = append(contents, stringInside(Car(c), inside))
 			}
 			return fmt.Sprintf("(%s)", strings.Join(contents, " "))
 		}
 	case AlistCellType:
-		return fmt.Sprintf("(%s . %s)", String(Car(d)), String(Cdr(d)))
+		return fmt.Sprintf("(%s . %s)", stringInside(Car(d), inside), stringInside(Cdr(d), inside))
 	case IntegerType:
 		return fmt.Sprintf("%d", IntegerValue(d))
 	case FloatType:
@@ -1035,6 +1055,10 @@ func String(d *Data) string {
 		}
 	case FrameType:
 		frame := FrameValue(d)
+		if inside.contains(frame) {
+			return "{...}"
+		}
+		inside = &enclosingFrames{frame, inside}
 		frame.Mutex.RLock()
 		keys := make([]string, 0, len(frame.Data))
 		for key, _ := range frame.Data {
@@ -1045,7 +1069,7 @@ func String(d *Data) string {
 		pairs := make([]string, 0, len(frame.Data))
 		for _, key := range keys {
 			val := frame.Data[key]
-			var valString string = String(val)
+			var valString string = stringInside(val, inside)
 			pairs = append(pairs, fmt.Sprintf("%s %s", key, valString))
 		}
 		frame.Mutex.RUnlock()
-- 
2.43.0


From acabcf402dcffbc57dc56b506aad2e6b2704646e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:22 +0000
Subject: [PATCH 31/77] fix: unquoting an absent value in a nested quasiquote
 keeps its place

---
 prim_macros.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/prim_macros.go b/prim_macros.go
index 7d4125d..612b398 100644
--- a/prim_macros.go
+++ b/prim_macros.go
@@ -46,6 +46,9 @@ func processQuasiquoted(sexpr *Data, level int, env *SymbolTableFrame) (result *
 			if err != nil {
 				return nil, err
 			}
+			if r == nil {
+				r = EmptyCons()
+			}
 			return Cons(r, nil), nil
 		} else {
 			processed, err := processQuasiquoted(Cadr(sexpr), level-1, env)
-- 
2.43.0


From c7efd71e754908a3d3311e6fc0dc80627e6cfddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:28 +0000
Subject: [PATCH 32/77] fix: comparing and copying frames that contain
 themselves terminates

---
 data.go | 52 ++++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 42 insertions(+), 10 deletions(-)

diff --git a/data.go b/data.go
index 78834f3..bb59bbb 100644
--- a/data.go
+++ b/data.go
@@ -765,7 +765,21 @@ func Dissoc(key *Data, alist *Data) (result *Data, err error) {
 	return newList, nil
 }
 
+// framePair relates a frame being processed to the frame it is copied to or
+// compared with.
+type framePair struct {
+	from  *FrameMap
+	to    *FrameMap
+	outer *framePair
+}
+
 func Copy(d *Data) *Data {
+	return copyInside(d, nil)
+}
+
+// copyInside copies a reference to a frame whose copy is being made, inside
+// that frame, as a reference to the copy.
+func copyInside(d *Data, inside *framePair) *Data {
 	if d == nil {
 		return d
 	}
@@ -773,9 +787,9 @@ func Copy(d *Data) *Data {
 	switch d.Type {
 	case AlistType:
 		{
-			alist := Acons(Copy(Caar(d)), Copy(Cdar(d)), nil)
+			alist := Acons(copyInside(Caar(d), inside), copyInside(Cdar(d), inside), nil)
 			for c := Cdr(d); NotNilP(c); c = Cdr(c) {
-				alist = Acons(Copy(Caar(c)), Copy(Cdar(c)), alist)
+				alist = Acons(copyInside(Caar(c), inside), copyInside(Cdar(c), inside), alist)
 			}
 			return alist
 		}
@@ -785,16 +799,22 @@ func Copy(d *Data) *Data {
 				return d
 			}
 
-			return Cons(Copy(Car(d)), Copy(Cdr(d)))
+			return Cons(copyInside(Car(d), inside), copyInside(Cdr(d), inside))
 		}
 	case FrameType:
 		{
+			frame := FrameValue(d)
+			for p := inside; p != nil; p = p.outer {
+				if p.from == frame {
+					return FrameWithValue(p.to)
+				}
+			}
 			m := FrameMap{}
 			m.Data = make(FrameMapData)
-			frame := FrameValue(d)
+			inside = &framePair{from: frame, to: &m, outer: inside}
 			frame.Mutex.RLock()
 			for k, v := range frame.Data {
-				m.Data[k] = Copy(v)
+				m.Data[k] = copyInside(v, inside)
 			}
 			frame.Mutex.RUnlock()
 			return FrameWithValue(&m)
@@ -813,6 +833,12 @@ func Copy(d *Data) *Data {
 }
 
 func IsEqual(d *Data, o *Data) bool {
+	return isEqualInside(d, o, nil)
+}
+
+// isEqualInside takes frames that are being compared with each other to be
+// equal where they occur again inside themselves.
+func isEqualInside(d *Data, o *Data, inside *framePair) bool {
 	if d == o && !FloatP(d) {
 		return true
 	}
@@ -843,7 +869,7 @@ func IsEqual(d *Data, o *Data) bool {
 		}
 		for c := d; NotNilP(c); c = Cdr(c) {
 			otherPair, err := Assoc(Caar(c), o)
-			if err != nil || NilP(otherPair) || !IsEqual(Cdar(c), Cdr(otherPair)) {
+			if err != nil || NilP(otherPair) || !isEqualInside(Cdar(c), Cdr(otherPair), inside) {
 				return false
 			}
 		}
@@ -851,7 +877,7 @@ func IsEqual(d *Data, o *Data) bool {
 	}
 
 	if DottedPairP(d) {
-		return IsEqual(Car(d), Car(o)) && IsEqual(Cdr(d), Cdr(o))
+		return isEqualInside(Car(d), Car(o), inside) && isEqualInside(Cdr(d), Cdr(o), inside)
 	}
 
 	if ListP(d) {
@@ -860,16 +886,22 @@ func IsEqual(d *Data, o *Data) bool {
 		}
 		a1, a2 := d, o
 		for ; ListP(a1) && ListP(a2) && NotNilP(a1) && NotNilP(a2); a1, a2 = Cdr(a1), Cdr(a2) {
-			if !IsEqual(Car(a1), Car(a2)) {
+			if !isEqualInside(Car(a1), Car(a2), inside) {
 				return false
 			}
 		}
-		return IsEqual(a1, a2)
+		return isEqualInside(a1, a2, inside)
 	}
 
 	if FrameP(d) {
 		frameD := FrameValue(d)
 		frameO := FrameValue(o)
+		for p := inside; p != nil; p = p.outer {
+			if p.from == frameD && p.to == frameO {
+				return true
+			}
+		}
+		inside = &framePair{from: frameD, to: frameO, outer: inside}
 		frameD.Mutex.RLock()
 		frameO.Mutex.RLock()
 		if len(frameD.Data) != len(frameO.Data) {
@@ -879,7 +911,7 @@ func IsEqual(d *Data, o *Data) bool {
 		}
 		for k, v := range frameD.Data {
 			other, found := frameO.Data[k]
-			if !found || !IsEqual(v, other) {
+			if !found || !isEqualInside(v, other, inside) {
 				frameO.Mutex.RUnlock()
 				frameD.Mutex.RUnlock()
 				return false
-- 
2.43.0


From bd6b2402ca039ed85272f731ffeecccf9b44612e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:35 +0000
Subject: [PATCH 33/77] fix: string-capitalize handles an empty string and a
 non-ASCII first character

---
 prim_string.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/prim_string.go b/prim_string.go
index 0e9fd84..7f34567 100644
--- a/prim_string.go
+++ b/prim_string.go
@@ -10,6 +10,7 @@ package golisp
 import (
 	"fmt"
 	"strings"
+	"unicode/utf8"
 )
 
 const (
@@ -183,8 +184,9 @@ func StringDowncaseBangImpl(args *Data, env *SymbolTableFrame) (result *Data, er
 }
 
 func capitalize(s string) string {
-	firstChar := s[0:1]
-	remainingChars := s[1:]
+	_, size := utf8.DecodeRuneInString(s)
+	firstChar := s[:size]
+	remainingChars := s[size:]
 	parts := make([]string, 0, 2)
 	parts = append(parts, strings.ToUpper(firstChar))
 	parts = append(parts, strings.ToLower(remainingChars))
-- 
2.43.0


From 2683395b596307a9fcaa63d269c2bc4c3b255676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:43 +0000
Subject: [PATCH 34/77] fix: substring rejects a negative start instead of
 crashing

---
 prim_string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prim_string.go b/prim_string.go
index 7f34567..7c02598 100644
--- a/prim_string.go
+++ b/prim_string.go
@@ -247,7 +247,7 @@ func SubstringImpl(args *Data, env *SymbolTableFrame) (result *Data, err error)
 		return
 	}
 	startValue := int(IntegerValue(startObj))
-	if startValue > len(stringValue) {
+	if startValue < 0 || startValue > len(stringValue) {
 		err = ProcessError(fmt.Sprintf("substring requires start < length of the string."), env)
 		return
 	}
-- 
2.43.0


From 3d7c833528d4346bef350ba4f562e9834033d27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:49 +0000
Subject: [PATCH 35/77] fix: copying a structure copies the strings in it,
 which can be changed in place

---
 data.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/data.go b/data.go
index bb59bbb..2445a3b 100644
--- a/data.go
+++ b/data.go
@@ -801,6 +801,8 @@ func copyInside(d *Data, inside *framePair) *Data {
 
 			return Cons(copyInside(Car(d), inside), copyInside(Cdr(d), inside))
 		}
+	case StringType:
+		return StringWithValue(StringValue(d))
 	case FrameType:
 		{
 			frame := FrameValue(d)
-- 
2.43.0


From 4478262b4b75c48b7adc37863068b15b01488933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:26 +0000
Subject: [PATCH 36/77] fix: a format directive cut short by the end of the
 control string is an error instead of a crash

---
 prim_io.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/prim_io.go b/prim_io.go
index b2c919b..da62d11 100644
--- a/prim_io.go
+++ b/prim_io.go
@@ -222,19 +222,28 @@ func FormatImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	var padding string
 	var n int64
 
+	// at the end of the control string there is no character: a directive that
+	// is cut short there is not supported
+	charAt := func(index int) byte {
+		if index < len(controlString) {
+			return controlString[index]
+		}
+		return 0
+	}
+
 	for i < len(controlString) {
 		if controlString[i] == '~' { // start of a substitution
 			parts = append(parts, controlString[start:i])
 			i++
 			start = i
-			for unicode.IsDigit(rune(controlString[i])) {
+			for unicode.IsDigit(rune(charAt(i))) {
 				i++
 			}
 			if i == start {
-				if controlString[i] == '#' {
+				if charAt(i) == '#' {
 					numericArg = Length(arguments)
 					i++
-				} else if controlString[i] == 'V' || controlString[i] == 'v' {
+				} else if charAt(i) == 'V' || charAt(i) == 'v' {
 					if IntegerP(Car(arguments)) {
 						numericArg = int(IntegerValue(Car(arguments)))
 						arguments = Cdr(arguments)
@@ -253,11 +262,11 @@ func FormatImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 				}
 				numericArg = int(n)
 			}
-			if controlString[i] == '@' {
+			if charAt(i) == '@' {
 				atModifier = true
 				i++
 			}
-			switch controlString[i] {
+			switch charAt(i) {
 			case 'A', 'a':
 				substitution = PrintString(Car(arguments))
 				if len(substitution) < numericArg {
-- 
2.43.0


From 9072ca82763c145dee7e5224c7540ef6830d869b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:32 +0000
Subject: [PATCH 37/77] fix: the @ of a format directive affects that directive
 only

---
 prim_io.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prim_io.go b/prim_io.go
index da62d11..c156af4 100644
--- a/prim_io.go
+++ b/prim_io.go
@@ -262,8 +262,8 @@ func FormatImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 				}
 				numericArg = int(n)
 			}
-			if charAt(i) == '@' {
-				atModifier = true
+			atModifier = charAt(i) == '@'
+			if atModifier {
 				i++
 			}
 			switch charAt(i) {
-- 
2.43.0


From d29944d30bfb1241b82ea53adb3df8634e673d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:40 +0000
Subject: [PATCH 38/77] fix: a format directive without an argument left is an
 error

---
 prim_io.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/prim_io.go b/prim_io.go
index c156af4..a9029d6 100644
--- a/prim_io.go
+++ b/prim_io.go
@@ -268,6 +268,10 @@ func FormatImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 			}
 			switch charAt(i) {
 			case 'A', 'a':
+				if Length(arguments) == 0 {
+					err = ProcessError("number of replacements in the control string and number of arguments must be equal", env)
+					return
+				}
 				substitution = PrintString(Car(arguments))
 				if len(substitution) < numericArg {
 					padding = strings.Repeat(" ", numericArg-len(substitution))
@@ -285,6 +289,10 @@ func FormatImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 				start = i + 1
 
 			case 'S', 's':
+				if Length(arguments) == 0 {
+					err = ProcessError("number of replacements in the control string and number of arguments must be equal", env)
+					return
+				}
 				substitution = String(Car(arguments))
 				if len(substitution) < numericArg {
 					padding = strings.Repeat(" ", numericArg-len(substitution))
-- 
2.43.0


From b19a7f3d5fdbd586db9a830d58606fcb9acbd6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:47 +0000
Subject: [PATCH 39/77] fix: extract-bytes rejects a count so large that it
 overflows

---
 prim_bytearray.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prim_bytearray.go b/prim_bytearray.go
index f0f3bad..5ce8f03 100644
--- a/prim_bytearray.go
+++ b/prim_bytearray.go
@@ -262,7 +262,7 @@ func ExtractBytesImpl(args *Data, env *SymbolTableFrame) (result *Data, err erro
 		err = ProcessError("Number to extract can not be negative.", env)
 		return
 	}
-	if index+numToExtract > len(*dataBytes) {
+	if numToExtract > len(*dataBytes)-index {
 		err = ProcessError(fmt.Sprintf("extract-bytes final index was out of range.  Was %d but bytearray has length of %d.", index+numToExtract-1, len(*dataBytes)), env)
 		return
 	}
-- 
2.43.0


From f803440cf599d074df5c4be592303c6a21653011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:18 +0000
Subject: [PATCH 40/77] fix: converting a frame to JSON keeps colons that
 belong to a key

---
 json_frame_support.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_frame_support.go b/json_frame_support.go
index f368677..180889a 100644
--- a/json_frame_support.go
+++ b/json_frame_support.go
@@ -239,7 +239,7 @@ func LispWithFramesToJson(d *Data) (result interface{}) {
 		frame.Mutex.RLock()
 		for k, v := range frame.Data {
 			if !FunctionP(v) {
-				dict[strings.TrimRight(k, ":")] = LispWithFramesToJson(v)
+				dict[strings.TrimSuffix(k, ":")] = LispWithFramesToJson(v)
 			}
 		}
 		frame.Mutex.RUnlock()
-- 
2.43.0


From 6601c60c0389a7a368377da293e010236bd1e075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:25 +0000
Subject: [PATCH 41/77] fix: converting alists to JSON keeps floats and
 booleans

---
 json_support.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/json_support.go b/json_support.go
index 06d837d..838474b 100644
--- a/json_support.go
+++ b/json_support.go
@@ -76,10 +76,18 @@ func LispToJson(d *Data) (result interface{}) {
 		return IntegerValue(d)
 	}
 
+	if FloatP(d) {
+		return FloatValue(d)
+	}
+
 	if StringP(d) || SymbolP(d) {
 		return StringValue(d)
 	}
 
+	if BooleanP(d) {
+		return BooleanValue(d)
+	}
+
 	if PairP(d) {
 		ary := make([]interface{}, 0, Length(d))
 		for c := d; NotNilP(c); c = Cdr(c) {
-- 
2.43.0


From 73c9b680cfcadc152c29e20c10c6a25121127cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:31 +0000
Subject: [PATCH 42/77] fix: a null does not disappear from an array converted
 from JSON

---
 json_frame_support.go | 3 +++
 json_support.go       | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/json_frame_support.go b/json_frame_support.go
index 180889a..62a4239 100644
--- a/json_frame_support.go
+++ b/json_frame_support.go
@@ -149,6 +149,9 @@ func jsonToLispWithFramesReflect(rv reflect.Value) *Data {
 			for i := 0; i < rv.Len(); i++ {
 				val := rv.Index(i)
 				value := jsonToLispWithFramesReflect(val)
+				if value == nil { // a null is still an element
+					value = EmptyCons()
+				}
 				ary = Cons(value, ary)
 			}
 			return Reverse(ary)
diff --git a/json_support.go b/json_support.go
index 838474b..04f60f2 100644
--- a/json_support.go
+++ b/json_support.go
@@ -30,6 +30,9 @@ func JsonToLisp(json interface{}) (result *Data) {
 		var ary *Data
 		for _, val := range arrayValue {
 			value := JsonToLisp(val)
+			if value == nil { // a null is still an element
+				value = EmptyCons()
+			}
 			ary = Cons(value, ary)
 		}
 		return Reverse(ary)
-- 
2.43.0


From d28483c743dc05b60ca71062e3cc12f60ef83f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:01 +0000
Subject: [PATCH 43/77] fix: numbers converted from JSON keep all their digits,
 and out-of-range ones become floats

---
 json_frame_support.go | 15 +++++--------
 json_support.go       | 49 ++++++++++++++++++++++++++++++++++++-------
 2 files changed, 46 insertions(+), 18 deletions(-)

diff --git a/json_frame_support.go b/json_frame_support.go
index 62a4239..2930eae 100644
--- a/json_frame_support.go
+++ b/json_frame_support.go
@@ -10,7 +10,6 @@ package golisp
 import (
 	"encoding/json"
 	"fmt"
-	"math"
 	"reflect"
 	"strings"
 )
@@ -163,13 +162,11 @@ func jsonToLispWithFramesReflect(rv reflect.Value) *Data {
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
 		return IntegerWithValue(int64(rv.Uint()))
 	case reflect.Float32, reflect.Float64:
-		floatValue := rv.Float()
-		if math.Trunc(floatValue) == floatValue {
-			return IntegerWithValue(int64(floatValue))
-		} else {
-			return FloatWithValue(float32(floatValue))
-		}
+		return jsonFloatToLisp(rv.Float())
 	case reflect.String:
+		if rt == reflect.TypeOf(json.Number("")) {
+			return jsonNumberToLisp(json.Number(rv.String()))
+		}
 		return StringWithValue(rv.String())
 	case reflect.Bool:
 		return BooleanWithValue(rv.Bool())
@@ -187,9 +184,7 @@ func JsonToLispWithFrames(data interface{}) *Data {
 }
 
 func JsonStringToLispWithFrames(jsonData string) (result *Data) {
-	b := []byte(jsonData)
-	var data interface{}
-	err := json.Unmarshal(b, &data)
+	data, err := unmarshalJson(jsonData)
 	if err != nil {
 		fmt.Printf("Returning empty frame because of badly formed json: '%s'\n --> %v\n", jsonData, err)
 		m := FrameMap{}
diff --git a/json_support.go b/json_support.go
index 04f60f2..246cae2 100644
--- a/json_support.go
+++ b/json_support.go
@@ -11,9 +11,43 @@ import (
 	"encoding/json"
 	"errors"
 	"fmt"
+	"io"
 	"math"
+	"strings"
 )
 
+type jsonNumber = json.Number
+
+// unmarshalJson keeps the numbers as they are written.
+func unmarshalJson(jsonData string) (data interface{}, err error) {
+	decoder := json.NewDecoder(strings.NewReader(jsonData))
+	decoder.UseNumber()
+	if err = decoder.Decode(&data); err != nil {
+		return
+	}
+	if _, end := decoder.Token(); end != io.EOF {
+		err = errors.New("unexpected text after the json value")
+	}
+	return
+}
+
+// jsonFloatToLisp makes an integer of a number without a fraction, provided
+// that it is in the range of integers.
+func jsonFloatToLisp(value float64) *Data {
+	if math.Trunc(value) == value && value >= math.MinInt64 && value < math.MaxInt64 {
+		return IntegerWithValue(int64(value))
+	}
+	return FloatWithValue(float32(value))
+}
+
+func jsonNumberToLisp(number json.Number) *Data {
+	if n, err := number.Int64(); err == nil {
+		return IntegerWithValue(n)
+	}
+	value, _ := number.Float64()
+	return jsonFloatToLisp(value)
+}
+
 func JsonToLisp(json interface{}) (result *Data) {
 	mapValue, ok := json.(map[string]interface{})
 	if ok {
@@ -40,11 +74,12 @@ func JsonToLisp(json interface{}) (result *Data) {
 
 	numValue, ok := json.(float64)
 	if ok {
-		if math.Trunc(numValue) == numValue {
-			return IntegerWithValue(int64(numValue))
-		} else {
-			return FloatWithValue(float32(numValue))
-		}
+		return jsonFloatToLisp(numValue)
+	}
+
+	numText, ok := json.(jsonNumber)
+	if ok {
+		return jsonNumberToLisp(numText)
 	}
 
 	strValue, ok := json.(string)
@@ -61,9 +96,7 @@ func JsonToLisp(json interface{}) (result *Data) {
 }
 
 func JsonStringToLisp(jsonData string) (result *Data) {
-	b := []byte(jsonData)
-	var data interface{}
-	err := json.Unmarshal(b, &data)
+	data, err := unmarshalJson(jsonData)
 	if err != nil {
 		panic(errors.New(fmt.Sprintf("Badly formed json: '%s'", jsonData)))
 	}
-- 
2.43.0


From e28b17537fb847b1ea75121a00114e8e312d3a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:07 +0000
Subject: [PATCH 44/77] fix: converting a frame that contains itself to JSON
 terminates

---
 json_frame_support.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/json_frame_support.go b/json_frame_support.go
index 2930eae..f3e6771 100644
--- a/json_frame_support.go
+++ b/json_frame_support.go
@@ -195,6 +195,12 @@ func JsonStringToLispWithFrames(jsonData string) (result *Data) {
 }
 
 func LispWithFramesToJson(d *Data) (result interface{}) {
+	return lispToJsonInside(d, nil)
+}
+
+// lispToJsonInside leaves out a frame that occurs again inside itself, like
+// other values that have no representation in JSON.
+func lispToJsonInside(d *Data, inside *framePair) (result interface{}) {
 	if d == nil {
 		return ""
 	}
@@ -218,7 +224,7 @@ func LispWithFramesToJson(d *Data) (result interface{}) {
 	if PairP(d) {
 		ary := make([]interface{}, 0, Length(d))
 		for c := d; NotNilP(c); c = Cdr(c) {
-			ary = append(ary, LispWithFramesToJson(Car(c)))
+			ary = append(ary, lispToJsonInside(Car(c), inside))
 		}
 		return ary
 	}
@@ -234,10 +240,16 @@ func LispWithFramesToJson(d *Data) (result interface{}) {
 	if FrameP(d) {
 		dict := make(map[string]interface{}, Length(d))
 		frame := FrameValue(d)
+		for p := inside; p != nil; p = p.outer {
+			if p.from == frame {
+				return ""
+			}
+		}
+		inside = &framePair{from: frame, outer: inside}
 		frame.Mutex.RLock()
 		for k, v := range frame.Data {
 			if !FunctionP(v) {
-				dict[strings.TrimSuffix(k, ":")] = LispWithFramesToJson(v)
+				dict[strings.TrimSuffix(k, ":")] = lispToJsonInside(v, inside)
 			}
 		}
 		frame.Mutex.RUnlock()
-- 
2.43.0


From 2c2cb09038ba3f8676c61dc72eef3bdefcc035a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:06 +0000
Subject: [PATCH 45/77] fix: the JSON text null converts to an empty value
 instead of crashing

---
 json_frame_support.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_frame_support.go b/json_frame_support.go
index f3e6771..8d71e1c 100644
--- a/json_frame_support.go
+++ b/json_frame_support.go
@@ -191,7 +191,7 @@ func JsonStringToLispWithFrames(jsonData string) (result *Data) {
 		m.Data = make(FrameMapData, 0)
 		return FrameWithValue(&m)
 	}
-	return jsonToLispWithFramesReflect(reflect.ValueOf(data))
+	return JsonToLispWithFrames(data)
 }
 
 func LispWithFramesToJson(d *Data) (result interface{}) {
-- 
2.43.0


From 24ed3a5e71a9aa45a8342ecd3f04d891f8a0bf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:21 +0000
Subject: [PATCH 46/77] fix: flattening a list with a dotted pair inside is an
 error instead of an endless loop

---
 data.go | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/data.go b/data.go
index 2445a3b..3d1cc01 100644
--- a/data.go
+++ b/data.go
@@ -679,12 +679,20 @@ func Flatten(d *Data) (result *Data, err error) {
 
 	var l []*Data = make([]*Data, 0, 10)
 	for c := d; NotNilP(c); c = Cdr(c) {
-		if ListP(Car(c)) {
-			for i := Car(c); i == Car(c) || NotNilP(i); i = Cdr(i) {
+		if !ListP(c) {
+			return nil, errors.New(fmt.Sprintf("flatten requires a proper list, but got %s.", String(d)))
+		}
+		if elem := Car(c); NilP(elem) {
+			l = append(l, nil)
+		} else if ListP(elem) {
+			for i := elem; NotNilP(i); i = Cdr(i) {
+				if !ListP(i) {
+					return nil, errors.New(fmt.Sprintf("flatten requires a proper list, but got %s.", String(elem)))
+				}
 				l = append(l, Car(i))
 			}
 		} else {
-			l = append(l, Car(c))
+			l = append(l, elem)
 		}
 	}
 
@@ -703,12 +711,17 @@ func RecursiveFlatten(d *Data) (result *Data, err error) {
 	var l []*Data = make([]*Data, 0, 10)
 	var elem *Data
 	for c := d; NotNilP(c); c = Cdr(c) {
-		if ListP(Car(c)) {
+		if !ListP(c) {
+			return nil, errors.New(fmt.Sprintf("flatten* requires a proper list, but got %s.", String(d)))
+		}
+		if NilP(Car(c)) {
+			l = append(l, nil)
+		} else if ListP(Car(c)) {
 			elem, err = RecursiveFlatten(Car(c))
 			if err != nil {
 				return
 			}
-			for i := elem; i == elem || NotNilP(i); i = Cdr(i) {
+			for i := elem; NotNilP(i); i = Cdr(i) {
 				l = append(l, Car(i))
 			}
 		} else {
-- 
2.43.0


From ee38af8941d07bab6b0cb5255152bbc570b20f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:39 +0000
Subject: [PATCH 47/77] fix: set-nth! outside the list changes nothing and
 needs an integer index

---
 list_access.go   | 5 ++++-
 prim_mutators.go | 4 ++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/list_access.go b/list_access.go
index e38ba14..7590668 100644
--- a/list_access.go
+++ b/list_access.go
@@ -136,9 +136,12 @@ func Tenth(d *Data) *Data {
 }
 
 func SetNth(list *Data, index int, value *Data) *Data {
+	if index < 1 || index > Length(list) {
+		return value
+	}
 	for i := index; i > 1; list, i = Cdr(list), i-1 {
 	}
-	if !NilP(list) {
+	if ListP(list) && !NilP(list) {
 		ConsValue(list).Car = value
 	}
 
diff --git a/prim_mutators.go b/prim_mutators.go
index dc5e7d8..4dd897a 100644
--- a/prim_mutators.go
+++ b/prim_mutators.go
@@ -80,6 +80,10 @@ func SetNthImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	if err != nil {
 		return
 	}
+	if !IntegerP(index) {
+		err = ProcessError("set-nth! requires an integer as it's second argument.", env)
+		return
+	}
 	value, err := Eval(Third(args), env)
 	if err != nil {
 		return
-- 
2.43.0


From 24d37d3dd4a894c479bcd02509ba24757a79adb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:09 +0000
Subject: [PATCH 48/77] fix: environment-assign! does not replace protected
 bindings

---
 prim_environment.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/prim_environment.go b/prim_environment.go
index bb592b3..6449c43 100644
--- a/prim_environment.go
+++ b/prim_environment.go
@@ -7,6 +7,10 @@
 
 package golisp
 
+import (
+	"fmt"
+)
+
 func RegisterEnvironmentPrimitives() {
 	MakePrimitiveFunction("environment?", "1", EnvironmentPImpl)
 	MakePrimitiveFunction("environment-has-parent?", "1", EnvironmentParentPImpl)
@@ -246,6 +250,10 @@ func EnvironmentAssignBangImpl(args *Data, env *SymbolTableFrame) (result *Data,
 	localEnv := EnvironmentValue(Car(args))
 	binding, found := localEnv.FindBindingFor(Cadr(args))
 	if found {
+		if binding.Protected {
+			err = ProcessError(fmt.Sprintf("environment-assign!: %s is a protected binding", StringValue(Cadr(args))), env)
+			return
+		}
 		result = Caddr(args)
 		binding.Val = result
 	}
-- 
2.43.0


From 24900686024d4ed9eeb88794ab09a48e2f0a26aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:55 +0000
Subject: [PATCH 49/77] fix: procedure-environment does not let code leave a
 restricted environment

---
 prim_environment.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/prim_environment.go b/prim_environment.go
index 6449c43..ff20442 100644
--- a/prim_environment.go
+++ b/prim_environment.go
@@ -373,7 +373,13 @@ func ProcedureEnvironmentImpl(args *Data, env *SymbolTableFrame) (result *Data,
 		return
 	}
 
-	return EnvironmentWithValue(FunctionValue(Car(args)).Env), nil
+	procEnv := FunctionValue(Car(args)).Env
+	if env.IsRestricted && (procEnv == nil || !procEnv.IsRestricted) {
+		err = ProcessError("procedure-environment of a function from an unrestricted environment is not available in a restricted environment", env)
+		return
+	}
+
+	return EnvironmentWithValue(procEnv), nil
 }
 
 func RestrictEnvironmentImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
-- 
2.43.0


From e95ef61d5496ffa6f3cb9a51329f13a0598a8f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:54 +0000
Subject: [PATCH 50/77] fix: find and find-tail pass on the error of their
 predicate

---
 prim_list_functions.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/prim_list_functions.go b/prim_list_functions.go
index 4aba735..f1d2d07 100644
--- a/prim_list_functions.go
+++ b/prim_list_functions.go
@@ -434,7 +434,9 @@ func FindTailImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	var found *Data
 	for c := l; NotNilP(c); c = Cdr(c) {
 		found, err = ApplyWithoutEval(f, InternalMakeList(Car(c)), env)
-
+		if err != nil {
+			return
+		}
 		if !BooleanP(found) {
 			err = ProcessError("find-tail needs a predicate function as its first argument.", env)
 			return
@@ -463,6 +465,9 @@ func FindImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	var found *Data
 	for c := l; NotNilP(c); c = Cdr(c) {
 		found, err = ApplyWithoutEval(f, InternalMakeList(Car(c)), env)
+		if err != nil {
+			return
+		}
 		if !BooleanP(found) {
 			err = ProcessError("find needs a predicate function as its first argument.", env)
 			return
-- 
2.43.0


From 67df9308ecfe1585663f412418846bc8725a53de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:53 +0000
Subject: [PATCH 51/77] fix: every process has its own copy of the function it
 runs, and can tell that it is itself

---
 function.go         | 15 +++++++++++++++
 prim_concurrency.go | 45 ++++++++++++++++++++++++++++++++++-----------
 2 files changed, 49 insertions(+), 11 deletions(-)

diff --git a/function.go b/function.go
index 348362d..dec7a03 100644
--- a/function.go
+++ b/function.go
@@ -45,6 +45,21 @@ func MakeFunction(name string, params *Data, body *Data, parentEnv *SymbolTableF
 	return &Function{Name: name, Params: params, VarArgs: varArgs, RequiredArgCount: requiredArgs, Body: body, Env: parentEnv, SlotFunction: 0}
 }
 
+// belongingTo returns a copy of the function to be run by the given process.
+// The function itself can be run by any number of processes at a time.
+func (self *Function) belongingTo(proc *Process) *Function {
+	return &Function{
+		Name:             self.Name,
+		Params:           self.Params,
+		VarArgs:          self.VarArgs,
+		RequiredArgCount: self.RequiredArgCount,
+		Body:             self.Body,
+		Env:              self.Env,
+		DebugOnEntry:     self.DebugOnEntry,
+		SlotFunction:     atomic.LoadInt32(&self.SlotFunction),
+		ParentProcess:    proc}
+}
+
 func (self *Function) String() string {
 	return fmt.Sprintf("<func: %s>", self.Name)
 }
diff --git a/prim_concurrency.go b/prim_concurrency.go
index f423be9..649115a 100644
--- a/prim_concurrency.go
+++ b/prim_concurrency.go
@@ -76,7 +76,7 @@ func ForkImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 		ReturnValue: make(chan *Data, 1)}
 	procObj := ObjectWithTypeAndValue("Process", unsafe.Pointer(proc))
 
-	function.ParentProcess = proc
+	function = function.belongingTo(proc)
 
 	go func() {
 		var returnValue *Data
@@ -174,7 +174,7 @@ func ScheduleImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 		ScheduleTimer: time.NewTimer(time.Duration(IntegerValue(millis)) * time.Millisecond)}
 	procObj := ObjectWithTypeAndValue("Process", unsafe.Pointer(proc))
 
-	function.ParentProcess = proc
+	function = function.belongingTo(proc)
 
 	go func() {
 		var returnValue *Data
@@ -250,6 +250,34 @@ func ResetTimeoutImpl(args *Data, env *SymbolTableFrame) (result *Data, err erro
 	return StringWithValue(str), nil
 }
 
+// currentProcess returns the process that is evaluating code in env, nil if
+// there is none: the process of the nearest call of a forked or scheduled
+// function.
+func currentProcess(env *SymbolTableFrame) *Process {
+	parentProcSym := Intern("parentProcess")
+	processIn := func(val *Data) *Process {
+		if NotNilP(val) && ObjectP(val) && ObjectType(val) == "Process" {
+			return (*Process)(ObjectValue(val))
+		}
+		return nil
+	}
+
+	for e := env; e != nil; {
+		if binding, found := e.findBindingInLocalFrameFor(parentProcSym); found {
+			if proc := processIn(binding.Val); proc != nil {
+				return proc
+			}
+		}
+		if e.Previous != nil {
+			e = e.Previous
+		} else {
+			e = e.Parent
+		}
+	}
+
+	return processIn(env.ValueOf(parentProcSym))
+}
+
 func JoinImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	procObj := Car(args)
 
@@ -260,15 +288,10 @@ func JoinImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	proc := (*Process)(ObjectValue(procObj))
 
 	// Check for early exit if joining on the current proc
-	parentProcData := env.ValueOf(SymbolWithName("parentProcess"))
-	if NotNilP(parentProcData) && ObjectP(parentProcData) && ObjectType(parentProcData) == "Process" {
-		parentProc := (*Process)(ObjectValue(parentProcData))
-
-		if proc == parentProc {
-			// Oh no, we're in our own process!  Bail out!
-			// But we want it to complete, so we're not treating it as an error
-			return nil, nil
-		}
+	if proc == currentProcess(env) {
+		// Oh no, we're in our own process!  Bail out!
+		// But we want it to complete, so we're not treating it as an error
+		return nil, nil
 	}
 
 	if atomic.CompareAndSwapInt32(&proc.Joined, 0, 1) {
-- 
2.43.0


From e0d06be21e1b41b61255901c4f01c8632beb7c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:16 +0000
Subject: [PATCH 52/77] fix: a channel size too big for the machine is an error
 instead of a crash

---
 prim_channel.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/prim_channel.go b/prim_channel.go
index 44d65f2..deb0f67 100644
--- a/prim_channel.go
+++ b/prim_channel.go
@@ -47,7 +47,17 @@ func MakeChannelImpl(args *Data, env *SymbolTableFrame) (result *Data, err error
 			return
 		}
 
-		c = make(Channel, int(channelLength))
+		func() {
+			defer func() {
+				if e := recover(); e != nil {
+					err = ProcessError(fmt.Sprintf("channel size is too big; got %d.", channelLength), env)
+				}
+			}()
+			c = make(Channel, int(channelLength))
+		}()
+		if err != nil {
+			return
+		}
 	} else {
 		c = make(Channel)
 	}
-- 
2.43.0


From 7aa951dbc54fc5d46ba8d493cbfec8fb72a1dd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:47 +0000
Subject: [PATCH 53/77] fix: listing the bindings of an environment is safe
 while others are defined

---
 prim_environment.go   |  6 +++---
 symbol_table_frame.go | 12 ++++++++++++
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/prim_environment.go b/prim_environment.go
index ff20442..c285ceb 100644
--- a/prim_environment.go
+++ b/prim_environment.go
@@ -69,7 +69,7 @@ func EnvironmentBoundNamesImpl(args *Data, env *SymbolTableFrame) (result *Data,
 	}
 	e := EnvironmentValue(Car(args))
 	keys := make([]*Data, 0, 0)
-	for _, val := range e.Bindings {
+	for _, val := range e.allBindings() {
 		keys = append(keys, val.Sym)
 	}
 	return ArrayToList(keys), nil
@@ -82,7 +82,7 @@ func EnvironmentMacroNamesImpl(args *Data, env *SymbolTableFrame) (result *Data,
 	}
 	e := EnvironmentValue(Car(args))
 	keys := make([]*Data, 0, 0)
-	for _, val := range e.Bindings {
+	for _, val := range e.allBindings() {
 		if MacroP(val.Val) {
 			keys = append(keys, val.Sym)
 		}
@@ -97,7 +97,7 @@ func EnvironmentBindingsImpl(args *Data, env *SymbolTableFrame) (result *Data, e
 	}
 	e := EnvironmentValue(Car(args))
 	keys := make([]*Data, 0, 0)
-	for _, val := range e.Bindings {
+	for _, val := range e.allBindings() {
 		if NilP(val.Val) {
 			keys = append(keys, InternalMakeList(val.Sym))
 		} else {
diff --git a/symbol_table_frame.go b/symbol_table_frame.go
index 9367a16..e138311 100644
--- a/symbol_table_frame.go
+++ b/symbol_table_frame.go
@@ -169,6 +169,18 @@ func (self *SymbolTableFrame) BindingNamed(name string) (b *Binding, present boo
 	return
 }
 
+// allBindings returns the bindings of this frame; others may be added and
+// removed while the caller goes through them.
+func (self *SymbolTableFrame) allBindings() []*Binding {
+	self.Mutex.RLock()
+	defer self.Mutex.RUnlock()
+	bindings := make([]*Binding, 0, len(self.Bindings))
+	for _, b := range self.Bindings {
+		bindings = append(bindings, b)
+	}
+	return bindings
+}
+
 func (self *SymbolTableFrame) SetBindingAt(name string, b *Binding) {
 	self.Mutex.Lock()
 	self.Bindings[name] = b
-- 
2.43.0


From 71ca2ccbb598c0a44a876e3d6fd20e001eba0e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:14 +0000
Subject: [PATCH 54/77] fix: a frame is not locked while others are being
 locked, so that sharing frames between processes cannot deadlock

---
 data.go               |  30 ++++--------
 frame.go              | 107 ++++++++++++++++++++----------------------
 json_frame_support.go |   4 +-
 prim_frame.go         |   4 +-
 4 files changed, 64 insertions(+), 81 deletions(-)

diff --git a/data.go b/data.go
index 3d1cc01..20af51c 100644
--- a/data.go
+++ b/data.go
@@ -827,11 +827,9 @@ func copyInside(d *Data, inside *framePair) *Data {
 			m := FrameMap{}
 			m.Data = make(FrameMapData)
 			inside = &framePair{from: frame, to: &m, outer: inside}
-			frame.Mutex.RLock()
-			for k, v := range frame.Data {
+			for k, v := range frame.slots() {
 				m.Data[k] = copyInside(v, inside)
 			}
-			frame.Mutex.RUnlock()
 			return FrameWithValue(&m)
 		}
 	case BoxedObjectType:
@@ -917,23 +915,16 @@ func isEqualInside(d *Data, o *Data, inside *framePair) bool {
 			}
 		}
 		inside = &framePair{from: frameD, to: frameO, outer: inside}
-		frameD.Mutex.RLock()
-		frameO.Mutex.RLock()
-		if len(frameD.Data) != len(frameO.Data) {
-			frameO.Mutex.RUnlock()
-			frameD.Mutex.RUnlock()
+		slotsD, slotsO := frameD.slots(), frameO.slots()
+		if len(slotsD) != len(slotsO) {
 			return false
 		}
-		for k, v := range frameD.Data {
-			other, found := frameO.Data[k]
+		for k, v := range slotsD {
+			other, found := slotsO[k]
 			if !found || !isEqualInside(v, other, inside) {
-				frameO.Mutex.RUnlock()
-				frameD.Mutex.RUnlock()
 				return false
 			}
 		}
-		frameO.Mutex.RUnlock()
-		frameD.Mutex.RUnlock()
 		return true
 	}
 
@@ -1106,20 +1097,19 @@ func stringInside(d *Data, inside *enclosingFrames) string {
 			return "{...}"
 		}
 		inside = &enclosingFrames{frame, inside}
-		frame.Mutex.RLock()
-		keys := make([]string, 0, len(frame.Data))
-		for key, _ := range frame.Data {
+		slots := frame.slots()
+		keys := make([]string, 0, len(slots))
+		for key, _ := range slots {
 			keys = append(keys, key)
 		}
 		sort.Strings(keys)
 
-		pairs := make([]string, 0, len(frame.Data))
+		pairs := make([]string, 0, len(slots))
 		for _, key := range keys {
-			val := frame.Data[key]
+			val := slots[key]
 			var valString string = stringInside(val, inside)
 			pairs = append(pairs, fmt.Sprintf("%s %s", key, valString))
 		}
-		frame.Mutex.RUnlock()
 		return fmt.Sprintf("{%s}", strings.Join(pairs, " "))
 	case EnvironmentType:
 		return fmt.Sprintf("<environment: %s>", EnvironmentValue(d).Name)
diff --git a/frame.go b/frame.go
index 88d6ae0..40933cc 100644
--- a/frame.go
+++ b/frame.go
@@ -38,16 +38,6 @@ func isParentKey(key string) bool {
 	return strings.HasSuffix(key, "*:")
 }
 
-func (self *FrameMap) hasParentSlots() bool {
-	for k, _ := range self.Data {
-		if isParentKey(k) {
-			return true
-		}
-	}
-
-	return false
-}
-
 func (self *FrameMap) Parents() []*FrameMap {
 	parents := make([]*FrameMap, 0, 0)
 	for k, v := range self.Data {
@@ -60,72 +50,79 @@ func (self *FrameMap) Parents() []*FrameMap {
 
 //------------------------------------------------------------
 
-func (self *FrameMap) hasSlotHelper(key string, v *set.Set) bool {
-	if v.Has(self) {
-		return false
-	}
-
-	v.Add(self)
-
-	if self.hasSlotLocally(key) {
-		return true
-	}
-
-	if !self.hasParentSlots() {
-		return false
-	}
-
-	for _, p := range self.Parents() {
-		p.Mutex.RLock()
-		hasSlot := p.hasSlotHelper(key, v)
-		p.Mutex.RUnlock()
-		if hasSlot {
-			return true
-		}
+// slots returns the slots the frame has at this moment. The frame is not locked
+// any more when the caller works with them: it may need the locks of other
+// frames, or this one's again.
+func (self *FrameMap) slots() FrameMapData {
+	self.Mutex.RLock()
+	defer self.Mutex.RUnlock()
+	slots := make(FrameMapData, len(self.Data))
+	for k, v := range self.Data {
+		slots[k] = v
 	}
+	return slots
+}
 
-	return false
+// currentParents returns the parents the frame has at this moment.
+func (self *FrameMap) currentParents() []*FrameMap {
+	self.Mutex.RLock()
+	defer self.Mutex.RUnlock()
+	return self.Parents()
 }
 
-func (self *FrameMap) HasSlot(key string) (ret bool) {
-	visited := set.New()
+// slotOrParents returns the frame's own slot or, if it has none, its parents.
+func (self *FrameMap) slotOrParents(key string) (val *Data, found bool, parents []*FrameMap) {
 	self.Mutex.RLock()
-	ret = self.hasSlotHelper(key, visited)
-	self.Mutex.RUnlock()
+	defer self.Mutex.RUnlock()
+	val, found = self.Data[key]
+	if !found {
+		parents = self.Parents()
+	}
 	return
 }
 
-//------------------------------------------------------------
-
-func (self *FrameMap) getHelper(key string, v *set.Set) *Data {
+func (self *FrameMap) lookupHelper(key string, v *set.Set) (val *Data, found bool) {
 	if v.Has(self) {
-		return nil
+		return nil, false
 	}
 
 	v.Add(self)
 
-	val, ok := self.Data[key]
-	if ok {
-		return val
+	val, found, parents := self.slotOrParents(key)
+	if found {
+		return
 	}
 
-	for _, p := range self.Parents() {
-		p.Mutex.RLock()
-		val := p.getHelper(key, v)
-		p.Mutex.RUnlock()
-		if val != nil {
-			return val
+	for _, p := range parents {
+		parentVal, inParent := p.lookupHelper(key, v)
+		if inParent {
+			found = true
+			if parentVal != nil {
+				return parentVal, true
+			}
 		}
 	}
 
-	return nil
+	return nil, found
+}
+
+// lookup returns the value of the slot, its own or an inherited one, and
+// whether there is one.
+func (self *FrameMap) lookup(key string) (val *Data, found bool) {
+	return self.lookupHelper(key, set.New())
 }
 
+//------------------------------------------------------------
+
+func (self *FrameMap) HasSlot(key string) (ret bool) {
+	_, ret = self.lookup(key)
+	return
+}
+
+//------------------------------------------------------------
+
 func (self *FrameMap) Get(key string) (ret *Data) {
-	visited := set.New()
-	self.Mutex.RLock()
-	ret = self.getHelper(key, visited)
-	self.Mutex.RUnlock()
+	ret, _ = self.lookup(key)
 	return
 }
 
diff --git a/json_frame_support.go b/json_frame_support.go
index 8d71e1c..58c19e8 100644
--- a/json_frame_support.go
+++ b/json_frame_support.go
@@ -246,13 +246,11 @@ func lispToJsonInside(d *Data, inside *framePair) (result interface{}) {
 			}
 		}
 		inside = &framePair{from: frame, outer: inside}
-		frame.Mutex.RLock()
-		for k, v := range frame.Data {
+		for k, v := range frame.slots() {
 			if !FunctionP(v) {
 				dict[strings.TrimSuffix(k, ":")] = lispToJsonInside(v, inside)
 			}
 		}
-		frame.Mutex.RUnlock()
 		return dict
 	}
 
diff --git a/prim_frame.go b/prim_frame.go
index 395cc52..530c27e 100644
--- a/prim_frame.go
+++ b/prim_frame.go
@@ -179,9 +179,7 @@ func getSuperFunction(selector string, env *SymbolTableFrame) *Data {
 		return nil
 	}
 
-	f.Mutex.RLock()
-	defer f.Mutex.RUnlock()
-	for _, p := range f.Parents() {
+	for _, p := range f.currentParents() {
 		fun := p.Get(selector)
 		if fun != nil {
 			return fun
-- 
2.43.0


From 0f32a8526b9aced0ba3377dbc726b4f980b11cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:54 +0000
Subject: [PATCH 55/77] fix: reading a slot is one step, so that it is not
 missed when another process removes it meanwhile

---
 prim_frame.go         | 13 +++++++------
 symbol_table_frame.go |  3 +--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/prim_frame.go b/prim_frame.go
index 530c27e..45a22eb 100644
--- a/prim_frame.go
+++ b/prim_frame.go
@@ -82,12 +82,13 @@ func GetSlotImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 		return
 	}
 
-	if !FrameValue(f).HasSlot(StringValue(k)) {
+	value, found := FrameValue(f).lookup(StringValue(k))
+	if !found {
 		err = ProcessError(fmt.Sprintf("get-slot requires an existing slot, but was given %s.", String(k)), env)
 		return
 	}
 
-	return FrameValue(f).Get(StringValue(k)), nil
+	return value, nil
 }
 
 func GetSlotOrNilImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
@@ -158,12 +159,12 @@ func SendImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 		return
 	}
 
-	if !FrameValue(f).HasSlot(StringValue(k)) {
+	fun, found := FrameValue(f).lookup(StringValue(k))
+	if !found {
 		err = ProcessError(fmt.Sprintf("send requires an existing slot, but was given %s.", String(k)), env)
 		return
 	}
 
-	fun := FrameValue(f).Get(StringValue(k))
 	if !FunctionP(fun) {
 		err = ProcessError(fmt.Sprintf("send requires a function slot, but was given a slot containing a %s.", TypeName(TypeOf(fun))), env)
 		return
@@ -235,12 +236,12 @@ func ApplySlotImpl(args *Data, env *SymbolTableFrame) (result *Data, err error)
 		return
 	}
 
-	if !FrameValue(f).HasSlot(StringValue(k)) {
+	fun, found := FrameValue(f).lookup(StringValue(k))
+	if !found {
 		err = ProcessError(fmt.Sprintf("apply-slot requires an existing slot, but was given %s.", String(k)), env)
 		return
 	}
 
-	fun := FrameValue(f).Get(StringValue(k))
 	if !FunctionP(fun) {
 		err = ProcessError(fmt.Sprintf("apply-slot requires a function slot, but was given a slot containing a %s.", TypeName(TypeOf(fun))), env)
 		return
diff --git a/symbol_table_frame.go b/symbol_table_frame.go
index e138311..133c6fb 100644
--- a/symbol_table_frame.go
+++ b/symbol_table_frame.go
@@ -302,8 +302,7 @@ func (self *SymbolTableFrame) ValueOfWithFunctionSlotCheck(symbol *Data, needFun
 	if self.HasFrame() {
 		f := self.Frame
 		naked := StringValue(NakedSymbolFrom(symbol))
-		if f.HasSlot(naked) {
-			slotValue := f.Get(naked)
+		if slotValue, found := f.lookup(naked); found {
 			if FunctionP(slotValue) {
 				atomic.StoreInt32(&FunctionValue(slotValue).SlotFunction, 1)
 				return slotValue
-- 
2.43.0


From 91c86172c3cabf7cb13d9ffdf2dac42561542d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:10 +0000
Subject: [PATCH 56/77] fix: reading from one port does not lose what was read
 ahead from another

---
 parser.go    |  1 +
 prim_io.go   |  1 +
 tokenizer.go | 28 +++++++++++++++++++---------
 3 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/parser.go b/parser.go
index accee55..76b9161 100644
--- a/parser.go
+++ b/parser.go
@@ -399,6 +399,7 @@ func ParseObjectFromFileInEnv(port *os.File, env *SymbolTableFrame) (result *Dat
 
 	if eof {
 		result = EofObject
+		releaseFileTokenizer(port)
 	}
 
 	return
diff --git a/prim_io.go b/prim_io.go
index a9029d6..6ea96c9 100644
--- a/prim_io.go
+++ b/prim_io.go
@@ -74,6 +74,7 @@ func ClosePortImpl(args *Data, env *SymbolTableFrame) (result *Data, err error)
 	}
 
 	(*os.File)(PortValue(p)).Close()
+	releaseFileTokenizer(PortValue(p))
 	return
 
 }
diff --git a/tokenizer.go b/tokenizer.go
index 9e79564..64c6b41 100644
--- a/tokenizer.go
+++ b/tokenizer.go
@@ -13,6 +13,7 @@ import (
 	"io"
 	"os"
 	"strings"
+	"sync"
 	"unicode"
 )
 
@@ -52,8 +53,9 @@ type Tokenizer struct {
 	started        bool
 }
 
-var mostRecentFileTokenizer *Tokenizer
-var mostRecentlyUsedFile *os.File
+// The tokenizers of the files being read: each has read ahead in its file.
+var fileTokenizers = make(map[*os.File]*Tokenizer)
+var fileTokenizersMutex sync.Mutex
 
 func NewTokenizer(scanner *bufrr.Reader) *Tokenizer {
 	t := &Tokenizer{Source: scanner}
@@ -67,14 +69,22 @@ func NewTokenizerFromString(src string) *Tokenizer {
 }
 
 func NewTokenizerFromFile(src *os.File) *Tokenizer {
-	if mostRecentlyUsedFile == src {
-		return mostRecentFileTokenizer
-	} else {
-		t := NewTokenizer(bufrr.NewReader(src))
-		mostRecentFileTokenizer = t
-		mostRecentlyUsedFile = src
-		return t
+	fileTokenizersMutex.Lock()
+	t, found := fileTokenizers[src]
+	fileTokenizersMutex.Unlock()
+	if !found {
+		t = NewTokenizer(bufrr.NewReader(src))
+		fileTokenizersMutex.Lock()
+		fileTokenizers[src] = t
+		fileTokenizersMutex.Unlock()
 	}
+	return t
+}
+
+func releaseFileTokenizer(src *os.File) {
+	fileTokenizersMutex.Lock()
+	delete(fileTokenizers, src)
+	fileTokenizersMutex.Unlock()
 }
 
 func (self *Tokenizer) readRune() rune {
-- 
2.43.0


From 40cf709f714c4c9ffebfc702f33847952fcd2b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:17 +0000
Subject: [PATCH 57/77] fix: list-directory rejects arguments that are not
 strings

---
 prim_io.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/prim_io.go b/prim_io.go
index 6ea96c9..e644715 100644
--- a/prim_io.go
+++ b/prim_io.go
@@ -178,9 +178,17 @@ func EofObjectImpl(args *Data, env *SymbolTableFrame) (result *Data, err error)
 }
 
 func ListDirectoryImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
+	if !StringP(Car(args)) {
+		err = ProcessError(fmt.Sprintf("list-directory requires a string as it's first argument, but was given %s.", String(Car(args))), env)
+		return
+	}
 	dir := StringValue(Car(args))
 	fpart := "*"
 	if Length(args) == 2 {
+		if !StringP(Cadr(args)) {
+			err = ProcessError(fmt.Sprintf("list-directory requires a string as it's second argument, but was given %s.", String(Cadr(args))), env)
+			return
+		}
 		fpart = StringValue(Cadr(args))
 	}
 	pattern := filepath.Join(dir, fpart)
-- 
2.43.0


From 56737efe38ee5e88a6f4d50088008452a3a45599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:14 +0000
Subject: [PATCH 58/77] fix: a percent sign in a name appears as it is in a
 profile

---
 profiling.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/profiling.go b/profiling.go
index 52eced5..ddb9540 100644
--- a/profiling.go
+++ b/profiling.go
@@ -42,9 +42,9 @@ func ProfileEnter(funcType string, name string, guid int64) {
 	if ProfileEnabled {
 		msg := fmt.Sprintf("{time: %d guid: %d mode: 'enter type: '%s name: '%s}\n", time.Now().UnixNano(), guid, funcType, name)
 		if profileOutput == nil {
-			fmt.Printf(msg)
+			fmt.Print(msg)
 		} else {
-			fmt.Fprintf(profileOutput, msg)
+			fmt.Fprint(profileOutput, msg)
 		}
 	}
 }
@@ -53,9 +53,9 @@ func ProfileExit(funcType string, name string, guid int64) {
 	if ProfileEnabled {
 		msg := fmt.Sprintf("{time: %d guid: %d mode: 'exit type: '%s name: '%s}\n", time.Now().UnixNano(), guid, funcType, name)
 		if profileOutput == nil {
-			fmt.Printf(msg)
+			fmt.Print(msg)
 		} else {
-			fmt.Fprintf(profileOutput, msg)
+			fmt.Fprint(profileOutput, msg)
 		}
 	}
 }
-- 
2.43.0


From ace29d1c40d001ad619a5fba1a3bb1f175016858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:22 +0000
Subject: [PATCH 59/77] fix: profile reports a file it cannot write to as an
 error

---
 prim_system.go | 9 +++++++--
 profiling.go   | 7 ++++---
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/prim_system.go b/prim_system.go
index 83daedf..ff4c57e 100644
--- a/prim_system.go
+++ b/prim_system.go
@@ -255,10 +255,15 @@ func ProfileImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	if Length(args) == 2 {
 		if !StringP(Cadr(args)) {
 			err = ProcessError(fmt.Sprintf("profile requires a string filename, but received %s.", String(Cadr(args))), env)
+			return
 		}
-		StartProfiling(StringValue(Cadr(args)))
+		err = StartProfiling(StringValue(Cadr(args)))
 	} else {
-		StartProfiling("")
+		err = StartProfiling("")
+	}
+	if err != nil {
+		err = ProcessError(err.Error(), env)
+		return
 	}
 
 	result, err = Eval(Car(args), env)
diff --git a/profiling.go b/profiling.go
index ddb9540..cd088c6 100644
--- a/profiling.go
+++ b/profiling.go
@@ -17,18 +17,19 @@ var profileOutput *os.File = nil
 var ProfileEnabled = false
 var ProfileGUID int64 = 0
 
-func StartProfiling(fname string) {
+func StartProfiling(fname string) (err error) {
 	ProfileGUID = 0
 	if fname == "" {
 		profileOutput = nil
 	} else {
-		var err error
 		profileOutput, err = os.Create(fname)
 		if err != nil {
-			panic(fmt.Sprintf("Profiler: %s could not be opened.", fname))
+			profileOutput = nil
+			return fmt.Errorf("Profiler: %s could not be opened.", fname)
 		}
 	}
 	ProfileEnabled = true
+	return
 }
 
 func EndProfiling() {
-- 
2.43.0


From bc554f2714101683fce40a390b4f84dea2dbdae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:30 +0000
Subject: [PATCH 60/77] fix: the value of an empty list is traced like any
 other

---
 data.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/data.go b/data.go
index 20af51c..1ca06d1 100644
--- a/data.go
+++ b/data.go
@@ -1210,7 +1210,8 @@ func evalHelper(d *Data, env *SymbolTableFrame, needFunction bool) (result *Data
 
 				// catch empty cons cell
 				if NilP(d) {
-					return EmptyCons(), nil
+					result = EmptyCons()
+					break
 				}
 
 				var function *Data
-- 
2.43.0


From dfed09438ea2e575f453d728ac74ef8fc619a0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:08 +0000
Subject: [PATCH 61/77] fix: the test runner says when a file cannot be loaded

---
 main/golisp.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/main/golisp.go b/main/golisp.go
index 5c934f4..8a8b7a2 100644
--- a/main/golisp.go
+++ b/main/golisp.go
@@ -33,8 +33,13 @@ func test() {
 	}
 
 	testCommand := fmt.Sprintf("(%s \"%s\"%s)", testFunction, testName, verboseFlag)
-	golisp.ProcessFile("lisp/testing.lsp")
-	golisp.ParseAndEval(testCommand)
+	_, err := golisp.ProcessFile("lisp/testing.lsp")
+	if err == nil {
+		_, err = golisp.ParseAndEval(testCommand)
+	}
+	if err != nil {
+		fmt.Printf("Error: %s\n", err)
+	}
 }
 
 func main() {
-- 
2.43.0


From 09b1c45442114596c2c07c19fa94fef4afdec680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:04 +0000
Subject: [PATCH 62/77] fix: scaling a finite stream stops at its end

---
 lisp/streams.lsp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lisp/streams.lsp b/lisp/streams.lsp
index 42c4ea4..7b6e388 100644
--- a/lisp/streams.lsp
+++ b/lisp/streams.lsp
@@ -126,8 +126,10 @@
 ;;; defining scale-stream
 
 (define (scale-stream s factor)
-  (stream-cons (* (stream-car s) factor)
-	       (scale-stream (stream-cdr s) factor)))
+  (if (stream-null? s)
+      the-empty-stream
+      (stream-cons (* (stream-car s) factor)
+                   (scale-stream (stream-cdr s) factor))))
 
 ;;; defining a few infinite streams
 
-- 
2.43.0


From eee67da43a05b9b09d61221f559856dadf166b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:17 +0000
Subject: [PATCH 63/77] fix: exec with a command that is no string is an error

---
 prim_system.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/prim_system.go b/prim_system.go
index ff4c57e..2ac3770 100644
--- a/prim_system.go
+++ b/prim_system.go
@@ -276,6 +276,7 @@ func ProfileImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 func ExecImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	if !StringP(First(args)) {
 		err = ProcessError(fmt.Sprintf("exec requires a string command, but received %s.", String(First(args))), env)
+		return
 	}
 	cmdString := StringValue(First(args))
 
-- 
2.43.0


From 880b857e63180fc6766c08bd4c6038acd1366601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:18 +0000
Subject: [PATCH 64/77] fix: delays too long for a duration are not cut to
 nothing

---
 prim_concurrency.go | 19 ++++++++++++++++---
 prim_system.go      |  2 +-
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/prim_concurrency.go b/prim_concurrency.go
index 649115a..cb821dc 100644
--- a/prim_concurrency.go
+++ b/prim_concurrency.go
@@ -9,6 +9,7 @@ package golisp
 
 import (
 	"fmt"
+	"math"
 	"runtime"
 	"strings"
 	"sync/atomic"
@@ -96,6 +97,18 @@ func ForkImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	return procObj, nil
 }
 
+// millisToDuration gives the longest duration there is for delays that do not
+// fit in one.
+func millisToDuration(millis int64) time.Duration {
+	if millis > int64(math.MaxInt64/time.Millisecond) {
+		return time.Duration(math.MaxInt64)
+	}
+	if millis < 0 {
+		return 0
+	}
+	return time.Duration(millis) * time.Millisecond
+}
+
 func ProcSleepImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	procObj := Car(args)
 
@@ -116,7 +129,7 @@ func ProcSleepImpl(args *Data, env *SymbolTableFrame) (result *Data, err error)
 	select {
 	case <-proc.Wake:
 		woken = true
-	case <-time.After(time.Duration(IntegerValue(millis)) * time.Millisecond):
+	case <-time.After(millisToDuration(IntegerValue(millis))):
 	}
 
 	return BooleanWithValue(woken), nil
@@ -171,7 +184,7 @@ func ScheduleImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 		Abort:         make(chan empty, 1),
 		Restart:       make(chan empty, 1),
 		ReturnValue:   make(chan *Data, 1),
-		ScheduleTimer: time.NewTimer(time.Duration(IntegerValue(millis)) * time.Millisecond)}
+		ScheduleTimer: time.NewTimer(millisToDuration(IntegerValue(millis)))}
 	procObj := ObjectWithTypeAndValue("Process", unsafe.Pointer(proc))
 
 	function = function.belongingTo(proc)
@@ -188,7 +201,7 @@ func ScheduleImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 				case <-proc.Abort:
 					break Loop
 				case <-proc.Restart:
-					proc.ScheduleTimer.Reset(time.Duration(IntegerValue(millis)) * time.Millisecond)
+					proc.ScheduleTimer.Reset(millisToDuration(IntegerValue(millis)))
 				case <-proc.ScheduleTimer.C:
 					var forkedErr error
 					returnValue, forkedErr = function.ApplyWithoutEval(Cons(procObj, Cddr(args)), env)
diff --git a/prim_system.go b/prim_system.go
index 2ac3770..43d84a5 100644
--- a/prim_system.go
+++ b/prim_system.go
@@ -128,7 +128,7 @@ func SleepImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 		return
 	}
 	millis := IntegerValue(n)
-	time.Sleep(time.Duration(millis) * time.Millisecond)
+	time.Sleep(millisToDuration(millis))
 	return
 }
 
-- 
2.43.0


From cb0cc8cdd713a07ae7badc0fb3723e4cc1bc61fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:19 +0000
Subject: [PATCH 65/77] fix: a session that stops at an error has an
 environment to stop in

---
 repl.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/repl.go b/repl.go
index 2a5898d..235f83e 100644
--- a/repl.go
+++ b/repl.go
@@ -50,7 +50,11 @@ func Repl() {
 					if err != nil {
 						fmt.Printf("Error in evaluation: %s\n", err)
 						if DebugOnError {
-							DebugRepl(DebugErrorEnv)
+							debugEnv := DebugErrorEnv
+							if debugEnv == nil {
+								debugEnv = replEnv
+							}
+							DebugRepl(debugEnv)
 						}
 					} else {
 						fmt.Printf("==> %s\n", String(d))
-- 
2.43.0


From 9df9c470962c689da07bdd9dccdae80e6193a270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:27 +0000
Subject: [PATCH 66/77] fix: the debugger's entry commands without a name say
 so

---
 prim_debug.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/prim_debug.go b/prim_debug.go
index d0763f1..2bcf292 100644
--- a/prim_debug.go
+++ b/prim_debug.go
@@ -118,6 +118,14 @@ func funcOrNil(fname string, env *SymbolTableFrame) *Data {
 	return f
 }
 
+func functionNamed(tokens []string, env *SymbolTableFrame) *Data {
+	if len(tokens) != 2 {
+		fmt.Printf("No such function\n")
+		return nil
+	}
+	return funcOrNil(tokens[1], env)
+}
+
 func DebugRepl(env *SymbolTableFrame) {
 	env.DumpHeader()
 	prompt := "D> "
@@ -139,12 +147,12 @@ func DebugRepl(env *SymbolTableFrame) {
 				tokens := strings.Split(cmd, " ")
 				switch tokens[0] {
 				case "(+":
-					f := funcOrNil(tokens[1], env)
+					f := functionNamed(tokens, env)
 					if f != nil {
 						DebugOnEntry.Add(FunctionValue(f).Name)
 					}
 				case "(-":
-					f := funcOrNil(tokens[1], env)
+					f := functionNamed(tokens, env)
 					if f != nil && DebugOnEntry.Has(FunctionValue(f).Name) {
 						DebugOnEntry.Remove(FunctionValue(f).Name)
 					}
-- 
2.43.0


From 019da1dff231cff656db69ad10ecbd98304f6515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:34 +0000
Subject: [PATCH 67/77] fix: returning an unreadable value from the debugger is
 an error

---
 prim_debug.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/prim_debug.go b/prim_debug.go
index 2bcf292..b6917f3 100644
--- a/prim_debug.go
+++ b/prim_debug.go
@@ -211,8 +211,12 @@ func DebugRepl(env *SymbolTableFrame) {
 				case "q":
 					QuitImpl(nil, nil)
 				case "r":
-					DebugEvalInDebugRepl = true
 					code, err := Parse(strings.Join(tokens[1:], " "))
+					if err != nil {
+						fmt.Printf("Error: %s\n", err)
+						continue
+					}
+					DebugEvalInDebugRepl = true
 					d, err := Eval(code, env)
 					DebugEvalInDebugRepl = false
 					if err != nil {
-- 
2.43.0


From a130ce86e860063685ccdd5280a73a89fb3ca8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:40 +0000
Subject: [PATCH 68/77] fix: a value returned from the debugger is that of the
 evaluation stopped

---
 data.go       | 25 ++++++++++++++++++++-----
 prim_debug.go |  3 +++
 repl.go       |  1 +
 3 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/data.go b/data.go
index 1ca06d1..d4605a9 100644
--- a/data.go
+++ b/data.go
@@ -1185,6 +1185,17 @@ func logResult(result *Data, env *SymbolTableFrame) {
 	}
 }
 
+// debugStop gives the debugger control before an evaluation. If a value is to be
+// returned from that evaluation, it is the result.
+func debugStop(env *SymbolTableFrame) (result *Data, returned bool) {
+	DebugRepl(env)
+	if DebugReturnValue != nil {
+		result, returned = DebugReturnValue, true
+		DebugReturnValue = nil
+	}
+	return
+}
+
 func evalHelper(d *Data, env *SymbolTableFrame, needFunction bool) (result *Data, err error) {
 	if IsInteractive && !DebugEvalInDebugRepl {
 		env.CurrentCode.PushFront(fmt.Sprintf("Eval %s", String(d)))
@@ -1192,17 +1203,18 @@ func evalHelper(d *Data, env *SymbolTableFrame, needFunction bool) (result *Data
 
 	logEval(d, env)
 
+	returned := false
 	if DebugSingleStep {
 		DebugSingleStep = false
-		DebugRepl(env)
+		result, returned = debugStop(env)
 	}
 
-	if DebugCurrentFrame != nil && env == DebugCurrentFrame.Previous {
+	if !returned && DebugCurrentFrame != nil && env == DebugCurrentFrame.Previous {
 		DebugCurrentFrame = nil
-		DebugRepl(env)
+		result, returned = debugStop(env)
 	}
 
-	if d != nil {
+	if d != nil && !returned {
 		switch d.Type {
 		case ConsCellType:
 			{
@@ -1226,7 +1238,10 @@ func evalHelper(d *Data, env *SymbolTableFrame, needFunction bool) (result *Data
 				}
 
 				if !DebugSingleStep && TypeOf(function) == FunctionType && DebugOnEntry.Has(FunctionValue(function).Name) {
-					DebugRepl(env)
+					result, returned = debugStop(env)
+					if returned {
+						break
+					}
 				}
 
 				args := Cdr(d)
diff --git a/prim_debug.go b/prim_debug.go
index b6917f3..0a1ef8d 100644
--- a/prim_debug.go
+++ b/prim_debug.go
@@ -222,6 +222,9 @@ func DebugRepl(env *SymbolTableFrame) {
 					if err != nil {
 						fmt.Printf("Error in evaluation: %s\n", err)
 					} else {
+						if d == nil {
+							d = EmptyCons()
+						}
 						DebugReturnValue = d
 						DebugCurrentFrame = nil
 						DebugSingleStep = false
diff --git a/repl.go b/repl.go
index 235f83e..61b4139 100644
--- a/repl.go
+++ b/repl.go
@@ -30,6 +30,7 @@ func Repl() {
 		DebugCurrentFrame = nil
 		DebugSingleStep = false
 		DebugEvalInDebugRepl = false
+		DebugReturnValue = nil
 		replEnv.CurrentCode = list.New()
 		inputp := ReadLine(&prompt)
 		if inputp == nil {
-- 
2.43.0


From 8dacf00a59ddc88f9018c8508d55dd09ae901efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:17 +0000
Subject: [PATCH 69/77] fix: a json transformation gets the node as it is,
 arrays too

---
 json_support.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_support.go b/json_support.go
index 246cae2..3bbe2d9 100644
--- a/json_support.go
+++ b/json_support.go
@@ -163,7 +163,7 @@ func TransformJson(xform *Data, jsonNode *Data, parentNode *Data) (xformedJson *
 	if err != nil {
 		return
 	}
-	newData, err = Apply(transformFunction, args, Global)
+	newData, err = ApplyWithoutEval(transformFunction, args, Global)
 	if err != nil {
 		return
 	}
-- 
2.43.0


From 11040f7319efe0b3852111f7216b84d894e85371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:07 +0000
Subject: [PATCH 70/77] fix: make-list with a size no list can have is an error

---
 prim_list_manipulation.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/prim_list_manipulation.go b/prim_list_manipulation.go
index a646ce6..5be37ca 100644
--- a/prim_list_manipulation.go
+++ b/prim_list_manipulation.go
@@ -51,7 +51,17 @@ func MakeListImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	}
 
 	var items []*Data
-	items = make([]*Data, 0, k)
+	func() {
+		defer func() {
+			if e := recover(); e != nil {
+				err = ProcessError(fmt.Sprintf("make-list size is too big; got %d.", k), env)
+			}
+		}()
+		items = make([]*Data, 0, k)
+	}()
+	if err != nil {
+		return
+	}
 	for ; k > 0; k = k - 1 {
 		items = append(items, element)
 	}
-- 
2.43.0


From 5cf798dfdc996e66751d1e5492cd3abbb04e4450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:12 +0000
Subject: [PATCH 71/77] fix: a field width no string can have is an error

---
 prim_io.go | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/prim_io.go b/prim_io.go
index e644715..060bec4 100644
--- a/prim_io.go
+++ b/prim_io.go
@@ -205,6 +205,16 @@ func ListDirectoryImpl(args *Data, env *SymbolTableFrame) (result *Data, err err
 	return ArrayToList(names), nil
 }
 
+// formatRepeat repeats s, which is an error if there can't be a string that long
+func formatRepeat(s string, count int, env *SymbolTableFrame) (result string, err error) {
+	defer func() {
+		if e := recover(); e != nil {
+			err = ProcessError(fmt.Sprintf("format encountered a size argument that is too big; got %d.", count), env)
+		}
+	}()
+	return strings.Repeat(s, count), nil
+}
+
 func FormatImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	destination := Car(args)
 	if !BooleanP(destination) && !PortP(destination) {
@@ -283,7 +293,10 @@ func FormatImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 				}
 				substitution = PrintString(Car(arguments))
 				if len(substitution) < numericArg {
-					padding = strings.Repeat(" ", numericArg-len(substitution))
+					padding, err = formatRepeat(" ", numericArg-len(substitution), env)
+					if err != nil {
+						return
+					}
 				} else {
 					padding = ""
 				}
@@ -304,7 +317,10 @@ func FormatImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 				}
 				substitution = String(Car(arguments))
 				if len(substitution) < numericArg {
-					padding = strings.Repeat(" ", numericArg-len(substitution))
+					padding, err = formatRepeat(" ", numericArg-len(substitution), env)
+					if err != nil {
+						return
+					}
 				} else {
 					padding = ""
 				}
@@ -320,7 +336,11 @@ func FormatImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 
 			case '%':
 				if numericArg > 0 {
-					parts = append(parts, strings.Repeat("\n", numericArg))
+					substitution, err = formatRepeat("\n", numericArg, env)
+					if err != nil {
+						return
+					}
+					parts = append(parts, substitution)
 				} else {
 					parts = append(parts, "\n")
 				}
@@ -328,7 +348,11 @@ func FormatImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 
 			case '~':
 				if numericArg > 0 {
-					parts = append(parts, strings.Repeat("~", numericArg))
+					substitution, err = formatRepeat("~", numericArg, env)
+					if err != nil {
+						return
+					}
+					parts = append(parts, substitution)
 				} else {
 					parts = append(parts, "~")
 				}
-- 
2.43.0


From c4a99cc4b5e1f2c99481ac284e371b76bf7f6cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:15 +0000
Subject: [PATCH 72/77] fix: struct tags omitempty and string mean what they
 mean in JSON

---
 json_frame_support.go | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/json_frame_support.go b/json_frame_support.go
index 58c19e8..89269c6 100644
--- a/json_frame_support.go
+++ b/json_frame_support.go
@@ -30,6 +30,17 @@ func jsonIsEmptyValue(data *Data) bool {
 	return false
 }
 
+// jsonIsEmptyField tells a pointer to an empty value from no pointer at all.
+func jsonIsEmptyField(field reflect.Value, data *Data) bool {
+	switch field.Kind() {
+	case reflect.Ptr, reflect.Interface:
+		return field.IsNil()
+	case reflect.Map:
+		return field.Len() == 0
+	}
+	return jsonIsEmptyValue(data)
+}
+
 // adapted from golang's encoding/json
 func jsonToLispWithFramesStruct(rv reflect.Value) *Data {
 	rt := rv.Type()
@@ -88,20 +99,14 @@ func jsonToLispWithFramesStruct(rv reflect.Value) *Data {
 			fv := rv.Field(i)
 			data := jsonToLispWithFramesReflect(fv)
 
-			if !omitEmpty || !jsonIsEmptyValue(data) {
-				if encodeString {
+			if !omitEmpty || !jsonIsEmptyField(fv, data) {
+				if encodeString && fv.Kind() != reflect.Interface {
 					switch {
-					case StringP(data):
-						str, err := json.Marshal(StringValue(data))
+					case StringP(data), IntegerP(data), FloatP(data), BooleanP(data):
+						text, err := json.Marshal(fv.Interface())
 						if err == nil {
-							data = StringWithValue(string(str))
+							data = StringWithValue(string(text))
 						}
-					case IntegerP(data):
-						data = StringWithValue(fmt.Sprintf("%d", IntegerValue(data)))
-					case FloatP(data):
-						data = StringWithValue(fmt.Sprintf("%f", FloatValue(data)))
-					case BooleanP(data):
-						data = StringWithValue(fmt.Sprintf("%t", BooleanValue(data)))
 					}
 				}
 
-- 
2.43.0


From a129abc62f86045e0547d74ba23672cdc0127f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:07 +0000
Subject: [PATCH 73/77] fix: an unquote in tail position is replaced by its
 value

---
 prim_macros.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/prim_macros.go b/prim_macros.go
index 612b398..6dca907 100644
--- a/prim_macros.go
+++ b/prim_macros.go
@@ -27,6 +27,16 @@ func QuoteImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	}
 }
 
+// isQuasiquoteTail tells whether the rest of a list is an unquoted or quasiquoted
+// expression: (a . ,b) is the same as (a unquote b)
+func isQuasiquoteTail(tail *Data) bool {
+	if !PairP(tail) || !SymbolP(Car(tail)) || !PairP(Cdr(tail)) || Length(tail) != 2 {
+		return false
+	}
+	name := StringValue(Car(tail))
+	return name == "unquote" || name == "quasiquote"
+}
+
 func processQuasiquoted(sexpr *Data, level int, env *SymbolTableFrame) (result *Data, err error) {
 	if !ListP(sexpr) {
 		return Cons(sexpr, nil), nil
@@ -82,7 +92,7 @@ func processQuasiquoted(sexpr *Data, level int, env *SymbolTableFrame) (result *
 	} else {
 		parts := make([]*Data, 0, Length(Cdr(sexpr)))
 		tail := sexpr
-		for ; ListP(tail) && NotNilP(tail); tail = Cdr(tail) {
+		for ; ListP(tail) && NotNilP(tail) && (tail == sexpr || !isQuasiquoteTail(tail)); tail = Cdr(tail) {
 			processed, err := processQuasiquoted(Car(tail), level, env)
 			if err != nil {
 				return nil, err
@@ -95,6 +105,13 @@ func processQuasiquoted(sexpr *Data, level int, env *SymbolTableFrame) (result *
 		if err != nil {
 			return nil, err
 		}
+		if isQuasiquoteTail(tail) {
+			processed, err := processQuasiquoted(tail, level, env)
+			if err != nil {
+				return nil, err
+			}
+			tail = Car(processed)
+		}
 		if NotNilP(tail) {
 			flat = ArrayToListWithTail(ToArray(flat), tail)
 		}
-- 
2.43.0


From 3868555c68822a08fc55a3d47b7c1f7c7bbde56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:45 +0000
Subject: [PATCH 74/77] fix: equality between a list and an association list
 does not depend on which comes first

---
 data.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/data.go b/data.go
index d4605a9..68cd767 100644
--- a/data.go
+++ b/data.go
@@ -864,6 +864,11 @@ func isEqualInside(d *Data, o *Data, inside *framePair) bool {
 		return false
 	}
 
+	// which of the two is the plain list makes no difference
+	if PairP(d) && !PairP(o) {
+		d, o = o, d
+	}
+
 	if AlistP(d) {
 		if !AlistP(o) && !ListP(o) {
 			return false
@@ -898,7 +903,7 @@ func isEqualInside(d *Data, o *Data, inside *framePair) bool {
 			return false
 		}
 		a1, a2 := d, o
-		for ; ListP(a1) && ListP(a2) && NotNilP(a1) && NotNilP(a2); a1, a2 = Cdr(a1), Cdr(a2) {
+		for ; PairP(a1) && PairP(a2) && NotNilP(a1) && NotNilP(a2); a1, a2 = Cdr(a1), Cdr(a2) {
 			if !isEqualInside(Car(a1), Car(a2), inside) {
 				return false
 			}
-- 
2.43.0


From 46cc289762898f92f2dc3818199f901301d36976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:51 +0000
Subject: [PATCH 75/77] fix: calls and binding forms are not top level
 environments

---
 function.go           |  4 ++--
 macro.go              |  2 +-
 prim_frame.go         |  4 ++--
 prim_special_forms.go |  6 +++---
 symbol_table_frame.go | 33 ++++++++++++++++++++++-----------
 5 files changed, 30 insertions(+), 19 deletions(-)

diff --git a/function.go b/function.go
index dec7a03..090d0a2 100644
--- a/function.go
+++ b/function.go
@@ -116,7 +116,7 @@ func (self *Function) makeLocalBindings(args *Data, argEnv *SymbolTableFrame, lo
 }
 
 func (self *Function) internalApply(args *Data, argEnv *SymbolTableFrame, frame *FrameMap, eval bool) (result *Data, err error) {
-	localEnv := NewSymbolTableFrameBelowWithFrame(self.Env, frame, self.Name)
+	localEnv := newLocalFrameBelowWithFrame(self.Env, frame, self.Name)
 	localEnv.Previous = argEnv
 	selfSym := Intern("self")
 	if frame != nil {
@@ -182,7 +182,7 @@ func (self *Function) ApplyWithoutEvalWithFrame(args *Data, argEnv *SymbolTableF
 }
 
 func (self *Function) ApplyOveriddingEnvironment(args *Data, argEnv *SymbolTableFrame) (result *Data, err error) {
-	localEnv := NewSymbolTableFrameBelow(argEnv, self.Name)
+	localEnv := newLocalFrameBelow(argEnv, self.Name)
 	err = self.makeLocalBindings(args, argEnv, localEnv, true)
 	if err != nil {
 		return
diff --git a/macro.go b/macro.go
index 778b48f..c73817f 100644
--- a/macro.go
+++ b/macro.go
@@ -82,7 +82,7 @@ func (self *Macro) makeLocalBindings(args *Data, argEnv *SymbolTableFrame, local
 }
 
 func (self *Macro) Expand(args *Data, argEnv *SymbolTableFrame) (result *Data, err error) {
-	localEnv := NewSymbolTableFrameBelow(self.Env, self.Name)
+	localEnv := newLocalFrameBelow(self.Env, self.Name)
 	err = self.makeLocalBindings(args, argEnv, localEnv, false)
 	if err != nil {
 		return
diff --git a/prim_frame.go b/prim_frame.go
index 45a22eb..e9d875b 100644
--- a/prim_frame.go
+++ b/prim_frame.go
@@ -209,7 +209,7 @@ func SendSuperImpl(args *Data, env *SymbolTableFrame) (result *Data, err error)
 	}
 
 	params := Cdr(args)
-	frameEnv := NewSymbolTableFrameBelowWithFrame(env, env.Frame, fmt.Sprintf("%s'", env.Name))
+	frameEnv := newLocalFrameBelowWithFrame(env, env.Frame, fmt.Sprintf("%s'", env.Name))
 	_, err = frameEnv.BindLocallyTo(Intern("self"), FrameWithValue(env.Frame))
 	if err != nil {
 		return
@@ -317,7 +317,7 @@ func ApplySlotSuperImpl(args *Data, env *SymbolTableFrame) (result *Data, err er
 		return
 	}
 
-	frameEnv := NewSymbolTableFrameBelowWithFrame(env, env.Frame, fmt.Sprintf("%s'", env.Name))
+	frameEnv := newLocalFrameBelowWithFrame(env, env.Frame, fmt.Sprintf("%s'", env.Name))
 	_, err = frameEnv.BindLocallyTo(Intern("self"), FrameWithValue(env.Frame))
 	if err != nil {
 		return
diff --git a/prim_special_forms.go b/prim_special_forms.go
index 996bb30..5cae710 100644
--- a/prim_special_forms.go
+++ b/prim_special_forms.go
@@ -267,7 +267,7 @@ func LetCommon(args *Data, env *SymbolTableFrame, star bool, rec bool) (result *
 		return
 	}
 
-	localEnv := NewSymbolTableFrameBelow(env, "let")
+	localEnv := newLocalFrameBelow(env, "let")
 	localEnv.Previous = env
 	var evalEnv *SymbolTableFrame
 	if star || rec {
@@ -317,7 +317,7 @@ func namedLetImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 	}
 	varsList := ArrayToList(vars)
 	initialsList := ArrayToList(initials)
-	localEnv := NewSymbolTableFrameBelow(env, StringValue(name))
+	localEnv := newLocalFrameBelow(env, StringValue(name))
 	localEnv.Previous = env
 	_, err = localEnv.BindLocallyTo(name, nil)
 	if err != nil {
@@ -401,7 +401,7 @@ func DoImpl(args *Data, env *SymbolTableFrame) (result *Data, err error) {
 		return
 	}
 
-	localEnv := NewSymbolTableFrameBelow(env, "do")
+	localEnv := newLocalFrameBelow(env, "do")
 	localEnv.Previous = env
 	err = bindLetLocals(bindings, false, localEnv, env)
 	if err != nil {
diff --git a/symbol_table_frame.go b/symbol_table_frame.go
index 133c6fb..7cdf3da 100644
--- a/symbol_table_frame.go
+++ b/symbol_table_frame.go
@@ -129,32 +129,43 @@ func (self *SymbolTableFrame) DumpHeader() {
 	fmt.Printf("%s\n", self.CurrentCodeString())
 }
 
+// registerIfTopLevel makes an environment that is directly below the global one
+// known by its name.
+func (self *SymbolTableFrame) registerIfTopLevel() *SymbolTableFrame {
+	if self.Parent == nil || self.Parent == Global {
+		TopLevelEnvironments.Mutex.Lock()
+		TopLevelEnvironments.Environments[self.Name] = self
+		TopLevelEnvironments.Mutex.Unlock()
+	}
+	return self
+}
+
 func NewSymbolTableFrameBelow(p *SymbolTableFrame, name string) *SymbolTableFrame {
+	return newLocalFrameBelow(p, name).registerIfTopLevel()
+}
+
+func NewSymbolTableFrameBelowWithFrame(p *SymbolTableFrame, f *FrameMap, name string) *SymbolTableFrame {
+	return newLocalFrameBelowWithFrame(p, f, name).registerIfTopLevel()
+}
+
+// The environments of calls and of forms that bind names are no top level
+// environments, even those directly below the global one.
+func newLocalFrameBelow(p *SymbolTableFrame, name string) *SymbolTableFrame {
 	var f *FrameMap = nil
 	if p != nil {
 		f = p.Frame
 	}
 	restricted := p != nil && p.IsRestricted
 	env := &SymbolTableFrame{Name: name, Parent: p, Bindings: make(map[string]*Binding), Frame: f, CurrentCode: list.New(), IsRestricted: restricted}
-	if p == nil || p == Global {
-		TopLevelEnvironments.Mutex.Lock()
-		TopLevelEnvironments.Environments[name] = env
-		TopLevelEnvironments.Mutex.Unlock()
-	}
 	return env
 }
 
-func NewSymbolTableFrameBelowWithFrame(p *SymbolTableFrame, f *FrameMap, name string) *SymbolTableFrame {
+func newLocalFrameBelowWithFrame(p *SymbolTableFrame, f *FrameMap, name string) *SymbolTableFrame {
 	if f == nil {
 		f = p.Frame
 	}
 	restricted := p != nil && p.IsRestricted
 	env := &SymbolTableFrame{Name: name, Parent: p, Bindings: make(map[string]*Binding, 10), Frame: f, CurrentCode: list.New(), IsRestricted: restricted}
-	if p == nil || p == Global {
-		TopLevelEnvironments.Mutex.Lock()
-		TopLevelEnvironments.Environments[name] = env
-		TopLevelEnvironments.Mutex.Unlock()
-	}
 	return env
 }
 
-- 
2.43.0


From 9e2133ac6094219bae429b4ab0933864765dd940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:10 +0000
Subject: [PATCH 76/77] fix: applying a primitive to values does not depend on
 what quote names in the caller

---
 primitive_function.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/primitive_function.go b/primitive_function.go
index 8789c47..c40f892 100644
--- a/primitive_function.go
+++ b/primitive_function.go
@@ -223,7 +223,7 @@ func (self *PrimitiveFunction) checkArgumentCount(argCount int) bool {
 	return false
 }
 
-func (self *PrimitiveFunction) Apply(args *Data, env *SymbolTableFrame) (result *Data, err error) {
+func (self *PrimitiveFunction) internalApply(args *Data, env *SymbolTableFrame, eval bool) (result *Data, err error) {
 	if self.IsRestricted && env.IsRestricted {
 		err = fmt.Errorf("The %s primitive is restricted from execution in this environment\n", self.Name)
 		return
@@ -237,13 +237,13 @@ func (self *PrimitiveFunction) Apply(args *Data, env *SymbolTableFrame) (result
 	argArray := make([]*Data, 0)
 	var argValue *Data
 	for a := args; NotNilP(a); a = Cdr(a) {
-		if self.Special {
-			argValue = Car(a)
-		} else {
+		if eval {
 			argValue, err = Eval(Car(a), env)
 			if err != nil {
 				return
 			}
+		} else {
+			argValue = Car(a)
 		}
 
 		argArray = append(argArray, argValue)
@@ -265,10 +265,10 @@ func (self *PrimitiveFunction) Apply(args *Data, env *SymbolTableFrame) (result
 	return
 }
 
+func (self *PrimitiveFunction) Apply(args *Data, env *SymbolTableFrame) (result *Data, err error) {
+	return self.internalApply(args, env, !self.Special)
+}
+
 func (self *PrimitiveFunction) ApplyWithoutEval(args *Data, env *SymbolTableFrame) (result *Data, err error) {
-	if self.Special {
-		return self.Apply(args, env)
-	} else {
-		return self.Apply(QuoteAll(args), env)
-	}
+	return self.internalApply(args, env, false)
 }
-- 
2.43.0


From f8b350dbf64323510a17eafa7082140da9354636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:44 +0000
Subject: [PATCH 77/77] fix: a copied association list entry is an entry of its
 own

---
 data.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/data.go b/data.go
index 68cd767..c401ba2 100644
--- a/data.go
+++ b/data.go
@@ -806,6 +806,11 @@ func copyInside(d *Data, inside *framePair) *Data {
 			}
 			return alist
 		}
+	case AlistCellType:
+		{
+			cell := ConsCell{Car: copyInside(Car(d), inside), Cdr: copyInside(Cdr(d), inside)}
+			return &Data{Type: AlistCellType, Value: unsafe.Pointer(&cell)}
+		}
 	case ConsCellType:
 		{
 			if NilP(d) {
-- 
2.43.0

