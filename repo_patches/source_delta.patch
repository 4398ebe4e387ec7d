From d20c91c5bfc4b652e0875e4574632d08cacc9e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:56 +0000
Subject: [PATCH 01/45] fix: mixed wide integer arithmetic stays exact

Arithmetic on an integer above i64::MAX with a negative one fell through to
f64 and lost precision; subtracting one from another integer failed even when
the difference was representable; whole floats of 2^63 were turned into
i64::MAX.
---
 src/eval/stg/arith.rs | 86 ++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 81 insertions(+), 5 deletions(-)

diff --git a/src/eval/stg/arith.rs b/src/eval/stg/arith.rs
index 5f57315..8f85344 100644
--- a/src/eval/stg/arith.rs
+++ b/src/eval/stg/arith.rs
@@ -61,10 +61,26 @@ fn floor_mod_i64(a: i64, b: i64) -> Option<i64> {
     }
 }
 
+/// The value of an integer number, whether i64 or u64 holds it.
+fn as_integer(n: &Number) -> Option<i128> {
+    n.as_i64()
+        .map(i128::from)
+        .or_else(|| n.as_u64().map(i128::from))
+}
+
+/// Convert an exact integer result to a Number if i64 or u64 can hold it.
+fn num_from_integer(n: i128) -> Option<Number> {
+    i64::try_from(n)
+        .map(Number::from)
+        .or_else(|_| u64::try_from(n).map(Number::from))
+        .ok()
+}
+
 /// Convert a floored/truncated f64 to an integer Number when possible,
 /// falling back to f64 representation for values outside i64 range.
 fn num_from_floored(val: f64) -> Option<Number> {
-    if val.is_finite() && val >= i64::MIN as f64 && val <= i64::MAX as f64 {
+    // i64::MAX rounds up to 2^63 as an f64, so the upper bound is exclusive
+    if val.is_finite() && val >= i64::MIN as f64 && val < i64::MAX as f64 {
         let i = val as i64;
         if (i as f64) == val {
             return Some(Number::from(i));
@@ -118,6 +134,15 @@ impl StgIntrinsic for Add {
                 y,
             ))?;
             machine_return_num(machine, view, Number::from(total))
+        } else if let (Some(l), Some(r)) = (as_integer(&x), as_integer(&y)) {
+            // one operand exceeds i64 and the other is negative
+            let result = l + r;
+            let result = num_from_integer(result).ok_or(ExecutionError::NumericRangeError(
+                machine.annotation(),
+                x,
+                y,
+            ))?;
+            machine_return_num(machine, view, result)
         } else if let (Some(l), Some(r)) = (x.as_f64(), y.as_f64()) {
             if let Some(ret) = Number::from_f64(l + r) {
                 machine_return_num(machine, view, ret)
@@ -178,13 +203,15 @@ impl StgIntrinsic for Sub {
                 y,
             ))?;
             machine_return_num(machine, view, Number::from(result))
-        } else if let (Some(l), Some(r)) = (x.as_u64(), y.as_u64()) {
-            let result = l.checked_sub(r).ok_or(ExecutionError::NumericRangeError(
+        } else if let (Some(l), Some(r)) = (as_integer(&x), as_integer(&y)) {
+            // an operand exceeds i64
+            let result = l - r;
+            let result = num_from_integer(result).ok_or(ExecutionError::NumericRangeError(
                 machine.annotation(),
                 x,
                 y,
             ))?;
-            machine_return_num(machine, view, Number::from(result))
+            machine_return_num(machine, view, result)
         } else if let (Some(l), Some(r)) = (x.as_f64(), y.as_f64()) {
             if let Some(ret) = Number::from_f64(l - r) {
                 machine_return_num(machine, view, ret)
@@ -252,6 +279,15 @@ impl StgIntrinsic for Mul {
                 y,
             ))?;
             machine_return_num(machine, view, Number::from(product))
+        } else if let (Some(l), Some(r)) = (as_integer(&x), as_integer(&y)) {
+            // one operand exceeds i64 and the other is negative
+            let result = l * r;
+            let result = num_from_integer(result).ok_or(ExecutionError::NumericRangeError(
+                machine.annotation(),
+                x,
+                y,
+            ))?;
+            machine_return_num(machine, view, result)
         } else if let (Some(l), Some(r)) = (x.as_f64(), y.as_f64()) {
             if let Some(ret) = Number::from_f64(l * r) {
                 machine_return_num(machine, view, ret)
@@ -326,6 +362,16 @@ impl StgIntrinsic for Div {
                 y,
             ))?;
             machine_return_num(machine, view, Number::from(result))
+        } else if let (Some(l), Some(r)) = (as_integer(&x), as_integer(&y)) {
+            // one operand exceeds i64 and the other is negative
+            // signs differ here, so rounding down adjusts any inexact quotient
+            let result = l / r - i128::from(l % r != 0);
+            let result = num_from_integer(result).ok_or(ExecutionError::NumericRangeError(
+                machine.annotation(),
+                x,
+                y,
+            ))?;
+            machine_return_num(machine, view, result)
         } else if let (Some(l), Some(r)) = (x.as_f64(), y.as_f64()) {
             let result = (l / r).floor();
             if let Some(n) = num_from_floored(result) {
@@ -388,6 +434,17 @@ impl StgIntrinsic for Mod {
                 y,
             ))?;
             machine_return_num(machine, view, Number::from(result))
+        } else if let (Some(l), Some(r)) = (as_integer(&x), as_integer(&y)) {
+            // one operand exceeds i64 and the other is negative
+            // signs differ here, so any remainder takes the sign of the divisor
+            let rem = l % r;
+            let result = if rem == 0 { 0 } else { rem + r };
+            let result = num_from_integer(result).ok_or(ExecutionError::NumericRangeError(
+                machine.annotation(),
+                x,
+                y,
+            ))?;
+            machine_return_num(machine, view, result)
         } else if let (Some(l), Some(r)) = (x.as_f64(), y.as_f64()) {
             let q = (l / r).floor();
             let result = l - r * q;
@@ -908,6 +965,15 @@ impl StgIntrinsic for Quot {
                 y,
             ))?;
             machine_return_num(machine, view, Number::from(result))
+        } else if let (Some(l), Some(r)) = (as_integer(&x), as_integer(&y)) {
+            // one operand exceeds i64 and the other is negative
+            let result = l / r;
+            let result = num_from_integer(result).ok_or(ExecutionError::NumericRangeError(
+                machine.annotation(),
+                x,
+                y,
+            ))?;
+            machine_return_num(machine, view, result)
         } else if let (Some(l), Some(r)) = (x.as_f64(), y.as_f64()) {
             let result = (l / r).trunc();
             if let Some(n) = num_from_floored(result) {
@@ -970,6 +1036,15 @@ impl StgIntrinsic for Rem {
                 y,
             ))?;
             machine_return_num(machine, view, Number::from(result))
+        } else if let (Some(l), Some(r)) = (as_integer(&x), as_integer(&y)) {
+            // one operand exceeds i64 and the other is negative
+            let result = l % r;
+            let result = num_from_integer(result).ok_or(ExecutionError::NumericRangeError(
+                machine.annotation(),
+                x,
+                y,
+            ))?;
+            machine_return_num(machine, view, result)
         } else if let (Some(l), Some(r)) = (x.as_f64(), y.as_f64()) {
             if let Some(ret) = Number::from_f64(l % r) {
                 machine_return_num(machine, view, ret)
@@ -1005,7 +1080,8 @@ fn require_i64(n: &Number, smid: crate::common::sourcemap::Smid) -> Result<i64,
             )
         })
     } else if let Some(f) = n.as_f64() {
-        if f.fract() == 0.0 && f >= i64::MIN as f64 && f <= i64::MAX as f64 {
+        // i64::MAX rounds up to 2^63 as an f64, so the upper bound is exclusive
+        if f.fract() == 0.0 && f >= i64::MIN as f64 && f < i64::MAX as f64 {
             Ok(f as i64)
         } else {
             Err(ExecutionError::BitwiseIntegerRequired(
-- 
2.43.0


From 785892686a5dd8d3c5f054a1f2cd9c231e35d6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:20 +0000
Subject: [PATCH 02/45] fix: equality of sets, arrays and vecs compares
 contents

Equal sets, arrays or vecs built separately compared unequal because the
comparison was of heap pointers.
---
 src/eval/stg/eq.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eval/stg/eq.rs b/src/eval/stg/eq.rs
index c3deaf8..84f63f0 100644
--- a/src/eval/stg/eq.rs
+++ b/src/eval/stg/eq.rs
@@ -280,6 +280,9 @@ impl StgIntrinsic for Eq {
             (Native::Num(ref nx), Native::Num(ref ny)) => num_eq(nx, ny),
             (Native::Str(sx), Native::Str(sy)) => str_eq(view, sx, sy),
             (Native::Sym(id_x), Native::Sym(id_y)) => id_x == id_y,
+            (Native::Set(sx), Native::Set(sy)) => *view.scoped(sx) == *view.scoped(sy),
+            (Native::NdArray(ax), Native::NdArray(ay)) => *view.scoped(ax) == *view.scoped(ay),
+            (Native::Vec(vx), Native::Vec(vy)) => *view.scoped(vx) == *view.scoped(vy),
             (l, r) => l == r,
         };
         machine_return_bool(machine, view, eq)
-- 
2.43.0


From c473233364ae17f532466dae64fd9e01e02c6538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:20 +0000
Subject: [PATCH 03/45] fix: sets and vecs hold integers exactly

Integers were stored as f64: distinct integers above 2^53 became one element
and every integer came back as a float.
---
 src/eval/memory/set.rs  | 44 +++++++++++++++++++++++++++++++++++------
 src/eval/stg/emit.rs    |  5 +++--
 src/eval/stg/support.rs |  5 +++--
 3 files changed, 44 insertions(+), 10 deletions(-)

diff --git a/src/eval/memory/set.rs b/src/eval/memory/set.rs
index dda6a45..ff934a8 100644
--- a/src/eval/memory/set.rs
+++ b/src/eval/memory/set.rs
@@ -16,18 +16,23 @@ use super::symbol::SymbolId;
 ///
 /// Sets are restricted to primitives — no nested blocks, lists, or
 /// lambdas.
-#[derive(Clone, Debug, PartialEq, Eq)]
+///
+/// Integers are held exactly. An integer and a float are the same
+/// element when they have the same value.
+#[derive(Clone, Debug)]
 pub enum Primitive {
     Num(OrderedFloat<f64>),
+    Int(i128),
     Str(String),
     Sym(SymbolId),
 }
 
 impl Hash for Primitive {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        std::mem::discriminant(self).hash(state);
         match self {
+            // equal numbers hash alike because rounding to f64 is a function of the value
             Primitive::Num(n) => n.hash(state),
+            Primitive::Int(i) => OrderedFloat(*i as f64).hash(state),
             Primitive::Str(s) => s.hash(state),
             Primitive::Sym(id) => id.hash(state),
         }
@@ -35,20 +40,44 @@ impl Hash for Primitive {
 }
 
 impl Primitive {
-    /// Convert a `serde_json::Number` to a set-safe `OrderedFloat<f64>`.
+    /// Convert a `serde_json::Number` to a set-safe exact integer or
+    /// `OrderedFloat<f64>`.
     pub fn from_number(n: &Number) -> Self {
-        Primitive::Num(OrderedFloat(n.as_f64().unwrap_or(0.0)))
+        match (n.as_i64(), n.as_u64()) {
+            (Some(i), _) => Primitive::Int(i.into()),
+            (_, Some(u)) => Primitive::Int(u.into()),
+            _ => Primitive::Num(OrderedFloat(n.as_f64().unwrap_or(0.0))),
+        }
     }
 
     /// Convert back to a `serde_json::Number` for rendering.
     pub fn to_number(&self) -> Option<Number> {
         match self {
             Primitive::Num(n) => Number::from_f64(n.into_inner()),
+            Primitive::Int(i) => i64::try_from(*i)
+                .map(Number::from)
+                .or_else(|_| u64::try_from(*i).map(Number::from))
+                .ok(),
             _ => None,
         }
     }
 }
 
+/// Order an integer and a float by value.
+fn cmp_int_float(i: i128, f: OrderedFloat<f64>) -> std::cmp::Ordering {
+    OrderedFloat(i as f64)
+        .cmp(&f)
+        .then_with(|| i.cmp(&(f.into_inner() as i128)))
+}
+
+impl PartialEq for Primitive {
+    fn eq(&self, other: &Self) -> bool {
+        self.cmp(other).is_eq()
+    }
+}
+
+impl Eq for Primitive {}
+
 impl PartialOrd for Primitive {
     fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
         Some(self.cmp(other))
@@ -60,11 +89,14 @@ impl Ord for Primitive {
         use std::cmp::Ordering;
         match (self, other) {
             (Primitive::Num(a), Primitive::Num(b)) => a.cmp(b),
+            (Primitive::Int(a), Primitive::Int(b)) => a.cmp(b),
+            (Primitive::Int(a), Primitive::Num(b)) => cmp_int_float(*a, *b),
+            (Primitive::Num(a), Primitive::Int(b)) => cmp_int_float(*b, *a).reverse(),
             (Primitive::Str(a), Primitive::Str(b)) => a.cmp(b),
             (Primitive::Sym(a), Primitive::Sym(b)) => a.cmp(b),
             // Numbers before strings before symbols
-            (Primitive::Num(_), _) => Ordering::Less,
-            (_, Primitive::Num(_)) => Ordering::Greater,
+            (Primitive::Num(_) | Primitive::Int(_), _) => Ordering::Less,
+            (_, Primitive::Num(_) | Primitive::Int(_)) => Ordering::Greater,
             (Primitive::Str(_), Primitive::Sym(_)) => Ordering::Less,
             (Primitive::Sym(_), Primitive::Str(_)) => Ordering::Greater,
         }
diff --git a/src/eval/stg/emit.rs b/src/eval/stg/emit.rs
index 3247201..f770a9c 100644
--- a/src/eval/stg/emit.rs
+++ b/src/eval/stg/emit.rs
@@ -90,8 +90,9 @@ fn set_primitive_to_render_primitive(
     machine: &dyn IntrinsicMachine,
 ) -> Primitive {
     match prim {
-        SetPrimitive::Num(n) => {
-            let num = serde_json::Number::from_f64(n.into_inner())
+        SetPrimitive::Num(_) | SetPrimitive::Int(_) => {
+            let num = prim
+                .to_number()
                 .unwrap_or_else(|| serde_json::Number::from(0));
             Primitive::Num(num)
         }
diff --git a/src/eval/stg/support.rs b/src/eval/stg/support.rs
index 8ee86a8..7e074c4 100644
--- a/src/eval/stg/support.rs
+++ b/src/eval/stg/support.rs
@@ -497,8 +497,9 @@ pub fn set_primitive_to_native(
 ) -> Result<Native, ExecutionError> {
     use crate::eval::memory::set::Primitive as SetPrim;
     match prim {
-        SetPrim::Num(n) => {
-            let num = serde_json::Number::from_f64(n.into_inner())
+        SetPrim::Num(_) | SetPrim::Int(_) => {
+            let num = prim
+                .to_number()
                 .unwrap_or_else(|| serde_json::Number::from(0));
             Ok(Native::Num(num))
         }
-- 
2.43.0


From 9dc3b84639cb9f055637276355a11b03c4107edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:07 +0000
Subject: [PATCH 04/45] fix: number ordering, sorting and running aggregates
 are exact

Comparing an integer with a float rounded the integer first, so equality was
not transitive; sort-nums, running-max, running-min and running-sum converted
every number to f64, changing large integers, returning floats, and giving 0
on overflow.
---
 src/eval/stg/arith.rs   | 87 +++++++++++++++--------------------------
 src/eval/stg/eq.rs      | 11 +-----
 src/eval/stg/list.rs    |  9 +++--
 src/eval/stg/running.rs | 41 +++++++++----------
 src/eval/stg/support.rs | 28 +++++++++++--
 5 files changed, 82 insertions(+), 94 deletions(-)

diff --git a/src/eval/stg/arith.rs b/src/eval/stg/arith.rs
index 8f85344..a7d83d8 100644
--- a/src/eval/stg/arith.rs
+++ b/src/eval/stg/arith.rs
@@ -12,6 +12,7 @@ use crate::{
         machine::intrinsic::{CallGlobal1, CallGlobal2, IntrinsicMachine, StgIntrinsic},
         memory::{
             mutator::MutatorHeapView,
+            set::Primitive,
             syntax::{Native, Ref},
         },
     },
@@ -76,6 +77,28 @@ fn num_from_integer(n: i128) -> Option<Number> {
         .ok()
 }
 
+/// Add two numbers: integers exactly, or as f64 if either is a float.
+pub fn num_add(smid: Smid, x: Number, y: Number) -> Result<Number, ExecutionError> {
+    if let (Some(l), Some(r)) = (x.as_i64(), y.as_i64()) {
+        let total = l
+            .checked_add(r)
+            .ok_or(ExecutionError::NumericRangeError(smid, x, y))?;
+        Ok(Number::from(total))
+    } else if let (Some(l), Some(r)) = (x.as_u64(), y.as_u64()) {
+        let total = l
+            .checked_add(r)
+            .ok_or(ExecutionError::NumericRangeError(smid, x, y))?;
+        Ok(Number::from(total))
+    } else if let (Some(l), Some(r)) = (as_integer(&x), as_integer(&y)) {
+        // one operand exceeds i64 and the other is negative
+        num_from_integer(l + r).ok_or(ExecutionError::NumericRangeError(smid, x, y))
+    } else if let (Some(l), Some(r)) = (x.as_f64(), y.as_f64()) {
+        Number::from_f64(l + r).ok_or(ExecutionError::NumericDomainError(smid, x, y))
+    } else {
+        Err(ExecutionError::NumericDomainError(smid, x, y))
+    }
+}
+
 /// Convert a floored/truncated f64 to an integer Number when possible,
 /// falling back to f64 representation for values outside i64 range.
 fn num_from_floored(val: f64) -> Option<Number> {
@@ -120,46 +143,8 @@ impl StgIntrinsic for Add {
         let x = num_arg(machine, view, &args[0])?;
         let y = num_arg(machine, view, &args[1])?;
 
-        if let (Some(l), Some(r)) = (x.as_i64(), y.as_i64()) {
-            let total = l.checked_add(r).ok_or(ExecutionError::NumericRangeError(
-                machine.annotation(),
-                x,
-                y,
-            ))?;
-            machine_return_num(machine, view, Number::from(total))
-        } else if let (Some(l), Some(r)) = (x.as_u64(), y.as_u64()) {
-            let total = l.checked_add(r).ok_or(ExecutionError::NumericRangeError(
-                machine.annotation(),
-                x,
-                y,
-            ))?;
-            machine_return_num(machine, view, Number::from(total))
-        } else if let (Some(l), Some(r)) = (as_integer(&x), as_integer(&y)) {
-            // one operand exceeds i64 and the other is negative
-            let result = l + r;
-            let result = num_from_integer(result).ok_or(ExecutionError::NumericRangeError(
-                machine.annotation(),
-                x,
-                y,
-            ))?;
-            machine_return_num(machine, view, result)
-        } else if let (Some(l), Some(r)) = (x.as_f64(), y.as_f64()) {
-            if let Some(ret) = Number::from_f64(l + r) {
-                machine_return_num(machine, view, ret)
-            } else {
-                Err(ExecutionError::NumericDomainError(
-                    machine.annotation(),
-                    x,
-                    y,
-                ))
-            }
-        } else {
-            Err(ExecutionError::NumericDomainError(
-                machine.annotation(),
-                x,
-                y,
-            ))
-        }
+        let total = num_add(machine.annotation(), x, y)?;
+        machine_return_num(machine, view, total)
     }
 }
 
@@ -576,23 +561,13 @@ fn arithmetic_wrapper(index: usize) -> LambdaForm {
     binary_wrapper(index)
 }
 
-/// Ordering comparison between two numbers, trying i64, u64, then f64
-/// representations. Returns the `std::cmp::Ordering` or an error if
-/// the numbers cannot be compared.
-fn num_ord(smid: Smid, x: &Number, y: &Number) -> Result<std::cmp::Ordering, ExecutionError> {
+/// Ordering of two numbers by value, exact also between integers and
+/// floats.
+pub fn num_ord(x: &Number, y: &Number) -> std::cmp::Ordering {
     if let (Some(l), Some(r)) = (x.as_i64(), y.as_i64()) {
-        Ok(l.cmp(&r))
-    } else if let (Some(l), Some(r)) = (x.as_u64(), y.as_u64()) {
-        Ok(l.cmp(&r))
-    } else if let (Some(l), Some(r)) = (x.as_f64(), y.as_f64()) {
-        l.partial_cmp(&r)
-            .ok_or_else(|| ExecutionError::NumericDomainError(smid, x.clone(), y.clone()))
+        l.cmp(&r)
     } else {
-        Err(ExecutionError::NumericDomainError(
-            smid,
-            x.clone(),
-            y.clone(),
-        ))
+        Primitive::from_number(x).cmp(&Primitive::from_number(y))
     }
 }
 
@@ -609,7 +584,7 @@ fn ordered_cmp(
     let y = machine.resolve_native(view, &args[1])?;
     match (x, y) {
         (Native::Num(ref nx), Native::Num(ref ny)) => {
-            Ok(pred(num_ord(machine.annotation(), nx, ny)?))
+            Ok(pred(num_ord(nx, ny)))
         }
         (Native::Str(sx), Native::Str(sy)) => {
             let ls = &*view.scoped(sx);
diff --git a/src/eval/stg/eq.rs b/src/eval/stg/eq.rs
index 84f63f0..d73778a 100644
--- a/src/eval/stg/eq.rs
+++ b/src/eval/stg/eq.rs
@@ -19,6 +19,7 @@ use crate::{
 };
 
 use super::{
+    arith::num_ord,
     block::{ExtractKey, ExtractValue},
     boolean::And,
     support::machine_return_bool,
@@ -80,15 +81,7 @@ fn binary_branch(tag: Tag) -> (Tag, Rc<StgSyn>) {
 
 /// Compare two numbers for equality
 fn num_eq(x: &Number, y: &Number) -> bool {
-    if let (Some(l), Some(r)) = (x.as_i64(), y.as_i64()) {
-        l == r
-    } else if let (Some(l), Some(r)) = (x.as_u64(), y.as_u64()) {
-        l == r
-    } else if let (Some(l), Some(r)) = (x.as_f64(), y.as_f64()) {
-        l == r
-    } else {
-        false
-    }
+    num_ord(x, y).is_eq()
 }
 
 /// Compare two heap strings for equality
diff --git a/src/eval/stg/list.rs b/src/eval/stg/list.rs
index 9f2e3e5..3795dd3 100644
--- a/src/eval/stg/list.rs
+++ b/src/eval/stg/list.rs
@@ -15,8 +15,9 @@ use crate::{
 };
 
 use super::{
+    arith::num_ord,
     force::SeqNumList,
-    support::{collect_num_list, machine_return_bool, machine_return_num_list, num_arg},
+    support::{collect_number_list, machine_return_bool, machine_return_number_list, num_arg},
     syntax::{
         dsl::{app_bif, case, data, f, force, lambda, local, lref, t, value},
         LambdaForm,
@@ -432,9 +433,9 @@ impl StgIntrinsic for SortNumList {
         _emitter: &mut dyn Emitter,
         args: &[Ref],
     ) -> Result<(), ExecutionError> {
-        let mut numbers = collect_num_list(machine, view, args[0].clone())?;
-        numbers.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
-        machine_return_num_list(machine, view, numbers)
+        let mut numbers = collect_number_list(machine, view, args[0].clone())?;
+        numbers.sort_by(num_ord);
+        machine_return_number_list(machine, view, numbers)
     }
 }
 
diff --git a/src/eval/stg/running.rs b/src/eval/stg/running.rs
index a44e773..21d08f7 100644
--- a/src/eval/stg/running.rs
+++ b/src/eval/stg/running.rs
@@ -13,8 +13,9 @@ use crate::{
 };
 
 use super::{
+    arith::{num_add, num_ord},
     force::SeqNumList,
-    support::{collect_num_list, machine_return_num_list},
+    support::{collect_number_list, machine_return_number_list},
     syntax::{
         dsl::{app_bif, force, lambda, lref},
         LambdaForm,
@@ -55,14 +56,13 @@ impl StgIntrinsic for RunningMax {
         _emitter: &mut dyn Emitter,
         args: &[Ref],
     ) -> Result<(), ExecutionError> {
-        let nums = collect_num_list(machine, view, args[0].clone())?;
-        let mut result = Vec::with_capacity(nums.len());
-        let mut acc = f64::NEG_INFINITY;
-        for &n in &nums {
-            acc = acc.max(n);
-            result.push(acc);
+        let mut nums = collect_number_list(machine, view, args[0].clone())?;
+        for i in 1..nums.len() {
+            if num_ord(&nums[i - 1], &nums[i]).is_ge() {
+                nums[i] = nums[i - 1].clone();
+            }
         }
-        machine_return_num_list(machine, view, result)
+        machine_return_number_list(machine, view, nums)
     }
 }
 
@@ -88,14 +88,13 @@ impl StgIntrinsic for RunningMin {
         _emitter: &mut dyn Emitter,
         args: &[Ref],
     ) -> Result<(), ExecutionError> {
-        let nums = collect_num_list(machine, view, args[0].clone())?;
-        let mut result = Vec::with_capacity(nums.len());
-        let mut acc = f64::INFINITY;
-        for &n in &nums {
-            acc = acc.min(n);
-            result.push(acc);
+        let mut nums = collect_number_list(machine, view, args[0].clone())?;
+        for i in 1..nums.len() {
+            if num_ord(&nums[i - 1], &nums[i]).is_le() {
+                nums[i] = nums[i - 1].clone();
+            }
         }
-        machine_return_num_list(machine, view, result)
+        machine_return_number_list(machine, view, nums)
     }
 }
 
@@ -121,14 +120,12 @@ impl StgIntrinsic for RunningSum {
         _emitter: &mut dyn Emitter,
         args: &[Ref],
     ) -> Result<(), ExecutionError> {
-        let nums = collect_num_list(machine, view, args[0].clone())?;
-        let mut result = Vec::with_capacity(nums.len());
-        let mut acc = 0.0_f64;
-        for &n in &nums {
-            acc += n;
-            result.push(acc);
+        let mut nums = collect_number_list(machine, view, args[0].clone())?;
+        let smid = machine.annotation();
+        for i in 1..nums.len() {
+            nums[i] = num_add(smid, nums[i - 1].clone(), nums[i].clone())?;
         }
-        machine_return_num_list(machine, view, result)
+        machine_return_number_list(machine, view, nums)
     }
 }
 
diff --git a/src/eval/stg/support.rs b/src/eval/stg/support.rs
index 7e074c4..7f845e6 100644
--- a/src/eval/stg/support.rs
+++ b/src/eval/stg/support.rs
@@ -619,12 +619,22 @@ pub fn collect_num_list(
     view: MutatorHeapView<'_>,
     list_ref: Ref,
 ) -> Result<Vec<f64>, ExecutionError> {
+    let numbers = collect_number_list(machine, view, list_ref)?;
+    Ok(numbers.iter().map(|n| n.as_f64().unwrap_or(0.0)).collect())
+}
+
+/// As `collect_num_list` but without converting the numbers to f64.
+pub fn collect_number_list(
+    machine: &mut dyn IntrinsicMachine,
+    view: MutatorHeapView<'_>,
+    list_ref: Ref,
+) -> Result<Vec<Number>, ExecutionError> {
     let smid = machine.annotation();
     let items = data_list_arg(machine, view, list_ref)?;
     let mut numbers = Vec::new();
     for item in &items {
         match machine.value_native(view, item) {
-            Some(Native::Num(n)) => numbers.push(n.as_f64().unwrap_or(0.0)),
+            Some(Native::Num(n)) => numbers.push(n),
             Some(_) => {
                 return Err(ExecutionError::NotValue(
                     smid,
@@ -671,10 +681,22 @@ pub fn machine_return_num_list(
     machine: &mut dyn IntrinsicMachine,
     view: MutatorHeapView,
     list: Vec<f64>,
+) -> Result<(), ExecutionError> {
+    let numbers = list
+        .into_iter()
+        .map(|item| Number::from_f64(item).unwrap_or_else(|| Number::from(0)))
+        .collect();
+    machine_return_number_list(machine, view, numbers)
+}
+
+/// As `machine_return_num_list` but for numbers of any representation.
+pub fn machine_return_number_list(
+    machine: &mut dyn IntrinsicMachine,
+    view: MutatorHeapView,
+    list: Vec<Number>,
 ) -> Result<(), ExecutionError> {
     let mut items = Vec::with_capacity(list.len());
-    for item in list {
-        let n = Number::from_f64(item).unwrap_or_else(|| Number::from(0));
+    for n in list {
         let native = machine.native_value(view, Native::Num(n))?;
         items.push(machine.data_value(view, DataConstructor::BoxedNumber.tag(), &[native])?);
     }
-- 
2.43.0


From a1f24b8e6191feb71b829f9b9b0a7f57f732ed33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:18 +0000
Subject: [PATCH 05/45] fix: eucalypt output re-reads as the same value

---
 src/export/eu.rs | 69 ++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 61 insertions(+), 8 deletions(-)

diff --git a/src/export/eu.rs b/src/export/eu.rs
index c0d2bca..e2456ea 100644
--- a/src/export/eu.rs
+++ b/src/export/eu.rs
@@ -7,6 +7,7 @@
 
 use crate::eval::emit::{Emitter, Event, Rejection, RenderMetadata};
 use crate::eval::primitive::Primitive;
+use crate::syntax::rowan::lex::{is_normal_continuation, is_normal_start};
 use pretty::RcDoc;
 use std::io::Write;
 
@@ -63,12 +64,51 @@ impl FromPairs<String, EuValue> for EuValue {
     }
 }
 
-/// Escape and quote a string as a eucalypt string literal.
+/// Quote a string as a eucalypt string literal.
 ///
-/// Eucalypt uses JSON-compatible string syntax, so we delegate to
-/// `serde_json` for correct escaping.
+/// Plain string literals have no escapes and interpolate `{}`, so text
+/// holding anything special is written as a c-string.
 fn eu_quote_str(s: &str) -> String {
-    serde_json::to_string(s).unwrap_or_else(|_| format!("{s:?}"))
+    let special = |c: char| matches!(c, '"' | '\\' | '{' | '}') || c.is_control();
+    if !s.contains(special) {
+        return format!("\"{s}\"");
+    }
+    let mut quoted = String::from("c\"");
+    for c in s.chars() {
+        match c {
+            '\n' => quoted.push_str("\\n"),
+            '\r' => quoted.push_str("\\r"),
+            '\t' => quoted.push_str("\\t"),
+            c if c.is_control() => quoted.push_str(&format!("\\u{:04X}", c as u32)),
+            c => {
+                if special(c) {
+                    quoted.push('\\');
+                }
+                quoted.push(c);
+            }
+        }
+    }
+    quoted.push('"');
+    quoted
+}
+
+/// Write a name, in single quotes unless it is a normal identifier.
+fn eu_name(s: &str) -> String {
+    let mut chars = s.chars();
+    if chars.next().is_some_and(is_normal_start) && chars.all(is_normal_continuation) {
+        s.to_string()
+    } else {
+        format!("'{s}'")
+    }
+}
+
+/// Reject a name no syntax can write: quoted names have no escapes.
+fn unwritable_name(name: &str) -> Option<Rejection> {
+    name.contains('\'').then(|| {
+        Rejection::new(format!(
+            "the name {name:?} contains a single quote, which a eucalypt name cannot"
+        ))
+    })
 }
 
 /// Convert an `EuValue` to a `pretty` document for rendering.
@@ -76,10 +116,10 @@ fn eu_to_doc(val: &EuValue) -> RcDoc<'static> {
     match val {
         EuValue::Null => RcDoc::text("null"),
         EuValue::Bool(b) => RcDoc::text(if *b { "true" } else { "false" }),
-        EuValue::Sym(s) => RcDoc::text(format!(":{s}")),
+        EuValue::Sym(s) => RcDoc::text(format!(":{}", eu_name(s))),
         EuValue::Str(s) => RcDoc::text(eu_quote_str(s)),
         EuValue::Num(n) => RcDoc::text(format!("{n}")),
-        EuValue::ZonedDateTime(dt) => RcDoc::text(eu_quote_str(&format!("{dt}"))),
+        EuValue::ZonedDateTime(dt) => RcDoc::text(format!("t\"{}\"", dt.to_rfc3339())),
         EuValue::Array(items) => {
             if items.is_empty() {
                 return RcDoc::text("[]");
@@ -98,7 +138,7 @@ fn eu_to_doc(val: &EuValue) -> RcDoc<'static> {
             let docs: Vec<RcDoc<'static>> = pairs
                 .iter()
                 .map(|(k, v)| {
-                    RcDoc::text(format!("{k}:"))
+                    RcDoc::text(format!("{}:", eu_name(k)))
                         .append(RcDoc::space())
                         .append(eu_to_doc(v))
                 })
@@ -150,7 +190,20 @@ impl Emitter for EuEmitter<'_> {
     fn unacceptable(&self, event: &Event) -> Option<Rejection> {
         // eucalypt block keys are names, so anything that is not a symbol or
         // a string cannot be written back as eucalypt source that re-parses.
-        super::unrepresentable_key("eucalypt block", self.accum.expecting_key(), event)
+        let expecting_key = self.accum.expecting_key();
+        if let Event::OutputScalar(_, Primitive::Str(name)) = event {
+            if expecting_key {
+                return unwritable_name(name);
+            }
+        }
+        super::unrepresentable_key("eucalypt block", expecting_key, event)
+    }
+
+    fn unrepresentable(&self, primitive: &Primitive) -> Option<Rejection> {
+        match primitive {
+            Primitive::Sym(name) => unwritable_name(name),
+            _ => None,
+        }
     }
 
     fn emit(&mut self, event: Event) -> Result<(), RenderError> {
-- 
2.43.0


From 90a528144e40816820ecd089d477c2a31cd0ce71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:18 +0000
Subject: [PATCH 06/45] fix: symbols EDN has no keyword for are written as
 strings

---
 src/export/edn.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/export/edn.rs b/src/export/edn.rs
index 022af00..7d44ac3 100644
--- a/src/export/edn.rs
+++ b/src/export/edn.rs
@@ -4,11 +4,22 @@ use super::error::RenderError;
 use super::table::{AsKey, FromPairs, FromPrimitive, FromVec, TableAccumulator};
 use crate::eval::emit::{Emitter, Event, RenderMetadata};
 use crate::eval::primitive::Primitive;
-use edn_format::{emit_str, Keyword, Value};
+use edn_format::{emit_str, parse_str, Keyword, Value};
 use num_bigint::BigInt;
 use ordered_float::OrderedFloat;
 use std::io::Write;
 
+/// The keyword for a symbol, or a string where EDN has no such keyword.
+fn keyword(name: &str) -> Value {
+    let written = format!(":{name}");
+    match parse_str(&written) {
+        Ok(Value::Keyword(k)) if k.to_string() == written => {
+            Value::Keyword(Keyword::from_name(name))
+        }
+        _ => Value::String(name.to_string()),
+    }
+}
+
 impl AsKey<Value> for Value {
     fn as_key(&self) -> Value {
         self.clone()
@@ -20,7 +31,7 @@ impl FromPrimitive for Value {
         match primitive {
             Primitive::Null => Value::Nil,
             Primitive::Bool(b) => Value::Boolean(*b),
-            Primitive::Sym(s) => Value::Keyword(Keyword::from_name(s)),
+            Primitive::Sym(s) => keyword(s),
             Primitive::Str(s) => Value::String(s.clone()),
             Primitive::Num(n) => {
                 if let Some(i) = n.as_i64() {
-- 
2.43.0


From 8a51a40a927ed7116898a935b96635191ed452ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:18 +0000
Subject: [PATCH 07/45] fix: markup elements without an attribute block keep
 their content

---
 src/export/markup.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/export/markup.rs b/src/export/markup.rs
index a0b409b..7bb9780 100644
--- a/src/export/markup.rs
+++ b/src/export/markup.rs
@@ -88,6 +88,11 @@ impl Expectation {
     pub fn feed_str(&mut self, value: String) {
         match self {
             Expectation::EmptyElement => *self = Expectation::TaggedElement(value),
+            // no attribute block: the content follows the tag directly
+            Expectation::TaggedElement(tag) => {
+                let content = vec![Item::Content(value)];
+                *self = Expectation::OpenElement(Element::new(std::mem::take(tag), vec![], content))
+            }
             Expectation::OpenElement(e) => e.content.push(Item::Content(value)),
             Expectation::EvenAttrAccumulation(attrs) => {
                 *self = Expectation::OddAttrAccumulation(attrs.clone(), value)
@@ -98,7 +103,6 @@ impl Expectation {
                     Expectation::EvenAttrAccumulation(attrs.to_vec())
                 }
             }
-            _ => {}
         }
     }
 
@@ -111,8 +115,13 @@ impl Expectation {
 
     /// Feed a child element to the current expectation
     pub fn feed_element(&mut self, element: Element) {
-        if let Expectation::OpenElement(e) = self {
-            e.content.push(Item::Element(element))
+        match self {
+            Expectation::TaggedElement(tag) => {
+                let content = vec![Item::Element(element)];
+                *self = Expectation::OpenElement(Element::new(std::mem::take(tag), vec![], content))
+            }
+            Expectation::OpenElement(e) => e.content.push(Item::Element(element)),
+            _ => {}
         }
     }
 }
-- 
2.43.0


From a7de2fa0747fa0aee0bba117b6b2f5b87d9aeea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:18 +0000
Subject: [PATCH 08/45] fix: void HTML elements have no end tag

---
 src/export/html.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/export/html.rs b/src/export/html.rs
index dd8dfd8..da126a3 100644
--- a/src/export/html.rs
+++ b/src/export/html.rs
@@ -12,13 +12,25 @@ use std::{
     iter,
 };
 
+/// Elements HTML gives no content and hence no end tag.
+const VOID_ELEMENTS: [&str; 13] = [
+    "area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "source", "track",
+    "wbr",
+];
+
 /// Serialise a markup element and its descendants to HTML
 impl Serialize for Element {
     fn serialize<S>(&self, serializer: &mut S, traversal_scope: TraversalScope) -> Result<(), Error>
     where
         S: Serializer,
     {
-        let tag_name = QualName::new(None, ns!(), LocalName::from(self.tag()));
+        // the serialiser omits the end tag of a void element it knows as HTML
+        let namespace = if VOID_ELEMENTS.contains(&self.tag()) && self.items().is_empty() {
+            ns!(html)
+        } else {
+            ns!()
+        };
+        let tag_name = QualName::new(None, namespace, LocalName::from(self.tag()));
         let keys: Vec<_> = self
             .attrs()
             .iter()
-- 
2.43.0


From 0e73ce99256a06d31d4dd30bc464810c94360cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:11 +0000
Subject: [PATCH 09/45] fix: an unclosed bracket at the end of the text is an
 error, not a panic

---
 src/syntax/rowan/parse.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/syntax/rowan/parse.rs b/src/syntax/rowan/parse.rs
index f0368f9..5310f04 100644
--- a/src/syntax/rowan/parse.rs
+++ b/src/syntax/rowan/parse.rs
@@ -84,7 +84,8 @@ impl<'text> Parser<'text> {
         for (_, s) in &self.tokens[0..self.next_token] {
             ch += TextSize::of(*s);
         }
-        TextRange::at(ch, TextSize::of(self.tokens[self.next_token].1))
+        let len = self.peek().map_or(0.into(), |(_, s)| TextSize::of(s));
+        TextRange::at(ch, len)
     }
 
     /// Calculate a text range covering the last consumed token and the next token.
-- 
2.43.0


From dd6ff203bdeb1c145118624edb0b071aa73314c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:27 +0000
Subject: [PATCH 10/45] fix: whitespace in interpolations stays in the syntax
 tree

---
 src/syntax/rowan/parse.rs      |  8 ++++++++
 src/syntax/rowan/string_lex.rs | 16 ++++++++++++----
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/syntax/rowan/parse.rs b/src/syntax/rowan/parse.rs
index 5310f04..635a967 100644
--- a/src/syntax/rowan/parse.rs
+++ b/src/syntax/rowan/parse.rs
@@ -1013,6 +1013,7 @@ impl<'text> Parser<'text> {
                 _ => {
                     // Unexpected token - consume and continue
                     self.next();
+                    self.sink().token(kind, tok_len);
                 }
             }
         }
@@ -1030,6 +1031,8 @@ impl<'text> Parser<'text> {
             .take_while(|(kind, _)| *kind != CLOSE_BRACE && *kind != COLON)
             .any(|(kind, _)| *kind == OPERATOR_IDENTIFIER);
 
+        self.add_trivia();
+
         if has_dots {
             // Create a soup to hold the interpolation expression
             self.sink().start_node(SOUP);
@@ -1042,6 +1045,7 @@ impl<'text> Parser<'text> {
                 self.sink().token(STRING_INTERPOLATION_TARGET, len);
                 self.sink().finish_node(); // end NAME
             }
+            self.add_trivia();
 
             // Parse alternating dots and targets
             while let Some((OPERATOR_IDENTIFIER, text)) = self.peek() {
@@ -1052,6 +1056,7 @@ impl<'text> Parser<'text> {
                     self.sink().start_node(NAME);
                     self.sink().token(OPERATOR_IDENTIFIER, dot_len);
                     self.sink().finish_node(); // end NAME
+                    self.add_trivia();
 
                     // Parse the following target
                     if let Some((STRING_INTERPOLATION_TARGET, tgt_text)) = self.peek() {
@@ -1060,6 +1065,7 @@ impl<'text> Parser<'text> {
                         self.sink().start_node(NAME);
                         self.sink().token(STRING_INTERPOLATION_TARGET, tgt_len);
                         self.sink().finish_node(); // end NAME
+                        self.add_trivia();
                     } else {
                         // Malformed - dot without following target
                         break;
@@ -1079,6 +1085,7 @@ impl<'text> Parser<'text> {
                 self.sink().token(STRING_INTERPOLATION_TARGET, len);
                 self.sink().finish_node();
             }
+            self.add_trivia();
         }
 
         // Check for format spec (colon followed by format)
@@ -1086,6 +1093,7 @@ impl<'text> Parser<'text> {
             let colon_len = TextSize::of(colon_text);
             self.next(); // consume :
             self.sink().token(COLON, colon_len);
+            self.add_trivia();
 
             if let Some((STRING_FORMAT_SPEC, spec_text)) = self.peek() {
                 let spec_len = TextSize::of(spec_text);
diff --git a/src/syntax/rowan/string_lex.rs b/src/syntax/rowan/string_lex.rs
index 96edbdd..99f2caa 100644
--- a/src/syntax/rowan/string_lex.rs
+++ b/src/syntax/rowan/string_lex.rs
@@ -129,9 +129,13 @@ impl<'text> Iterator for StringPatternLexer<'text> {
     type Item = (SyntaxKind, Span, &'text str);
 
     fn next(&mut self) -> Option<Self::Item> {
-        // Skip whitespace in interpolation contexts but preserve in literals
+        // Whitespace in interpolation contexts is trivia
         if self.in_interpolation {
-            self.skip_whitespace();
+            let start = self.position;
+            if self.skip_whitespace() {
+                let text = self.slice(start, self.position);
+                return Some((WHITESPACE, self.make_span(start, self.position), text));
+            }
         }
 
         let (start, ch) = self.bump()?;
@@ -324,9 +328,13 @@ impl<'text> Iterator for CStringPatternLexer<'text> {
     type Item = (SyntaxKind, Span, &'text str);
 
     fn next(&mut self) -> Option<Self::Item> {
-        // Skip whitespace in interpolation contexts but preserve in literals
+        // Whitespace in interpolation contexts is trivia
         if self.in_interpolation {
-            self.skip_whitespace();
+            let start = self.position;
+            if self.skip_whitespace() {
+                let text = self.slice(start, self.position);
+                return Some((WHITESPACE, self.make_span(start, self.position), text));
+            }
         }
 
         let (start, ch) = self.bump()?;
-- 
2.43.0


From 9bda35187f884d6fc65f9934e3a458e49e8a4cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:27 +0000
Subject: [PATCH 11/45] fix: an escape at the start of a c-string chunk covers
 the brace after it

---
 src/syntax/rowan/string_lex.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/syntax/rowan/string_lex.rs b/src/syntax/rowan/string_lex.rs
index 99f2caa..4eac50b 100644
--- a/src/syntax/rowan/string_lex.rs
+++ b/src/syntax/rowan/string_lex.rs
@@ -376,6 +376,9 @@ impl<'text> Iterator for CStringPatternLexer<'text> {
             }
             _ => {
                 // Regular literal content (includes handling backslash escapes)
+                if ch == '\\' {
+                    self.bump(); // the escaped char is content, even a brace
+                }
                 Some(self.literal_content(start))
             }
         }
-- 
2.43.0


From c27cd02e1a58a49618e9f402bd05157159dfcf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:44 +0000
Subject: [PATCH 12/45] fix: a declaration with an empty body keeps its tokens

---
 src/syntax/rowan/parse.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/syntax/rowan/parse.rs b/src/syntax/rowan/parse.rs
index 635a967..3f4aaa9 100644
--- a/src/syntax/rowan/parse.rs
+++ b/src/syntax/rowan/parse.rs
@@ -1227,7 +1227,7 @@ impl EventSink for BlockEventSink {
         if self.depth == 0 {
             match kind {
                 BACKTICK => {
-                    if !self.buffer.is_empty() {
+                    if !self.buffer.is_empty() || self.declaration.is_some() {
                         match self.declaration {
                             Some(ref mut d) => {
                                 swap(&mut d.body, &mut self.buffer);
@@ -1254,7 +1254,9 @@ impl EventSink for BlockEventSink {
                 COLON => {
                     let mut head_nodes = self.split_off_head();
 
-                    if !self.buffer.is_empty() {
+                    // a pending declaration is complete even if the head
+                    // accounts for everything buffered since its colon
+                    if !self.buffer.is_empty() || self.declaration.is_some() {
                         match self.declaration {
                             Some(ref mut d) => {
                                 // if meta is set and empty it is
-- 
2.43.0


From 49f9f9a8c27663c81a08040caf8553df0e5a53b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:36 +0000
Subject: [PATCH 13/45] fix: a quote on its own at the end of the text is
 unclosed

---
 src/syntax/rowan/validate.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/syntax/rowan/validate.rs b/src/syntax/rowan/validate.rs
index 3b5c18c..647cc4f 100644
--- a/src/syntax/rowan/validate.rs
+++ b/src/syntax/rowan/validate.rs
@@ -77,7 +77,7 @@ mod support {
 impl Validatable for Sym {
     /// If a symbol is quoted, it must be quoted correctly
     fn validate(&self, errors: &mut Vec<ParseError>) {
-        if self.text().starts_with('\'') && !self.text().ends_with('\'') {
+        if self.value().is_none() {
             errors.push(ParseError::UnclosedSingleQuote {
                 range: self.syntax().text_range(),
             })
@@ -88,7 +88,7 @@ impl Validatable for Sym {
 impl Validatable for Str {
     /// String quotes must be closed
     fn validate(&self, errors: &mut Vec<ParseError>) {
-        if self.text().starts_with('"') && !self.text().ends_with('"') {
+        if self.value().is_none() {
             errors.push(ParseError::UnclosedDoubleQuote {
                 range: self.syntax().text_range(),
             })
@@ -99,7 +99,11 @@ impl Validatable for Str {
 impl Validatable for CStr {
     /// C-string quotes must be closed
     fn validate(&self, errors: &mut Vec<ParseError>) {
-        if self.text().starts_with("c\"") && !self.text().ends_with('"') {
+        // a quote after an odd number of backslashes is an escaped one
+        let closed = self
+            .raw_value()
+            .is_some_and(|s| (s.len() - s.trim_end_matches('\\').len()) % 2 == 0);
+        if !closed {
             errors.push(ParseError::UnclosedDoubleQuote {
                 range: self.syntax().text_range(),
             })
@@ -110,7 +114,7 @@ impl Validatable for CStr {
 impl Validatable for RawStr {
     /// Raw string quotes must be closed
     fn validate(&self, errors: &mut Vec<ParseError>) {
-        if self.text().starts_with("r\"") && !self.text().ends_with('"') {
+        if self.value().is_none() {
             errors.push(ParseError::UnclosedDoubleQuote {
                 range: self.syntax().text_range(),
             })
@@ -121,7 +125,7 @@ impl Validatable for RawStr {
 impl Validatable for TStr {
     /// ZDT literal must contain a valid timestamp
     fn validate(&self, errors: &mut Vec<ParseError>) {
-        if self.text().starts_with("t\"") && !self.text().ends_with('"') {
+        if self.value().is_none() {
             errors.push(ParseError::UnclosedDoubleQuote {
                 range: self.syntax().text_range(),
             });
@@ -142,7 +146,7 @@ impl Validatable for TStr {
 impl Validatable for SStr {
     /// Type-data literal — only validate that it is properly closed
     fn validate(&self, errors: &mut Vec<ParseError>) {
-        if self.text().starts_with("s\"") && !self.text().ends_with('"') {
+        if self.value().is_none() {
             errors.push(ParseError::UnclosedDoubleQuote {
                 range: self.syntax().text_range(),
             });
@@ -184,7 +188,7 @@ impl Validatable for OperatorIdentifier {}
 
 impl Validatable for SingleQuoteIdentifier {
     fn validate(&self, errors: &mut Vec<ParseError>) {
-        if self.text().starts_with('\'') && !self.text().ends_with('\'') {
+        if self.text().len() < 2 || !self.text().ends_with('\'') {
             errors.push(ParseError::UnclosedSingleQuote {
                 range: self.syntax().text_range(),
             })
-- 
2.43.0


From 2025134b76415b346a88e78284cb3f33cb6b51d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:55 +0000
Subject: [PATCH 14/45] fix: the first closing brace after an interpolation
 ends it

---
 src/syntax/rowan/string_lex.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/syntax/rowan/string_lex.rs b/src/syntax/rowan/string_lex.rs
index 4eac50b..bd91890 100644
--- a/src/syntax/rowan/string_lex.rs
+++ b/src/syntax/rowan/string_lex.rs
@@ -154,15 +154,10 @@ impl<'text> Iterator for StringPatternLexer<'text> {
             }
             '}' => {
                 if self.in_interpolation {
-                    // Check for escaped }}
-                    if let Some(&'}') = self.peek() {
-                        Some(self.escaped_close(start))
-                    } else {
-                        // End interpolation
-                        self.in_interpolation = false;
-                        self.in_format_spec = false;
-                        Some((CLOSE_BRACE, self.make_span(start, self.position), "}"))
-                    }
+                    // End interpolation
+                    self.in_interpolation = false;
+                    self.in_format_spec = false;
+                    Some((CLOSE_BRACE, self.make_span(start, self.position), "}"))
                 } else {
                     // Outside interpolation, check for escaped }}
                     if let Some(&'}') = self.peek() {
-- 
2.43.0


From f9a38aac1b604a4bdeacd4cf3264b5804e249ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:55 +0000
Subject: [PATCH 15/45] fix: str.dq-escape writes a backslash as two, not four

---
 lib/prelude.eu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/prelude.eu b/lib/prelude.eu
index b597d58..3b597cd 100644
--- a/lib/prelude.eu
+++ b/lib/prelude.eu
@@ -1156,7 +1156,7 @@ str: {
 
   ` { doc: "dq-escape(s) - escape string for use inside double quotes in shell commands. Escapes backslash, dollar, backtick, and double quote."
       type: s"string → string" }
-  dq-escape(s): s replace(c"\\\\", c"\\\\\\\\") replace("[$]", c"\\$") replace("[`]", c"\\`") replace(ch.dq, [c"\\", ch.dq] join-on(""))
+  dq-escape(s): s replace(c"\\\\", c"\\\\") replace("[$]", c"\\$") replace("[`]", c"\\`") replace(ch.dq, [c"\\", ch.dq] join-on(""))
 }
 
 ##
-- 
2.43.0


From fa42da771766964e3bc240541f8c46b9d98ef69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:55 +0000
Subject: [PATCH 16/45] fix: str.starts-with? and str.ends-with? anchor every
 alternative

---
 lib/prelude.eu | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/prelude.eu b/lib/prelude.eu
index 3b597cd..8c82919 100644
--- a/lib/prelude.eu
+++ b/lib/prelude.eu
@@ -1144,11 +1144,11 @@ str: {
 
   ` { doc: "`starts-with?(re, s)` - true if string `s` starts with a match for regex `re`."
       type: s"string → string → bool" }
-  starts-with?(re, s): __STR_CONTAINS(["^", re] join-on(""), s)
+  starts-with?(re, s): __STR_CONTAINS(["^(?:", re, ")"] join-on(""), s)
 
   ` { doc: "`ends-with?(re, s)` - true if string `s` ends with a match for regex `re`."
       type: s"string → string → bool" }
-  ends-with?(re, s): __STR_CONTAINS([re, "$"] join-on(""), s)
+  ends-with?(re, s): __STR_CONTAINS(["(?:", re, ")$"] join-on(""), s)
 
   ` { doc: "`shell-escape(s)` - wrap string in single quotes for safe shell use. Embedded single quotes are escaped."
       type: s"string → string" }
-- 
2.43.0


From 9f9483ba6452687dd46f34c464a40e8974d66764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:27 +0000
Subject: [PATCH 17/45] fix: formatting turns a carriage return on its own into
 a line ending

---
 src/syntax/export/format.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/syntax/export/format.rs b/src/syntax/export/format.rs
index df9d58c..575dc32 100644
--- a/src/syntax/export/format.rs
+++ b/src/syntax/export/format.rs
@@ -695,8 +695,14 @@ impl Formatter {
         // Standard tab width for alignment preservation
         const TAB_WIDTH: usize = 8;
 
-        for c in ws.chars() {
+        let mut chars = ws.chars().peekable();
+        while let Some(c) = chars.next() {
             match c {
+                // a carriage return on its own is a line ending too
+                '\r' if chars.peek() != Some(&'\n') => {
+                    result.push('\n');
+                    col = 0;
+                }
                 '\n' => {
                     result.push('\n');
                     col = 0;
-- 
2.43.0


From 8780f1e9c47595dd618882d0660ab2728ab48512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:27 +0000
Subject: [PATCH 18/45] fix: reformatting keeps comments and metadata, and
 settles in one pass

---
 src/syntax/export/format.rs | 314 ++++++++++++++++++++----------------
 1 file changed, 176 insertions(+), 138 deletions(-)

diff --git a/src/syntax/export/format.rs b/src/syntax/export/format.rs
index 575dc32..e271bd4 100644
--- a/src/syntax/export/format.rs
+++ b/src/syntax/export/format.rs
@@ -84,7 +84,7 @@ impl Formatter {
     /// declarations rather than the entire file.
     pub fn format_declaration(&self, decl: &rowan_ast::Declaration) -> Result<String, String> {
         let doc = if self.config.reformat {
-            self.reformat_declaration(decl)
+            self.reformat_checked(decl.syntax(), self.reformat_declaration(decl))
         } else {
             self.fix_whitespace_violations(decl.syntax())
         };
@@ -127,103 +127,81 @@ impl Formatter {
     // Full Reformatting Mode
     // ========================================================================
 
-    /// Extract leading comments (including shebang) from a syntax node
-    fn extract_leading_comments(&self, node: &SyntaxNode) -> Vec<String> {
-        let mut comments = Vec::new();
-        for child in node.children_with_tokens() {
-            match child {
-                rowan::NodeOrToken::Token(t) => {
-                    if t.kind() == SyntaxKind::COMMENT {
-                        comments.push(t.text().to_string());
-                    } else if t.kind() != SyntaxKind::WHITESPACE {
-                        // Stop at first non-trivia token
-                        break;
-                    }
-                }
-                rowan::NodeOrToken::Node(_) => {
-                    // Stop at first node (declarations, metadata, etc.)
-                    break;
-                }
-            }
+    /// A node's source text, with only its whitespace violations fixed
+    fn verbatim(&self, node: &SyntaxNode) -> RcDoc<'static, ()> {
+        RcDoc::text(self.fixed_text(node).trim().to_string())
+    }
+
+    /// Use `doc` for `node` if it reads back as the same syntax, comments
+    /// included, and otherwise leave the node's source text as it is
+    fn reformat_checked(&self, node: &SyntaxNode, doc: RcDoc<'static, ()>) -> RcDoc<'static, ()> {
+        let faithful = self.render_doc(doc.clone()).is_ok_and(|text| {
+            let parsed = crate::syntax::rowan::parse_unit(&text);
+            let unit = parsed.syntax_node();
+            let mut children = unit.children();
+            parsed.errors().is_empty()
+                && children
+                    .next()
+                    .is_some_and(|n| outline(&n) == outline(node))
+                && children.next().is_none()
+        });
+        if faithful {
+            doc
+        } else {
+            self.verbatim(node)
         }
-        comments
     }
 
-    /// Extract comments that precede a declaration
-    fn extract_declaration_leading_comments(&self, decl: &rowan_ast::Declaration) -> Vec<String> {
-        let mut found_comments = Vec::new();
-        // Look at the previous siblings to find comments
-        let mut prev = decl.syntax().prev_sibling_or_token();
-
-        while let Some(sibling) = prev {
-            match &sibling {
-                rowan::NodeOrToken::Token(t) => {
-                    if t.kind() == SyntaxKind::COMMENT {
-                        found_comments.push(t.text().to_string());
-                    } else if t.kind() == SyntaxKind::WHITESPACE {
-                        // Check if whitespace contains blank line (resets comment association)
-                        if t.text().chars().filter(|&c| c == '\n').count() > 1 {
-                            break;
+    fn reformat_unit(&self, unit: &rowan_ast::Unit) -> RcDoc<'static, ()> {
+        // Header comments (including shebang), metadata, declarations with
+        // the comments before them, and final comments, each set apart by a
+        // blank line
+        let mut sections: Vec<RcDoc<'static, ()>> = Vec::new();
+        let mut comments: Vec<RcDoc<'static, ()>> = Vec::new();
+        let mut same_line = false;
+
+        for child in unit.syntax().children_with_tokens() {
+            match child {
+                rowan::NodeOrToken::Token(t) if t.kind() == SyntaxKind::COMMENT => {
+                    let comment = RcDoc::text(t.text().to_string());
+                    match sections.pop() {
+                        Some(section) if same_line => {
+                            sections.push(section.append(RcDoc::space()).append(comment))
+                        }
+                        section => {
+                            sections.extend(section);
+                            comments.push(comment);
                         }
-                    } else {
-                        break;
                     }
+                    same_line = false;
                 }
-                rowan::NodeOrToken::Node(_) => break,
-            }
-            prev = sibling.prev_sibling_or_token();
-        }
-
-        // Reverse since we collected in reverse order
-        found_comments.reverse();
-        found_comments
-    }
-
-    fn reformat_unit(&self, unit: &rowan_ast::Unit) -> RcDoc<'static, ()> {
-        let mut result = RcDoc::nil();
-
-        // Preserve leading comments (including shebang) as a single header block
-        let leading_comments = self.extract_leading_comments(unit.syntax());
-        if !leading_comments.is_empty() {
-            for comment in &leading_comments {
-                result = result
-                    .append(RcDoc::text(comment.clone()))
-                    .append(RcDoc::hardline());
-            }
-            // Add blank line after leading comments section
-            result = result.append(RcDoc::hardline());
-        }
-
-        // Handle metadata if present
-        if let Some(meta) = unit.meta() {
-            result = result.append(self.reformat_block_metadata(&meta));
-            result = result.append(RcDoc::hardline()).append(RcDoc::hardline());
-        }
-
-        // Format each declaration with its leading comments
-        let declarations: Vec<_> = unit.declarations().collect();
-        for (i, decl) in declarations.iter().enumerate() {
-            if i > 0 {
-                // Blank line between declarations
-                result = result.append(RcDoc::hardline());
-
-                // Extract and add comments that precede this declaration (not the first one,
-                // as those are already handled by extract_leading_comments)
-                let decl_comments = self.extract_declaration_leading_comments(decl);
-                for comment in &decl_comments {
-                    result = result
-                        .append(RcDoc::text(comment.clone()))
-                        .append(RcDoc::hardline());
+                rowan::NodeOrToken::Token(t) => {
+                    same_line = same_line && !t.text().contains('\n');
+                }
+                rowan::NodeOrToken::Node(n) => {
+                    let doc = match rowan_ast::Declaration::cast(n.clone()) {
+                        Some(decl) => self.reformat_checked(&n, self.reformat_declaration(&decl)),
+                        None => match rowan_ast::BlockMetadata::cast(n.clone()) {
+                            Some(meta) => {
+                                self.reformat_checked(&n, self.reformat_block_metadata(&meta))
+                            }
+                            None => self.verbatim(&n),
+                        },
+                    };
+                    if sections.is_empty() && !comments.is_empty() {
+                        sections.push(RcDoc::intersperse(comments.split_off(0), RcDoc::hardline()));
+                    }
+                    comments.push(doc);
+                    sections.push(RcDoc::intersperse(comments.split_off(0), RcDoc::hardline()));
+                    same_line = true;
                 }
             }
-
-            result = result.append(self.reformat_declaration(decl));
-            if i < declarations.len() - 1 {
-                result = result.append(RcDoc::hardline());
-            }
+        }
+        if !comments.is_empty() {
+            sections.push(RcDoc::intersperse(comments, RcDoc::hardline()));
         }
 
-        result
+        RcDoc::intersperse(sections, RcDoc::hardline().append(RcDoc::hardline()))
     }
 
     fn reformat_declaration(&self, decl: &rowan_ast::Declaration) -> RcDoc<'static, ()> {
@@ -316,6 +294,10 @@ impl Formatter {
     }
 
     fn reformat_soup(&self, soup: &rowan_ast::Soup) -> RcDoc<'static, ()> {
+        if has_comment(soup.syntax()) {
+            return self.verbatim(soup.syntax());
+        }
+
         let elements: Vec<_> = soup.elements().collect();
         if elements.is_empty() {
             return RcDoc::nil();
@@ -444,45 +426,78 @@ impl Formatter {
     fn reformat_block(&self, block: &rowan_ast::Block) -> RcDoc<'static, ()> {
         let decls: Vec<_> = block.declarations().collect();
 
-        if decls.is_empty() {
-            return RcDoc::text("{ }");
+        // Block metadata, including shorthand patterns like `{x y}`, is
+        // preserved as-is from source text
+        if block.meta().is_some() {
+            return self.verbatim(block.syntax());
         }
 
-        // Check if block can be single line (short enough, no nested blocks)
-        let single_line_len = self.estimate_block_single_line_len(block);
-        let can_single_line = single_line_len
-            <= self.config.line_width.saturating_sub(SINGLE_LINE_MARGIN)
-            && decls.len() <= MAX_SINGLE_LINE_DECLS
-            && !self.has_nested_block(block);
+        let commented = has_comment(block.syntax());
+        if decls.is_empty() && !commented {
+            return RcDoc::text("{ }");
+        }
 
-        if can_single_line {
+        // Check if block can be single line (short enough, no nested blocks,
+        // nothing that needs a line of its own)
+        if decls.len() <= MAX_SINGLE_LINE_DECLS
+            && !commented
+            && decls.iter().all(|decl| decl.meta().is_none())
+            && !self.has_nested_block(block)
+        {
             // Single line: { a: 1, b: 2 }
-            let mut docs = vec![RcDoc::text("{ ")];
-            for (i, decl) in decls.iter().enumerate() {
-                if i > 0 {
-                    docs.push(RcDoc::text(", "));
-                }
-                docs.push(self.reformat_declaration_inline(decl));
+            let docs: Vec<_> = decls
+                .iter()
+                .map(|decl| self.reformat_declaration_inline(decl))
+                .collect();
+            let inline = RcDoc::text("{ ")
+                .append(RcDoc::intersperse(docs, RcDoc::text(", ")))
+                .append(RcDoc::text(" }"));
+            if self.fits_line(&inline, SINGLE_LINE_MARGIN) {
+                return inline;
             }
-            docs.push(RcDoc::text(" }"));
-            RcDoc::concat(docs)
-        } else {
-            // Multi-line block
-            let indent = self.config.indent_size;
-            let mut inner_docs = Vec::new();
+        }
 
-            for decl in &decls {
-                inner_docs.push(self.reformat_declaration(decl));
+        // Multi-line block, comments on the line they follow or before the
+        // declaration they precede
+        let indent = self.config.indent_size;
+        let mut inner_docs: Vec<RcDoc<'static, ()>> = Vec::new();
+        let mut same_line = false;
+
+        for child in block.syntax().children_with_tokens() {
+            match child {
+                rowan::NodeOrToken::Token(t) if t.kind() == SyntaxKind::COMMENT => {
+                    let comment = RcDoc::text(t.text().to_string());
+                    match inner_docs.pop() {
+                        Some(line) if same_line => {
+                            inner_docs.push(line.append(RcDoc::space()).append(comment))
+                        }
+                        line => {
+                            inner_docs.extend(line);
+                            inner_docs.push(comment);
+                        }
+                    }
+                    same_line = false;
+                }
+                rowan::NodeOrToken::Token(t) => {
+                    same_line = same_line && !t.text().contains('\n');
+                }
+                rowan::NodeOrToken::Node(n) => {
+                    inner_docs.push(match rowan_ast::Declaration::cast(n.clone()) {
+                        Some(decl) => self.reformat_declaration(&decl),
+                        None => self.verbatim(&n),
+                    });
+                    same_line = true;
+                }
             }
+        }
 
-            let inner = RcDoc::intersperse(inner_docs, RcDoc::hardline());
+        let inner = RcDoc::intersperse(inner_docs, RcDoc::hardline());
 
-            // Nest includes the leading hardline so first line gets indented too
-            RcDoc::text("{")
-                .append(RcDoc::hardline().append(inner).nest(indent as isize))
-                .append(RcDoc::hardline())
-                .append(RcDoc::text("}"))
-        }
+        // Nest includes the leading hardline so first line gets indented too
+        RcDoc::text("{")
+            .append(RcDoc::hardline().append(inner).nest(indent as isize))
+            .append(RcDoc::hardline())
+            .append(RcDoc::text("}"))
     }
 
     fn reformat_declaration_inline(&self, decl: &rowan_ast::Declaration) -> RcDoc<'static, ()> {
@@ -524,22 +539,17 @@ impl Formatter {
                 .append(RcDoc::text("]"));
         }
 
-        // Estimate single-line length
-        let single_line_len: usize = items
-            .iter()
-            .map(|s| usize::from(s.syntax().text().len()) + 2)
-            .sum();
+        // Single line: [a, b, c]
+        let docs: Vec<_> = items.iter().map(|s| self.reformat_soup(s)).collect();
+        let inline = RcDoc::text("[")
+            .append(RcDoc::intersperse(docs.clone(), RcDoc::text(", ")))
+            .append(RcDoc::text("]"));
 
-        if single_line_len <= self.config.line_width.saturating_sub(10) {
-            // Single line: [a, b, c]
-            let docs: Vec<_> = items.iter().map(|s| self.reformat_soup(s)).collect();
-            RcDoc::text("[")
-                .append(RcDoc::intersperse(docs, RcDoc::text(", ")))
-                .append(RcDoc::text("]"))
+        if self.fits_line(&inline, 10) {
+            inline
         } else {
             // Multi-line - same pattern as blocks for consistent indentation
             let indent = self.config.indent_size;
-            let docs: Vec<_> = items.iter().map(|s| self.reformat_soup(s)).collect();
             let inner = RcDoc::intersperse(docs, RcDoc::text(",").append(RcDoc::hardline()));
 
             RcDoc::text("[")
@@ -586,7 +596,7 @@ impl Formatter {
 
     fn reformat_block_metadata(&self, meta: &rowan_ast::BlockMetadata) -> RcDoc<'static, ()> {
         if let Some(soup) = meta.soup() {
-            RcDoc::text("` ").append(self.reformat_soup(&soup))
+            self.reformat_soup(&soup)
         } else {
             RcDoc::nil()
         }
@@ -615,10 +625,15 @@ impl Formatter {
 
     /// Fix whitespace violations in a syntax node
     fn fix_whitespace_violations(&self, node: &SyntaxNode) -> RcDoc<'static, ()> {
+        RcDoc::text(self.fixed_text(node))
+    }
+
+    /// The text of a syntax node with its whitespace violations fixed
+    fn fixed_text(&self, node: &SyntaxNode) -> String {
         let mut result = String::new();
         let mut line_col: usize = 0;
         self.process_node_conservative(node, &mut result, &mut line_col);
-        RcDoc::text(result)
+        result
     }
 
     fn process_node_conservative(
@@ -742,12 +757,13 @@ impl Formatter {
     // Helper Methods
     // ========================================================================
 
-    fn estimate_block_single_line_len(&self, block: &rowan_ast::Block) -> usize {
-        let mut len = 4; // "{ " and " }"
-        for decl in block.declarations() {
-            len += usize::from(decl.syntax().text().len()) + 2; // ", " separator
-        }
-        len
+    /// Whether a document as laid out is one line that leaves `margin` columns
+    /// of the line width free
+    fn fits_line(&self, doc: &RcDoc<'static, ()>, margin: usize) -> bool {
+        self.render_doc(doc.clone()).is_ok_and(|text| {
+            !text.contains('\n')
+                && text.chars().count() <= self.config.line_width.saturating_sub(margin)
+        })
     }
 
     fn has_nested_block(&self, block: &rowan_ast::Block) -> bool {
@@ -766,6 +782,28 @@ impl Formatter {
     }
 }
 
+/// Whether there is a comment directly inside a node
+fn has_comment(node: &SyntaxNode) -> bool {
+    node.children_with_tokens()
+        .any(|child| child.kind() == SyntaxKind::COMMENT)
+}
+
+/// The structure and tokens of a node, without whitespace and commas
+fn outline(node: &SyntaxNode) -> Vec<(SyntaxKind, String)> {
+    node.preorder_with_tokens()
+        .filter_map(|event| match event {
+            rowan::WalkEvent::Enter(rowan::NodeOrToken::Node(n)) => Some((n.kind(), "(".into())),
+            rowan::WalkEvent::Leave(rowan::NodeOrToken::Node(n)) => Some((n.kind(), ")".into())),
+            rowan::WalkEvent::Enter(rowan::NodeOrToken::Token(t))
+                if !matches!(t.kind(), SyntaxKind::WHITESPACE | SyntaxKind::COMMA) =>
+            {
+                Some((t.kind(), t.text().to_string()))
+            }
+            _ => None,
+        })
+        .collect()
+}
+
 /// Format a source file
 pub fn format_source(source: &str, config: &FormatterConfig) -> Result<String, String> {
     use crate::syntax::rowan::parse_unit;
-- 
2.43.0


From 7d0cc2fe0825264bc40dc19a2a492ba5f2c3e354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:05 +0000
Subject: [PATCH 19/45] fix: formatting an integer without a precision keeps
 every digit

---
 src/eval/stg/printf.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/eval/stg/printf.rs b/src/eval/stg/printf.rs
index 659a7e6..e8cd4b7 100644
--- a/src/eval/stg/printf.rs
+++ b/src/eval/stg/printf.rs
@@ -369,7 +369,11 @@ fn write_numeric(
                     }
                 },
                 _ => {
-                    if let Some(f) = num.as_f64() {
+                    if let (Some(i), None) = (num.as_i64(), precision) {
+                        write_using!($flags, "", precision, i)
+                    } else if let (Some(u), None) = (num.as_u64(), precision) {
+                        write_using!($flags, "", precision, u)
+                    } else if let Some(f) = num.as_f64() {
                         write_using!($flags, "", precision, f)
                     } else {
                         Err(PrintfError::ConversionError)
-- 
2.43.0


From 871892ae0a91131c62c04439d299af823d389f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:05 +0000
Subject: [PATCH 20/45] fix: a string longer than 64K or an outsize width does
 not crash formatting

---
 src/eval/stg/printf.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/eval/stg/printf.rs b/src/eval/stg/printf.rs
index e8cd4b7..3f14ff1 100644
--- a/src/eval/stg/printf.rs
+++ b/src/eval/stg/printf.rs
@@ -149,7 +149,11 @@ fn parse_width(mut sub: &[u8]) -> (usize, &[u8]) {
     while let Some(&ch) = sub.first() {
         match ch {
             // https://rust-malaysia.github.io/code/2020/07/11/faster-integer-parsing.html#the-bytes-solution
-            b'0'..=b'9' => width = width * 10 + (ch & 0x0f) as usize,
+            b'0'..=b'9' => {
+                width = width
+                    .saturating_mul(10)
+                    .saturating_add((ch & 0x0f) as usize)
+            }
             _ => break,
         }
         sub = next_char(sub);
@@ -217,6 +221,10 @@ fn parse_format(format: &str) -> Option<Argument> {
     let (flags, sub) = parse_flags(sub);
     let (width, sub) = parse_width(sub);
     let (precision, sub) = parse_precision(sub);
+    // Rust formatting accepts nothing wider
+    if width.max(precision.unwrap_or(0)) > u16::MAX as usize {
+        return None;
+    }
     let (length, sub) = parse_length(sub);
     let ch = sub.first().unwrap_or(&0);
 
@@ -282,11 +290,17 @@ fn write_str(
     precision: Option<usize>,
     string: &str,
 ) -> Result<(), PrintfError> {
-    let precision = precision.unwrap_or(string.len());
+    let string = match precision {
+        Some(p) => string
+            .char_indices()
+            .nth(p)
+            .map_or(string, |(end, _)| &string[..end]),
+        None => string,
+    };
     if flags.contains(Flags::LEFT_ALIGN) {
-        write!(w, "{string:width$.precision$}").map_err(PrintfError::FmtError)
+        write!(w, "{string:width$}").map_err(PrintfError::FmtError)
     } else {
-        write!(w, "{string:>width$.precision$}").map_err(PrintfError::FmtError)
+        write!(w, "{string:>width$}").map_err(PrintfError::FmtError)
     }
 }
 
-- 
2.43.0


From 5ce8984e13e260585f3567e77a5308ced4073208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:57 +0000
Subject: [PATCH 21/45] fix: a number with a fraction reads as the nearest
 double

---
 src/common/mod.rs       |  1 +
 src/common/number.rs    | 13 +++++++++++++
 src/core/expr.rs        |  3 +--
 src/eval/stg/string.rs  |  3 +--
 src/eval/stg/syntax.rs  |  3 +--
 src/import/yaml.rs      |  4 ++--
 src/syntax/rowan/ast.rs |  2 +-
 7 files changed, 20 insertions(+), 9 deletions(-)
 create mode 100644 src/common/number.rs

diff --git a/src/common/mod.rs b/src/common/mod.rs
index 5a28197..eee06bb 100644
--- a/src/common/mod.rs
+++ b/src/common/mod.rs
@@ -1,5 +1,6 @@
 pub mod diagnostic_json;
 pub mod environment;
+pub mod number;
 pub mod prettify;
 pub mod serde_sorted;
 pub mod sourcemap;
diff --git a/src/common/number.rs b/src/common/number.rs
new file mode 100644
index 0000000..22f13ea
--- /dev/null
+++ b/src/common/number.rs
@@ -0,0 +1,13 @@
+//! Reading numbers
+use serde_json::Number;
+
+/// Parse a number as `serde_json` does, except that a number which is not an
+/// integer of 64 bits is the nearest double to the text (`serde_json` can miss
+/// by a unit in the last place), so that the text of a number reads back as it
+pub fn parse_number(text: &str) -> Result<Number, serde_json::Error> {
+    let number: Number = text.parse()?;
+    Ok(match text.parse::<f64>() {
+        Ok(nearest) if number.is_f64() => Number::from_f64(nearest).unwrap_or(number),
+        _ => number,
+    })
+}
diff --git a/src/core/expr.rs b/src/core/expr.rs
index 0734705..77f5016 100644
--- a/src/core/expr.rs
+++ b/src/core/expr.rs
@@ -18,7 +18,6 @@ use serde_json::Number;
 mod number_serde {
     use serde::{Deserialize, Deserializer, Serialize, Serializer};
     use serde_json::Number;
-    use std::str::FromStr;
 
     pub fn serialize<S: Serializer>(n: &Number, s: S) -> Result<S::Ok, S::Error> {
         n.to_string().serialize(s)
@@ -26,7 +25,7 @@ mod number_serde {
 
     pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Number, D::Error> {
         let text = String::deserialize(d)?;
-        Number::from_str(&text).map_err(serde::de::Error::custom)
+        crate::common::number::parse_number(&text).map_err(serde::de::Error::custom)
     }
 }
 use std::collections::HashMap;
diff --git a/src/eval/stg/string.rs b/src/eval/stg/string.rs
index 8db957c..d6320b3 100644
--- a/src/eval/stg/string.rs
+++ b/src/eval/stg/string.rs
@@ -31,7 +31,6 @@ use super::{
 };
 
 use regex::Regex;
-use serde_json::Number;
 
 /// Get (or store and get) regex from machine rcache
 ///
@@ -299,7 +298,7 @@ impl StgIntrinsic for NumParse {
     ) -> Result<(), ExecutionError> {
         let string = str_arg(machine, view, &args[0])?;
 
-        if let Ok(num) = str::parse::<Number>(&string) {
+        if let Ok(num) = crate::common::number::parse_number(&string) {
             machine_return_num(machine, view, num)
         } else {
             Err(ExecutionError::BadNumberFormat(
diff --git a/src/eval/stg/syntax.rs b/src/eval/stg/syntax.rs
index 0d76286..c40068c 100644
--- a/src/eval/stg/syntax.rs
+++ b/src/eval/stg/syntax.rs
@@ -20,7 +20,6 @@ use serde_json::Number;
 mod number_serde {
     use serde::{Deserialize, Deserializer, Serialize, Serializer};
     use serde_json::Number;
-    use std::str::FromStr;
 
     pub fn serialize<S: Serializer>(n: &Number, s: S) -> Result<S::Ok, S::Error> {
         n.to_string().serialize(s)
@@ -28,7 +27,7 @@ mod number_serde {
 
     pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Number, D::Error> {
         let text = String::deserialize(d)?;
-        Number::from_str(&text).map_err(serde::de::Error::custom)
+        crate::common::number::parse_number(&text).map_err(serde::de::Error::custom)
     }
 }
 
diff --git a/src/import/yaml.rs b/src/import/yaml.rs
index 2c6e1f9..538801a 100644
--- a/src/import/yaml.rs
+++ b/src/import/yaml.rs
@@ -11,7 +11,7 @@ use codespan_reporting::files::SimpleFiles;
 use lazy_static::lazy_static;
 use regex::{Regex, RegexSet};
 use std::{collections::HashMap, iter};
-use std::{convert::TryInto, str::FromStr};
+use std::convert::TryInto;
 use yaml_rust::parser::{Event, MarkedEventReceiver, Parser};
 use yaml_rust::scanner::{Marker, TScalarStyle, TokenType};
 
@@ -274,7 +274,7 @@ impl<'smap> Receiver<'smap> {
             Tag::Null => Ok(core::null(smid)),
             Tag::Bool => Ok(core::bool_(smid, parse_bool(&text))),
             Tag::Str => Ok(core::str(smid, text)),
-            Tag::Int | Tag::Float => serde_json::Number::from_str(&text)
+            Tag::Int | Tag::Float => crate::common::number::parse_number(&text)
                 .map_err(|_e| SourceError::InvalidNumber(text, self.file_id, span))
                 .map(|n| core::num(smid, n)),
             Tag::Timestamp => {
diff --git a/src/syntax/rowan/ast.rs b/src/syntax/rowan/ast.rs
index 3622362..9e14773 100644
--- a/src/syntax/rowan/ast.rs
+++ b/src/syntax/rowan/ast.rs
@@ -221,7 +221,7 @@ ast_token!(Num, NUMBER);
 
 impl Num {
     pub fn value(&self) -> Option<Number> {
-        self.text().parse().ok()
+        crate::common::number::parse_number(self.text()).ok()
     }
 }
 
-- 
2.43.0


From 46daa2d54a0f569a9955e1be23043b2f74cfc67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:08 +0000
Subject: [PATCH 22/45] fix: a range that ends before it begins is empty

---
 lib/prelude.eu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/prelude.eu b/lib/prelude.eu
index 8c82919..ab7c88b 100644
--- a/lib/prelude.eu
+++ b/lib/prelude.eu
@@ -1382,7 +1382,7 @@ __dbg-after(f, x): ▶(f(x))
 
 ` { doc: "`take(n, l)` - return initial segment of integer `n` elements from list `l`."
     type: s"number → [a] → [a]" }
-take(n, l): __IF((n zero?) ∨ (l nil?), [], cons(l head, take(n dec, l tail)))
+take(n, l): __IF((n <= 0) ∨ (l nil?), [], cons(l head, take(n dec, l tail)))
  
 ` { doc: "`drop(n, l)` - return result of dropping integer `n` elements from list `l`."
     type: s"number → [a] → [a]"
-- 
2.43.0


From b47ff27999fe772055e314ce6c5425c3c63f0d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:13 +0000
Subject: [PATCH 23/45] fix: a window step that goes past the end of the list
 ends it

---
 lib/prelude.eu | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/prelude.eu b/lib/prelude.eu
index ab7c88b..31afe0d 100644
--- a/lib/prelude.eu
+++ b/lib/prelude.eu
@@ -1622,7 +1622,10 @@ any(p?, l): l map(p?) any-true?
 
 ` { doc: "`window(n, step, l)` - list of lists of sliding windows over list `l` of size `n` and offset `step`."
     type: s"number → number → [a] → [[a]]" }
-window(n, step, l): { chunk: l take(n) }.(if(count(chunk) >= n, cons(chunk, l drop(step) window(n, step)), []))
+window(n, step, l): {
+  chunk: l take(n)
+  skip(k, xs): if((k zero?) ∨ (xs nil?), xs, skip(k dec, xs tail))
+}.(if(count(chunk) >= n, cons(chunk, skip(step, l) window(n, step)), []))
 
 ` { doc: "`partition(n, l)` - list of lists of non-overlapping segments of list `l` of size `n`."
     type: s"number → [a] → [[a]]" }
-- 
2.43.0


From 2a2575fda4fad7f116148ec2c81188686d9b8f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:11 +0000
Subject: [PATCH 24/45] fix: dropping a negative number of elements ends

---
 lib/prelude.eu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/prelude.eu b/lib/prelude.eu
index 31afe0d..7c0e054 100644
--- a/lib/prelude.eu
+++ b/lib/prelude.eu
@@ -1387,7 +1387,7 @@ take(n, l): __IF((n <= 0) ∨ (l nil?), [], cons(l head, take(n dec, l tail)))
 ` { doc: "`drop(n, l)` - return result of dropping integer `n` elements from list `l`."
     type: s"number → [a] → [a]"
     blame: :transparent }
-drop(n, l): __IF((n zero?), l, drop(n dec, l tail))
+drop(n, l): __IF((n <= 0), l, drop(n dec, l tail))
 
 ` { doc: "`rotate(n, l)` - rotate list `l` left by `n` positions."
     type: s"number → [a] → [a]" }
-- 
2.43.0


From 6aae0554e5f6e5254b44511efe5627eb3c22df07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:17 +0000
Subject: [PATCH 25/45] fix: random integers beyond 2^63 are not negative

---
 src/eval/stg/stream_prng.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eval/stg/stream_prng.rs b/src/eval/stg/stream_prng.rs
index a01e362..d0899fb 100644
--- a/src/eval/stg/stream_prng.rs
+++ b/src/eval/stg/stream_prng.rs
@@ -103,7 +103,7 @@ fn machine_return_int_stream(
     int_val: u64,
     stream_state: u64,
 ) -> Result<(), ExecutionError> {
-    let num = machine.native_value(view, Native::Num(Number::from(int_val as i64)))?;
+    let num = machine.native_value(view, Native::Num(Number::from(int_val)))?;
     let boxed = machine.data_value(view, DataConstructor::BoxedNumber.tag(), &[num])?;
     let stream = machine.native_value(view, Native::Prng(stream_state))?;
     machine.return_closure_list(view, vec![boxed, stream])
-- 
2.43.0


From 613181eb59f555663beba2fa8d2ecebda0d505bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:37 +0000
Subject: [PATCH 26/45] fix: random.int accepts a whole float as its bound

---
 src/eval/stg/stream_prng.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/eval/stg/stream_prng.rs b/src/eval/stg/stream_prng.rs
index d0899fb..161b083 100644
--- a/src/eval/stg/stream_prng.rs
+++ b/src/eval/stg/stream_prng.rs
@@ -246,7 +246,13 @@ impl StgIntrinsic for StreamInt {
         args: &[Ref],
     ) -> Result<(), ExecutionError> {
         let n_num = num_arg(machine, view, &args[0])?;
-        let n = n_num.as_u64().unwrap_or(1).max(1);
+        // a whole float (as given by float arithmetic) is as good a bound
+        let whole = n_num.as_f64().filter(|f| f.fract() == 0.0 && *f >= 1.0);
+        let n = n_num
+            .as_u64()
+            .or_else(|| whole.map(|f| f as u64))
+            .unwrap_or(1)
+            .max(1);
         let state = prng_arg(machine, view, &args[1])?;
         let (next_state, z) = splitmix64(state);
         let int_val = z % n;
-- 
2.43.0


From 729c225bdf615c77c41c33de402ca065f3df2636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:37 +0000
Subject: [PATCH 27/45] fix: vec.nth refuses a negative index

---
 src/eval/stg/vec.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/eval/stg/vec.rs b/src/eval/stg/vec.rs
index c1a2a17..c72a365 100644
--- a/src/eval/stg/vec.rs
+++ b/src/eval/stg/vec.rs
@@ -121,6 +121,12 @@ impl StgIntrinsic for VecNth {
     ) -> Result<(), ExecutionError> {
         let native_n = resolve_native_unboxing(machine, view, &args[0])?;
         let n = match &native_n {
+            Native::Num(num) if num.as_f64().is_some_and(|f| f < 0.0) => {
+                return Err(ExecutionError::Panic(
+                    Smid::default(),
+                    format!("vec.nth: index {num} out of bounds"),
+                ))
+            }
             Native::Num(num) => num
                 .as_u64()
                 .map(|v| v as usize)
-- 
2.43.0


From 9b0699ea48088506006491fe687999547d9ec214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:37 +0000
Subject: [PATCH 28/45] fix: arr.slice refuses a negative axis or index

---
 src/eval/stg/array.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/eval/stg/array.rs b/src/eval/stg/array.rs
index 942b9ae..2e3565e 100644
--- a/src/eval/stg/array.rs
+++ b/src/eval/stg/array.rs
@@ -512,8 +512,8 @@ impl StgIntrinsic for ArraySlice {
     ) -> Result<(), ExecutionError> {
         let smid = machine.annotation();
         let arr = ndarray_arg(machine, view, &args[0])?;
-        let axis = num_arg(machine, view, &args[1])?.as_f64().unwrap_or(0.0) as usize;
-        let index = num_arg(machine, view, &args[2])?.as_f64().unwrap_or(0.0) as usize;
+        let axis = non_negative(smid, num_arg(machine, view, &args[1])?)?;
+        let index = non_negative(smid, num_arg(machine, view, &args[2])?)?;
         match arr.slice_along(axis, index) {
             Some(sliced) => machine_return_ndarray(machine, view, sliced),
             None => Err(ExecutionError::ArrayShapeMismatch(
@@ -758,6 +758,16 @@ fn num_list_to_usize_vec(
         .collect()
 }
 
+/// Convert a number to usize, refusing negative values.
+fn non_negative(smid: Smid, n: Number) -> Result<usize, ExecutionError> {
+    let n = n.as_f64().unwrap_or(0.0);
+    if n < 0.0 {
+        Err(ExecutionError::ArrayNegativeIndex(smid, n))
+    } else {
+        Ok(n as usize)
+    }
+}
+
 /// Extract a list of numbers as f64 from a cons-list
 fn num_list_to_f64_vec(
     machine: &mut dyn IntrinsicMachine,
-- 
2.43.0


From 1c6f2f3c9b7b5ca07ccb3934b8ab838abd1717d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:38 +0000
Subject: [PATCH 29/45] fix: far offsets of arr.neighbours are out of bounds,
 not overflow

---
 src/eval/memory/ndarray.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eval/memory/ndarray.rs b/src/eval/memory/ndarray.rs
index 637ec29..224b795 100644
--- a/src/eval/memory/ndarray.rs
+++ b/src/eval/memory/ndarray.rs
@@ -161,7 +161,7 @@ impl HeapNdArray {
                     .zip(offset.iter())
                     .zip(shape.iter())
                     .map(|((&c, &o), &dim)| {
-                        let nc = c as i64 + o;
+                        let nc = i64::try_from(c).ok()?.checked_add(o)?;
                         if nc < 0 || nc >= dim as i64 {
                             None
                         } else {
-- 
2.43.0


From 9a70546a50622121fbec7a54e2910531e96e46be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:38 +0000
Subject: [PATCH 30/45] fix: advancing a random stream by fewer than one step
 ends

---
 lib/prelude.eu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/prelude.eu b/lib/prelude.eu
index 7c0e054..5c887e0 100644
--- a/lib/prelude.eu
+++ b/lib/prelude.eu
@@ -146,7 +146,7 @@ monad(m): {
 random-stream(seed): random.stream(seed) random.as-list
 
 # Helper: advance an opaque stream n steps.
-stream-advance(n, s): if(n = 0, s, stream-advance(n - 1, __STREAM_ADVANCE(s)))
+stream-advance(n, s): if(n <= 0, s, stream-advance(n - 1, __STREAM_ADVANCE(s)))
 
 random-ret(v, stream): { value: v, rest: stream }
 
-- 
2.43.0


From 0189176e49b994642c88d932df003c457fe4594b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:55 +0000
Subject: [PATCH 31/45] fix: an array shape that is too large is an error, not
 a crash

---
 src/eval/memory/ndarray.rs | 12 ++++++++++++
 src/eval/stg/array.rs      | 29 +++++++++++++++++++++++++----
 2 files changed, 37 insertions(+), 4 deletions(-)

diff --git a/src/eval/memory/ndarray.rs b/src/eval/memory/ndarray.rs
index 224b795..ac82f11 100644
--- a/src/eval/memory/ndarray.rs
+++ b/src/eval/memory/ndarray.rs
@@ -39,6 +39,18 @@ impl HeapNdArray {
         }
     }
 
+    /// Create an array filled with a constant value, or `None` if there
+    /// cannot be an array of the given shape.
+    pub fn try_filled(shape: &[usize], value: f64) -> Option<Self> {
+        let len = shape
+            .iter()
+            .try_fold(1usize, |len, &dim| len.checked_mul(dim))?;
+        let mut values = Vec::new();
+        values.try_reserve_exact(len).ok()?;
+        values.resize(len, value);
+        Self::from_flat(shape, values)
+    }
+
     /// Create from a flat vec of f64 and a shape.
     pub fn from_flat(shape: &[usize], values: Vec<f64>) -> Option<Self> {
         ArrayD::from_shape_vec(IxDyn(shape), values)
diff --git a/src/eval/stg/array.rs b/src/eval/stg/array.rs
index 2e3565e..8f77237 100644
--- a/src/eval/stg/array.rs
+++ b/src/eval/stg/array.rs
@@ -69,7 +69,7 @@ impl StgIntrinsic for ArrayZeros {
         args: &[Ref],
     ) -> Result<(), ExecutionError> {
         let shape = num_list_to_usize_vec(machine, view, &args[0])?;
-        machine_return_ndarray(machine, view, HeapNdArray::zeros(&shape))
+        return_filled(machine, view, &shape, 0.0)
     }
 }
 
@@ -115,7 +115,7 @@ impl StgIntrinsic for ArrayFill {
     ) -> Result<(), ExecutionError> {
         let shape = num_list_to_usize_vec(machine, view, &args[0])?;
         let value = num_arg(machine, view, &args[1])?.as_f64().unwrap_or(0.0);
-        machine_return_ndarray(machine, view, HeapNdArray::filled(&shape, value))
+        return_filled(machine, view, &shape, value)
     }
 }
 
@@ -160,7 +160,7 @@ impl StgIntrinsic for ArrayFromFlat {
         match HeapNdArray::from_flat(&shape, values) {
             Some(arr) => machine_return_ndarray(machine, view, arr),
             None => {
-                let expected: usize = shape.iter().product();
+                let expected = element_count(&shape);
                 Err(ExecutionError::ArrayShapeMismatch(
                     smid,
                     format!(
@@ -479,7 +479,7 @@ impl StgIntrinsic for ArrayReshape {
         match arr.reshape(&new_shape) {
             Some(reshaped) => machine_return_ndarray(machine, view, reshaped),
             None => {
-                let new_total: usize = new_shape.iter().product();
+                let new_total = element_count(&new_shape);
                 Err(ExecutionError::ArrayShapeMismatch(
                     smid,
                     format!(
@@ -726,6 +726,27 @@ impl StgIntrinsic for ArrayNeighbours {
 // Helpers
 // ---------------------------------------------------------------------------
 
+/// Number of elements of an array of the given shape (for messages)
+fn element_count(shape: &[usize]) -> usize {
+    shape.iter().fold(1, |n, &dim| n.saturating_mul(dim))
+}
+
+/// Return an array of the given shape with the same value everywhere
+fn return_filled(
+    machine: &mut dyn IntrinsicMachine,
+    view: MutatorHeapView<'_>,
+    shape: &[usize],
+    value: f64,
+) -> Result<(), ExecutionError> {
+    match HeapNdArray::try_filled(shape, value) {
+        Some(arr) => machine_return_ndarray(machine, view, arr),
+        None => Err(ExecutionError::ArrayShapeMismatch(
+            machine.annotation(),
+            format!("shape {shape:?} is too large"),
+        )),
+    }
+}
+
 /// Extract a list of numbers from a cons-list, converting to i64
 fn num_list_to_i64_vec(
     machine: &mut dyn IntrinsicMachine,
-- 
2.43.0


From 29b29bad14ea57c47fcf18220a959e76b2b2297a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:28 +0000
Subject: [PATCH 32/45] fix: an array operation with no finite result is an
 error

---
 src/eval/stg/array.rs | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/eval/stg/array.rs b/src/eval/stg/array.rs
index 8f77237..680cdbd 100644
--- a/src/eval/stg/array.rs
+++ b/src/eval/stg/array.rs
@@ -3,7 +3,7 @@
 //! Provides construction, access, query, and transformation operations
 //! on n-dimensional arrays backed by ndarray.
 
-use std::convert::TryInto;
+use std::{cell::RefCell, convert::TryInto};
 
 use serde_json::Number;
 
@@ -829,14 +829,24 @@ pub(crate) fn array_binop<F: Fn(f64, f64) -> f64>(
     let b_native = machine.resolve_native(view, b_ref)?;
 
     let smid = machine.annotation();
-    match (a_native, b_native) {
+
+    // an element that is not a finite number could only be read back as 0
+    let invalid = RefCell::new(None);
+    let f = |a: f64, b: f64| {
+        let result = f(a, b);
+        if !result.is_finite() {
+            invalid.borrow_mut().get_or_insert((a, b));
+        }
+        result
+    };
+    let array = match (a_native, b_native) {
         (Native::NdArray(a_ptr), Native::NdArray(b_ptr)) => {
             let a = view.scoped(a_ptr);
             let b = view.scoped(b_ptr);
             let a_shape = a.shape().to_vec();
             let b_shape = b.shape().to_vec();
             match a.zip_with(&b, f) {
-                Some(result) => machine_return_ndarray(machine, view, result),
+                Some(result) => Ok(result),
                 None => Err(ExecutionError::ArrayShapeMismatch(
                     smid,
                     format!("arrays have incompatible shapes {a_shape:?} and {b_shape:?} for element-wise operation"),
@@ -846,17 +856,29 @@ pub(crate) fn array_binop<F: Fn(f64, f64) -> f64>(
         (Native::NdArray(a_ptr), Native::Num(n)) => {
             let a = view.scoped(a_ptr);
             let scalar = n.as_f64().unwrap_or(0.0);
-            machine_return_ndarray(machine, view, a.scalar_op(scalar, f))
+            Ok(a.scalar_op(scalar, f))
         }
         (Native::Num(n), Native::NdArray(b_ptr)) => {
             let b = view.scoped(b_ptr);
             let scalar = n.as_f64().unwrap_or(0.0);
-            machine_return_ndarray(machine, view, b.scalar_op(scalar, |x, s| f(s, x)))
+            Ok(b.scalar_op(scalar, |x, s| f(s, x)))
         }
         _ => Err(ExecutionError::ArrayShapeMismatch(
             smid,
             "array arithmetic requires at least one array operand; both arguments are scalars"
                 .to_string(),
         )),
+    }?;
+
+    match invalid.into_inner() {
+        Some((_, 0.0)) => Err(ExecutionError::DivisionByZero(
+            smid,
+            "array division".to_string(),
+        )),
+        Some((a, b)) => Err(match (Number::from_f64(a), Number::from_f64(b)) {
+            (Some(a), Some(b)) => ExecutionError::NumericRangeError(smid, a, b),
+            _ => ExecutionError::Panic(smid, "array element is not a number".to_string()),
+        }),
+        None => machine_return_ndarray(machine, view, array),
     }
 }
-- 
2.43.0


From 863df43ca30af7eb7fde37079dd5e810d5f0581f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:31 +0000
Subject: [PATCH 33/45] fix: array functions accept a boxed number as the
 scalar operand

---
 src/eval/stg/array.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eval/stg/array.rs b/src/eval/stg/array.rs
index 680cdbd..03f5d35 100644
--- a/src/eval/stg/array.rs
+++ b/src/eval/stg/array.rs
@@ -825,8 +825,8 @@ pub(crate) fn array_binop<F: Fn(f64, f64) -> f64>(
     b_ref: &Ref,
     f: F,
 ) -> Result<(), ExecutionError> {
-    let a_native = machine.resolve_native(view, a_ref)?;
-    let b_native = machine.resolve_native(view, b_ref)?;
+    let a_native = super::support::resolve_native_unboxing(machine, view, a_ref)?;
+    let b_native = super::support::resolve_native_unboxing(machine, view, b_ref)?;
 
     let smid = machine.annotation();
 
-- 
2.43.0


From 989be06cc48d62a3414be5ea208f3395d51278bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:13 +0000
Subject: [PATCH 34/45] fix: a prefix operator never applies the infix
 operators before it, which lack its operand

---
 src/core/cook/shunt.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/core/cook/shunt.rs b/src/core/cook/shunt.rs
index 0bfce89..c631408 100644
--- a/src/core/cook/shunt.rs
+++ b/src/core/cook/shunt.rs
@@ -114,6 +114,13 @@ impl<'smap> Shunter<'smap> {
                 return;
             }
 
+            // Prefix operators stand where an operand starts: the operators
+            // before them still lack it, so none can be applied yet
+            if *this_fixity == Fixity::UnaryPrefix {
+                self.push_op(op);
+                return;
+            }
+
             let top = self.peek_op().cloned();
 
             match top {
-- 
2.43.0


From 419c62513ca5445054fc2ee7c5532516f993511c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:35 +0000
Subject: [PATCH 35/45] fix: a named time zone has the offset in force at the
 date, not the one of 2000-01-01

---
 src/eval/stg/time.rs | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/eval/stg/time.rs b/src/eval/stg/time.rs
index 97d6882..bd7044c 100644
--- a/src/eval/stg/time.rs
+++ b/src/eval/stg/time.rs
@@ -33,11 +33,17 @@ use super::{
     tags::DataConstructor,
 };
 
-/// Convert a TZ representation to a FixedOffset
+/// Convert a TZ representation to the FixedOffset in force at a local time
 ///
 /// Accepts: numeric offsets (+02:00, -0500, +01:00:00), "Z" for UTC,
 /// and IANA timezone names (e.g. "UTC", "Europe/London") via chrono-tz.
-fn offset_from_tz_str(smid: Smid, tz_str: &str) -> Result<FixedOffset, ExecutionError> {
+/// A local time that a zone has twice is the earlier one; a local time it
+/// skips, or where its offset is not in whole minutes, is an error.
+fn offset_at(
+    smid: Smid,
+    tz_str: &str,
+    local: &NaiveDateTime,
+) -> Result<FixedOffset, ExecutionError> {
     // Try "Z" for UTC
     if tz_str == "Z" {
         return FixedOffset::east_opt(0)
@@ -66,17 +72,22 @@ fn offset_from_tz_str(smid: Smid, tz_str: &str) -> Result<FixedOffset, Execution
 
     // Try IANA timezone names via chrono-tz
     if let Ok(zone) = tz_str.parse::<Tz>() {
-        return Ok(zone
-            .with_ymd_and_hms(2000, 1, 1, 0, 0, 0)
-            .single()
-            .expect("Y2K date is always valid in any timezone")
-            .offset()
-            .fix());
+        if let Some(zdt) = zone.from_local_datetime(local).earliest() {
+            let offset = zdt.offset().fix();
+            if offset.local_minus_utc() % 60 == 0 {
+                return Ok(offset);
+            }
+        }
     }
 
     Err(ExecutionError::BadTimeZone(smid, tz_str.to_string()))
 }
 
+#[cfg(test)]
+fn offset_from_tz_str(smid: Smid, tz_str: &str) -> Result<FixedOffset, ExecutionError> {
+    offset_at(smid, tz_str, &NaiveDateTime::default())
+}
+
 /// ZDT(y, m, d, h, M, s, Z) - create a zoned date time
 pub struct Zdt;
 
@@ -139,7 +150,7 @@ impl StgIntrinsic for Zdt {
             .ok_or_else(err)?;
 
             let datetime = NaiveDateTime::new(date, time);
-            let offset = offset_from_tz_str(smid, &tz)?;
+            let offset = offset_at(smid, &tz, &datetime)?;
             if let LocalResult::Single(zdt) = offset.from_local_datetime(&datetime) {
                 machine_return_zdt(machine, view, zdt)
             } else {
-- 
2.43.0


From 2e779c592438554496e783289ba90551e2a80f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:35 +0000
Subject: [PATCH 36/45] fix: an epoch timestamp out of range is an error, not a
 panic

---
 src/eval/stg/time.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/eval/stg/time.rs b/src/eval/stg/time.rs
index bd7044c..da6bf81 100644
--- a/src/eval/stg/time.rs
+++ b/src/eval/stg/time.rs
@@ -260,15 +260,12 @@ impl StgIntrinsic for ZdtFromEpoch {
     ) -> Result<(), ExecutionError> {
         let unix = num_arg(machine, view, &args[0])?;
         if let Some(ts) = unix.as_i64() {
-            let zdt = DateTime::from(
-                Utc.timestamp_opt(ts, 0)
-                    .single()
-                    .expect("timestamp with zero nanoseconds is always valid"),
-            );
-            machine_return_zdt(machine, view, zdt)
-        } else {
-            Err(ExecutionError::BadTimestamp(machine.annotation(), unix))
+            // seconds beyond the years a date can have are out of range
+            if let Some(utc) = Utc.timestamp_opt(ts, 0).single() {
+                return machine_return_zdt(machine, view, DateTime::from(utc));
+            }
         }
+        Err(ExecutionError::BadTimestamp(machine.annotation(), unix))
     }
 }
 
-- 
2.43.0


From ad5b58347be57b0a4cb2ca588503054469a3d525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:35 +0000
Subject: [PATCH 37/45] fix: cal.datetime accepts the fields cal.fields gives,
 fractions of a second and all

---
 src/eval/stg/time.rs | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/eval/stg/time.rs b/src/eval/stg/time.rs
index da6bf81..c15cecc 100644
--- a/src/eval/stg/time.rs
+++ b/src/eval/stg/time.rs
@@ -88,6 +88,24 @@ fn offset_from_tz_str(smid: Smid, tz_str: &str) -> Result<FixedOffset, Execution
     offset_at(smid, tz_str, &NaiveDateTime::default())
 }
 
+/// Seconds of a minute as whole seconds and nanoseconds
+///
+/// Fractional seconds are those ZDT.FIELDS gives; within a leap second, 60.0
+/// to 61.0, that is second 59 with more than 10^9 nanoseconds.
+fn seconds(sec: &Number) -> Option<(u32, u32)> {
+    if let Some(s) = sec.as_u64() {
+        return Some((s.try_into().ok()?, 0));
+    }
+    let s = sec.as_f64().filter(|s| (0.0..61.0).contains(s))?;
+    let total = (s * 1e9).round() as u64;
+    let (secs, nanos) = (total / 1_000_000_000, (total % 1_000_000_000) as u32);
+    match secs {
+        0..=59 => Some((secs as u32, nanos)),
+        60 => Some((59, nanos + 1_000_000_000)),
+        _ => None,
+    }
+}
+
 /// ZDT(y, m, d, h, M, s, Z) - create a zoned date time
 pub struct Zdt;
 
@@ -127,13 +145,13 @@ impl StgIntrinsic for Zdt {
             )
         };
 
-        if let (Some(yy), Some(mm), Some(dd), Some(hours), Some(mins), Some(secs)) = (
+        if let (Some(yy), Some(mm), Some(dd), Some(hours), Some(mins), Some((secs, nanos))) = (
             y.as_i64(),
             m.as_u64(),
             d.as_u64(),
             hour.as_u64(),
             min.as_u64(),
-            sec.as_u64(),
+            seconds(&sec),
         ) {
             let date = NaiveDate::from_ymd_opt(
                 yy.try_into().ok().ok_or_else(err)?,
@@ -142,10 +160,11 @@ impl StgIntrinsic for Zdt {
             )
             .ok_or_else(err)?;
 
-            let time = NaiveTime::from_hms_opt(
+            let time = NaiveTime::from_hms_nano_opt(
                 hours.try_into().ok().ok_or_else(err)?,
                 mins.try_into().ok().ok_or_else(err)?,
-                secs.try_into().ok().ok_or_else(err)?,
+                secs,
+                nanos,
             )
             .ok_or_else(err)?;
 
@@ -211,7 +230,8 @@ impl StgIntrinsic for ZdtFields {
         let d = dt.day();
         let hour = dt.hour();
         let min = dt.minute();
-        let sec = (dt.second() as f64) + (dt.timestamp_subsec_millis() as f64) / 1000f64;
+        let nanos = dt.second() as u64 * 1_000_000_000 + dt.nanosecond() as u64;
+        let sec = nanos as f64 / 1e9;
         let tz = dt.offset().to_string().replace(':', "");
 
         let mut fields: IndexMap<String, AbiClosure> = IndexMap::new();
-- 
2.43.0


From 819c323419cac9ea3bf7d3a1e4841bce7280421e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:35 +0000
Subject: [PATCH 38/45] fix: cal.parse reads what cal.format writes for years
 beyond 9999 and before 0

---
 src/eval/stg/time.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/eval/stg/time.rs b/src/eval/stg/time.rs
index c15cecc..e8c36ec 100644
--- a/src/eval/stg/time.rs
+++ b/src/eval/stg/time.rs
@@ -320,6 +320,8 @@ fn zdt_from_str(repr: &str) -> Option<DateTime<FixedOffset>> {
 
     // first try parsing a full datetime
     DateTime::parse_from_rfc3339(repr)
+        // years of more than four digits, or before year 0, are written with a sign
+        .or_else(|_| repr.parse::<DateTime<FixedOffset>>())
         .or_else(|_| DateTime::parse_from_str(repr, "%Y%m%dT%H%M%S"))
         .or_else(|_| {
             repr.parse::<NaiveDateTime>()
-- 
2.43.0


From 1c6e3481428a1d7c389cd42d97b3d190774706ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:33 +0000
Subject: [PATCH 39/45] fix: XML import reads CDATA, and reads to the end (no
 endless loop, nothing after the root dropped)

---
 src/import/xml.rs | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/import/xml.rs b/src/import/xml.rs
index 5452c08..0cb9762 100644
--- a/src/import/xml.rs
+++ b/src/import/xml.rs
@@ -78,11 +78,15 @@ impl<'src> XmlImporter<'src> {
         let mut buf = Vec::new();
         let mut stack: VecDeque<ProtoElement> = VecDeque::new();
         let mut text_buf = String::new();
+        let mut root: Option<RcExpr> = None;
 
         loop {
             match self.reader.read_event_into(&mut buf) {
                 Ok(Event::Start(ref event)) => {
                     self.flush_text(&mut text_buf, &mut stack)?;
+                    if root.is_some() {
+                        return Err(self.invalid("More than one top-level element"));
+                    }
                     stack.push_back(self.to_proto_element(event)?);
                 }
                 Ok(Event::End(_)) => {
@@ -92,7 +96,7 @@ impl<'src> XmlImporter<'src> {
                         if let Some(top) = stack.back_mut() {
                             top.add(n);
                         } else {
-                            return Ok(n);
+                            root = Some(n);
                         }
                     }
                 }
@@ -101,8 +105,10 @@ impl<'src> XmlImporter<'src> {
                     let n = self.to_proto_element(event)?.complete();
                     if let Some(top) = stack.back_mut() {
                         top.add(n);
+                    } else if root.is_some() {
+                        return Err(self.invalid("More than one top-level element"));
                     } else {
-                        return Ok(n);
+                        root = Some(n);
                     }
                 }
                 Ok(Event::Text(event)) => {
@@ -113,6 +119,18 @@ impl<'src> XmlImporter<'src> {
                     let decoded = event.decode().map_err(|e| self.to_source_error(e))?;
                     text_buf.push_str(&decoded);
                 }
+                Ok(Event::CData(event)) => {
+                    // A CDATA section is literal text, part of the run
+                    let decoded = event.decode().map_err(|e| self.to_source_error(e))?;
+                    text_buf.push_str(&decoded);
+                }
+                Ok(Event::Eof) => {
+                    self.flush_text(&mut text_buf, &mut stack)?;
+                    if !stack.is_empty() {
+                        return Err(self.invalid("Unclosed element"));
+                    }
+                    return root.ok_or_else(|| self.invalid("No top-level element"));
+                }
                 Ok(Event::GeneralRef(bytes_ref)) => {
                     // Character reference (`&#NN;` / `&#xNN;`) or predefined
                     // entity reference (`&amp;`, `&lt;`, `&gt;`, `&quot;`,
@@ -141,6 +159,7 @@ impl<'src> XmlImporter<'src> {
                 Err(e) => return Err(self.to_source_error(e)),
                 _ => (),
             }
+            buf.clear();
         }
     }
 
@@ -163,11 +182,7 @@ impl<'src> XmlImporter<'src> {
             if let Some(top) = stack.back_mut() {
                 top.add(acore::str(trimmed));
             } else {
-                return Err(SourceError::InvalidXml(
-                    "No top-level element".to_string(),
-                    self.file_id,
-                    self.span(),
-                ));
+                return Err(self.invalid("Text outside the top-level element"));
             }
         }
         text_buf.clear();
@@ -230,6 +245,11 @@ impl<'src> XmlImporter<'src> {
         Ok(ProtoElement::new(name, acore::block(attrs)))
     }
 
+    /// An error at the current reader position
+    fn invalid(&self, message: &str) -> SourceError {
+        SourceError::InvalidXml(message.to_string(), self.file_id, self.span())
+    }
+
     /// Map any XML error type (reader, encoding, escape, attribute) to a
     /// `SourceError` by its display text.
     fn to_source_error<E: std::fmt::Display>(&self, e: E) -> SourceError {
-- 
2.43.0


From 32262bcb071c2ad90275b7dac5d3ce73a7462018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:33 +0000
Subject: [PATCH 40/45] fix: EDN import reads every form, comments, namespaces
 and any character, and refuses colliding keys

---
 src/import/edn.rs | 133 ++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 111 insertions(+), 22 deletions(-)

diff --git a/src/import/edn.rs b/src/import/edn.rs
index 016f85e..0117cad 100644
--- a/src/import/edn.rs
+++ b/src/import/edn.rs
@@ -8,13 +8,14 @@ use crate::{
     core::expr::{acore, RcExpr},
 };
 use codespan::Span;
-use edn_format::{parse_str, Value};
+use edn_format::{parse_str, Parser, ParserError, ParserErrorWithContext, ParserOptions, Value};
 use serde_json::Number;
 
 /// Read EDN format data
 ///
 /// Note that EDN files may have many top-level items, until we
-/// support streaming, we need to read on and return as a list.
+/// support streaming, we need to read on and return as a list (a
+/// single item is returned as it is).
 ///
 /// When `data_only` is `true`, `#inst` datetime values are returned as plain
 /// strings rather than `ZDT.PARSE` applications. This must be set when parsing
@@ -25,16 +26,99 @@ pub fn read_edn<'smap>(
     text: &'smap str,
     data_only: bool,
 ) -> Result<RcExpr, SourceError> {
-    let edn = parse_str(text).map_err(|e| SourceError::InvalidEdn(Box::new(e), file_id))?;
-    value_to_core(&edn, file_id, data_only)
+    let text = normalise(text);
+    let items = Parser::from_str(&text, ParserOptions::default())
+        .collect::<Result<Vec<Value>, ParserError>>()
+        .map_err(|error| {
+            // an error in the first item has context
+            let error = parse_str(&text).err().unwrap_or(ParserErrorWithContext {
+                context: vec![],
+                row: 0,
+                col: 0,
+                error,
+            });
+            SourceError::InvalidEdn(Box::new(error), file_id)
+        })?;
+    if items.is_empty() {
+        // no item is an error too
+        return parse_str(&text)
+            .map_err(|e| SourceError::InvalidEdn(Box::new(e), file_id))
+            .and_then(|v| value_to_core(&v, file_id, data_only));
+    }
+
+    let mut exprs = items
+        .iter()
+        .map(|v| value_to_core(v, file_id, data_only))
+        .collect::<Result<Vec<RcExpr>, SourceError>>()?;
+    if exprs.len() == 1 {
+        Ok(exprs.remove(0))
+    } else {
+        Ok(acore::list(exprs))
+    }
+}
+
+/// Spell out what the EDN parser misreads: it takes a comment as no
+/// separator (`1;one` before a line `2` would be 12) and `\;` as the
+/// start of a comment, and it panics on a `\u` that is followed by
+/// text which is not ASCII.
+fn normalise(text: &str) -> String {
+    let mut out = String::with_capacity(text.len());
+    let mut chars = text.chars().peekable();
+    let mut in_string = false;
+    while let Some(c) = chars.next() {
+        match c {
+            '\\' if in_string => {
+                out.push(c);
+                out.extend(chars.next());
+            }
+            '"' => {
+                in_string = !in_string;
+                out.push(c);
+            }
+            ';' if !in_string => {
+                out.push(' ');
+                for c in chars.by_ref() {
+                    if c == '\n' {
+                        out.push(c);
+                        break;
+                    }
+                }
+            }
+            '\\' => match chars.next() {
+                Some(';') => out.push_str("\\u003b"),
+                Some('u') => {
+                    out.push_str("\\u");
+                    let rest: String = chars.clone().take(4).collect();
+                    if !rest.is_ascii() {
+                        // an invalid character too
+                        out.push_str("uuuu");
+                    }
+                }
+                next => {
+                    out.push(c);
+                    out.extend(next);
+                }
+            },
+            _ => out.push(c),
+        }
+    }
+    out
+}
+
+/// The text of a symbol, keyword or tag, its namespace included
+fn qualified(namespace: Option<&str>, name: &str) -> String {
+    match namespace {
+        Some(ns) => format!("{ns}/{name}"),
+        None => name.to_string(),
+    }
 }
 
 fn value_to_key(edn: &Value, file_id: usize) -> Result<String, SourceError> {
     match edn {
         Value::Character(c) => Ok(c.to_string()),
         Value::String(s) => Ok(s.to_string()),
-        Value::Symbol(sym) => Ok(sym.name().to_string()),
-        Value::Keyword(kw) => Ok(kw.name().to_string()),
+        Value::Symbol(sym) => Ok(qualified(sym.namespace(), sym.name())),
+        Value::Keyword(kw) => Ok(qualified(kw.namespace(), kw.name())),
         v => Err(SourceError::InvalidBlockKey(
             v.to_string(),
             file_id,
@@ -49,8 +133,8 @@ fn value_to_core(edn: &Value, file_id: usize, data_only: bool) -> Result<RcExpr,
         Value::Boolean(b) => Ok(acore::bool_(*b)),
         Value::Character(c) => Ok(acore::str(c.to_string())),
         Value::String(s) => Ok(acore::str(s)),
-        Value::Symbol(sym) => Ok(acore::sym(sym.name())),
-        Value::Keyword(kw) => Ok(acore::sym(kw.name())),
+        Value::Symbol(sym) => Ok(acore::sym(qualified(sym.namespace(), sym.name()))),
+        Value::Keyword(kw) => Ok(acore::sym(qualified(kw.namespace(), kw.name()))),
         Value::Integer(i) => Ok(acore::num(*i)),
         Value::Float(f) => match Number::from_f64(f.into_inner()) {
             Some(n) => Ok(acore::num(n)),
@@ -80,20 +164,22 @@ fn value_to_core(edn: &Value, file_id: usize, data_only: bool) -> Result<RcExpr,
             .map(|v| value_to_core(v, file_id, data_only))
             .collect::<Result<Vec<RcExpr>, SourceError>>()
             .map(acore::list),
-        Value::Map(m) => m
-            .iter()
-            .map(|(k, v)| {
-                match (
-                    value_to_key(k, file_id),
-                    value_to_core(v, file_id, data_only),
-                ) {
-                    (Ok(k), Ok(v)) => Ok((k, v)),
-                    (Err(e), _) => Err(e),
-                    (_, Err(e)) => Err(e),
+        Value::Map(m) => {
+            let mut entries: Vec<(String, RcExpr)> = Vec::with_capacity(m.len());
+            for (k, v) in m {
+                let key = value_to_key(k, file_id)?;
+                // keys that EDN tells apart (`:a` and `"a"`) may be one name here
+                if entries.iter().any(|(other, _)| *other == key) {
+                    return Err(SourceError::InvalidBlockKey(
+                        format!("{k} (duplicate)"),
+                        file_id,
+                        Span::default(),
+                    ));
                 }
-            })
-            .collect::<Result<Vec<(String, RcExpr)>, SourceError>>()
-            .map(acore::block),
+                entries.push((key, value_to_core(v, file_id, data_only)?));
+            }
+            Ok(acore::block(entries))
+        }
         Value::Set(xs) => xs
             .iter()
             .map(|v| value_to_core(v, file_id, data_only))
@@ -115,7 +201,10 @@ fn value_to_core(edn: &Value, file_id: usize, data_only: bool) -> Result<RcExpr,
         )),
         Value::TaggedElement(t, e) => Ok(acore::meta(
             value_to_core(e, file_id, data_only)?,
-            acore::block(iter::once(("tag".to_string(), acore::str(t.name())))),
+            acore::block(iter::once((
+                "tag".to_string(),
+                acore::str(qualified(t.namespace(), t.name())),
+            ))),
         )),
     }
 }
-- 
2.43.0


From 00b7beb3097e8c9bff5c1726aba30027e457f035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:33 +0000
Subject: [PATCH 41/45] fix: a text stream has the lines of the text import,
 carriage returns and all

---
 src/import/stream.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/import/stream.rs b/src/import/stream.rs
index c9d9847..af404da 100644
--- a/src/import/stream.rs
+++ b/src/import/stream.rs
@@ -147,8 +147,11 @@ impl LazyProducer for TextProducer {
         match self.reader.read_line(&mut self.line_buf) {
             Ok(0) => None, // EOF
             Ok(_) => {
-                // Strip trailing newline
-                let line = self.line_buf.trim_end_matches('\n').trim_end_matches('\r');
+                // Strip the line end, as the import of the whole text does
+                let line = match self.line_buf.strip_suffix('\n') {
+                    Some(line) => line.strip_suffix('\r').unwrap_or(line),
+                    None => &self.line_buf,
+                };
                 Some(Ok(dsl::box_str(line)))
             }
             Err(e) => Some(Err(ExecutionError::Io(e))),
-- 
2.43.0


From 68b9843a869fe9e3bc0969f148a4c45d1460fe3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:21 +0000
Subject: [PATCH 42/45] fix: demand analysis took arguments and bindings for
 strict which may never be evaluated

---
 src/core/analyse_demand.rs | 197 ++++++++++++++++++++++++++++++++-----
 src/eval/intrinsics.rs     |   4 +-
 src/eval/stg/compiler.rs   |   4 +
 3 files changed, 176 insertions(+), 29 deletions(-)

diff --git a/src/core/analyse_demand.rs b/src/core/analyse_demand.rs
index 10c8e58..2184fc1 100644
--- a/src/core/analyse_demand.rs
+++ b/src/core/analyse_demand.rs
@@ -12,7 +12,7 @@ use std::rc::Rc;
 
 use crate::common::sourcemap::Smid;
 use crate::core::binding::{CoreBinding, Scope, Var};
-use crate::core::demand::{Cardinality, Demand};
+use crate::core::demand::{Cardinality, Demand, Strictness};
 use crate::core::expr::*;
 use crate::eval::intrinsics;
 
@@ -104,18 +104,17 @@ pub fn build_intrinsic_signatures() -> HashMap<String, DemandSignature> {
         vec![Demand::strict_once(), Demand::lazy_once()],
     );
 
-    // LOOKUPOR: obj strict+once, key strict+once, fallback lazy+once, (extra arg)
-    if let Some(sig) = sigs.get_mut("LOOKUPOR") {
-        // LOOKUPOR has 4 args: object(0), key(1), fallback(2), extra(3)
-        // object and key are strict; fallback is lazy+once
-        if sig.len() >= 3 {
-            sig[2] = Demand::lazy_once();
-        }
-    }
-    if let Some(sig) = sigs.get_mut("LOOKUPOR#") {
-        if sig.len() >= 3 {
-            sig[2] = Demand::lazy_once();
-        }
+    // LOOKUPOR(key, default, obj): key and object strict, default only
+    // when the key is missing
+    for name in ["LOOKUPOR", "LOOKUPOR#"] {
+        sigs.insert(
+            name.to_string(),
+            vec![
+                Demand::strict_once(),
+                Demand::lazy_once(),
+                Demand::strict_once(),
+            ],
+        );
     }
 
     // IO_BIND: action strict+once, continuation lazy+once
@@ -307,6 +306,48 @@ fn merge_envs(a: &DemandEnv, b: &DemandEnv) -> DemandEnv {
     result
 }
 
+/// Weaken every demand to a lazy one, for a subexpression which is not
+/// necessarily evaluated when the expression which contains it is.
+fn lazy_env(env: DemandEnv) -> DemandEnv {
+    env.into_iter()
+        .map(|(k, d)| {
+            (
+                k,
+                Demand {
+                    strictness: Strictness::Lazy,
+                    ..d
+                },
+            )
+        })
+        .collect()
+}
+
+/// Take account of a call by name of a function with the signature
+fn record_call(
+    calls: &mut HashMap<String, Option<DemandSignature>>,
+    name: &str,
+    sig: Option<DemandSignature>,
+) {
+    match calls.get_mut(name) {
+        None => {
+            calls.insert(name.to_string(), sig);
+        }
+        Some(common) => {
+            *common = match (common.take(), sig) {
+                (Some(a), Some(b)) if a.len() == b.len() => {
+                    Some(a.into_iter().zip(b).map(|(x, y)| x.lub(y)).collect())
+                }
+                _ => None,
+            }
+        }
+    }
+}
+
+/// Scale every demand by the demand on the expression which places it.
+fn scale_env(env: &DemandEnv, outer: Demand) -> DemandEnv {
+    env.iter().map(|(&k, &d)| (k, d.scale(outer))).collect()
+}
+
 /// The demand analyser.
 pub struct DemandAnalyser {
     /// Intrinsic seed signatures.
@@ -337,9 +378,101 @@ impl DemandAnalyser {
     /// name-keyed signature table for user function calls.
     pub fn analyse(mut self, expr: &RcExpr) -> (RcExpr, SignatureTable, NamedSignatureTable) {
         let (new_expr, _env) = self.analyse_expr(expr);
+        self.reconcile_named_signatures(&new_expr);
         (new_expr, self.signatures, self.named_signatures)
     }
 
+    /// Names may be shadowed and reused, so a signature recorded under a
+    /// name is only good if it holds wherever the name is called.
+    ///
+    /// Narrow each to one which holds for every binding the name refers
+    /// to in the calls made, and drop those for which there is none.
+    fn reconcile_named_signatures(&mut self, expr: &RcExpr) {
+        let mut calls = HashMap::new();
+        self.collect_calls(expr, &mut vec![], &mut calls);
+        for (name, sig) in calls {
+            match sig {
+                Some(sig) => self.named_signatures.insert(name, sig),
+                None => self.named_signatures.remove(&name),
+            };
+        }
+    }
+
+    /// Record the signature common to all callees called by each name (or
+    /// `None` where there is none)
+    fn collect_calls(
+        &self,
+        expr: &RcExpr,
+        scopes: &mut Vec<Vec<Option<DemandSignature>>>,
+        calls: &mut HashMap<String, Option<DemandSignature>>,
+    ) {
+        match &*expr.inner {
+            Expr::Let(_, scope, _) => {
+                let frame = scope
+                    .pattern
+                    .iter()
+                    .map(|b| match &*peel_meta(&b.expr).inner {
+                        Expr::Lam(_, _, lam) => self
+                            .signatures
+                            .get(&(Rc::as_ptr(&lam.body.inner) as usize))
+                            .cloned(),
+                        _ => None,
+                    })
+                    .collect();
+                scopes.push(frame);
+                for b in &scope.pattern {
+                    self.collect_calls(&b.expr, scopes, calls);
+                }
+                self.collect_calls(&scope.body, scopes, calls);
+                scopes.pop();
+            }
+            Expr::Lam(_, _, scope) => {
+                scopes.push(vec![None; scope.pattern.len()]);
+                self.collect_calls(&scope.body, scopes, calls);
+                scopes.pop();
+            }
+            Expr::App(_, f, args) => {
+                match &*f.inner {
+                    Expr::Var(_, Var::Bound(bv)) => {
+                        let sig = (scopes.len().checked_sub(1 + bv.scope as usize))
+                            .and_then(|i| scopes[i].get(bv.binder as usize))
+                            .cloned()
+                            .flatten();
+                        if let Some(name) = &bv.name {
+                            record_call(calls, name, sig);
+                        }
+                    }
+                    Expr::Var(_, Var::Free(name)) => record_call(calls, name, None),
+                    _ => self.collect_calls(f, scopes, calls),
+                }
+                for arg in args {
+                    self.collect_calls(arg, scopes, calls);
+                }
+            }
+            Expr::Lookup(_, obj, _, fallback) => {
+                self.collect_calls(obj, scopes, calls);
+                if let Some(fb) = fallback {
+                    self.collect_calls(fb, scopes, calls);
+                }
+            }
+            Expr::List(_, xs) | Expr::ArgTuple(_, xs) => {
+                for x in xs {
+                    self.collect_calls(x, scopes, calls);
+                }
+            }
+            Expr::Block(_, block_map) => {
+                for (_, v) in block_map.iter() {
+                    self.collect_calls(v, scopes, calls);
+                }
+            }
+            Expr::Meta(_, e, m) => {
+                self.collect_calls(e, scopes, calls);
+                self.collect_calls(m, scopes, calls);
+            }
+            _ => {}
+        }
+    }
+
     /// Analyse an expression, returning the annotated expression and
     /// the demand environment it places on its free variables.
     fn analyse_expr(&mut self, expr: &RcExpr) -> (RcExpr, DemandEnv) {
@@ -368,7 +501,7 @@ impl DemandAnalyser {
                 let new_fb = if let Some(fb) = fallback {
                     let (new_fb, fb_env) = self.analyse_expr(fb);
                     // Fallback is lazy+once: merge with main env.
-                    env = merge_envs(&env, &fb_env);
+                    env = merge_envs(&env, &lazy_env(fb_env));
                     Some(new_fb)
                 } else {
                     None
@@ -383,7 +516,7 @@ impl DemandAnalyser {
                 let mut new_xs = Vec::with_capacity(xs.len());
                 for x in xs {
                     let (new_x, x_env) = self.analyse_expr(x);
-                    env = merge_envs(&env, &x_env);
+                    env = merge_envs(&env, &lazy_env(x_env));
                     new_xs.push(new_x);
                 }
                 (RcExpr::from(Expr::List(*s, new_xs)), env)
@@ -394,7 +527,7 @@ impl DemandAnalyser {
                 let mut new_entries = Vec::new();
                 for (k, v) in block_map.iter() {
                     let (new_v, v_env) = self.analyse_expr(v);
-                    env = merge_envs(&env, &v_env);
+                    env = merge_envs(&env, &lazy_env(v_env));
                     new_entries.push((k.clone(), new_v));
                 }
                 (
@@ -406,7 +539,7 @@ impl DemandAnalyser {
             Expr::Meta(s, e, m) => {
                 let (new_e, e_env) = self.analyse_expr(e);
                 let (new_m, m_env) = self.analyse_expr(m);
-                let env = merge_envs(&e_env, &m_env);
+                let env = merge_envs(&e_env, &lazy_env(m_env));
                 (RcExpr::from(Expr::Meta(*s, new_e, new_m)), env)
             }
 
@@ -415,7 +548,7 @@ impl DemandAnalyser {
                 let mut new_xs = Vec::with_capacity(xs.len());
                 for x in xs {
                     let (new_x, x_env) = self.analyse_expr(x);
-                    env = merge_envs(&env, &x_env);
+                    env = merge_envs(&env, &lazy_env(x_env));
                     new_xs.push(new_x);
                 }
                 (RcExpr::from(Expr::ArgTuple(*s, new_xs)), env)
@@ -615,7 +748,17 @@ impl DemandAnalyser {
                 && binding_demand.cardinality != Cardinality::Unknown
             {
                 let shifted = unshift_env(&rhs_envs[i]);
-                outer_env = merge_envs(&outer_env, &shifted);
+                // The right hand side is evaluated at most once (it is
+                // updated), unless it is a function, and is only sure to be
+                // when the binding is.
+                let outer_demand = match &*peel_meta(&new_rhs_exprs[i]).inner {
+                    Expr::Lam(_, _, _) => binding_demand,
+                    _ => Demand {
+                        cardinality: Cardinality::AtMostOnce,
+                        ..binding_demand
+                    },
+                };
+                outer_env = merge_envs(&outer_env, &scale_env(&shifted, outer_demand));
             }
 
             // If the binding's RHS is a Lam with a known signature, record
@@ -677,8 +820,9 @@ impl DemandAnalyser {
         let sig_key = Rc::as_ptr(&new_body.inner) as usize;
         self.signatures.insert(sig_key, sig);
 
-        // The outer env is the body env with scope-0 entries removed
-        let outer_env = unshift_env(&body_env);
+        // The outer env is the body env with scope-0 entries removed.
+        // Evaluating a function does not evaluate its body.
+        let outer_env = lazy_env(unshift_env(&body_env));
 
         let new_scope = Scope {
             pattern: scope.pattern.clone(),
@@ -695,7 +839,10 @@ impl DemandAnalyser {
         let mut env = f_env;
 
         // Try to find the function's signature
-        let sig = self.lookup_signature(f);
+        // (a partial application evaluates none of its arguments)
+        let sig = self
+            .lookup_signature(f)
+            .filter(|sig| args.len() >= sig.len());
 
         // Analyse each argument with the demand from the signature
         let mut new_args = Vec::with_capacity(args.len());
@@ -717,11 +864,7 @@ impl DemandAnalyser {
             // times — without this scaling they would stay AtMostOnce,
             // causing the STG compiler to skip memoisation.
             if arg_demand.cardinality != Cardinality::Absent {
-                let scaled_env: DemandEnv = arg_env
-                    .iter()
-                    .map(|(&k, &d)| (k, d.scale(arg_demand)))
-                    .collect();
-                env = merge_envs(&env, &scaled_env);
+                env = merge_envs(&env, &scale_env(&arg_env, arg_demand));
             }
 
             new_args.push(new_arg);
diff --git a/src/eval/intrinsics.rs b/src/eval/intrinsics.rs
index 2ceb9c4..4041317 100644
--- a/src/eval/intrinsics.rs
+++ b/src/eval/intrinsics.rs
@@ -56,7 +56,7 @@ lazy_static! {
         Intrinsic { // 1
             name: "LOOKUPOR", // boxed sym
             ty: function(vec![block(), unk(), unk(), unk()]).unwrap(),
-            strict: vec![0, 1],
+            strict: vec![0, 2],
         },
         Intrinsic { // 2
             name: "RENDER",
@@ -252,7 +252,7 @@ lazy_static! {
         Intrinsic { // 39
             name: "LOOKUPOR#",
             ty: function(vec![block(), unk(), unk(), unk()]).unwrap(),
-            strict: vec![0, 1],
+            strict: vec![0, 2],
         },
         Intrinsic { // 40
             name: "CONS",
diff --git a/src/eval/stg/compiler.rs b/src/eval/stg/compiler.rs
index 0447329..da593e6 100644
--- a/src/eval/stg/compiler.rs
+++ b/src/eval/stg/compiler.rs
@@ -1180,6 +1180,9 @@ impl ProtoSyntax for ProtoAppGroup {
                     .map(|v| v.as_slice())
             });
 
+        // A partial application evaluates none of its arguments
+        let saturated = arg_demands.is_some_and(|sig| self.args.len() >= sig.len());
+
         // Detect self-recursive call: callee name matches the
         // enclosing recursive binding.  The VM will resolve Ref::L
         // args eagerly at runtime (via `eager_args`) to prevent
@@ -1207,6 +1210,7 @@ impl ProtoSyntax for ProtoAppGroup {
                     // Falls back to Demand::default() for unknown intrinsics or
                     // out-of-range argument indices.
                     let arg_demand = arg_demands
+                        .filter(|_| saturated)
                         .and_then(|sigs| sigs.get(i))
                         .copied()
                         .unwrap_or_default();
-- 
2.43.0


From b7e26d0568b12ade14b697e6c45b502a6dac77c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:59 +0000
Subject: [PATCH 43/45] fix: merging nested scopes made a shadowed name refer
 to the outer binding

---
 src/core/reflatten.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/core/reflatten.rs b/src/core/reflatten.rs
index 5f5057c..7ce3bd9 100644
--- a/src/core/reflatten.rs
+++ b/src/core/reflatten.rs
@@ -15,7 +15,8 @@
 
 use crate::core::binding::{CoreBinding, Scope};
 use crate::core::demand::Demand;
-use crate::core::expr::{close_expr_vars, open_let_scope_full, Expr, LetType, RcExpr};
+use crate::core::expr::{close_expr_vars, free_vars, open_let_scope_full, Expr, LetType, RcExpr};
+use std::collections::HashSet;
 
 /// Run the re-flatten pass over an entire expression tree.
 pub fn reflatten(expr: &RcExpr) -> RcExpr {
@@ -168,7 +169,7 @@ fn collect_chain(
 
     // If the opened body is another mergeable Let, recurse.
     if let Expr::Let(_, inner_scope, inner_lt) = &*open_body.inner {
-        if *inner_lt == LetType::OtherLet {
+        if *inner_lt == LetType::OtherLet && !shadows(inner_scope, all_bindings) {
             return collect_chain(inner_scope, all_bindings);
         }
     }
@@ -176,6 +177,21 @@ fn collect_chain(
     open_body
 }
 
+/// Whether a binding of the scope has a name already used in the bindings
+/// around it.
+///
+/// Such a scope can't be merged: in the merged scope there is only one
+/// binding for a name.
+fn shadows(scope: &Scope<Vec<CoreBinding<RcExpr>>, RcExpr>, all_bindings: &[OpenBinding]) -> bool {
+    let names: HashSet<&str> = scope.pattern.iter().map(|b| b.name.as_str()).collect();
+    all_bindings.iter().any(|b| {
+        names.contains(b.name.as_str())
+            || free_vars(&b.expr)
+                .iter()
+                .any(|fv| names.contains(fv.as_str()))
+    })
+}
+
 /// Close a set of opened bindings back into a single Let scope,
 /// preserving the demand annotation on each binding.
 fn close_let_scope_with_demand(
-- 
2.43.0


From 4cc1904bf423b69dc1c772b355f46073919b6687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:25 +0000
Subject: [PATCH 44/45] fix: an LSP position past the end of its line denotes
 the end of that line

A range whose end character lies beyond the line's length reached into the
following lines, so that incremental changes spliced the wrong text.
---
 src/driver/lsp/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/driver/lsp/mod.rs b/src/driver/lsp/mod.rs
index 2ded8d9..fdc9105 100644
--- a/src/driver/lsp/mod.rs
+++ b/src/driver/lsp/mod.rs
@@ -200,8 +200,9 @@ fn lsp_position_to_byte_offset(text: &str, pos: lsp_types::Position) -> usize {
     let mut utf16_count = 0u32;
     let mut byte_offset = 0usize;
 
+    // A position past the end of the line denotes the end of the line.
     for ch in line_text.chars() {
-        if utf16_count >= pos.character {
+        if ch == '\n' || utf16_count >= pos.character {
             break;
         }
         utf16_count += ch.len_utf16() as u32;
-- 
2.43.0


From df78fe8c063959961306e997110c5a41fd8e00fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:26 +0000
Subject: [PATCH 45/45] fix: range formatting at a position inside a surrogate
 pair ran to the end of the document

---
 src/driver/lsp/formatting.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/driver/lsp/formatting.rs b/src/driver/lsp/formatting.rs
index d9fe3a6..5f294e6 100644
--- a/src/driver/lsp/formatting.rs
+++ b/src/driver/lsp/formatting.rs
@@ -101,7 +101,7 @@ fn lsp_position_to_offset(source: &str, position: &Position) -> usize {
     let mut byte_offset = 0;
 
     for ch in source.chars() {
-        if current_line == position.line && current_char == position.character {
+        if current_line == position.line && current_char >= position.character {
             return byte_offset;
         }
         if ch == '\n' {
-- 
2.43.0

