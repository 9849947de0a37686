From e6adc3fa296a9de72055b1aa960e52d8297f38d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:12 +0000
Subject: [PATCH 01/44] verification hooks: module visibility and header
 accessors under cfg(kani)

---
 cordy-sys/src/lib.rs            |  4 +++-
 cordy-sys/src/vm/mod.rs         |  3 ++-
 cordy-sys/src/vm/value/error.rs |  6 +++++-
 cordy-sys/src/vm/value/mod.rs   | 26 ++++++++++++++++++--------
 cordy-sys/src/vm/value/ptr.rs   |  9 +++++++++
 cordy-sys/src/vm/value/range.rs | 10 ++++++++++
 6 files changed, 47 insertions(+), 11 deletions(-)

diff --git a/cordy-sys/src/lib.rs b/cordy-sys/src/lib.rs
index 953cfa0..9a69bed 100644
--- a/cordy-sys/src/lib.rs
+++ b/cordy-sys/src/lib.rs
@@ -1,3 +1,4 @@
+#![cfg_attr(kani, feature(try_trait_v2_residual))]
 #![feature(variant_count)]
 #![feature(try_trait_v2)]
 
@@ -12,7 +13,8 @@ pub mod vm;
 
 mod reporting;
 mod trace;
-mod core;
+#[cfg(not(kani))] mod core;
+#[cfg(kani)] pub mod core;
 
 pub const SYS_VERSION: &str = version();
 
diff --git a/cordy-sys/src/vm/mod.rs b/cordy-sys/src/vm/mod.rs
index f421126..a5ddd44 100644
--- a/cordy-sys/src/vm/mod.rs
+++ b/cordy-sys/src/vm/mod.rs
@@ -23,7 +23,8 @@ use crate::vm::operator::BinaryOp;
 pub mod operator;
 
 mod opcode;
-mod value;
+#[cfg(not(kani))] mod value;
+#[cfg(kani)] pub mod value;
 mod error;
 
 #[cfg(test)]
diff --git a/cordy-sys/src/vm/value/error.rs b/cordy-sys/src/vm/value/error.rs
index 45a45c9..e919910 100644
--- a/cordy-sys/src/vm/value/error.rs
+++ b/cordy-sys/src/vm/value/error.rs
@@ -148,4 +148,8 @@ impl FromIterator<ValueResult> for ErrorResult<Vec<ValuePtr>> {
         }
         Ok(vec)
     }
-}
\ No newline at end of file
+}
+
+/// Newer toolchains, which the proof harnesses build with, require this of any type using `FromResidual` with `?`
+#[cfg(kani)]
+impl std::ops::Residual<ValuePtr> for ErrorPtr { type TryType = ValueResult; }
diff --git a/cordy-sys/src/vm/value/mod.rs b/cordy-sys/src/vm/value/mod.rs
index 9cbb40f..1d4ef66 100644
--- a/cordy-sys/src/vm/value/mod.rs
+++ b/cordy-sys/src/vm/value/mod.rs
@@ -29,14 +29,24 @@ pub use crate::vm::value::error::{AnyResult, ErrorPtr, ErrorResult, ValueResult}
 use RuntimeError::{*};
 
 
-mod ptr;
-mod str;
-mod func;
-mod range;
-mod slice;
-mod error;
-mod number;
-mod collections;
+// Under verification, the same modules are visible to the (external) proof harness crate
+#[cfg(not(kani))] mod ptr;
+#[cfg(not(kani))] mod str;
+#[cfg(not(kani))] mod func;
+#[cfg(not(kani))] mod range;
+#[cfg(not(kani))] mod slice;
+#[cfg(not(kani))] mod error;
+#[cfg(not(kani))] mod number;
+#[cfg(not(kani))] mod collections;
+
+#[cfg(kani)] pub mod ptr;
+#[cfg(kani)] pub mod str;
+#[cfg(kani)] pub mod func;
+#[cfg(kani)] pub mod range;
+#[cfg(kani)] pub mod slice;
+#[cfg(kani)] pub mod error;
+#[cfg(kani)] pub mod number;
+#[cfg(kani)] pub mod collections;
 
 
 /// `Type` is an enumeration of all the possible types (not including user-defined type variants such as `struct`s) possible in Cordy.
diff --git a/cordy-sys/src/vm/value/ptr.rs b/cordy-sys/src/vm/value/ptr.rs
index f396b59..65211ba 100644
--- a/cordy-sys/src/vm/value/ptr.rs
+++ b/cordy-sys/src/vm/value/ptr.rs
@@ -744,6 +744,15 @@ impl<T : Value> Prefix<T> {
     }
 }
 
+/// Access to the private header fields, for the proof harnesses
+#[cfg(kani)]
+impl<T : Value> Prefix<T> {
+    pub fn verif_ty(&self) -> Type { self.ty }
+    pub fn verif_lock(&self) -> u16 { self.lock.get() }
+    pub fn verif_refs(&self) -> u32 { self.refs.get() }
+    pub fn verif_set(&self, lock: u16, refs: u32) { self.lock.set(lock); self.refs.set(refs) }
+}
+
 impl<T : ConstValue> Prefix<T> {
     /// For const values, we know the underlying value is never mutable, and thus a mutable borrow is never taken.
     /// Thus, we can hand out unchecked references to the underlying value, which avoids the overhead of useless borrow checking.
diff --git a/cordy-sys/src/vm/value/range.rs b/cordy-sys/src/vm/value/range.rs
index 56a6d29..d6cac8e 100644
--- a/cordy-sys/src/vm/value/range.rs
+++ b/cordy-sys/src/vm/value/range.rs
@@ -121,6 +121,16 @@ impl Range {
     }
 }
 
+/// Access to private functions, for the proof harnesses
+#[cfg(kani)]
+impl Range {
+    pub fn verif_from(start: i64, stop: i64, step: i64) -> ValueResult { Range::from(start, stop, step) }
+    pub fn verif_parts(&self) -> (i64, i64, i64) { (self.start, self.stop, self.step) }
+    pub fn verif_next(&self, current: &mut i64) -> Option<ValuePtr> { self.next(current) }
+    pub fn verif_len(&self) -> usize { self.len() }
+    pub fn verif_reverse(self) -> Range { self.reverse() }
+}
+
 
 /// # Enumerate
 ///
-- 
2.43.0


From c7e04063f0e6c3de30b6600416bfdd5ca0cfb29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:09 +0000
Subject: [PATCH 02/44] fix: length and reverse iteration of a range whose step
 does not divide its span

---
 cordy-sys/src/vm/value/range.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cordy-sys/src/vm/value/range.rs b/cordy-sys/src/vm/value/range.rs
index d6cac8e..2fb6448 100644
--- a/cordy-sys/src/vm/value/range.rs
+++ b/cordy-sys/src/vm/value/range.rs
@@ -63,13 +63,13 @@ impl Range {
         match self.step.cmp(&0) {
             Ordering::Equal => self,
             Ordering::Greater => Range::new(
-                self.start + self.len() as i64 * self.step,
-                self.start + 1,
+                self.start + (self.len() as i64 - 1) * self.step,
+                self.start - 1,
                 -self.step
             ),
             Ordering::Less => Range::new(
-                self.start + self.len() as i64 * self.step,
-                self.start - 1,
+                self.start + (self.len() as i64 - 1) * self.step,
+                self.start + 1,
                 -self.step
             )
         }
@@ -112,7 +112,7 @@ impl Range {
         // Since this type ensures that the range is non-empty, we can do simple checked arithmetic
         match self.step {
             0 => 0,
-            _ => (self.start.abs_diff(self.stop) / self.step.unsigned_abs()) as usize
+            _ => ((self.start.abs_diff(self.stop) - 1) / self.step.unsigned_abs() + 1) as usize
         }
     }
 
-- 
2.43.0


From eaf3f550beb9fb3cb374f57ba9c4204dbccfd5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:09 +0000
Subject: [PATCH 03/44] fix: reverse iteration of enumerate()

---
 cordy-sys/src/vm/value/mod.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/cordy-sys/src/vm/value/mod.rs b/cordy-sys/src/vm/value/mod.rs
index 1d4ef66..66f4dc2 100644
--- a/cordy-sys/src/vm/value/mod.rs
+++ b/cordy-sys/src/vm/value/mod.rs
@@ -959,7 +959,14 @@ impl Iterator for IterableRev {
     type Item = ValuePtr;
 
     fn next(&mut self) -> Option<Self::Item> {
-        match &mut self.0 {
+        self.0.next_reversed()
+    }
+}
+
+impl Iterable {
+    /// Returns the next element of an iterable which was reversed via `Iterable.reverse()`
+    fn next_reversed(&mut self) -> Option<ValuePtr> {
+        match self {
             Iterable::Str(it) => it.next_back().map(|u| u.to_value()),
             Iterable::Unit(it) => it.take(),
             Iterable::Collection(index, it) => {
@@ -978,9 +985,9 @@ impl Iterator for IterableRev {
             }
             Iterable::Range(it, range) => range.next(it),
             Iterable::Enumerate(index, it) => {
-                let ret = (*it).next().map(|u| (u, index.to_value()).to_value());
-                *index += 1;
-                ret
+                let ret = it.next_reversed()?;
+                *index -= 1;
+                Some((index.to_value(), ret).to_value())
             },
         }
     }
-- 
2.43.0


From 916c286a1f7c8f976e6183db5525d0579625472e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:09 +0000
Subject: [PATCH 04/44] fix: index, slice and ord() of strings with multi-byte
 characters

---
 cordy-sys/src/core/strings.rs   | 5 +++--
 cordy-sys/src/vm/value/mod.rs   | 2 +-
 cordy-sys/src/vm/value/slice.rs | 2 +-
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/cordy-sys/src/core/strings.rs b/cordy-sys/src/core/strings.rs
index 2fef6a7..5ffbadf 100644
--- a/cordy-sys/src/core/strings.rs
+++ b/cordy-sys/src/core/strings.rs
@@ -203,8 +203,9 @@ pub fn chr(value: ValuePtr) -> ValueResult {
 
 pub fn ord(value: ValuePtr) -> ValueResult {
     let text = value.as_str_checked()?;
-    match text.len() {
-        1 => (text.chars().next().unwrap() as u32 as i64)
+    let mut chars = text.chars();
+    match (chars.next(), chars.next()) {
+        (Some(c), None) => (c as u32 as i64)
             .to_value()
             .ok(),
         _ => TypeErrorArgMustBeChar(value).err(),
diff --git a/cordy-sys/src/vm/value/mod.rs b/cordy-sys/src/vm/value/mod.rs
index 66f4dc2..bf091f6 100644
--- a/cordy-sys/src/vm/value/mod.rs
+++ b/cordy-sys/src/vm/value/mod.rs
@@ -1020,7 +1020,7 @@ impl<'a> Indexable<'a> {
 
     pub fn len(&self) -> usize {
         match self {
-            Indexable::Str(it) => it.len(),
+            Indexable::Str(it) => it.chars().count(),
             Indexable::List(it) => it.len(),
             Indexable::Vector(it) => it.len(),
         }
diff --git a/cordy-sys/src/vm/value/slice.rs b/cordy-sys/src/vm/value/slice.rs
index 0140be6..eab1268 100644
--- a/cordy-sys/src/vm/value/slice.rs
+++ b/cordy-sys/src/vm/value/slice.rs
@@ -101,7 +101,7 @@ impl Sliceable<'_> {
     /// Returns the length of the original value being sliced.
     pub fn len(&self) -> usize {
         match self {
-            Sliceable::Str(it, _) => it.len(),
+            Sliceable::Str(it, _) => it.chars().count(),
             Sliceable::List(it, _) => it.len(),
             Sliceable::Vector(it, _) => it.len(),
         }
-- 
2.43.0


From b72e0311a43d2537e3be66c9040c885d4cd4b4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:09 +0000
Subject: [PATCH 05/44] fix: char() of values above 2^32 must be an error

---
 cordy-sys/src/core/strings.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cordy-sys/src/core/strings.rs b/cordy-sys/src/core/strings.rs
index 5ffbadf..b46a35b 100644
--- a/cordy-sys/src/core/strings.rs
+++ b/cordy-sys/src/core/strings.rs
@@ -195,7 +195,7 @@ pub fn chr(value: ValuePtr) -> ValueResult {
     if i <= 0 {
         return ValueErrorInvalidCharacterOrdinal(i).err()
     }
-    match char::from_u32(i as u32) {
+    match u32::try_from(i).ok().and_then(char::from_u32) {
         Some(c) => c.to_value().ok(),
         None => ValueErrorInvalidCharacterOrdinal(i).err()
     }
-- 
2.43.0


From 288d329e072e56fc593dddd8aafbfa07b9f87665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:09 +0000
Subject: [PATCH 06/44] fix: equal sets and dicts must hash equal, regardless
 of insertion order

---
 cordy-sys/src/vm/value/collections.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/cordy-sys/src/vm/value/collections.rs b/cordy-sys/src/vm/value/collections.rs
index 2b48c8d..a1642a9 100644
--- a/cordy-sys/src/vm/value/collections.rs
+++ b/cordy-sys/src/vm/value/collections.rs
@@ -3,7 +3,7 @@ use std::cmp::{Ordering, Reverse};
 use std::collections::{BinaryHeap, VecDeque};
 use std::hash::{Hash, Hasher};
 use std::ops::{Deref, DerefMut};
-use fxhash::FxBuildHasher;
+use fxhash::{FxBuildHasher, FxHasher};
 use indexmap::{IndexMap, IndexSet};
 
 use crate::core::InvokeArg0;
@@ -116,9 +116,7 @@ impl Hash for Prefix<Set> {
     fn hash<H: Hasher>(&self, state: &mut H) {
         match self.try_borrow() {
             Some(it) => {
-                for v in &it.set {
-                    v.hash(state)
-                }
+                hash_unordered(it.set.iter(), state)
             },
             None => FLAG_RECURSIVE_HASH.with(|cell| cell.set(true)),
         }
@@ -179,9 +177,7 @@ impl Hash for Prefix<Dict> {
     fn hash<H: Hasher>(&self, state: &mut H) {
         match self.try_borrow() {
             Some(it) => {
-                for v in &it.dict {
-                    v.hash(state)
-                }
+                hash_unordered(it.dict.iter(), state)
             },
             None => FLAG_RECURSIVE_HASH.with(|cell| cell.set(true))
         }
@@ -189,6 +185,21 @@ impl Hash for Prefix<Dict> {
 }
 
 
+/// Equality of `set` and `dict` does not depend on the order of elements, so neither can the hash. This combines the hash of each element with a commutative operation.
+fn hash_unordered<T : Hash, H : Hasher>(iter: impl Iterator<Item=T>, state: &mut H) {
+    let mut sum: u64 = 0;
+    let mut len: usize = 0;
+    for v in iter {
+        let mut hasher = FxHasher::default();
+        v.hash(&mut hasher);
+        sum = sum.wrapping_add(hasher.finish());
+        len += 1;
+    }
+    sum.hash(state);
+    len.hash(state);
+}
+
+
 // Support for `set` and `dict` recursive hash exceptions
 thread_local! {
     static FLAG_RECURSIVE_HASH: Cell<bool> = Cell::new(false);
-- 
2.43.0


From f1e24f0be15643483a576c4264dabb3d0c73e027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:09 +0000
Subject: [PATCH 07/44] fix: integral rationals must hash equal to the integer
 they are equal to

---
 cordy-sys/src/vm/value/ptr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cordy-sys/src/vm/value/ptr.rs b/cordy-sys/src/vm/value/ptr.rs
index 65211ba..dbec1c9 100644
--- a/cordy-sys/src/vm/value/ptr.rs
+++ b/cordy-sys/src/vm/value/ptr.rs
@@ -572,7 +572,7 @@ impl Hash for ValuePtr {
                 // If rationals are expressible as 64-bit integers, they must hash identical to those
                 let value = self.as_rational();
                 match value.numer().to_i64() {
-                    Some(int) if value.denom() == &SmallInteger::from(0) => (int as u64).hash(state),
+                    Some(int) if value.denom() == &SmallInteger::from(1) && (MIN_INT..=MAX_INT).contains(&int) => unsafe { from_i64(int).long_tag }.hash(state),
                     _ => value.hash(state),
                 }
             },
-- 
2.43.0


From 584cad759c984e399d3ce9bf242ab3d56a034c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:09 +0000
Subject: [PATCH 08/44] fix: union, intersect and difference of a set with
 itself, and order after difference

---
 cordy-sys/src/core/collections.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/cordy-sys/src/core/collections.rs b/cordy-sys/src/core/collections.rs
index 550fecf..3dde3bd 100644
--- a/cordy-sys/src/core/collections.rs
+++ b/cordy-sys/src/core/collections.rs
@@ -643,9 +643,11 @@ pub fn set_union(other: ValuePtr, this: ValuePtr) -> ValueResult {
     match this.ty() {
         Type::Set => {
             // this.union(other) := add everything from other to this
+            // Note that `other` may be (or contain) the same object as `this`, so it must be evaluated before borrowing `this`
+            let other = other.to_iter()?.collect::<Vec<ValuePtr>>();
             let mut set = this.as_set().borrow_mut();
-            for e in other.to_iter()? {
-                set.insert(e);
+            for e in other {
+                set.insert_checked(e)?;
             }
             drop(set);
             this.ok()
@@ -659,8 +661,8 @@ pub fn set_intersect(other: ValuePtr, this: ValuePtr) -> ValueResult {
         Type::Set => {
             // this.intersect(other) := only keep elements of this that are also in other
             // Since we have just an iterator, we need to compute a set of `other`, then repeatedly check `contains()` for each element in `this`
-            let mut set = this.as_set().borrow_mut();
             let other = other.to_iter()?.collect::<IndexSet<ValuePtr, FxBuildHasher>>();
+            let mut set = this.as_set().borrow_mut();
             set.retain(|e| other.contains(e));
             drop(set);
             this.ok()
@@ -673,9 +675,10 @@ pub fn set_difference(other: ValuePtr, this: ValuePtr) -> ValueResult {
     match this.ty() {
         Type::Set => {
             // this.difference(other) := remove everything from this that is in other
+            let other = other.to_iter()?.collect::<Vec<ValuePtr>>();
             let mut set = this.as_set().borrow_mut();
-            for e in other.to_iter()? {
-                set.remove(&e);
+            for e in other {
+                set.shift_remove(&e);
             }
             drop(set);
             this.ok()
-- 
2.43.0


From a909e7060b4f979aceae663598a161e2c050b777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:09 +0000
Subject: [PATCH 09/44] fix: variadic arguments of a partial function

---
 cordy-sys/src/vm/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cordy-sys/src/vm/mod.rs b/cordy-sys/src/vm/mod.rs
index a5ddd44..f29caa2 100644
--- a/cordy-sys/src/vm/mod.rs
+++ b/cordy-sys/src/vm/mod.rs
@@ -767,7 +767,7 @@ impl<R : BufRead, W : Write, F : FunctionInterface> VirtualMachine<R, W, F> {
                     // Exactly enough arguments to invoke the function
                     // We need to set up the stack correctly to call the function
                     let head: usize = func.jump_offset(total_nargs);
-                    let num_var_args: Option<u32> = func.num_var_args(nargs);
+                    let num_var_args: Option<u32> = func.num_var_args(total_nargs);
                     let (ptr, args) = partial.consume();
                     self.stack[i] = ptr; // Replace the `Nil` from earlier
                     insert(&mut self.stack, args, nargs);
-- 
2.43.0


From 0346e98f0e192b9d9a8a8597d1b58669ec00e7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:09 +0000
Subject: [PATCH 10/44] fix: overflow of integer *, ** and shifts must wrap,
 not crash

---
 cordy-sys/src/vm/operator.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/cordy-sys/src/vm/operator.rs b/cordy-sys/src/vm/operator.rs
index 178ab1b..7b08c39 100644
--- a/cordy-sys/src/vm/operator.rs
+++ b/cordy-sys/src/vm/operator.rs
@@ -139,7 +139,7 @@ pub fn unary_logical_not(a1: ValuePtr) -> ValueResult {
 
 pub fn binary_mul(lhs: ValuePtr, rhs: ValuePtr) -> ValueResult {
     match (lhs.ty(), rhs.ty()) {
-        (Bool | Int, Bool | Int) => (lhs.as_int() * rhs.as_int()).to_value().ok(),
+        (Bool | Int, Bool | Int) => lhs.as_int().wrapping_mul(rhs.as_int()).to_value().ok(),
         (Bool | Int | Complex, Bool | Int | Complex) => (lhs.to_complex() * rhs.to_complex()).to_value().ok(),
         #[cfg(feature = "rational")]
         (Bool | Int | Rational, Bool | Int | Rational) => (lhs.to_rational() * rhs.to_rational()).to_value().ok(),
@@ -253,7 +253,7 @@ pub fn binary_pow(lhs: ValuePtr, rhs: ValuePtr) -> ValueResult {
         (Bool | Int, Bool | Int) => {
             let rhs = rhs.as_int();
             match rhs >= 0 {
-                true => lhs.as_int().pow(rhs as u32).to_value().ok(),
+                true => i64_pow(lhs.as_int(), rhs).to_value().ok(),
                 false => ValueErrorPowerByNegative(rhs).err()
             }
         },
@@ -281,6 +281,19 @@ pub fn binary_pow(lhs: ValuePtr, rhs: ValuePtr) -> ValueResult {
     }
 }
 
+/// Computes `base ^ exp` for non-negative values of `exp`, wrapping on overflow like all other integer operations.
+fn i64_pow(mut base: i64, mut exp: i64) -> i64 {
+    let mut result: i64 = 1;
+    while exp > 0 {
+        if exp & 1 == 1 {
+            result = result.wrapping_mul(base);
+        }
+        base = base.wrapping_mul(base);
+        exp >>= 1;
+    }
+    result
+}
+
 /// When `invert = true`, this is a `binary_is_not` operator
 pub fn binary_is(lhs: ValuePtr, rhs: ValuePtr, invert: bool) -> ValueResult {
     (match rhs.ty() {
@@ -386,10 +399,12 @@ pub fn binary_right_shift(lhs: ValuePtr, rhs: ValuePtr) -> ValueResult {
 /// Performs a binary shift either left or right, based on the sign of `rhs`. Positive values shift left, negative values shift right.
 #[inline]
 fn i64_left_shift(lhs: i64, rhs: i64) -> i64 {
-    if rhs >= 0 {
+    if rhs >= 64 {
+        0
+    } else if rhs >= 0 {
         lhs << rhs
     } else {
-        lhs >> (-rhs)
+        lhs >> (-rhs).min(63)
     }
 }
 
-- 
2.43.0


From cd510489a1f13a4f5d735af336d31862c57e4403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:09 +0000
Subject: [PATCH 11/44] fix: converting text outside the integer range to an
 integer must be an error

---
 cordy-sys/src/core/math.rs    | 13 +++++++++++--
 cordy-sys/src/core/strings.rs |  5 +++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/cordy-sys/src/core/math.rs b/cordy-sys/src/core/math.rs
index 78fd6da..b201e88 100644
--- a/cordy-sys/src/core/math.rs
+++ b/cordy-sys/src/core/math.rs
@@ -11,16 +11,25 @@ use crate::core::NativeFunction::{Gcd, Lcm};
 use RuntimeError::{*};
 
 
+/// Parses an integer, which must be representable as an `int` without loss of precision
+pub fn parse_int(text: &str, radix: u32) -> Result<i64, String> {
+    match i64::from_str_radix(text, radix) {
+        Ok(i) if ValuePtr::MIN_INT <= i && i <= ValuePtr::MAX_INT => Ok(i),
+        Ok(_) => Err(String::from("number too large to fit in target type")),
+        Err(err) => Err(err.to_string()),
+    }
+}
+
 pub fn convert_to_int(target: ValuePtr, default: Option<ValuePtr>) -> ValueResult {
     match target.ty() {
         Type::Nil => 0i64.to_value().ok(),
         Type::Bool => target.as_int().to_value().ok(),
         Type::Int => target.ok(),
-        Type::ShortStr | Type::LongStr => match target.as_str_slice().parse::<i64>() {
+        Type::ShortStr | Type::LongStr => match parse_int(target.as_str_slice(), 10) {
             Ok(i) => i.to_value().ok(),
             Err(err) => match default {
                 Some(a2) => a2.ok(),
-                None => ValueErrorCannotConvertStringToIntBadParse(target, err.to_string()).err(),
+                None => ValueErrorCannotConvertStringToIntBadParse(target, err).err(),
             },
         },
         #[cfg(feature = "rational")]
diff --git a/cordy-sys/src/core/strings.rs b/cordy-sys/src/core/strings.rs
index b46a35b..c9ca5e3 100644
--- a/cordy-sys/src/core/strings.rs
+++ b/cordy-sys/src/core/strings.rs
@@ -2,6 +2,7 @@ use std::iter::{FusedIterator, Peekable};
 use std::str::Chars;
 use fancy_regex::{Captures, Matches, Regex};
 
+use crate::core::math::parse_int;
 use crate::core::InvokeArg1;
 use crate::util;
 use crate::vm::{ErrorPtr, ErrorResult, IntoIterableValue, IntoValue, Iterable, RuntimeError, Type, ValuePtr, ValueResult, VirtualInterface};
@@ -215,7 +216,7 @@ pub fn ord(value: ValuePtr) -> ValueResult {
 pub fn hex(value: ValuePtr) -> ValueResult {
     match value.ty() {
         Type::Int => format!("{:x}", value.as_precise_int()).to_value().ok(),
-        Type::ShortStr | Type::LongStr => match i64::from_str_radix(value.as_str_slice(), 16).ok() {
+        Type::ShortStr | Type::LongStr => match parse_int(value.as_str_slice(), 16).ok() {
             Some(int) => int.to_value().ok(),
             _ => TypeErrorCannotConvertToInt(value).err()
         },
@@ -226,7 +227,7 @@ pub fn hex(value: ValuePtr) -> ValueResult {
 pub fn bin(value: ValuePtr) -> ValueResult {
     match value.ty() {
         Type::Int => format!("{:b}", value.as_precise_int()).to_value().ok(),
-        Type::ShortStr | Type::LongStr => match i64::from_str_radix(value.as_str_slice(), 2).ok() {
+        Type::ShortStr | Type::LongStr => match parse_int(value.as_str_slice(), 2).ok() {
             Some(int) => int.to_value().ok(),
             _ => TypeErrorCannotConvertToInt(value).err()
         }
-- 
2.43.0


From 37dd68da2e4607040cc1ede33c1e659f81156c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:09 +0000
Subject: [PATCH 12/44] fix: overflow of sum() and lcm() must wrap, not crash

---
 cordy-sys/src/core/collections.rs | 2 +-
 cordy-sys/src/core/math.rs        | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/core/collections.rs b/cordy-sys/src/core/collections.rs
index 3dde3bd..00f14f1 100644
--- a/cordy-sys/src/core/collections.rs
+++ b/cordy-sys/src/core/collections.rs
@@ -151,7 +151,7 @@ fn rev_range(start_high_inclusive: i64, stop_low_exclusive: i64, step_size: i64)
 pub fn sum(args: impl Iterator<Item=ValuePtr>) -> ValueResult {
     let mut sum: i64 = 0;
     for v in args {
-        sum += v.as_int_checked()?;
+        sum = sum.wrapping_add(v.as_int_checked()?);
     }
     sum.to_value().ok()
 }
diff --git a/cordy-sys/src/core/math.rs b/cordy-sys/src/core/math.rs
index b201e88..ff1c1fa 100644
--- a/cordy-sys/src/core/math.rs
+++ b/cordy-sys/src/core/math.rs
@@ -124,7 +124,11 @@ pub fn lcm(mut args: impl Iterator<Item=ValuePtr>) -> ValueResult {
     };
 
     for arg in args {
-        acc = num_integer::lcm(acc, arg.as_int_checked()?);
+        let arg = arg.as_int_checked()?;
+        acc = match num_integer::gcd(acc, arg) {
+            0 => 0,
+            gcd => (acc / gcd).wrapping_mul(arg).wrapping_abs(),
+        };
     }
 
     acc.to_value().ok()
-- 
2.43.0


From 6085e46ea498407a3a05a0b86b7919214c9a4e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:09 +0000
Subject: [PATCH 13/44] fix: out of bounds slice indices must be clamped before
 stepping

---
 cordy-sys/src/core/collections.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/core/collections.rs b/cordy-sys/src/core/collections.rs
index 00f14f1..755a30b 100644
--- a/cordy-sys/src/core/collections.rs
+++ b/cordy-sys/src/core/collections.rs
@@ -102,8 +102,10 @@ pub fn get_slice(target: &ValuePtr, low: ValuePtr, high: ValuePtr, step: ValuePt
     let low: i64 = unwrap_or(low, if step > 0 { 0 } else { -1 })?;
     let high: i64 = unwrap_or(high, if step > 0 { length } else { -length - 1 })?;
 
-    let abs_start: i64 = to_index(length, low);
-    let abs_stop: i64 = to_index(length, high);
+    // Out of bounds indices are clamped to the first index past the end, in the respective direction
+    let (min, max) = if step > 0 { (0, length) } else { (-1, length - 1) };
+    let abs_start: i64 = to_index(length, low).clamp(min, max);
+    let abs_stop: i64 = to_index(length, high).clamp(min, max);
     let abs_step: usize = step.unsigned_abs() as usize;
 
     if step > 0 {
-- 
2.43.0


From 610038a4517ff91217b8928ce87bb68e9855ba40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:51 +0000
Subject: [PATCH 14/44] fix: reported lines and columns when source has
 multi-byte characters, or an error ends at the start of a line

---
 cordy-sys/src/compiler/scanner.rs | 10 +++++-----
 cordy-sys/src/reporting.rs        |  8 ++++----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/cordy-sys/src/compiler/scanner.rs b/cordy-sys/src/compiler/scanner.rs
index adfac9a..d7ad6f6 100644
--- a/cordy-sys/src/compiler/scanner.rs
+++ b/cordy-sys/src/compiler/scanner.rs
@@ -335,7 +335,7 @@ impl<'a> Scanner<'a> {
                                    None => {
                                        // Manually report this error at the source point, not at the destination point of the string
                                        // It makes it much easier to read.
-                                       self.push_err_at(start, 1, UnterminatedStringLiteral);
+                                       self.push_err_at(start - 1, UnterminatedStringLiteral);
                                        break
                                    }
                                }
@@ -406,14 +406,14 @@ impl<'a> Scanner<'a> {
                                                Some('/') => break,
                                                Some(_) => {},
                                                None => {
-                                                   self.push_err_at(start, 2, UnterminatedBlockComment);
+                                                   self.push_err_at(start - 1, UnterminatedBlockComment);
                                                    break
                                                }
                                            }
                                        },
                                        Some(_) => {},
                                        None => {
-                                           self.push_err_at(start, 2, UnterminatedBlockComment);
+                                           self.push_err_at(start - 1, UnterminatedBlockComment);
                                            break
                                        }
                                    }
@@ -547,12 +547,12 @@ impl<'a> Scanner<'a> {
     }
 
     /// Reports an error at a given source point, not until the end. Used for 'unterminated' errors, as it makes them easier to read.
-    fn push_err_at(&mut self, start: usize, width: u32, error: ScanErrorType) {
+    fn push_err_at(&mut self, start: usize, error: ScanErrorType) {
         // Manually report this error at the source point, not at the destination point of the string
         // It makes it much easier to read.
         self.errors.push(ScanError {
             error,
-            loc: Location::new(start, (self.cursor - start) as u32 + width, self.index)
+            loc: Location::new(start, (self.cursor - start) as u32, self.index)
         });
     }
 
diff --git a/cordy-sys/src/reporting.rs b/cordy-sys/src/reporting.rs
index b4e73ce..dd1341f 100644
--- a/cordy-sys/src/reporting.rs
+++ b/cordy-sys/src/reporting.rs
@@ -170,7 +170,7 @@ impl SourceEntry {
         let mut end_lineno = start_lineno;
 
         if !loc.is_empty() {
-            while index.starts[end_lineno + 1] < loc.end() {
+            while index.starts[end_lineno + 1] <= loc.end() {
                 end_lineno += 1;
             }
         }
@@ -201,7 +201,7 @@ impl SourceEntry {
         }
 
         let (start_col, end_col) = if loc.is_empty() {
-            let last_col: usize = index.lines[end_lineno].len();
+            let last_col: usize = index.lines[end_lineno].chars().count();
             (last_col + 1, last_col + 3)
         } else {
             (loc.start - index.starts[start_lineno], loc.end() - index.starts[end_lineno])
@@ -229,7 +229,7 @@ impl SourceEntry {
         } else {
             // For multi-line errors, just point directly up across the entire bottom line
             let longest_line_len: usize = (start_lineno..=end_lineno)
-                .map(|u| index.lines[u].len())
+                .map(|u| index.lines[u].chars().count())
                 .max()
                 .unwrap();
             if longest_line_len > 0 {
@@ -250,7 +250,7 @@ impl SourceEntry {
             for line in self.text.split('\n') {
                 lines.push(String::from(line.strip_suffix('\r').unwrap_or(line)));
                 starts.push(start);
-                start += line.len() + 1;
+                start += line.chars().count() + 1; // Locations are in characters, not bytes
             }
 
             starts.push(start);
-- 
2.43.0


From cc1ad46c37740454e778fc7e7bc977014aa9544b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:11 +0000
Subject: [PATCH 15/44] fix: complex arithmetic overflowed, or truncated its
 exponent, for large parts

---
 cordy-sys/src/vm/operator.rs     | 37 ++++++++++++++++++++++++++------
 cordy-sys/src/vm/value/number.rs | 12 +++++++----
 2 files changed, 38 insertions(+), 11 deletions(-)

diff --git a/cordy-sys/src/vm/operator.rs b/cordy-sys/src/vm/operator.rs
index 7b08c39..1cd9993 100644
--- a/cordy-sys/src/vm/operator.rs
+++ b/cordy-sys/src/vm/operator.rs
@@ -140,7 +140,7 @@ pub fn unary_logical_not(a1: ValuePtr) -> ValueResult {
 pub fn binary_mul(lhs: ValuePtr, rhs: ValuePtr) -> ValueResult {
     match (lhs.ty(), rhs.ty()) {
         (Bool | Int, Bool | Int) => lhs.as_int().wrapping_mul(rhs.as_int()).to_value().ok(),
-        (Bool | Int | Complex, Bool | Int | Complex) => (lhs.to_complex() * rhs.to_complex()).to_value().ok(),
+        (Bool | Int | Complex, Bool | Int | Complex) => c64_mul(lhs.to_complex(), rhs.to_complex()).to_value().ok(),
         #[cfg(feature = "rational")]
         (Bool | Int | Rational, Bool | Int | Rational) => (lhs.to_rational() * rhs.to_rational()).to_value().ok(),
         (ShortStr | LongStr, Int) => binary_str_repeat(lhs, rhs),
@@ -191,7 +191,7 @@ pub fn binary_div(lhs: ValuePtr, rhs: ValuePtr) -> ValueResult {
         },
         (Bool | Int | Complex, Bool | Int | Complex) => {
             let rhs = rhs.to_complex();
-            match rhs.norm_sqr() == 0 {
+            match rhs.re == 0 && rhs.im == 0 {
                 true => ValueErrorDivideByZero.err(),
                 false => c64_div_floor(lhs.to_complex(), rhs).to_value().ok()
             }
@@ -211,14 +211,37 @@ pub fn binary_div(lhs: ValuePtr, rhs: ValuePtr) -> ValueResult {
     }
 }
 
+/// Complex multiplication, where both parts wrap on overflow like all other integer operations.
+fn c64_mul(lhs: ComplexType, rhs: ComplexType) -> ComplexType {
+    let re = lhs.re.wrapping_mul(rhs.re).wrapping_sub(lhs.im.wrapping_mul(rhs.im));
+    let im = lhs.re.wrapping_mul(rhs.im).wrapping_add(lhs.im.wrapping_mul(rhs.re));
+    ComplexType::new(re, im)
+}
+
 /// The `C64` type provided by `num-complex` defines `div()` using regular rust division.
 /// This is a clone of that but using `floor_div` provided by `num-integer`, which keeps consistency with how we define division for `complex / int`
+///
+/// The intermediate values may need up to 126 bits, so they are computed as a `i128`
 #[inline]
 fn c64_div_floor(lhs: ComplexType, rhs: ComplexType) -> ComplexType {
-    let norm_sqr = rhs.norm_sqr();
-    let re = lhs.re * rhs.re + lhs.im * rhs.im;
-    let im = lhs.im * rhs.re - lhs.re * rhs.im;
-    ComplexType::new(num_integer::div_floor(re, norm_sqr), num_integer::div_floor(im, norm_sqr))
+    let (a, b, c, d) = (lhs.re as i128, lhs.im as i128, rhs.re as i128, rhs.im as i128);
+    let norm_sqr = c * c + d * d;
+    let re = a * c + b * d;
+    let im = b * c - a * d;
+    ComplexType::new(num_integer::div_floor(re, norm_sqr) as i64, num_integer::div_floor(im, norm_sqr) as i64)
+}
+
+/// Computes `base ^ exp` for non-negative values of `exp`, wrapping on overflow like all other integer operations.
+fn c64_pow(mut base: ComplexType, mut exp: i64) -> ComplexType {
+    let mut result: ComplexType = ComplexType::new(1, 0);
+    while exp > 0 {
+        if exp & 1 == 1 {
+            result = c64_mul(result, base);
+        }
+        base = c64_mul(base, base);
+        exp >>= 1;
+    }
+    result
 }
 
 pub fn binary_mod(lhs: ValuePtr, rhs: ValuePtr) -> ValueResult {
@@ -260,7 +283,7 @@ pub fn binary_pow(lhs: ValuePtr, rhs: ValuePtr) -> ValueResult {
         (Complex, Bool | Int) => {
             let rhs = rhs.as_int();
             match rhs >= 0 {
-                true => lhs.as_complex().powu(rhs as u32).to_value().ok(),
+                true => c64_pow(*lhs.as_complex(), rhs).to_value().ok(),
                 false => ValueErrorPowerByNegative(rhs).err()
             }
         },
diff --git a/cordy-sys/src/vm/value/number.rs b/cordy-sys/src/vm/value/number.rs
index 880c320..ba12ebf 100644
--- a/cordy-sys/src/vm/value/number.rs
+++ b/cordy-sys/src/vm/value/number.rs
@@ -14,7 +14,7 @@ pub type ComplexType = num_complex::Complex<i64>;
 
 /// # Complex
 ///
-/// This is Cordy's complex integer type. For now, it is represented by a 64-bit complex pair of (real, imaginary) components.
+/// This is Cordy's complex integer type. For now, it is represented by a 63-bit complex pair of (real, imaginary) components.
 /// Since normal integer values are represented with a `int`, we require that this type **only** holds values with a nonzero imaginary component
 ///
 /// It is a shared, and immutable type.
@@ -53,9 +53,13 @@ impl Value for Complex {}
 impl ConstValue for Complex {}
 
 impl_into!(Complex, self, self.0.to_value());
-impl_into!(ComplexType, self, match self.im == 0 {
-    true => ptr::from_i64(self.re),
-    false => ptr::from_shared(Prefix::new(Type::Complex, Complex::new(self)))
+impl_into!(ComplexType, self, {
+    // Both parts are 63-bit integers, just like `int`, and wrap in the same way
+    let value = ComplexType::new((self.re << 1) >> 1, (self.im << 1) >> 1);
+    match value.im == 0 {
+        true => ptr::from_i64(value.re),
+        false => ptr::from_shared(Prefix::new(Type::Complex, Complex::new(value)))
+    }
 });
 
 impl ValuePtr {
-- 
2.43.0


From 3abbf06e279aed9c166992abdb5227a3ff384814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:06 +0000
Subject: [PATCH 16/44] fix: x is typeof(x) failed for ranges, enumerates,
 field accessors and memoized functions

---
 cordy-sys/src/vm/operator.rs  | 2 ++
 cordy-sys/src/vm/value/mod.rs | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/cordy-sys/src/vm/operator.rs b/cordy-sys/src/vm/operator.rs
index 1cd9993..2217c28 100644
--- a/cordy-sys/src/vm/operator.rs
+++ b/cordy-sys/src/vm/operator.rs
@@ -335,6 +335,8 @@ pub fn binary_is(lhs: ValuePtr, rhs: ValuePtr, invert: bool) -> ValueResult {
             NativeFunction::Vector => lhs.is_vector(),
             NativeFunction::Iterable => lhs.is_iterable(),
             NativeFunction::Heap => lhs.is_heap(),
+            NativeFunction::Range => lhs.ty() == Range,
+            NativeFunction::Enumerate => lhs.ty() == Enumerate,
             NativeFunction::Any => true,
             _ => return TypeErrorBinaryIs(lhs, rhs).err()
         },
diff --git a/cordy-sys/src/vm/value/mod.rs b/cordy-sys/src/vm/value/mod.rs
index bf091f6..57824e5 100644
--- a/cordy-sys/src/vm/value/mod.rs
+++ b/cordy-sys/src/vm/value/mod.rs
@@ -132,7 +132,7 @@ impl Type {
     fn is_evaluable(self) -> bool {
         use Type::{*};
         match self {
-            Function | PartialFunction | NativeFunction | PartialNativeFunction | Closure | StructType | Slice => true,
+            Function | PartialFunction | NativeFunction | PartialNativeFunction | Closure | Memoized | StructType | GetField | Slice => true,
             _ => false
         }
     }
-- 
2.43.0


From c4819c8f662b066399326694d032c52b4a5bba48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:41 +0000
Subject: [PATCH 17/44] verification hooks: core modules visible under
 cfg(kani)

---
 cordy-sys/src/core/mod.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/cordy-sys/src/core/mod.rs b/cordy-sys/src/core/mod.rs
index 1d554a5..cbe17bf 100644
--- a/cordy-sys/src/core/mod.rs
+++ b/cordy-sys/src/core/mod.rs
@@ -19,10 +19,19 @@ use NativeFunction::{*};
 use RuntimeError::{*};
 
 
-mod math;
-mod pattern;
-mod strings;
-mod collections;
+// Under verification, the same modules are visible to the (external) proof harness crate
+#[cfg(not(kani))] mod math;
+#[cfg(not(kani))] mod pattern;
+#[cfg(not(kani))] mod strings;
+#[cfg(not(kani))] mod collections;
+
+#[cfg(kani)] pub mod math;
+#[cfg(kani)] pub mod pattern;
+#[cfg(kani)] pub mod strings;
+#[cfg(kani)] pub mod collections;
+
+/// Access to a private function, for the proof harnesses
+#[cfg(kani)] pub fn verif_type_of(value: ValuePtr) -> ValuePtr { type_of(value) }
 
 
 /// An enum representing all possible native functions implemented in Cordy
-- 
2.43.0


From db7b55c874f66351ad649cf71ad882f8af24a786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:47 +0000
Subject: [PATCH 18/44] fix: variadic native functions called from other native
 functions

A variadic function such as 'print' or 'vector' called with two arguments ('[1, 2, 3] . reduce(print)') panicked, and 'max(int)' called with one ('[int] . map(max)') failed, unlike when called directly.
---
 cordy-sys/src/core/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cordy-sys/src/core/mod.rs b/cordy-sys/src/core/mod.rs
index cbe17bf..885a4c2 100644
--- a/cordy-sys/src/core/mod.rs
+++ b/cordy-sys/src/core/mod.rs
@@ -589,8 +589,8 @@ impl InvokeArg1 {
         match f.ty() {
             Type::Function | Type::Closure | Type::PartialFunction | Type::List | Type::Slice | Type::StructType | Type::GetField | Type::Memoized => Ok(InvokeArg1::User(f)),
             Type::NativeFunction => match f.as_native().info().arg {
-                Arg0To1 | Arg1 | Arg1To2 | Arg1To3 | Unique => Ok(InvokeArg1::Native(f.as_native())),
-                Iter | UniqueNonEmpty | IterNonEmpty => Ok(InvokeArg1::NativeVar(f.as_native())),
+                Arg0To1 | Arg1 | Arg1To2 | Arg1To3 | Unique | UniqueNonEmpty => Ok(InvokeArg1::Native(f.as_native())),
+                Iter | IterNonEmpty => Ok(InvokeArg1::NativeVar(f.as_native())),
                 Arg2 => Ok(InvokeArg1::Arg2Par1(f.as_native())),
                 Arg3 => Ok(InvokeArg1::Arg3Par1(f.as_native())),
                 Arg0 => IncorrectArgumentsNativeFunction(f.as_native(), 1).err(),
@@ -627,8 +627,8 @@ impl InvokeArg2 {
         match f.ty() {
             Type::Function | Type::Closure | Type::PartialFunction | Type::List | Type::Slice | Type::StructType | Type::GetField | Type::Memoized => Ok(InvokeArg2::User(f)),
             Type::NativeFunction => match f.as_native().info().arg {
-                Arg1To2 | Arg1To3 | Arg2 | Unique => Ok(InvokeArg2::Native(f.as_native())),
-                Iter | UniqueNonEmpty | IterNonEmpty => Ok(InvokeArg2::NativeVar(f.as_native())),
+                Arg1To2 | Arg1To3 | Arg2 => Ok(InvokeArg2::Native(f.as_native())),
+                Unique | Iter | UniqueNonEmpty | IterNonEmpty => Ok(InvokeArg2::NativeVar(f.as_native())),
                 Arg3 => Ok(InvokeArg2::Arg3Par1(f.as_native())),
                 Arg0 | Arg0To1 | Arg1 => IncorrectArgumentsNativeFunction(f.as_native(), 2).err(),
                 Invalid => ValueIsNotFunctionEvaluable(f).err(),
-- 
2.43.0


From d3356b02e6a5a8992474fa3b6523c24a5b48f6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:10 +0000
Subject: [PATCH 19/44] fix: (& x), (| x) and (^ x) exchanged the operands

'(| set(1, 2))(set(2, 3))' gave 'set(1, 2) | set(2, 3)', whose elements are in another order than those of 'set(2, 3) | set(1, 2)'.
---
 cordy-sys/src/core/mod.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/cordy-sys/src/core/mod.rs b/cordy-sys/src/core/mod.rs
index 885a4c2..bbadb98 100644
--- a/cordy-sys/src/core/mod.rs
+++ b/cordy-sys/src/core/mod.rs
@@ -89,8 +89,11 @@ pub enum NativeFunction {
     OperatorRightShift,
     OperatorRightShiftSwap,
     OperatorBitwiseAnd,
+    OperatorBitwiseAndSwap,
     OperatorBitwiseOr,
+    OperatorBitwiseOrSwap,
     OperatorBitwiseXor,
+    OperatorBitwiseXorSwap,
     OperatorLessThan,
     OperatorLessThanSwap,
     OperatorLessThanEqual,
@@ -255,6 +258,12 @@ impl NativeFunction {
             OperatorLeftShiftSwap => OperatorLeftShift,
             OperatorRightShift => OperatorRightShiftSwap,
             OperatorRightShiftSwap => OperatorRightShift,
+            OperatorBitwiseAnd => OperatorBitwiseAndSwap,
+            OperatorBitwiseAndSwap => OperatorBitwiseAnd,
+            OperatorBitwiseOr => OperatorBitwiseOrSwap,
+            OperatorBitwiseOrSwap => OperatorBitwiseOr,
+            OperatorBitwiseXor => OperatorBitwiseXorSwap,
+            OperatorBitwiseXorSwap => OperatorBitwiseXor,
             OperatorLessThan => OperatorLessThanSwap,
             OperatorLessThanSwap => OperatorLessThan,
             OperatorLessThanEqual => OperatorLessThanEqualSwap,
@@ -350,8 +359,11 @@ const fn load_native_functions() -> [NativeFunctionInfo; NativeFunction::total()
         op2(OperatorRightShift, "(>>)"),
         op2(OperatorRightShiftSwap, "(>>)"),
         op2(OperatorBitwiseAnd, "(&)"),
+        op2(OperatorBitwiseAndSwap, "(&)"),
         op2(OperatorBitwiseOr, "(|)"),
+        op2(OperatorBitwiseOrSwap, "(|)"),
         op2(OperatorBitwiseXor, "(^)"),
+        op2(OperatorBitwiseXorSwap, "(^)"),
         op2(OperatorLessThan, "(<)"),
         op2(OperatorLessThanSwap, "(<)"),
         op2(OperatorLessThanEqual, "(<=)"),
@@ -980,8 +992,11 @@ fn invoke_arg2<VM : VirtualInterface>(f: NativeFunction, a1: ValuePtr, a2: Value
         OperatorRightShift => operator::binary_right_shift(a1, a2),
         OperatorRightShiftSwap => operator::binary_right_shift(a2, a1),
         OperatorBitwiseAnd => operator::binary_bitwise_and(a1, a2),
+        OperatorBitwiseAndSwap => operator::binary_bitwise_and(a2, a1),
         OperatorBitwiseOr => operator::binary_bitwise_or(a1, a2),
+        OperatorBitwiseOrSwap => operator::binary_bitwise_or(a2, a1),
         OperatorBitwiseXor => operator::binary_bitwise_xor(a1, a2),
+        OperatorBitwiseXorSwap => operator::binary_bitwise_xor(a2, a1),
         OperatorLessThan => (a1 < a2).to_value().ok(),
         OperatorLessThanSwap => (a2 < a1).to_value().ok(),
         OperatorLessThanEqual => (a1 <= a2).to_value().ok(),
-- 
2.43.0


From bf4f9c9592b7e67325f7042c62864d9763175b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:10 +0000
Subject: [PATCH 20/44] verification: cfg(kani) access to the table of native
 functions

---
 cordy-sys/src/core/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cordy-sys/src/core/mod.rs b/cordy-sys/src/core/mod.rs
index bbadb98..bf0050a 100644
--- a/cordy-sys/src/core/mod.rs
+++ b/cordy-sys/src/core/mod.rs
@@ -30,8 +30,9 @@ use RuntimeError::{*};
 #[cfg(kani)] pub mod strings;
 #[cfg(kani)] pub mod collections;
 
-/// Access to a private function, for the proof harnesses
+/// Access to private functions, for the proof harnesses
 #[cfg(kani)] pub fn verif_type_of(value: ValuePtr) -> ValuePtr { type_of(value) }
+#[cfg(kani)] pub fn verif_info(f: NativeFunction) -> (NativeFunction, Argument) { let info = f.info(); (info.native, info.arg) }
 
 
 /// An enum representing all possible native functions implemented in Cordy
-- 
2.43.0


From 72a07724aba650ae0a31e4a409ba761798f5f912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:24 +0000
Subject: [PATCH 21/44] fix: a variadic parameter may be discarded, is unique,
 and takes no default value

---
 cordy-sys/src/compiler/parser/mod.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/mod.rs b/cordy-sys/src/compiler/parser/mod.rs
index 11317af..e2a52eb 100644
--- a/cordy-sys/src/compiler/parser/mod.rs
+++ b/cordy-sys/src/compiler/parser/mod.rs
@@ -549,11 +549,23 @@ impl Parser<'_> {
                     params.args.push(LValue::Empty)
                 }
                 Some(LValue::VarNamed(reference)) => {
+                    if params.variadic {
+                        self.semantic_error(ParameterAfterVarParameter);
+                    }
                     // A `*<name>` argument gets treated as a default argument value of an empty vector, and we set the `var_arg` flag
                     params.args.push(LValue::Named(reference)); // Convert to a `Named()`
                     params.default_args.push(Expr::vector(Location::empty(), Vec::new()));
                     params.variadic = true;
                 }
+                Some(LValue::VarEmpty) if !restrict => {
+                    // A `*_` argument is the same as `*<name>`, except the arguments are discarded
+                    if params.variadic {
+                        self.semantic_error(ParameterAfterVarParameter);
+                    }
+                    params.args.push(LValue::VarEmpty);
+                    params.default_args.push(Expr::vector(Location::empty(), Vec::new()));
+                    params.variadic = true;
+                }
                 Some(lvalue @ LValue::Named(_)) => { // Named are allowed in both modes
                     if params.variadic {
                         self.semantic_error(ParameterAfterVarParameter);
@@ -574,14 +586,14 @@ impl Parser<'_> {
                 _ => self.error_with(ExpectedParameterOrEndOfList),
             }
 
-            // Default Arguments
+            // Default Arguments, which are not allowed for a variadic parameter
             match self.peek() {
                 // Sugar for `= nil`, so mark this as a default argument
-                Some(QuestionMark) => {
+                Some(QuestionMark) if !params.variadic => {
                     self.advance(); // Consume `?`
                     params.default_args.push(Expr(Location::empty(), ExprType::Nil));
                 },
-                Some(Equals) => {
+                Some(Equals) if !params.variadic => {
                     self.advance(); // Consume `=`
                     params.default_args.push(self.parse_expr()); // Parse an expression
                 },
-- 
2.43.0


From 21ce88fac0aec56e5dac1a3a7683531051263fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:29 +0000
Subject: [PATCH 22/44] fix: pattern assignment to a field of self within a
 method

---
 cordy-sys/src/compiler/parser/semantic.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cordy-sys/src/compiler/parser/semantic.rs b/cordy-sys/src/compiler/parser/semantic.rs
index b5ef389..091f2f6 100644
--- a/cordy-sys/src/compiler/parser/semantic.rs
+++ b/cordy-sys/src/compiler/parser/semantic.rs
@@ -645,6 +645,12 @@ impl LValueReference {
             LValueReference::Global(index) => ParserStoreOp::Bound(StoreOp::Global(index)),
             LValueReference::UpValue(index) => ParserStoreOp::Bound(StoreOp::UpValue(index)),
 
+            // The target `self` is loaded before the pattern is executed, the same as for a `Field` term
+            LValueReference::ThisField { upvalue, index, field_index } => {
+                parser.push(if upvalue { PushUpValue(index) } else { PushLocal(index) });
+                ParserStoreOp::Bound(StoreOp::Field(field_index))
+            },
+
             LValueReference::LateBinding(mut binding) => {
                 let index = binding.index;
 
-- 
2.43.0


From d91cef9eb91770d943103b9d13c708644767e950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:29 +0000
Subject: [PATCH 23/44] fix: variadic terms in the pattern of an assignment:
 nested ones, and more than one

---
 cordy-sys/src/compiler/parser/semantic.rs | 25 ++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/semantic.rs b/cordy-sys/src/compiler/parser/semantic.rs
index 091f2f6..e3487d1 100644
--- a/cordy-sys/src/compiler/parser/semantic.rs
+++ b/cordy-sys/src/compiler/parser/semantic.rs
@@ -376,14 +376,22 @@ impl LValue {
 
             // If we encounter a top-level, non-bare expression, we need to surround it with an additional `Terms()`
             // As `x, y = 3` and `(x, y) = 3` should represent two different levels of pattern matching
-            ExprType::Comma { args, bare: false, .. } if top => LValue::from(ExprType::Comma { args, explicit: true, bare: true }, false)
+            ExprType::Comma { args, explicit, bare: false } if top => LValue::from(ExprType::Comma { args, explicit, bare: true }, false)
                 .map(|lvalue| LValue::Terms(vec![lvalue])),
 
             // Otherwise, all comma expressions produce the same level of indirection
-            ExprType::Comma { args, .. } => args.into_iter()
-                .map(|Expr(_, expr)| LValue::from(expr, false))
-                .collect::<Result<Vec<LValue>, ParserErrorType>>()
-                .map(LValue::Terms),
+            ExprType::Comma { args, explicit, .. } => {
+                let terms = args.into_iter()
+                    .map(|Expr(_, expr)| LValue::from(expr, false))
+                    .collect::<Result<Vec<LValue>, ParserErrorType>>()?;
+
+                match terms.iter().filter(|term| term.is_variadic()).count() {
+                    // The section `(* x)` is not a pattern, but `(* x,)` is
+                    1 if !explicit && terms.len() == 1 && terms[0].is_named_variadic() => Err(AssignmentTargetInvalid),
+                    0 | 1 => Ok(LValue::Terms(terms)),
+                    _ => Err(MultipleVariadicTermsInPattern),
+                }
+            },
 
             // These are produced by the parser in some situations, so we have to handle them,
             // as at the time the parse was ambiguous
@@ -391,6 +399,13 @@ impl LValue {
                 if matches!(*f, Expr(_, ExprType::NativeFunction(core::NativeFunction::OperatorMul)))
                 && args.len() == 1 && matches!(args[0], Expr(_, ExprType::Empty))
                 => Ok(LValue::VarEmpty),
+            ExprType::Call { f, mut args, unroll: false }
+                if matches!(*f, Expr(_, ExprType::NativeFunction(core::NativeFunction::OperatorMul)))
+                && args.len() == 1 && matches!(args[0], Expr(_, ExprType::LValue(_)))
+                => match args.pop() {
+                    Some(Expr(_, ExprType::LValue(lvalue))) => LValue::from(ExprType::VarLValue(lvalue), false),
+                    _ => Err(AssignmentTargetInvalid),
+                },
 
             ExprType::Index(array, index) => Ok(LValue::Named(LValueReference::Array(array, index))),
             ExprType::GetField(expr, field_index) => Ok(LValue::Named(LValueReference::Field(expr, field_index))),
-- 
2.43.0


From 41c41197558abc9e9b70005b75ae6cf3cc0042f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:10 +0000
Subject: [PATCH 24/44] fix: scanning of block comments which end in **/ or
 start with /*/, and of an invalid number at the start of the source

---
 cordy-sys/src/compiler/scanner.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/cordy-sys/src/compiler/scanner.rs b/cordy-sys/src/compiler/scanner.rs
index d7ad6f6..1a4617f 100644
--- a/cordy-sys/src/compiler/scanner.rs
+++ b/cordy-sys/src/compiler/scanner.rs
@@ -399,16 +399,13 @@ impl<'a> Scanner<'a> {
                            }
                            Some('*') => {
                                let start: usize = self.cursor;
+                               self.skip(); // The opening `*` cannot also be the closing one
                                loop {
                                    match self.advance() {
                                        Some('*') => {
-                                           match self.advance() {
-                                               Some('/') => break,
-                                               Some(_) => {},
-                                               None => {
-                                                   self.push_err_at(start - 1, UnterminatedBlockComment);
-                                                   break
-                                               }
+                                           if let Some('/') = self.peek() {
+                                               self.skip();
+                                               break
                                            }
                                        },
                                        Some(_) => {},
@@ -542,7 +539,7 @@ impl<'a> Scanner<'a> {
     fn push_err(&mut self, offset: usize, width: usize, error: ScanErrorType) {
         self.errors.push(ScanError {
             error,
-            loc: Location::new(self.cursor - width + offset, width as u32, self.index)
+            loc: Location::new(self.cursor + offset - width, width as u32, self.index)
         });
     }
 
-- 
2.43.0


From 54d82aab5fe1da4a714bc38356c0924f8bee47e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:29 +0000
Subject: [PATCH 25/44] fix: the location of the next token must not be that of
 a line break before it

---
 cordy-sys/src/compiler/parser/core/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cordy-sys/src/compiler/parser/core/mod.rs b/cordy-sys/src/compiler/parser/core/mod.rs
index 36bba9e..30a3970 100644
--- a/cordy-sys/src/compiler/parser/core/mod.rs
+++ b/cordy-sys/src/compiler/parser/core/mod.rs
@@ -350,7 +350,10 @@ impl<'a> Parser<'a> {
 
     /// Returns the source location of the next token, aka the one in `peek()`
     pub fn next_location(&self) -> Location {
-        self.input.front().map(|&(loc, _)| loc).unwrap_or_else(Location::empty)
+        self.input.iter()
+            .find(|(_, token)| token != &NewLine)
+            .map(|&(loc, _)| loc)
+            .unwrap_or_else(Location::empty)
     }
 
     pub fn synthetic_name(&mut self) -> String {
-- 
2.43.0


From c19400d1580d941eb15729b213b753d46a4d100b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:16 +0000
Subject: [PATCH 26/44] fix: errors at the end of input must be reported for
 the source and line which ends

---
 cordy-sys/src/reporting.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/reporting.rs b/cordy-sys/src/reporting.rs
index dd1341f..415d483 100644
--- a/cordy-sys/src/reporting.rs
+++ b/cordy-sys/src/reporting.rs
@@ -147,7 +147,12 @@ impl SourceView {
     }
 
     pub fn format<E : AsErrorWithContext>(&self, error: &E) -> String {
-        self.0[error.location().index as usize].format(self, error)
+        let loc = error.location();
+        if loc.is_empty() { // An empty location is the end of input, of the currently active entry
+            self.0.last().unwrap().format(self, error)
+        } else {
+            self.0[loc.index as usize].format(self, error)
+        }
     }
 }
 
@@ -166,7 +171,9 @@ impl SourceEntry {
         let mut text = error.as_error();
         let index: Ref<'_, SourceIndex> = self.index();
         let loc = error.location();
-        let start_lineno = self.lineno(loc).unwrap_or(0);
+        let start_lineno = self.lineno(loc)
+            .or_else(|| index.lines.iter().rposition(|line| !line.trim().is_empty())) // For the end of input, this is the last line which isn't blank
+            .unwrap_or(0);
         let mut end_lineno = start_lineno;
 
         if !loc.is_empty() {
-- 
2.43.0


From c17c9f684b0333bf06f05ecc076268ae02ae519f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:58 +0000
Subject: [PATCH 27/44] fix: a return statement outside of a function must be a
 compile error (it crashed the interpreter)

---
 cordy-sys/src/compiler/parser/errors.rs | 2 ++
 cordy-sys/src/compiler/parser/mod.rs    | 3 +++
 cordy-sys/src/reporting.rs              | 1 +
 3 files changed, 6 insertions(+)

diff --git a/cordy-sys/src/compiler/parser/errors.rs b/cordy-sys/src/compiler/parser/errors.rs
index 8e75dff..405ccf0 100644
--- a/cordy-sys/src/compiler/parser/errors.rs
+++ b/cordy-sys/src/compiler/parser/errors.rs
@@ -65,6 +65,7 @@ impl ParserError {
             LValueVarEmptyUsedOutsideAssignment |
             BreakOutsideOfLoop |
             ContinueOutsideOfLoop |
+            ReturnOutsideOfFunction |
             StructNotInGlobalScope |
             NonDefaultParameterAfterDefaultParameter |
             ParameterAfterVarParameter |
@@ -130,6 +131,7 @@ pub enum ParserErrorType {
     LValueVarEmptyUsedOutsideAssignment,
     BreakOutsideOfLoop,
     ContinueOutsideOfLoop,
+    ReturnOutsideOfFunction,
     StructNotInGlobalScope,
     NonDefaultParameterAfterDefaultParameter,
     ParameterAfterVarParameter,
diff --git a/cordy-sys/src/compiler/parser/mod.rs b/cordy-sys/src/compiler/parser/mod.rs
index e2a52eb..9257e29 100644
--- a/cordy-sys/src/compiler/parser/mod.rs
+++ b/cordy-sys/src/compiler/parser/mod.rs
@@ -720,6 +720,9 @@ impl Parser<'_> {
         trace::trace_parser!("rule <return-statement>");
         self.push_delayed_pop();
         self.advance(); // Consume `return`
+        if self.current_locals().func.is_none() {
+            self.semantic_error(ReturnOutsideOfFunction);
+        }
         match self.peek() {
             Some(CloseBrace) => { // Allow a bare return, but only when followed by a `}` or `;`, which we can recognize and discard properly.
                  self.push(Nil);
diff --git a/cordy-sys/src/reporting.rs b/cordy-sys/src/reporting.rs
index 415d483..f53808b 100644
--- a/cordy-sys/src/reporting.rs
+++ b/cordy-sys/src/reporting.rs
@@ -478,6 +478,7 @@ impl AsError for ParserError {
             LValueVarEmptyUsedOutsideAssignment => String::from("Expected an expression, got '*_' instead"),
             BreakOutsideOfLoop => String::from("Invalid 'break' statement outside of an enclosing loop"),
             ContinueOutsideOfLoop => String::from("Invalid 'continue' statement outside of an enclosing loop"),
+            ReturnOutsideOfFunction => String::from("Invalid 'return' statement outside of a function"),
             StructNotInGlobalScope => String::from("'struct' statements can only be present in global scope"),
             NonDefaultParameterAfterDefaultParameter => String::from("Non-default argument cannot follow default argument"),
             ParameterAfterVarParameter => String::from("Variadic parameter must be the last one in the function"),
-- 
2.43.0


From 580ae19776ee4fa7b7a6fcb6cf2776f8156ada6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:42 +0000
Subject: [PATCH 28/44] fix: gcd and lcm of a single negative int must not be
 negative

---
 cordy-sys/src/core/math.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/core/math.rs b/cordy-sys/src/core/math.rs
index ff1c1fa..0d39bc5 100644
--- a/cordy-sys/src/core/math.rs
+++ b/cordy-sys/src/core/math.rs
@@ -106,7 +106,7 @@ pub fn sqrt(value: ValuePtr) -> ValueResult {
 
 pub fn gcd(mut args: impl Iterator<Item=ValuePtr>) -> ValueResult {
     let mut acc = match args.next() {
-        Some(it) => it.as_int_checked()?,
+        Some(it) => it.as_int_checked()?.abs(),
         None => return ValueErrorArgMustBeNonEmpty(Gcd).err()
     };
 
@@ -119,7 +119,7 @@ pub fn gcd(mut args: impl Iterator<Item=ValuePtr>) -> ValueResult {
 
 pub fn lcm(mut args: impl Iterator<Item=ValuePtr>) -> ValueResult {
     let mut acc = match args.next() {
-        Some(it) => it.as_int_checked()?,
+        Some(it) => it.as_int_checked()?.abs(),
         None => return ValueErrorArgMustBeNonEmpty(Lcm).err()
     };
 
-- 
2.43.0


From 45cc1a75e2d6f7f69782167454375eb5af94316d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:19 +0000
Subject: [PATCH 29/44] fix: an error of min or max with one argument must be
 located at the call, also with optimization

---
 cordy-sys/src/compiler/parser/expr/optimizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cordy-sys/src/compiler/parser/expr/optimizer.rs b/cordy-sys/src/compiler/parser/expr/optimizer.rs
index 448eed5..857936f 100644
--- a/cordy-sys/src/compiler/parser/expr/optimizer.rs
+++ b/cordy-sys/src/compiler/parser/expr/optimizer.rs
@@ -65,7 +65,7 @@ impl Visitor for Optimizer {
                     },
 
                     // This is a special case, for `min(int)` and `max(int)`, we can replace this with a compile time constant
-                    Expr(loc, ExprType::NativeFunction(native_f @ (NativeFunction::Min | NativeFunction::Max))) if nargs == Some(1) => {
+                    Expr(_, ExprType::NativeFunction(native_f @ (NativeFunction::Min | NativeFunction::Max))) if nargs == Some(1) => {
                         if let Expr(_, ExprType::NativeFunction(NativeFunction::Int)) = args[0] {
                             Expr::int(loc, if native_f == NativeFunction::Min { ValuePtr::MIN_INT } else { ValuePtr::MAX_INT })
                         } else {
-- 
2.43.0


From 4cb7caa25619b727a2ffb8a6f5cc93974b5d351c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:59 +0000
Subject: [PATCH 30/44] fix: an assertion with a message which is not a string
 crashed the interpreter

---
 cordy-sys/src/reporting.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/reporting.rs b/cordy-sys/src/reporting.rs
index f53808b..5dec739 100644
--- a/cordy-sys/src/reporting.rs
+++ b/cordy-sys/src/reporting.rs
@@ -298,12 +298,12 @@ impl AsError for RuntimeError {
                 let mut any = false;
                 if !reason.is_nil() {
                     error.push(' ');
-                    error.push_str(reason.as_str_slice());
+                    error.push_str(&reason.to_str());
                     any = true;
                 }
                 if !message.is_nil() {
                     error.push(if any { '\n' } else { ' '});
-                    error.push_str(message.as_str_slice())
+                    error.push_str(&message.to_str())
                 }
                 error
             },
-- 
2.43.0


From e2bcfc49a8be073dd1a4f117fff6340605be4129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:59 +0000
Subject: [PATCH 31/44] fix: an expression statement before `do` was popped
 once per iteration

---
 cordy-sys/src/compiler/parser/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cordy-sys/src/compiler/parser/mod.rs b/cordy-sys/src/compiler/parser/mod.rs
index 9257e29..4bcb41c 100644
--- a/cordy-sys/src/compiler/parser/mod.rs
+++ b/cordy-sys/src/compiler/parser/mod.rs
@@ -837,6 +837,7 @@ impl Parser<'_> {
 
     /// Parses a `do { }`, which is a syntax for a scoped block, and optionally a `while` at the end
     fn parse_do_while_statement(&mut self) {
+        self.push_delayed_pop();
         self.advance(); // Consume `do`
 
         let jump = self.begin_loop();
-- 
2.43.0


From 731dd2abb2887296e3fa06f3bf6e814743c1b60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:59 +0000
Subject: [PATCH 32/44] fix: `elif` with an if-then-else expression left a
 value on the stack

---
 cordy-sys/src/compiler/parser/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cordy-sys/src/compiler/parser/mod.rs b/cordy-sys/src/compiler/parser/mod.rs
index 4bcb41c..bfef945 100644
--- a/cordy-sys/src/compiler/parser/mod.rs
+++ b/cordy-sys/src/compiler/parser/mod.rs
@@ -785,6 +785,7 @@ impl Parser<'_> {
                 let jump = self.branch_forward();
                 self.join_forward(jump_if_false, BranchType::JumpIfFalsePop);
                 self.parse_if_statement();
+                self.push_delayed_pop(); // `elif <expr> then <expr> else <expr>` leaves a value, which the other branches do not
                 self.join_forward(jump, BranchType::Jump);
             },
             Some(KeywordElse) => {
-- 
2.43.0


From 6f6207dc9147c4a266423331b286abc5f903fc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:59 +0000
Subject: [PATCH 33/44] fix: closures over the variables of a `for` loop were
 not closed by `continue`

---
 cordy-sys/src/compiler/parser/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cordy-sys/src/compiler/parser/mod.rs b/cordy-sys/src/compiler/parser/mod.rs
index bfef945..27e55cc 100644
--- a/cordy-sys/src/compiler/parser/mod.rs
+++ b/cordy-sys/src/compiler/parser/mod.rs
@@ -967,7 +967,10 @@ impl Parser<'_> {
             Some(loop_stmt) => {
                 let jump = loop_stmt.start_id;
                 let depth: u32 = loop_stmt.inner_scope();
-                self.pop_locals(Some(depth), false, true, true);
+                let enclosing: u32 = loop_stmt.enclosing_scope();
+                // The variables of a `for` loop are not popped here, but they are new in each iteration, so they need to be lifted
+                self.pop_locals(Some(enclosing), false, false, true);
+                self.pop_locals(Some(depth), false, true, false);
                 self.join_reverse(jump, BranchType::Jump);
             },
             None => self.semantic_error(ContinueOutsideOfLoop),
-- 
2.43.0


From 8750df6addd1208569ff5df37064882e00914888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:59 +0000
Subject: [PATCH 34/44] fix: closures over locals were not closed by a `return`
 before the code which captured them

---
 cordy-sys/src/vm/mod.rs | 37 ++++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/cordy-sys/src/vm/mod.rs b/cordy-sys/src/vm/mod.rs
index f29caa2..daa889c 100644
--- a/cordy-sys/src/vm/mod.rs
+++ b/cordy-sys/src/vm/mod.rs
@@ -308,6 +308,8 @@ impl<R : BufRead, W : Write, F : FunctionInterface> VirtualMachine<R, W, F> {
 
                     let frame: CallFrame = self.call_stack.pop().unwrap(); // Pop the call frame
 
+                    self.lift_up_values(frame.frame_pointer); // Any locals captured by code which is after this `return`, but executed before it
+
                     self.stack.swap_remove(frame.frame_pointer - 1); // This removes the function, and drops it, and it gets automatically replaced with the return value
                     self.stack.truncate(frame.frame_pointer); // Drop all values above the frame pointer
                     self.ip = frame.return_ip; // And jump to the return address
@@ -422,15 +424,7 @@ impl<R : BufRead, W : Write, F : FunctionInterface> VirtualMachine<R, W, F> {
 
                 LiftUpValue(index) => {
                     let index = self.frame_pointer() + index as usize;
-                    if let Some(upvalue) = self.open_upvalues.remove(&index) {
-                        let value: ValuePtr = self.stack[index].clone();
-                        let unboxed: UpValue = (*upvalue).replace(UpValue::Open(0));
-                        let closed: UpValue = match unboxed {
-                            UpValue::Open(_) => UpValue::Closed(value),
-                            UpValue::Closed(_) => panic!("Tried to lift an already closed upvalue"),
-                        };
-                        (*upvalue).replace(closed);
-                    }
+                    self.lift_up_value(index);
                 },
 
                 InitIterable => {
@@ -699,6 +693,31 @@ impl<R : BufRead, W : Write, F : FunctionInterface> VirtualMachine<R, W, F> {
     }
 
 
+    // ===== UpValues ===== //
+
+    /// Moves the local at the index `index` of the stack into its upvalue, if it was captured and is still open.
+    fn lift_up_value(&mut self, index: usize) {
+        if let Some(upvalue) = self.open_upvalues.remove(&index) {
+            let value: ValuePtr = self.stack[index].clone();
+            let unboxed: UpValue = (*upvalue).replace(UpValue::Open(0));
+            let closed: UpValue = match unboxed {
+                UpValue::Open(_) => UpValue::Closed(value),
+                UpValue::Closed(_) => panic!("Tried to lift an already closed upvalue"),
+            };
+            (*upvalue).replace(closed);
+        }
+    }
+
+    /// Lifts all captured locals at or above `index` in the stack.
+    fn lift_up_values(&mut self, index: usize) {
+        if !self.open_upvalues.is_empty() {
+            let open: Vec<usize> = self.open_upvalues.keys().copied().filter(|local| *local >= index).collect();
+            for local in open {
+                self.lift_up_value(local);
+            }
+        }
+    }
+
     // ===== Basic Ops ===== //
 
     /// Returns the current `frame_pointer`
-- 
2.43.0


From b639377bbebb646bff5b93056e95b04d20c69453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:59 +0000
Subject: [PATCH 35/44] fix: upvalues of locals which were captured in another
 order than declared were not removed

---
 cordy-sys/src/compiler/parser/semantic.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/semantic.rs b/cordy-sys/src/compiler/parser/semantic.rs
index e3487d1..1a1cf71 100644
--- a/cordy-sys/src/compiler/parser/semantic.rs
+++ b/cordy-sys/src/compiler/parser/semantic.rs
@@ -1170,12 +1170,8 @@ impl<'a> Parser<'a> {
                     // Pop the local
                     self.current_locals_mut().locals.pop().unwrap();
 
-                    // And pop any matching upvalues
-                    if let Some(upvalue) = self.current_locals_mut().upvalues.last() {
-                        if upvalue.index == local_index && upvalue.is_local {
-                            self.current_locals_mut().upvalues.pop().unwrap();
-                        }
-                    }
+                    // And pop any matching upvalues, which may be in any order, as locals may be captured in any order
+                    self.current_locals_mut().upvalues.retain(|upvalue| upvalue.index != local_index || !upvalue.is_local);
                 }
             }
         }
-- 
2.43.0


From 9e0399af302e2f8254fac708c5c40f681200f447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:00 +0000
Subject: [PATCH 36/44] fix: a variable captured through an enclosing function
 could resolve to another variable

---
 cordy-sys/src/compiler/parser/semantic.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/semantic.rs b/cordy-sys/src/compiler/parser/semantic.rs
index 1a1cf71..a64f509 100644
--- a/cordy-sys/src/compiler/parser/semantic.rs
+++ b/cordy-sys/src/compiler/parser/semantic.rs
@@ -1384,9 +1384,9 @@ impl<'a> Parser<'a> {
 
             // Only add it if we haven't found an upvalue with the same index and `!is_local` (which is unique).
             let mut found: bool = false;
-            for upvalue in &self.locals[depth as usize].upvalues {
+            for (i, upvalue) in self.locals[depth as usize].upvalues.iter().enumerate() {
                 if upvalue.index == index && !upvalue.is_local {
-                    index = upvalue.index; // Update the index
+                    index = i as u32; // Update the index
                     found = true; // And mark that we found an existing one
                     break
                 }
-- 
2.43.0


From dc1f95f1033877f6c6842c80390652dc68f69db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:00 +0000
Subject: [PATCH 37/44] fix: references to variables declared later could be
 loaded in the wrong order

---
 cordy-sys/src/compiler/parser/core/graph.rs | 44 ++++++++++++---------
 cordy-sys/src/compiler/parser/core/mod.rs   |  4 +-
 cordy-sys/src/compiler/parser/semantic.rs   | 20 +++++-----
 3 files changed, 37 insertions(+), 31 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/core/graph.rs b/cordy-sys/src/compiler/parser/core/graph.rs
index 1e134bf..b996e20 100644
--- a/cordy-sys/src/compiler/parser/core/graph.rs
+++ b/cordy-sys/src/compiler/parser/core/graph.rs
@@ -105,25 +105,30 @@ impl<'a> Parser<'a> {
         }
     }
 
-    /// Returns a unique identifier for the next opcode in the current function.
+    /// Reserves the next opcode in the current function, and returns a unique identifier for it. It must be filled in later, with `replace()`.
     ///
     /// N.B. The parser **must** be within a function, this does not allow identifying targets within global code!
-    pub fn next_opcode(&self) -> OpcodeId {
-        let function_id = self.current_locals().func.expect("next_opcode() called in global scope!");
-        let blocks = &self.functions[function_id].code.blocks;
+    pub fn reserve_opcode(&mut self) -> OpcodeId {
+        let function_id = self.current_locals().func.expect("reserve_opcode() called in global scope!");
+        let blocks = &mut self.functions[function_id].code.blocks;
         let block_id = blocks.len() - 1;
-        let opcode_id = blocks[block_id].code.len();
+        let opcode_id = blocks[block_id].push(Location::empty(), Opcode::placeholder());
 
         OpcodeId { function_id, code_id: CodeId { block_id, opcode_id } }
     }
 
-    pub fn insert(&mut self, at: OpcodeId, loc: Location, opcode: Opcode) { Parser::do_insert(at, loc, opcode, &mut self.functions) }
+    /// Inserts the provided instruction before the one at the `OpcodeId`, and shifts all other code forward.
+    pub fn insert(&mut self, at: OpcodeId, loc: Location, opcode: Opcode) {
+        self.functions[at.function_id].code.blocks[at.code_id.block_id].insert(at.code_id.opcode_id, loc, opcode);
+    }
+
+    pub fn replace(&mut self, at: OpcodeId, loc: Location, opcode: Opcode) { Parser::do_replace(at, loc, opcode, &mut self.functions) }
 
-    /// Inserts the provided instruction at the `OpcodeId`, and shifts all other code forward.
+    /// Replaces the instruction at the `OpcodeId` with the provided one.
     ///
     /// **Implementation Note:** This does not take `&mut self` to allow the flexibility of partial borrows.
-    pub fn do_insert(at: OpcodeId, loc: Location, opcode: Opcode, functions: &mut [ParserFunctionImpl]) {
-        functions[at.function_id].code.blocks[at.code_id.block_id].insert(at.code_id.opcode_id, loc, opcode);
+    pub fn do_replace(at: OpcodeId, loc: Location, opcode: Opcode, functions: &mut [ParserFunctionImpl]) {
+        functions[at.function_id].code.blocks[at.code_id.block_id].replace(at.code_id.opcode_id, loc, opcode);
     }
 }
 
@@ -290,16 +295,17 @@ impl Block {
     }
 
     fn insert(&mut self, id: usize, loc: Location, opcode: Opcode) {
-        match self.code.iter().position(|(i, _, _)| i == &id) {
-            // The target `OpcodeId` was found, so insert immediately after, and shift all opcodes to the right
-            Some(code_id) => self.code.insert(code_id, (self.code.len(), loc, opcode)),
-            // The target `OpcodeId` was not found, which means this was an empty block
-            // Just push into the empty block
-            None => {
-                debug_assert!(self.code.is_empty()); // This should always be true, if we cannot find a matching `OpcodeId`
-                self.code.push((0, loc, opcode))
-            }
-        }
+        let index = self.index_of(id);
+        self.code.insert(index, (self.code.len(), loc, opcode));
+    }
+
+    fn replace(&mut self, id: usize, loc: Location, opcode: Opcode) {
+        let index = self.index_of(id);
+        self.code[index] = (id, loc, opcode);
+    }
+
+    fn index_of(&self, id: usize) -> usize {
+        self.code.iter().position(|(i, _, _)| i == &id).unwrap()
     }
 
     fn end(&mut self, end: BlockEnd) {
diff --git a/cordy-sys/src/compiler/parser/core/mod.rs b/cordy-sys/src/compiler/parser/core/mod.rs
index 30a3970..472fab5 100644
--- a/cordy-sys/src/compiler/parser/core/mod.rs
+++ b/cordy-sys/src/compiler/parser/core/mod.rs
@@ -233,7 +233,7 @@ impl<'a> Parser<'a> {
             LValueReference::NativeFunction(native) => self.push_at(NativeFunction(native), loc),
 
             LValueReference::LateBinding(mut binding) => {
-                binding.update(ReferenceType::Load(self.next_opcode()));
+                binding.update(ReferenceType::Load(self.reserve_opcode()));
                 self.late_bindings.push(*binding);
             }
 
@@ -271,7 +271,7 @@ impl<'a> Parser<'a> {
             LValueReference::NativeFunction(_) => self.error(AssignmentTargetInvalid),
 
             LValueReference::LateBinding(mut binding) => {
-                binding.update(ReferenceType::Store(self.next_opcode()));
+                binding.update(ReferenceType::Store(self.reserve_opcode()));
                 self.late_bindings.push(*binding);
             }
 
diff --git a/cordy-sys/src/compiler/parser/semantic.rs b/cordy-sys/src/compiler/parser/semantic.rs
index a64f509..eec87b9 100644
--- a/cordy-sys/src/compiler/parser/semantic.rs
+++ b/cordy-sys/src/compiler/parser/semantic.rs
@@ -1053,8 +1053,8 @@ impl<'a> Parser<'a> {
 
                 // Update the binding if possible
                 match (binding.ty, &result) {
-                    (ReferenceType::Load(at), LateBound::Local(index)) => self.insert(at, binding.loc, PushGlobal(*index)),
-                    (ReferenceType::Store(at), LateBound::Local(index)) => self.insert(at, binding.loc, StoreGlobal(*index, false)),
+                    (ReferenceType::Load(at), LateBound::Local(index)) => self.replace(at, binding.loc, PushGlobal(*index)),
+                    (ReferenceType::Store(at), LateBound::Local(index)) => self.replace(at, binding.loc, StoreGlobal(*index, false)),
                     (ReferenceType::StorePattern(pattern_index), LateBound::Local(local)) => {
                         // Need to update all the matching late bound globals in the pattern
                         let pattern = &mut self.patterns[pattern_index];
@@ -1073,15 +1073,15 @@ impl<'a> Parser<'a> {
                             match binding.this {
                                 LValueReference::Invalid => self.error_at(binding.loc, UndeclaredSelf),
 
-                                // Since we have a single reference point for insert, we need to insert in reverse order from the same point
+                                // The load of `self` needs to be inserted before the reserved opcode
                                 // Slightly different opcodes for `LocalThis` vs. `UpValueThis`
                                 LValueReference::LocalThis(index) => {
-                                    self.insert(at.clone(), binding.loc, GetMethod(*function_id));
-                                    self.insert(at, binding.loc, PushLocal(index))
+                                    self.insert(at.clone(), binding.loc, PushLocal(index));
+                                    self.replace(at, binding.loc, GetMethod(*function_id))
                                 }
                                 LValueReference::UpValueThis(index) => {
-                                    self.insert(at.clone(), binding.loc, GetMethod(*function_id));
-                                    self.insert(at, binding.loc, PushUpValue(index))
+                                    self.insert(at.clone(), binding.loc, PushUpValue(index));
+                                    self.replace(at, binding.loc, GetMethod(*function_id))
                                 },
 
                                 lvalue => panic!("`self` should not be bound to {:?}", lvalue)
@@ -1089,7 +1089,7 @@ impl<'a> Parser<'a> {
                         } else {
                             // If the current method is a non-self method, then references to it just use the function ID
                             // Both self methods and non-self methods can call it this way.
-                            self.insert(at, binding.loc, Constant(*function_id));
+                            self.replace(at, binding.loc, Constant(*function_id));
                         }
                     },
                     (ReferenceType::Store(_), LateBound::Method { .. }) => self.error_at(binding.loc, AssignmentTargetInvalid),
@@ -1107,8 +1107,8 @@ impl<'a> Parser<'a> {
         for binding in self.late_bindings.drain(..) {
             if let Some(fallback) = binding.fallback {
                 match binding.ty {
-                    ReferenceType::Load(at) => Parser::do_insert(at, binding.loc, PushGlobal(fallback), &mut self.functions),
-                    ReferenceType::Store(at) => Parser::do_insert(at, binding.loc, StoreGlobal(fallback, false), &mut self.functions),
+                    ReferenceType::Load(at) => Parser::do_replace(at, binding.loc, PushGlobal(fallback), &mut self.functions),
+                    ReferenceType::Store(at) => Parser::do_replace(at, binding.loc, StoreGlobal(fallback, false), &mut self.functions),
                     _ => panic!()
                 }
             } else if binding.error {
-- 
2.43.0


From 08053a15d8f269cd8feb6f97a9600380fe665dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:00 +0000
Subject: [PATCH 38/44] fix: references outside of a module were bound to the
 methods of the module

---
 cordy-sys/src/compiler/parser/semantic.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/semantic.rs b/cordy-sys/src/compiler/parser/semantic.rs
index eec87b9..35ebcdf 100644
--- a/cordy-sys/src/compiler/parser/semantic.rs
+++ b/cordy-sys/src/compiler/parser/semantic.rs
@@ -238,6 +238,8 @@ pub struct LateBinding {
     /// This is a late-bound reference to `self`, which is required when the late binding is later declared as a `self` method.
     /// If the binding didn't have a `self` available, this will be `Invalid`, which needs to raise an error upon trying to bind to a `self` method.
     this: LValueReference,
+    /// The name of the module this reference was used in. Only references within a module can bind to the methods of that module.
+    module: Option<String>,
     /// The type of the reference. This indicates what needs to be updated later (either an opcode location, or a pattern).
     ty: ReferenceType,
     loc: Location,
@@ -262,10 +264,11 @@ impl LateBinding {
         let loc = parser.prev_location();
         let error = !parser.error_recovery;
         let this = parser.resolve_reference(Reference::LateThis);
+        let module = parser.modules.last().map(|module| module.name.clone());
 
         parser.late_binding_next_index += 1;
 
-        Box::new(LateBinding { index, name, this, ty: ReferenceType::Invalid, loc, fallback, error })
+        Box::new(LateBinding { index, name, this, module, ty: ReferenceType::Invalid, loc, fallback, error })
     }
 
     pub fn update(&mut self, ty: ReferenceType) {
@@ -1036,6 +1039,14 @@ impl<'a> Parser<'a> {
         self.locals.last().unwrap().locals.len() - 1
     }
 
+    /// Returns `true` if the newly declared variable is visible to the late binding: globals are visible everywhere, methods only within their module.
+    fn is_late_binding_visible(&self, binding: &LateBinding, result: &LateBound) -> bool {
+        match result {
+            LateBound::Local(_) => true,
+            LateBound::Method { .. } => binding.module.as_ref() == self.modules.last().map(|module| &module.name),
+        }
+    }
+
     /// Upon declaring a global variable, struct field or method, this will resolve any references to this variable if they exist.
     /// It may raise errors due to the variable not being assignable (i.e. a module method).
     ///
@@ -1048,7 +1059,7 @@ impl<'a> Parser<'a> {
 
             // If the binding matches, it will be declared here
             // The first declaration is always the matching one, as the precedence for methods/fields -> globals is always maintained
-            if binding.name == name {
+            if binding.name == name && self.is_late_binding_visible(binding, &result) {
                 let binding = self.late_bindings.swap_remove(i); // Remove this binding - this drops the borrow on self.bindings
 
                 // Update the binding if possible
-- 
2.43.0


From 6f94f91e5f6bd75129f8694d640c00d29b1b1eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:00 +0000
Subject: [PATCH 39/44] fix: assigning a global with a pattern within a module
 crashed the compiler

---
 cordy-sys/src/compiler/parser/semantic.rs | 28 ++++++++++++-----------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/semantic.rs b/cordy-sys/src/compiler/parser/semantic.rs
index 35ebcdf..6d47373 100644
--- a/cordy-sys/src/compiler/parser/semantic.rs
+++ b/cordy-sys/src/compiler/parser/semantic.rs
@@ -1066,17 +1066,7 @@ impl<'a> Parser<'a> {
                 match (binding.ty, &result) {
                     (ReferenceType::Load(at), LateBound::Local(index)) => self.replace(at, binding.loc, PushGlobal(*index)),
                     (ReferenceType::Store(at), LateBound::Local(index)) => self.replace(at, binding.loc, StoreGlobal(*index, false)),
-                    (ReferenceType::StorePattern(pattern_index), LateBound::Local(local)) => {
-                        // Need to update all the matching late bound globals in the pattern
-                        let pattern = &mut self.patterns[pattern_index];
-                        pattern.visit(&mut |op| {
-                            if let ParserStoreOp::LateBoundGlobal(index) = op {
-                                if *index == binding.index {
-                                    *op = ParserStoreOp::Bound(StoreOp::Global(*local))
-                                }
-                            }
-                        });
-                    },
+                    (ReferenceType::StorePattern(pattern_index), LateBound::Local(local)) => Parser::do_store_pattern(pattern_index, binding.index, *local, &mut self.patterns),
                     (ReferenceType::Load(at), LateBound::Method { function_id, instance }) => {
                         if *instance {
                             // If the current method is a self method, it can only be called through other self methods, and they need to do a `GetMethod` to do so
@@ -1103,7 +1093,7 @@ impl<'a> Parser<'a> {
                             self.replace(at, binding.loc, Constant(*function_id));
                         }
                     },
-                    (ReferenceType::Store(_), LateBound::Method { .. }) => self.error_at(binding.loc, AssignmentTargetInvalid),
+                    (ReferenceType::Store(_) | ReferenceType::StorePattern(_), LateBound::Method { .. }) => self.error_at(binding.loc, AssignmentTargetInvalid),
                     (_, _) => panic!("Invalid reference type set!"),
                 }
                 continue; // Skip the below i += 1, since this binding got swap-removed
@@ -1113,6 +1103,17 @@ impl<'a> Parser<'a> {
         }
     }
 
+    /// Updates all matching late bound globals in the pattern at `pattern_index` to store to the global `local`.
+    fn do_store_pattern(pattern_index: usize, binding_index: usize, local: u32, patterns: &mut [Pattern<ParserStoreOp>]) {
+        patterns[pattern_index].visit(&mut |op| {
+            if let ParserStoreOp::LateBoundGlobal(index) = op {
+                if *index == binding_index {
+                    *op = ParserStoreOp::Bound(StoreOp::Global(local))
+                }
+            }
+        });
+    }
+
     /// Resolves any outstanding late bindings present at teardown, by either falling back to a global, or raises an error.
     pub fn resolve_remaining_late_bindings(&mut self) {
         for binding in self.late_bindings.drain(..) {
@@ -1120,7 +1121,8 @@ impl<'a> Parser<'a> {
                 match binding.ty {
                     ReferenceType::Load(at) => Parser::do_replace(at, binding.loc, PushGlobal(fallback), &mut self.functions),
                     ReferenceType::Store(at) => Parser::do_replace(at, binding.loc, StoreGlobal(fallback, false), &mut self.functions),
-                    _ => panic!()
+                    ReferenceType::StorePattern(pattern_index) => Parser::do_store_pattern(pattern_index, binding.index, fallback, &mut self.patterns),
+                    ReferenceType::Invalid => panic!()
                 }
             } else if binding.error {
                 self.errors.insert(ParserError::new(UndeclaredIdentifier(binding.name), binding.loc));
-- 
2.43.0


From 17d308c3611a9df1fae37d3ca988042217b05461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:39 +0000
Subject: [PATCH 40/44] fix: continue in the else of a for loop crashed the
 virtual machine

---
 cordy-sys/src/compiler/parser/mod.rs      | 12 ++++++++----
 cordy-sys/src/compiler/parser/semantic.rs | 13 ++++++++++---
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/mod.rs b/cordy-sys/src/compiler/parser/mod.rs
index 27e55cc..3142fe5 100644
--- a/cordy-sys/src/compiler/parser/mod.rs
+++ b/cordy-sys/src/compiler/parser/mod.rs
@@ -827,13 +827,14 @@ impl Parser<'_> {
         self.join_reverse(jump, BranchType::Jump);
         self.join_forward(branch, BranchType::JumpIfFalsePop); // Fix the initial conditional jump
 
+        let break_ids = self.end_loop();
         if let Some(KeywordElse) = self.peek() { // Parse `while {} else {}`
             self.advance();
             self.parse_block_statement();
             self.push_delayed_pop();
         }
 
-        self.end_loop();
+        self.join_breaks(break_ids);
     }
 
     /// Parses a `do { }`, which is a syntax for a scoped block, and optionally a `while` at the end
@@ -852,13 +853,14 @@ impl Parser<'_> {
             self.join_reverse(jump, BranchType::JumpIfTruePop); // Jump back to origin
         }
 
+        let break_ids = self.end_loop();
         if let Some(KeywordElse) = self.peek() { // Parse do { } while <expr> else { }
             self.advance(); // Consume `else`
             self.parse_block_statement();
             self.push_delayed_pop();
         }
 
-        self.end_loop();
+        self.join_breaks(break_ids);
     }
 
     fn parse_loop_statement(&mut self) {
@@ -881,7 +883,8 @@ impl Parser<'_> {
         self.push_delayed_pop(); // Loops can't return a value
         self.join_reverse(jump, BranchType::Jump);
 
-        self.end_loop();
+        let break_ids = self.end_loop();
+        self.join_breaks(break_ids);
     }
 
     fn parse_for_statement(&mut self) {
@@ -935,13 +938,14 @@ impl Parser<'_> {
         self.pop_locals(Some(self.scope_depth), true, true, false);
         self.scope_depth -= 1;
 
+        let break_ids = self.end_loop();
         if let Some(KeywordElse) = self.peek() { // Parse `for {} else {}`
             self.advance();
             self.parse_block_statement();
             self.push_delayed_pop();
         }
 
-        self.end_loop();
+        self.join_breaks(break_ids);
     }
 
     fn parse_break_statement(&mut self) {
diff --git a/cordy-sys/src/compiler/parser/semantic.rs b/cordy-sys/src/compiler/parser/semantic.rs
index 6d47373..b2b998f 100644
--- a/cordy-sys/src/compiler/parser/semantic.rs
+++ b/cordy-sys/src/compiler/parser/semantic.rs
@@ -897,9 +897,16 @@ impl<'a> Parser<'a> {
         loop_start
     }
 
-    /// Marks the end of a loop, at the point where `break` statements should jump to (so after any `else` statements attached to the loop)
-    pub fn end_loop(&mut self) {
-        for jump in self.current_locals_mut().loops.pop().unwrap().break_ids {
+    /// Marks the end of the body of a loop. The `else` attached to a loop is not part of it: a `break` or `continue` in there belongs to the enclosing loop.
+    /// Returns the `break` statements of the loop, which need to be joined with `join_breaks()`
+    #[must_use]
+    pub fn end_loop(&mut self) -> Vec<ForwardBlockId> {
+        self.current_locals_mut().loops.pop().unwrap().break_ids
+    }
+
+    /// Marks the point where the `break` statements of a loop should jump to (so after any `else` statements attached to the loop)
+    pub fn join_breaks(&mut self, break_ids: Vec<ForwardBlockId>) {
+        for jump in break_ids {
             self.join_forward(jump, BranchType::Jump);
         }
     }
-- 
2.43.0


From 653939ea25e995f006eedf6af2e8cce59bf973ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:06 +0000
Subject: [PATCH 41/44] verification: access to shared values for the harnesses
 (cfg(kani))

---
 cordy-sys/src/vm/value/ptr.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cordy-sys/src/vm/value/ptr.rs b/cordy-sys/src/vm/value/ptr.rs
index dbec1c9..c7f147a 100644
--- a/cordy-sys/src/vm/value/ptr.rs
+++ b/cordy-sys/src/vm/value/ptr.rs
@@ -751,6 +751,13 @@ impl<T : Value> Prefix<T> {
     pub fn verif_lock(&self) -> u16 { self.lock.get() }
     pub fn verif_refs(&self) -> u32 { self.refs.get() }
     pub fn verif_set(&self, lock: u16, refs: u32) { self.lock.set(lock); self.refs.set(refs) }
+    pub fn verif_share(self) -> ValuePtr { from_shared(self) }
+}
+
+#[cfg(kani)]
+impl ValuePtr {
+    pub fn verif_prefix<T : Value>(&self) -> &Prefix<T> { self.as_prefix() }
+    pub unsafe fn verif_drop_value<T : Value>(&self) { self.drop_value::<T>() }
 }
 
 impl<T : ConstValue> Prefix<T> {
-- 
2.43.0


From a76434951f476aeabd58e4af06ecbbb096b3757d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:36 +0000
Subject: [PATCH 42/44] fix: optimizing a composition evaluated what exits or
 fails before its argument

---
 .../src/compiler/parser/expr/optimizer.rs     | 21 ++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/cordy-sys/src/compiler/parser/expr/optimizer.rs b/cordy-sys/src/compiler/parser/expr/optimizer.rs
index 857936f..0726053 100644
--- a/cordy-sys/src/compiler/parser/expr/optimizer.rs
+++ b/cordy-sys/src/compiler/parser/expr/optimizer.rs
@@ -1,4 +1,5 @@
 use crate::compiler::parser::{Expr, ExprType, Parser, Traversable, Visitor};
+use crate::compiler::parser::semantic::LValueReference;
 use crate::core::NativeFunction;
 use crate::vm::{ErrorPtr, IntoValue, LiteralType, RuntimeError, ValuePtr};
 
@@ -164,19 +165,22 @@ impl Expr {
         match self.purity() {
             Purity::Strong => true,
             Purity::Weak => other.purity() != Purity::None,
+            Purity::Fallible => other.purity() >= Purity::Weak,
             Purity::None => other.purity() == Purity::Strong,
         }
     }
 
     fn purity(&self) -> Purity {
         match &self.1 {
-            ExprType::Nil | ExprType::Exit | ExprType::Bool(_) | ExprType::Int(_) | ExprType::Str(_) | ExprType::NativeFunction(_) | ExprType::Function { .. } => Purity::Strong,
+            ExprType::Nil | ExprType::Bool(_) | ExprType::Int(_) | ExprType::Str(_) | ExprType::NativeFunction(_) | ExprType::Function { .. } => Purity::Strong,
+            ExprType::LValue(LValueReference::LateBinding(_) | LValueReference::ThisField { .. } | LValueReference::ThisMethod { .. }) => Purity::Fallible,
             ExprType::LValue(_) => Purity::Weak,
 
-            ExprType::Unary(_, arg) => arg.purity(),
-            ExprType::Binary(_, lhs, rhs, _) | ExprType::LogicalOr(lhs, rhs) | ExprType::LogicalAnd(lhs, rhs) => lhs.purity().min(rhs.purity()),
+            ExprType::Unary(_, arg) => arg.purity().min(Purity::Fallible),
+            ExprType::Binary(_, lhs, rhs, _) => lhs.purity().min(rhs.purity()).min(Purity::Fallible),
+            ExprType::LogicalOr(lhs, rhs) | ExprType::LogicalAnd(lhs, rhs) => lhs.purity().min(rhs.purity()),
             ExprType::Literal(_, args) => args.iter().map(|u| u.purity()).min().unwrap_or(Purity::Strong),
-            ExprType::Unroll(arg) => arg.purity(),
+            ExprType::Unroll(arg) => arg.purity().min(Purity::Fallible),
             ExprType::IfThenElse(condition, if_true, if_false) => condition.purity().min(if_true.purity()).min(if_false.purity()),
 
             ExprType::Call { unroll: true, .. } => Purity::None,
@@ -216,5 +220,12 @@ fn is_native_operator(expr: &Expr) -> bool {
 
 #[derive(Debug, Copy, Clone, Ord, PartialOrd, PartialEq, Eq)]
 enum Purity {
-    None, Weak, Strong
+    /// Evaluating the expression may have side effects, or depend on those of any other
+    None,
+    /// Evaluating the expression has no side effects, but it may raise an error
+    Fallible,
+    /// Evaluating the expression has no side effects and does not raise an error, but depends on the side effects of others
+    Weak,
+    /// Evaluating the expression has no side effects, does not raise an error, and does not depend on the side effects of others
+    Strong
 }
\ No newline at end of file
-- 
2.43.0


From 7261bf934b4f519ef1fe579ddac9e0ebff83eb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:41 +0000
Subject: [PATCH 43/44] fix: composing with a slice which fails reported
 another error when optimized

---
 cordy-sys/src/compiler/parser/expr/optimizer.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cordy-sys/src/compiler/parser/expr/optimizer.rs b/cordy-sys/src/compiler/parser/expr/optimizer.rs
index 0726053..be593a0 100644
--- a/cordy-sys/src/compiler/parser/expr/optimizer.rs
+++ b/cordy-sys/src/compiler/parser/expr/optimizer.rs
@@ -105,7 +105,8 @@ impl Visitor for Optimizer {
                     }
                 },
                 // Found `arg . [a:b:c]`. Inline into `arg[a:b:c]`
-                Expr(_, ExprType::SliceLiteral(a, b, c)) => match *c {
+                // This is only legal if creating the slice can not fail, as that would happen before `arg` is checked
+                Expr(_, ExprType::SliceLiteral(a, b, c)) if a.is_slice_arg() && b.is_slice_arg() && c.iter().all(|c| c.is_slice_arg()) => match *c {
                     Some(c) => arg.slice_step(loc, *a, *b, c),
                     None => arg.slice(loc, *a, *b),
                 },
@@ -198,6 +199,11 @@ impl Expr {
         }
     }
 
+    /// Returns `true` if this expression is always a legal argument to a slice
+    fn is_slice_arg(&self) -> bool {
+        matches!(&self.1, ExprType::Nil | ExprType::Int(_))
+    }
+
     fn is_partial(&self, nargs: usize) -> bool {
         match &self.1 {
             ExprType::NativeFunction(f) => f.min_nargs() as usize > nargs,
-- 
2.43.0


From 3617d2acc6772d89824fef7eb24ca0ba4c6db0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:46 +0000
Subject: [PATCH 44/44] fix: a swapped operator on complex constants was folded
 with its operands exchanged

---
 cordy-sys/src/compiler/parser/expr/optimizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cordy-sys/src/compiler/parser/expr/optimizer.rs b/cordy-sys/src/compiler/parser/expr/optimizer.rs
index be593a0..dc7e41e 100644
--- a/cordy-sys/src/compiler/parser/expr/optimizer.rs
+++ b/cordy-sys/src/compiler/parser/expr/optimizer.rs
@@ -34,7 +34,7 @@ impl Visitor for Optimizer {
 
             Expr(loc, ExprType::Binary(op, lhs, rhs, swap)) => match lhs.into_const() {
                 Ok(lhs) => match rhs.into_const() {
-                    Ok(rhs) => Expr::result(loc, if swap { op.apply(rhs, lhs) } else { op.apply(lhs, rhs) }),
+                    Ok(rhs) => Expr::result(loc, op.apply(lhs, rhs)),
                     Err(rhs) => Expr::value(loc, lhs).binary(loc, op, rhs, swap),
                 },
                 Err(lhs) => lhs.binary(loc, op, *rhs, swap),
-- 
2.43.0

