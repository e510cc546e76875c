From 3b4181ac1961bd6cabb9f982415fc1b0fe226775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 01/49] verif: route parasol_concurrency atomics through an
 observable shim under cfg(spf_verif)

---
 parasol_concurrency/src/lib.rs   |  12 +-
 parasol_concurrency/src/verif.rs | 243 +++++++++++++++++++++++++++++++
 2 files changed, 254 insertions(+), 1 deletion(-)
 create mode 100644 parasol_concurrency/src/verif.rs

diff --git a/parasol_concurrency/src/lib.rs b/parasol_concurrency/src/lib.rs
index b3ba051..a81f5aa 100644
--- a/parasol_concurrency/src/lib.rs
+++ b/parasol_concurrency/src/lib.rs
@@ -1,15 +1,25 @@
 #![deny(missing_docs)]
 #![deny(rustdoc::broken_intra_doc_links)]
+#![allow(unexpected_cfgs)]
 //! Contains primitives for synchronizing and safely managing concurrency.
 
 use std::{
     cell::UnsafeCell,
     ops::{Deref, DerefMut},
-    sync::atomic::{AtomicBool, AtomicUsize, Ordering},
 };
 
+#[cfg(not(spf_verif))]
+use std::sync::atomic;
+#[cfg(spf_verif)]
+use verif::atomic;
+
+use atomic::{AtomicBool, AtomicUsize, Ordering};
+
 use serde::{Deserialize, Serialize};
 
+#[cfg(spf_verif)]
+pub mod verif;
+
 /// Similar to [std::cell::RefCell], but works in a concurrent setting.
 ///
 /// # Remarks
diff --git a/parasol_concurrency/src/verif.rs b/parasol_concurrency/src/verif.rs
new file mode 100644
index 0000000..b724b0f
--- /dev/null
+++ b/parasol_concurrency/src/verif.rs
@@ -0,0 +1,243 @@
+//! Verification shim (only compiled with `--cfg spf_verif`).
+//!
+//! Stand-ins for [`std::sync::atomic`] with the same interface that report every atomic
+//! operation to an optional process-wide observer, before and after performing it. A
+//! verification harness uses the observer to control or perturb thread schedules and to
+//! record the synchronisation actually performed. Without an observer the shims only
+//! forward to the real atomics.
+#![allow(missing_docs)]
+
+use std::sync::OnceLock;
+
+/// What an atomic operation did.
+#[derive(Clone, Copy, Debug, PartialEq, Eq)]
+pub enum AtomicKind {
+    Load,
+    Store,
+    /// A read-modify-write that took effect.
+    Rmw,
+    /// A compare-exchange that failed, i.e. a load.
+    FailedRmw,
+    Fence,
+}
+
+/// When the observer is being called.
+#[derive(Clone, Copy, Debug, PartialEq, Eq)]
+pub enum Phase {
+    Before,
+    After,
+}
+
+/// One call of the observer.
+#[derive(Clone, Copy, Debug)]
+pub struct AtomicEvent {
+    pub phase: Phase,
+    /// Meaningful only in [`Phase::After`].
+    pub kind: AtomicKind,
+    /// The address of the atomic (0 for fences).
+    pub addr: usize,
+    /// The ordering in effect.
+    pub ordering: atomic::Ordering,
+}
+
+static OBSERVER: OnceLock<fn(AtomicEvent)> = OnceLock::new();
+
+/// Install the process-wide observer. Only the first call has an effect.
+pub fn set_observer(f: fn(AtomicEvent)) {
+    let _ = OBSERVER.set(f);
+}
+
+#[inline]
+fn before(addr: usize) {
+    if let Some(f) = OBSERVER.get() {
+        f(AtomicEvent {
+            phase: Phase::Before,
+            kind: AtomicKind::Load,
+            addr,
+            ordering: atomic::Ordering::Relaxed,
+        });
+    }
+}
+
+#[inline]
+fn after(kind: AtomicKind, addr: usize, ordering: atomic::Ordering) {
+    if let Some(f) = OBSERVER.get() {
+        f(AtomicEvent {
+            phase: Phase::After,
+            kind,
+            addr,
+            ordering,
+        });
+    }
+}
+
+/// Instrumented replacement of [`std::sync::atomic`].
+pub mod atomic {
+    use super::{AtomicKind, after, before};
+    pub use std::sync::atomic::Ordering;
+
+    /// See [`std::sync::atomic::fence`].
+    pub fn fence(order: Ordering) {
+        before(0);
+        std::sync::atomic::fence(order);
+        after(AtomicKind::Fence, 0, order);
+    }
+
+    macro_rules! shim {
+        ($name:ident, $t:ty) => {
+            #[derive(Default)]
+            #[repr(transparent)]
+            pub struct $name(std::sync::atomic::$name);
+
+            impl std::fmt::Debug for $name {
+                fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+                    self.0.fmt(f)
+                }
+            }
+
+            impl From<$t> for $name {
+                fn from(v: $t) -> Self {
+                    Self::new(v)
+                }
+            }
+
+            impl $name {
+                pub const fn new(v: $t) -> Self {
+                    Self(std::sync::atomic::$name::new(v))
+                }
+
+                fn addr(&self) -> usize {
+                    self as *const Self as usize
+                }
+
+                fn rmw(&self, o: Ordering, f: impl FnOnce(&std::sync::atomic::$name) -> $t) -> $t {
+                    before(self.addr());
+                    let r = f(&self.0);
+                    after(AtomicKind::Rmw, self.addr(), o);
+                    r
+                }
+
+                pub fn load(&self, o: Ordering) -> $t {
+                    before(self.addr());
+                    let r = self.0.load(o);
+                    after(AtomicKind::Load, self.addr(), o);
+                    r
+                }
+
+                pub fn store(&self, v: $t, o: Ordering) {
+                    before(self.addr());
+                    self.0.store(v, o);
+                    after(AtomicKind::Store, self.addr(), o);
+                }
+
+                pub fn swap(&self, v: $t, o: Ordering) -> $t {
+                    self.rmw(o, |x| x.swap(v, o))
+                }
+
+                pub fn compare_exchange(
+                    &self,
+                    cur: $t,
+                    new: $t,
+                    ok: Ordering,
+                    err: Ordering,
+                ) -> Result<$t, $t> {
+                    before(self.addr());
+                    let r = self.0.compare_exchange(cur, new, ok, err);
+                    match r {
+                        Ok(_) => after(AtomicKind::Rmw, self.addr(), ok),
+                        Err(_) => after(AtomicKind::FailedRmw, self.addr(), err),
+                    }
+                    r
+                }
+
+                pub fn compare_exchange_weak(
+                    &self,
+                    cur: $t,
+                    new: $t,
+                    ok: Ordering,
+                    err: Ordering,
+                ) -> Result<$t, $t> {
+                    self.compare_exchange(cur, new, ok, err)
+                }
+
+                pub fn fetch_update<F: FnMut($t) -> Option<$t>>(
+                    &self,
+                    set: Ordering,
+                    fetch: Ordering,
+                    mut f: F,
+                ) -> Result<$t, $t> {
+                    let mut prev = self.load(fetch);
+                    while let Some(next) = f(prev) {
+                        match self.compare_exchange_weak(prev, next, set, fetch) {
+                            Ok(x) => return Ok(x),
+                            Err(x) => prev = x,
+                        }
+                    }
+                    Err(prev)
+                }
+
+                pub fn fetch_and(&self, v: $t, o: Ordering) -> $t {
+                    self.rmw(o, |x| x.fetch_and(v, o))
+                }
+
+                pub fn fetch_nand(&self, v: $t, o: Ordering) -> $t {
+                    self.rmw(o, |x| x.fetch_nand(v, o))
+                }
+
+                pub fn fetch_or(&self, v: $t, o: Ordering) -> $t {
+                    self.rmw(o, |x| x.fetch_or(v, o))
+                }
+
+                pub fn fetch_xor(&self, v: $t, o: Ordering) -> $t {
+                    self.rmw(o, |x| x.fetch_xor(v, o))
+                }
+
+                pub fn get_mut(&mut self) -> &mut $t {
+                    self.0.get_mut()
+                }
+
+                pub fn into_inner(self) -> $t {
+                    self.0.into_inner()
+                }
+
+                pub fn as_ptr(&self) -> *mut $t {
+                    self.0.as_ptr()
+                }
+            }
+        };
+    }
+
+    macro_rules! shim_int {
+        ($name:ident, $t:ty) => {
+            shim!($name, $t);
+
+            impl $name {
+                pub fn fetch_add(&self, v: $t, o: Ordering) -> $t {
+                    self.rmw(o, |x| x.fetch_add(v, o))
+                }
+
+                pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t {
+                    self.rmw(o, |x| x.fetch_sub(v, o))
+                }
+
+                pub fn fetch_max(&self, v: $t, o: Ordering) -> $t {
+                    self.rmw(o, |x| x.fetch_max(v, o))
+                }
+
+                pub fn fetch_min(&self, v: $t, o: Ordering) -> $t {
+                    self.rmw(o, |x| x.fetch_min(v, o))
+                }
+            }
+        };
+    }
+
+    shim!(AtomicBool, bool);
+    shim_int!(AtomicU8, u8);
+    shim_int!(AtomicU16, u16);
+    shim_int!(AtomicU32, u32);
+    shim_int!(AtomicU64, u64);
+    shim_int!(AtomicUsize, usize);
+    shim_int!(AtomicI32, i32);
+    shim_int!(AtomicI64, i64);
+    shim_int!(AtomicIsize, isize);
+}
-- 
2.43.0


From 4f2242a31f62ae519b87d328d7e3cf4d588cf31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 02/49] fix: a refused shared borrow must not disturb the live
 mutable borrow

AtomicRefCell::borrow incremented the state before checking it, so a borrow
refused because of a live mutable borrow left the cell marked free. After the
panic was caught, further borrows aliased the mutable borrow.
---
 parasol_concurrency/src/lib.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/parasol_concurrency/src/lib.rs b/parasol_concurrency/src/lib.rs
index a81f5aa..b4b4459 100644
--- a/parasol_concurrency/src/lib.rs
+++ b/parasol_concurrency/src/lib.rs
@@ -83,15 +83,19 @@ impl<T> AtomicRefCell<T> {
     /// # Panics
     /// If the underlying value is already mutably borrowed.
     pub fn borrow(&self) -> Ref<T> {
-        let old = self.state.fetch_add(1, Ordering::Acquire);
-
-        if old == 0 {
-            panic!("AtomicRefCell already borrowed as mut");
-        }
-
-        if old >= usize::MAX / 2 {
-            self.state.fetch_sub(1, Ordering::Acquire);
-            panic!("AtomicRefCell says I think you have enough references, buddy.");
+        // A refused borrow must leave the state as it found it, otherwise the live mutable borrow
+        // would appear as free to the next borrower.
+        if let Err(old) = self
+            .state
+            .fetch_update(Ordering::Acquire, Ordering::Relaxed, |x| {
+                (x != 0 && x < usize::MAX / 2).then(|| x + 1)
+            })
+        {
+            if old == 0 {
+                panic!("AtomicRefCell already borrowed as mut");
+            } else {
+                panic!("AtomicRefCell says I think you have enough references, buddy.");
+            }
         }
 
         Ref {
-- 
2.43.0


From 7699f4423205650eac0bb986364c1519e932fca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:28 +0000
Subject: [PATCH 03/49] fix: count combinations without overflowing while the
 count still fits

---
 sunscreen_math/src/combination.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sunscreen_math/src/combination.rs b/sunscreen_math/src/combination.rs
index 683fe5f..655cebc 100644
--- a/sunscreen_math/src/combination.rs
+++ b/sunscreen_math/src/combination.rs
@@ -38,9 +38,11 @@ fn number_combinations(n: usize, mut k: usize) -> usize {
         k = n - k;
     }
 
-    let mut result = 1;
+    // The product needs more bits than the quotient, even when the result fits.
+    let mut result: usize = 1;
     for i in 1..=k {
-        result = result * (n - k + i) / i;
+        let next = result as u128 * (n - k + i) as u128 / i as u128;
+        result = usize::try_from(next).expect("number of combinations overflows usize");
     }
 
     result
-- 
2.43.0


From 4e70008f6238c45fed6a36d2ee95595ac9c5df3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:28 +0000
Subject: [PATCH 04/49] fix: polynomial equality compares the leading
 coefficient too

---
 sunscreen_math/src/poly/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunscreen_math/src/poly/mod.rs b/sunscreen_math/src/poly/mod.rs
index 57fda40..aaecc73 100644
--- a/sunscreen_math/src/poly/mod.rs
+++ b/sunscreen_math/src/poly/mod.rs
@@ -43,7 +43,7 @@ where
             return false;
         }
 
-        for i in 0..lhs_degree {
+        for i in 0..=lhs_degree {
             if self.coeffs[i] != other.coeffs[i] {
                 return false;
             }
-- 
2.43.0


From fd9a95afe5b3c7f107573db6d97795ffc604b76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:28 +0000
Subject: [PATCH 05/49] fix: polynomial division refuses the divisors it
 documents as refused

---
 sunscreen_math/src/poly/mod.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sunscreen_math/src/poly/mod.rs b/sunscreen_math/src/poly/mod.rs
index aaecc73..bf85235 100644
--- a/sunscreen_math/src/poly/mod.rs
+++ b/sunscreen_math/src/poly/mod.rs
@@ -117,15 +117,20 @@ where
     pub fn vartime_div_rem_restricted_rhs(&self, rhs: &Self) -> (Self, Self) {
         let mut rem = self.clone();
 
+        // Will panic if rhs is `Self::zero()`
+        let rhs_degree = rhs.vartime_degree();
+
+        assert!(
+            rhs.coeffs[rhs_degree] == R::one(),
+            "The divisor's leading non-zero coefficient must be one."
+        );
+
         if self.vartime_is_zero() {
             return (Self::zero(), Self::zero());
         }
 
         let lhs_degree = self.vartime_degree();
 
-        // Will panic if rhs is `Self::zero()`
-        let rhs_degree = rhs.vartime_degree();
-
         // If the denominator is higher degree than the numerator, then we're done.
         if lhs_degree < rhs_degree {
             return (Self::zero(), rem);
-- 
2.43.0


From b5f58dfc420943f54242f27935b8f85aa9702185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:28 +0000
Subject: [PATCH 06/49] fix: conversion from negative integers larger than the
 modulus

---
 sunscreen_math/src/ring/mod.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/sunscreen_math/src/ring/mod.rs b/sunscreen_math/src/ring/mod.rs
index 37e83d6..d08928f 100644
--- a/sunscreen_math/src/ring/mod.rs
+++ b/sunscreen_math/src/ring/mod.rs
@@ -628,18 +628,12 @@ impl<const N: usize, B: ArithmeticBackend<N>> From<i32> for Zq<N, B> {
 }
 
 impl<const N: usize, B: ArithmeticBackend<N>> From<i64> for Zq<N, B> {
-    /// Returns `value` over the range [-q/2, q/2].
-    ///
-    /// # Remarks
-    /// Calling this over `Zq` where `|value| > q /2` may result in incorrect results
-    ///
-    /// # Panics
-    /// If value is i64::MIN.
+    /// Returns the element congruent to `value` modulo q.
     fn from(value: i64) -> Self {
         let modulus = NonZero::new(B::MODULUS).unwrap();
 
         // TODO: Verify this is constant time
-        let abs = Uint::from_u64(value.unsigned_abs());
+        let abs = Uint::from_u64(value.unsigned_abs()).rem(&modulus);
         let neg = if value.is_negative() {
             Choice::from(1)
         } else {
-- 
2.43.0


From dce8181640b84ddf90215125db335126420b2e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:06 +0000
Subject: [PATCH 07/49] verif: harness access to sunscreen_tfhe's private
 storage, scratch and vector layers under cfg(spf_verif)

---
 sunscreen_tfhe/src/lib.rs                  |  4 +++
 sunscreen_tfhe/src/math/simd/x86_64/mod.rs | 15 ++++++++++
 sunscreen_tfhe/src/verif.rs                | 33 ++++++++++++++++++++++
 3 files changed, 52 insertions(+)
 create mode 100644 sunscreen_tfhe/src/verif.rs

diff --git a/sunscreen_tfhe/src/lib.rs b/sunscreen_tfhe/src/lib.rs
index 4b6b40a..3576d84 100644
--- a/sunscreen_tfhe/src/lib.rs
+++ b/sunscreen_tfhe/src/lib.rs
@@ -30,6 +30,10 @@ mod macros;
 pub mod rand;
 mod scratch;
 
+#[cfg(spf_verif)]
+#[allow(missing_docs)]
+pub mod verif;
+
 /// A high-level API for interfacing with TFHE. Allocates, computes with and returns
 /// objects as you would expect from a Rust API.
 pub mod high_level;
diff --git a/sunscreen_tfhe/src/math/simd/x86_64/mod.rs b/sunscreen_tfhe/src/math/simd/x86_64/mod.rs
index bf04674..cd16c32 100644
--- a/sunscreen_tfhe/src/math/simd/x86_64/mod.rs
+++ b/sunscreen_tfhe/src/math/simd/x86_64/mod.rs
@@ -13,6 +13,11 @@ use crate::{
 
 #[inline(always)]
 fn avx_512_available() -> bool {
+    #[cfg(spf_verif)]
+    if !crate::verif::simd_allowed(2) {
+        return false;
+    }
+
     static AVX512_AVAILABLE: OnceLock<bool> = OnceLock::new();
 
     *AVX512_AVAILABLE.get_or_init(|| {
@@ -26,6 +31,11 @@ fn avx_512_available() -> bool {
 
 #[inline(always)]
 fn avx2_available() -> bool {
+    #[cfg(spf_verif)]
+    if !crate::verif::simd_allowed(1) {
+        return false;
+    }
+
     static AVX2_AVAILABLE: OnceLock<bool> = OnceLock::new();
 
     *AVX2_AVAILABLE.get_or_init(|| {
@@ -39,6 +49,11 @@ fn avx2_available() -> bool {
 
 #[inline(always)]
 fn fma_available() -> bool {
+    #[cfg(spf_verif)]
+    if !crate::verif::simd_allowed(1) {
+        return false;
+    }
+
     static FMA_AVAILABLE: OnceLock<bool> = OnceLock::new();
 
     *FMA_AVAILABLE.get_or_init(|| {
diff --git a/sunscreen_tfhe/src/verif.rs b/sunscreen_tfhe/src/verif.rs
new file mode 100644
index 0000000..d2940b5
--- /dev/null
+++ b/sunscreen_tfhe/src/verif.rs
@@ -0,0 +1,33 @@
+//! Verification hooks, compiled only under `cfg(spf_verif)`: access for an
+//! external conformance harness to the crate's private storage, vector and
+//! scratch layers. Nothing here changes what the crate does unless a harness
+//! calls [set_simd_cap].
+
+use std::sync::atomic::{AtomicU8, Ordering};
+
+pub use crate::dst::{AsMutSlice, AsSlice, FromMutSlice, FromSlice};
+pub use crate::iteration::*;
+pub use crate::scratch::{Pod, SIMD_ALIGN, ScratchBuffer, allocate_scratch};
+pub use crate::simd::VectorOps;
+
+static SIMD_CAP: AtomicU8 = AtomicU8::new(2);
+
+/// Restrict the vector code paths: 0 = scalar, 1 = up to AVX2, 2 = everything
+/// the processor offers.
+pub fn set_simd_cap(level: u8) {
+    SIMD_CAP.store(level, Ordering::SeqCst);
+}
+
+/// Whether code paths of the given level may be used.
+pub fn simd_allowed(level: u8) -> bool {
+    SIMD_CAP.load(Ordering::SeqCst) >= level
+}
+
+/// The private `c += a * b` of the Fourier domain.
+pub fn complex_mad(
+    c: &mut [num::Complex<f64>],
+    a: &[num::Complex<f64>],
+    b: &[num::Complex<f64>],
+) {
+    crate::simd::complex_mad(c, a, b)
+}
-- 
2.43.0


From fb6b3d4a28e24457a3329dd53231d8ba5f2449a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:17 +0000
Subject: [PATCH 08/49] verif: storage of structured objects visible to the
 harness under cfg(spf_verif)

---
 sunscreen_tfhe/src/verif.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/sunscreen_tfhe/src/verif.rs b/sunscreen_tfhe/src/verif.rs
index d2940b5..7332a9b 100644
--- a/sunscreen_tfhe/src/verif.rs
+++ b/sunscreen_tfhe/src/verif.rs
@@ -5,7 +5,7 @@
 
 use std::sync::atomic::{AtomicU8, Ordering};
 
-pub use crate::dst::{AsMutSlice, AsSlice, FromMutSlice, FromSlice};
+pub use crate::dst::{FromMutSlice, FromSlice};
 pub use crate::iteration::*;
 pub use crate::scratch::{Pod, SIMD_ALIGN, ScratchBuffer, allocate_scratch};
 pub use crate::simd::VectorOps;
@@ -31,3 +31,25 @@ pub fn complex_mad(
 ) {
     crate::simd::complex_mad(c, a, b)
 }
+
+/// The elements a structured object or view is made of.
+pub trait Storage<T> {
+    /// The elements, in order.
+    fn storage(&self) -> &[T];
+}
+impl<T, X: crate::dst::AsSlice<T> + ?Sized> Storage<T> for X {
+    fn storage(&self) -> &[T] {
+        self.as_slice()
+    }
+}
+
+/// The elements a structured object or view is made of, for writing.
+pub trait StorageMut<T> {
+    /// The elements, in order.
+    fn storage_mut(&mut self) -> &mut [T];
+}
+impl<T, X: crate::dst::AsMutSlice<T> + ?Sized> StorageMut<T> for X {
+    fn storage_mut(&mut self) -> &mut [T] {
+        self.as_mut_slice()
+    }
+}
-- 
2.43.0


From f6e6c8fa2e42fd55d9849f2112e31cc7c1a964b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:12 +0000
Subject: [PATCH 09/49] fix: vector subtraction without AVX2 subtracts

---
 sunscreen_tfhe/src/math/simd/x86_64/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sunscreen_tfhe/src/math/simd/x86_64/mod.rs b/sunscreen_tfhe/src/math/simd/x86_64/mod.rs
index cd16c32..4447bb7 100644
--- a/sunscreen_tfhe/src/math/simd/x86_64/mod.rs
+++ b/sunscreen_tfhe/src/math/simd/x86_64/mod.rs
@@ -162,10 +162,10 @@ impl VectorOps for u64 {
     }
 
     fn vector_sub(c: &mut [Self], a: &[Self], b: &[Self]) {
-        if avx2_available() {
+        if fma_available() && avx2_available() {
             unsafe { avx2::vector_sub_u64(c, a, b) };
         } else {
-            scalar::vector_add(c, a, b);
+            scalar::vector_sub(c, a, b);
         }
     }
 
-- 
2.43.0


From c5ddb7fd4e67edc31290bdc3972c7af8d873eaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:12 +0000
Subject: [PATCH 10/49] fix: AVX-512 multiply-accumulate stays within its
 slices and needs no alignment

---
 sunscreen_tfhe/src/math/simd/x86_64/avx512.rs | 22 +++++++++++++------
 sunscreen_tfhe/src/math/simd/x86_64/mod.rs    |  3 ++-
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/sunscreen_tfhe/src/math/simd/x86_64/avx512.rs b/sunscreen_tfhe/src/math/simd/x86_64/avx512.rs
index ee80f84..681c627 100644
--- a/sunscreen_tfhe/src/math/simd/x86_64/avx512.rs
+++ b/sunscreen_tfhe/src/math/simd/x86_64/avx512.rs
@@ -90,24 +90,28 @@ pub fn vector_scalar_mad(c: &mut [u64], a: &[u64], s: u64) {
     #[repr(C, align(64))]
     struct AlignedArray([i64; 8]);
 
+    let s_word = s;
     let s = s as i64;
     let s = AlignedArray([s, s, s, s, s, s, s, s]);
     let s_ptr = s.0.as_ptr();
 
     // Each complex is 2 f64 values.
-    while i < c.len() {
+    // Whole blocks of 16 words; what is left over is done word by word.
+    let blocks = usize::min(c.len(), a.len()) / 16 * 16;
+
+    while i < blocks {
         unsafe {
             asm!(
                 // TODO: Move loading s outside the loop.
                 "vmovdqa64 zmm7, [{s_ptr}]",
 
                 // Load 2 __m512d of u64 from a
-                "vmovdqa64 zmm0, [{a_ptr}+8*{i}]",
-                "vmovdqa64 zmm1, [{a_ptr}+8*{i}+64]",
+                "vmovdqu64 zmm0, [{a_ptr}+8*{i}]",
+                "vmovdqu64 zmm1, [{a_ptr}+8*{i}+64]",
 
                 // Load 2 __m512d of u64 from c
-                "vmovdqa64 zmm2, [{c_ptr}+8*{i}]",
-                "vmovdqa64 zmm3, [{c_ptr}+8*{i}+64]",
+                "vmovdqu64 zmm2, [{c_ptr}+8*{i}]",
+                "vmovdqu64 zmm3, [{c_ptr}+8*{i}+64]",
 
                 "vpmullq zmm4, zmm0, zmm7", // multiply 64-bit words in zmm0 and zmm2
                 "vpmullq zmm5, zmm1, zmm7", // multiply 64-bit words in zmm1 and zmm3
@@ -115,8 +119,8 @@ pub fn vector_scalar_mad(c: &mut [u64], a: &[u64], s: u64) {
                 "vpaddq zmm2, zmm2, zmm4", // Add zmm0 scaled by s
                 "vpaddq zmm3, zmm3, zmm5", // Add zmm1 scaled by s
 
-                "vmovdqa64 [{c_ptr}+8*{i}], zmm2",
-                "vmovdqa64 [{c_ptr}+8*{i}+64], zmm3",
+                "vmovdqu64 [{c_ptr}+8*{i}], zmm2",
+                "vmovdqu64 [{c_ptr}+8*{i}+64], zmm3",
 
                 a_ptr = in(reg) a_ptr,
                 c_ptr = in(reg) c_ptr,
@@ -134,6 +138,10 @@ pub fn vector_scalar_mad(c: &mut [u64], a: &[u64], s: u64) {
 
         i += 16;
     }
+
+    for (c, a) in c[blocks..].iter_mut().zip(a[blocks..].iter()) {
+        *c = c.wrapping_add(a.wrapping_mul(s_word));
+    }
 }
 
 #[cfg(test)]
diff --git a/sunscreen_tfhe/src/math/simd/x86_64/mod.rs b/sunscreen_tfhe/src/math/simd/x86_64/mod.rs
index 4447bb7..67cc94b 100644
--- a/sunscreen_tfhe/src/math/simd/x86_64/mod.rs
+++ b/sunscreen_tfhe/src/math/simd/x86_64/mod.rs
@@ -22,7 +22,8 @@ fn avx_512_available() -> bool {
 
     *AVX512_AVAILABLE.get_or_init(|| {
         if let Some(e) = CpuId::new().get_extended_feature_info() {
-            e.has_avx512f()
+            // The word-wise multiply needs the DQ extension.
+            e.has_avx512f() && e.has_avx512dq()
         } else {
             false
         }
-- 
2.43.0


From e8f07cfc6e32b97b275e4a1a7fdb58675e285b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:12 +0000
Subject: [PATCH 11/49] fix: rounding shift by zero bits is the identity

---
 sunscreen_tfhe/src/math/simd/scalar.rs      | 8 ++++++++
 sunscreen_tfhe/src/math/simd/x86_64/avx2.rs | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/sunscreen_tfhe/src/math/simd/scalar.rs b/sunscreen_tfhe/src/math/simd/scalar.rs
index aa7d863..10366b1 100644
--- a/sunscreen_tfhe/src/math/simd/scalar.rs
+++ b/sunscreen_tfhe/src/math/simd/scalar.rs
@@ -135,6 +135,14 @@ pub fn vector_shr_round<S>(c: &mut [S], a: &[S], n: u32)
 where
     S: Clone + Copy + Shr<u32, Output = S> + BitAnd<S, Output = S> + One + WrappingAdd<Output = S>,
 {
+    if n == 0 {
+        for (c, a) in c.iter_mut().zip(a.iter()) {
+            *c = *a;
+        }
+
+        return;
+    }
+
     for (c, a) in c.iter_mut().zip(a.iter()) {
         let round_bit = (*a >> (n - 1)) & S::one();
 
diff --git a/sunscreen_tfhe/src/math/simd/x86_64/avx2.rs b/sunscreen_tfhe/src/math/simd/x86_64/avx2.rs
index f4cfcd0..e673e5e 100644
--- a/sunscreen_tfhe/src/math/simd/x86_64/avx2.rs
+++ b/sunscreen_tfhe/src/math/simd/x86_64/avx2.rs
@@ -127,6 +127,14 @@ pub fn vector_mod_pow2_q_f64_u64(c: &mut [u64], a: &[f64], log2_q: u64) {
 #[target_feature(enable = "avx2,fma")]
 #[inline]
 pub fn vector_shr_round(c: &mut [u64], a: &[u64], n: u32) {
+    if n == 0 {
+        for (c, a) in c.iter_mut().zip(a.iter()) {
+            *c = *a;
+        }
+
+        return;
+    }
+
     for (c, a) in c.iter_mut().zip(a.iter()) {
         let round_bit = (*a >> (n - 1)) & 0x1;
 
-- 
2.43.0


From 5575468228de60baa9daaf6ae9890578dd3d9d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:12 +0000
Subject: [PATCH 12/49] fix: rounded division rounds to the nearest integer for
 every divisor and sign

---
 sunscreen_tfhe/src/math/basic.rs | 34 +++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/sunscreen_tfhe/src/math/basic.rs b/sunscreen_tfhe/src/math/basic.rs
index 19cc422..b60e9d7 100644
--- a/sunscreen_tfhe/src/math/basic.rs
+++ b/sunscreen_tfhe/src/math/basic.rs
@@ -16,7 +16,27 @@ macro_rules! div_rounded {
                 // inputs in half before overflow.
                 let q = self / divisor;
                 let r = self % divisor;
-                if r >= divisor / 2 { q + 1 } else { q }
+                if r >= divisor - r { q + 1 } else { q }
+            }
+        }
+    };
+}
+
+macro_rules! div_rounded_signed {
+    ($t:ty) => {
+        impl RoundedDiv for $t {
+            #[inline(always)]
+            fn div_rounded(&self, divisor: $t) -> $t {
+                let q = self / divisor;
+                let r = (self % divisor).unsigned_abs();
+
+                if r < divisor.unsigned_abs() - r {
+                    q
+                } else if (*self < 0) == (divisor < 0) {
+                    q + 1
+                } else {
+                    q - 1
+                }
             }
         }
     };
@@ -28,12 +48,12 @@ div_rounded!(u32);
 div_rounded!(u64);
 div_rounded!(u128);
 div_rounded!(usize);
-div_rounded!(i8);
-div_rounded!(i16);
-div_rounded!(i32);
-div_rounded!(i64);
-div_rounded!(i128);
-div_rounded!(isize);
+div_rounded_signed!(i8);
+div_rounded_signed!(i16);
+div_rounded_signed!(i32);
+div_rounded_signed!(i64);
+div_rounded_signed!(i128);
+div_rounded_signed!(isize);
 
 #[cfg(test)]
 mod tests {
-- 
2.43.0


From bb438bca9f257afb15860fbef8baa51787a0f58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:12 +0000
Subject: [PATCH 13/49] fix: torus decoding keeps all bits of messages of 32
 bits and more

---
 sunscreen_tfhe/src/math/torus.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunscreen_tfhe/src/math/torus.rs b/sunscreen_tfhe/src/math/torus.rs
index e03ad0e..19ce18b 100644
--- a/sunscreen_tfhe/src/math/torus.rs
+++ b/sunscreen_tfhe/src/math/torus.rs
@@ -294,7 +294,7 @@ impl<S: TorusOps> Torus<S> {
         assert!(plain_bits.0 < S::BITS);
 
         let round_bit = self.0.wrapping_shr(S::BITS - plain_bits.0 - 1) & S::from(0x1);
-        let mask = S::from((0x1 << plain_bits.0) - 1);
+        let mask = S::from_u64((0x1u64 << plain_bits.0) - 1);
 
         (self.0.wrapping_shr(S::BITS - plain_bits.0) + round_bit) & mask
     }
-- 
2.43.0


From 50675151c62badd436c1cebf26c72b81886d9ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:12 +0000
Subject: [PATCH 14/49] fix: radix decomposition over the whole word has
 nothing to round

---
 sunscreen_tfhe/src/math/radix.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sunscreen_tfhe/src/math/radix.rs b/sunscreen_tfhe/src/math/radix.rs
index 21e71bd..9650683 100644
--- a/sunscreen_tfhe/src/math/radix.rs
+++ b/sunscreen_tfhe/src/math/radix.rs
@@ -156,6 +156,12 @@ pub fn scale_by_decomposition_factor<S: TorusOps>(
 /// Rounds the given [`Torus`] element and returns the value interpreted as an integer.
 fn round<S: TorusOps>(x: Torus<S>, radix: &RadixDecomposition) -> S {
     let shift = S::BITS as usize - radix.radix_log.0 * radix.count.0;
+
+    // Every bit is represented: nothing to round.
+    if shift == 0 {
+        return x.inner();
+    }
+
     let round_bit = (x.inner() >> (shift - 1)) & S::from_u64(0x1);
 
     (x.inner() >> shift).wrapping_add(&round_bit)
-- 
2.43.0


From 86e613db5f3e618756ea2f06f1f494dbffa76869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:12 +0000
Subject: [PATCH 15/49] fix: the smallest signed torus value survives the
 inverse transform

---
 sunscreen_tfhe/src/math/simd/scalar.rs      | 2 +-
 sunscreen_tfhe/src/math/simd/x86_64/avx2.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sunscreen_tfhe/src/math/simd/scalar.rs b/sunscreen_tfhe/src/math/simd/scalar.rs
index 10366b1..099ff48 100644
--- a/sunscreen_tfhe/src/math/simd/scalar.rs
+++ b/sunscreen_tfhe/src/math/simd/scalar.rs
@@ -110,7 +110,7 @@ pub fn vector_mod_pow2_q_f64<T: FromF64>(c: &mut [T], a: &[f64], log2_q: u64) {
         // point.
         if ifft >= q_div_2 {
             ifft -= q;
-        } else if ifft <= -q_div_2 {
+        } else if ifft < -q_div_2 {
             ifft += q;
         }
 
diff --git a/sunscreen_tfhe/src/math/simd/x86_64/avx2.rs b/sunscreen_tfhe/src/math/simd/x86_64/avx2.rs
index e673e5e..b7ba040 100644
--- a/sunscreen_tfhe/src/math/simd/x86_64/avx2.rs
+++ b/sunscreen_tfhe/src/math/simd/x86_64/avx2.rs
@@ -116,7 +116,7 @@ pub fn vector_mod_pow2_q_f64_u64(c: &mut [u64], a: &[f64], log2_q: u64) {
         // point.
         if ifft >= q_div_2 {
             ifft -= q;
-        } else if ifft <= -q_div_2 {
+        } else if ifft < -q_div_2 {
             ifft += q;
         }
 
-- 
2.43.0


From 5e955fb47f7dbae7fd598f2a0ba3c2c1d71058b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:12 +0000
Subject: [PATCH 16/49] fix: public-key GLev encryption does not print the
 message

---
 sunscreen_tfhe/src/ops/encryption/glev_encryption.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/sunscreen_tfhe/src/ops/encryption/glev_encryption.rs b/sunscreen_tfhe/src/ops/encryption/glev_encryption.rs
index bd0e79f..db53ac5 100644
--- a/sunscreen_tfhe/src/ops/encryption/glev_encryption.rs
+++ b/sunscreen_tfhe/src/ops/encryption/glev_encryption.rs
@@ -155,7 +155,6 @@ pub fn encrypt_rlev_ciphertext<S>(
     for (j, glwe) in rlev_ciphertext.glwe_ciphertexts_mut(params).enumerate() {
         scale_msg_by_gadget_factor(scaled_msg, msg, radix.radix_log.0, j);
 
-        dbg!(&scaled_msg.coeffs()[0..16]);
 
         rlwe_encrypt_public(glwe, scaled_msg, rlwe_public_key, params);
     }
-- 
2.43.0


From b3f8c91af44aeeb5e9209dbc81fa7fe35ec114f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:30 +0000
Subject: [PATCH 17/49] fix: encrypting into a used GLWE ciphertext replaces
 its contents

---
 sunscreen_tfhe/src/ops/encryption/glwe_encryption.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunscreen_tfhe/src/ops/encryption/glwe_encryption.rs b/sunscreen_tfhe/src/ops/encryption/glwe_encryption.rs
index b53e431..38ec73f 100644
--- a/sunscreen_tfhe/src/ops/encryption/glwe_encryption.rs
+++ b/sunscreen_tfhe/src/ops/encryption/glwe_encryption.rs
@@ -42,7 +42,7 @@ pub fn encrypt_glwe_ciphertext_secret_generic<S>(
     }
 
     // b = A * S
-    polynomial_add_assign(b, &tmp);
+    b.clone_from_ref(&tmp);
 
     // b = A * S + m
     polynomial_add_assign(b, msg);
-- 
2.43.0


From 4b312a3b18779a09f90d8601b8f7821fe573218a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:30 +0000
Subject: [PATCH 18/49] fix: private functional keyswitch replaces the contents
 of its output

---
 .../src/ops/keyswitch/private_functional_keyswitch.rs           | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sunscreen_tfhe/src/ops/keyswitch/private_functional_keyswitch.rs b/sunscreen_tfhe/src/ops/keyswitch/private_functional_keyswitch.rs
index 5a09a6d..cdb6475 100644
--- a/sunscreen_tfhe/src/ops/keyswitch/private_functional_keyswitch.rs
+++ b/sunscreen_tfhe/src/ops/keyswitch/private_functional_keyswitch.rs
@@ -122,6 +122,8 @@ pub fn private_functional_keyswitch<S: TorusOps>(
 
     assert_eq!(lwe_count.0, inputs.len());
 
+    output.clear();
+
     let mut ksk_glevs = pfksk.glevs(to_glwe, radix);
 
     for input in inputs.iter() {
-- 
2.43.0


From 2ea4cc07a4789998d56d0be8aa171a35b623d20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:30 +0000
Subject: [PATCH 19/49] fix: Fourier scheme switch replaces the contents of its
 output

---
 sunscreen_tfhe/src/ops/fft_ops.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sunscreen_tfhe/src/ops/fft_ops.rs b/sunscreen_tfhe/src/ops/fft_ops.rs
index eb47ee8..69fbcbd 100644
--- a/sunscreen_tfhe/src/ops/fft_ops.rs
+++ b/sunscreen_tfhe/src/ops/fft_ops.rs
@@ -262,6 +262,9 @@ fn scheme_switch_glwe_operation<S>(
     // Thread-local scratch space
     allocate_scratch_ref!(scratch, PolynomialRef<S>, (params.dim.polynomial_degree));
 
+    // The products below accumulate.
+    y_i_j.clear();
+
     let a_i = x_i.a(params);
 
     // Generate encrypted secret key component for this specific GLWE
-- 
2.43.0


From 946fd114f436240691cc5d65c21a1eff5b1f2633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:20 +0000
Subject: [PATCH 20/49] fix: radix decomposition into a single digit as wide as
 the word

---
 sunscreen_tfhe/src/math/radix.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sunscreen_tfhe/src/math/radix.rs b/sunscreen_tfhe/src/math/radix.rs
index 9650683..43a9572 100644
--- a/sunscreen_tfhe/src/math/radix.rs
+++ b/sunscreen_tfhe/src/math/radix.rs
@@ -33,6 +33,11 @@ impl<S: TorusOps> ScalarRadixIterator<S> {
 
 #[inline(always)]
 fn get_next_digit<S: TorusOps>(cur: &mut S, radix_log: usize) -> S {
+    // A digit as wide as the word is the word itself.
+    if radix_log == S::BITS as usize {
+        return std::mem::replace(cur, S::from_u64(0));
+    }
+
     let mask = S::from_u64((0x1u64 << radix_log) - 1);
 
     // Interpreting the digits over [-B/2,B/2) reduces noise by half a bit on average.
-- 
2.43.0


From 62bd2fedcd42d8fc7fc51bb1e8961f1ecaeea063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:27 +0000
Subject: [PATCH 21/49] fix: remaining length of a partly consumed view
 iterator

---
 sunscreen_tfhe/src/dst.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunscreen_tfhe/src/dst.rs b/sunscreen_tfhe/src/dst.rs
index ae6ee10..a050032 100644
--- a/sunscreen_tfhe/src/dst.rs
+++ b/sunscreen_tfhe/src/dst.rs
@@ -179,7 +179,7 @@ macro_rules! dst_iter {
             impl<'a, T> std::iter::ExactSizeIterator for $t<'a, T> where T: Clone $(+ $t_bounds)* {
                 #[inline(always)]
                 fn len(&self) -> usize {
-                    self.data.len() / self.stride
+                    (self.back_idx + self.stride as i64 - self.front_idx as i64) as usize / self.stride
                 }
             }
 
-- 
2.43.0


From 21909754e2795a92c48c15a977a8f90bf1535a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:27 +0000
Subject: [PATCH 22/49] fix: public functional keyswitch hands its map a zeroed
 polynomial

---
 sunscreen_tfhe/src/ops/keyswitch/public_functional_keyswitch.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sunscreen_tfhe/src/ops/keyswitch/public_functional_keyswitch.rs b/sunscreen_tfhe/src/ops/keyswitch/public_functional_keyswitch.rs
index 4c30992..9cac4e0 100644
--- a/sunscreen_tfhe/src/ops/keyswitch/public_functional_keyswitch.rs
+++ b/sunscreen_tfhe/src/ops/keyswitch/public_functional_keyswitch.rs
@@ -126,6 +126,7 @@ pub fn public_functional_keyswitch<S, F>(
 
         row.fft(glev_fft, to_glwe);
 
+        poly.clear();
         f(poly, lwe_vals);
 
         let decomp = PolynomialRadixIterator::new(poly, decomp_scratch, radix);
@@ -138,6 +139,7 @@ pub fn public_functional_keyswitch<S, F>(
         lwe_vals[j] = *b;
     }
 
+    poly.clear();
     f(poly, lwe_vals);
 
     output_fft.ifft(output, to_glwe);
-- 
2.43.0


From fe27d11fc4002b6c596025395114caaed6698361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:35 +0000
Subject: [PATCH 23/49] fix: GLev decryption when the digits reach the least
 significant bit

---
 .../src/ops/encryption/glev_encryption.rs           | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/sunscreen_tfhe/src/ops/encryption/glev_encryption.rs b/sunscreen_tfhe/src/ops/encryption/glev_encryption.rs
index db53ac5..797bb7d 100644
--- a/sunscreen_tfhe/src/ops/encryption/glev_encryption.rs
+++ b/sunscreen_tfhe/src/ops/encryption/glev_encryption.rs
@@ -187,12 +187,17 @@ pub(crate) fn decrypt_glwe_in_glev<S>(
     // every row but the last (-SM) and M for the last row.
     decrypt_glwe_ciphertext(msg, glwe, glwe_secret_key, params);
 
-    let mask = (0x1 << decomposition_radix_log) - 1;
+    let mask = u64::MAX >> (64 - decomposition_radix_log);
+    let shift = S::BITS as usize - decomposition_radix_log * (index + 1);
 
     for c in msg.coeffs_mut() {
-        let val = c.inner() >> (S::BITS as usize - decomposition_radix_log * (index + 1));
-        let r = (c.inner() >> (S::BITS as usize - decomposition_radix_log * (index + 1) - 1))
-            & S::from_u64(0x1);
+        let val = c.inner() >> shift;
+        // The last digit may end at the least significant bit of the word, in
+        // which case there's nothing to round.
+        let r = match shift {
+            0 => S::from_u64(0x0),
+            _ => (c.inner() >> (shift - 1)) & S::from_u64(0x1),
+        };
 
         *c = Torus::from((val + r) & S::from_u64(mask));
     }
-- 
2.43.0


From 5b1ee184a8148355acb34984c8da8a98b63b4b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:10 +0000
Subject: [PATCH 24/49] fix: allocations close to the size of the address space
 are refused

---
 parasol_cpu/src/memory/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parasol_cpu/src/memory/mod.rs b/parasol_cpu/src/memory/mod.rs
index 586c42b..cf45c80 100644
--- a/parasol_cpu/src/memory/mod.rs
+++ b/parasol_cpu/src/memory/mod.rs
@@ -601,7 +601,7 @@ impl Memory {
         }
 
         let mut pages = self.pages.lock().unwrap();
-        let num_pages = len.next_multiple_of(PAGE_SIZE) / PAGE_SIZE;
+        let num_pages = len.div_ceil(PAGE_SIZE);
 
         // Never allocate the zero page for end-user use. We don't want to ever
         // give a valid null virtual address to user applications, as many languages generate
-- 
2.43.0


From fa41f6e1bf1cc26ff7023cf6c686150a7aa6b2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:44 +0000
Subject: [PATCH 25/49] fix: range checks of guest memory at page ends and
 around the end of the address space

---
 parasol_cpu/src/memory/mod.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/parasol_cpu/src/memory/mod.rs b/parasol_cpu/src/memory/mod.rs
index cf45c80..7efdc21 100644
--- a/parasol_cpu/src/memory/mod.rs
+++ b/parasol_cpu/src/memory/mod.rs
@@ -712,14 +712,22 @@ impl Memory {
     /// Returns an error if pointer arithmetic wraps for an address in the given range
     /// has no page mapping.
     pub fn check_range_is_mapped(&self, ptr: Ptr32, len: u32) -> Result<()> {
-        let start_page = ptr.0 / PAGE_SIZE;
-        let end_page = (ptr.0 + len) / PAGE_SIZE;
+        if len == 0 {
+            return Ok(());
+        }
+
+        // Use the last byte in the range, as the range's end can be the end of the
+        // address space or lie in a page the range doesn't touch.
+        let start_page = Page::page_id_from_pointer(ptr);
+        let end_page = Page::page_id_from_pointer(ptr.try_offset(len - 1)?);
 
         let pages = self.pages.lock().unwrap();
 
         for i in start_page..=end_page {
             if pages[i as usize].is_none() {
-                return Err(Error::AccessViolation(ptr.try_offset(i * PAGE_SIZE)?.0));
+                let page_start = i << LOG2_PAGE_SIZE;
+
+                return Err(Error::AccessViolation(u32::max(ptr.0, page_start)));
             }
         }
 
-- 
2.43.0


From 908b23d99e8bc2490613444e53c86fbc90e64a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:44 +0000
Subject: [PATCH 26/49] fix: mapping a region that ends on a page boundary maps
 no page behind it

---
 parasol_cpu/src/memory/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parasol_cpu/src/memory/mod.rs b/parasol_cpu/src/memory/mod.rs
index 7efdc21..75eacff 100644
--- a/parasol_cpu/src/memory/mod.rs
+++ b/parasol_cpu/src/memory/mod.rs
@@ -509,7 +509,7 @@ impl Memory {
         }
 
         let start_page_id = Page::page_id_from_pointer(virtual_address) as usize;
-        let end_page_id = Page::page_id_from_pointer(virtual_address.try_offset(len)?) as usize;
+        let end_page_id = Page::page_id_from_pointer(virtual_address.try_offset(len - 1)?) as usize;
 
         let mut pages = self.pages.lock().unwrap();
 
-- 
2.43.0


From 5d8ac848170bd2ae93b2419693897bf6f4121fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:44 +0000
Subject: [PATCH 27/49] fix: pushing an argument leaves what is already on the
 stack alone

---
 parasol_cpu/src/memory/mod.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/parasol_cpu/src/memory/mod.rs b/parasol_cpu/src/memory/mod.rs
index 75eacff..392b139 100644
--- a/parasol_cpu/src/memory/mod.rs
+++ b/parasol_cpu/src/memory/mod.rs
@@ -474,23 +474,27 @@ impl Memory {
         }
 
         let alignment = data.alignment as u32;
+        let len = data.bytes.len() as u32;
 
-        let padding_bytes = (alignment - stack_ptr.0 % alignment) % alignment;
+        // Padding goes between the previous item and the data so the data is aligned.
+        let data_end = stack_ptr.0.checked_sub(len).ok_or(Error::PointerOverflow)?;
+        let data_ptr = Ptr32(data_end - data_end % alignment);
 
-        // Push padding to align data
-        for i in 0..padding_bytes {
-            self.try_store(*stack_ptr, Byte::from(0))?;
-            *stack_ptr = stack_ptr.try_signed_offset(-1)?;
-        }
-
-        *stack_ptr = stack_ptr.try_signed_offset(-(data.bytes.len() as i32))?;
+        self.check_range_is_mapped(data_ptr, stack_ptr.0 - data_ptr.0)?;
 
         // Write the bytes in the argument
         for (i, b) in data.bytes.iter().enumerate() {
-            self.try_store(stack_ptr.try_offset(i as u32)?, b.clone())?;
+            self.try_store(data_ptr.try_offset(i as u32)?, b.clone())?;
         }
 
-        Ok(*stack_ptr)
+        // Write the padding
+        for i in data_ptr.0 + len..stack_ptr.0 {
+            self.try_store(Ptr32(i), Byte::from(0))?;
+        }
+
+        *stack_ptr = data_ptr;
+
+        Ok(data_ptr)
     }
 
     /// Get the current stack pointer
-- 
2.43.0


From f40d34003a5d0038c114802d1814a13d4e369a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:44 +0000
Subject: [PATCH 28/49] fix: allocations carved out of an existing one track
 offsets rather than addresses

---
 parasol_cpu/src/memory/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/parasol_cpu/src/memory/mod.rs b/parasol_cpu/src/memory/mod.rs
index 392b139..131b5ab 100644
--- a/parasol_cpu/src/memory/mod.rs
+++ b/parasol_cpu/src/memory/mod.rs
@@ -881,13 +881,14 @@ impl Allocation {
         let padded = existing.next_free.next_multiple_of(alignment);
 
         // If we lack space in this allocation, make another.
-        if padded + len >= existing.size {
-            return Self::new(memory, len);
-        }
+        let end = match padded.checked_add(len) {
+            Some(end) if end <= existing.size => end,
+            _ => return Self::new(memory, len),
+        };
 
         let ptr = existing.base.try_offset(padded)?;
 
-        existing.next_free = ptr.0 + len;
+        existing.next_free = end;
 
         Ok((existing, ptr))
     }
-- 
2.43.0


From 3b8e2c0a1502f4aa674e9ed9416a7d6118209966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:04 +0000
Subject: [PATCH 29/49] fix: words with bits outside the instruction's fields
 are illegal instructions

---
 parasol_cpu/src/proc/assembly.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parasol_cpu/src/proc/assembly.rs b/parasol_cpu/src/proc/assembly.rs
index 39e19db..e9d151f 100644
--- a/parasol_cpu/src/proc/assembly.rs
+++ b/parasol_cpu/src/proc/assembly.rs
@@ -120,7 +120,9 @@ macro_rules! define_op {
                                         let value = value >> $unused_width;
                                     )*
 
-                                    assert_eq!(value, 0);
+                                    if value != 0 {
+                                        return Err(Error::IllegalInstruction(0));
+                                    }
 
                                     $inst_name :: $op_name(
                                         $($dst_name,)*
-- 
2.43.0


From 790381085c61a01555904aacd56281834a4ed023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:04 +0000
Subject: [PATCH 30/49] fix: plaintext operations at width 128

---
 mux_circuits/src/util.rs                |  6 +++++-
 parasol_cpu/src/proc/ops/add.rs         | 18 ++++++++++--------
 parasol_cpu/src/proc/ops/and.rs         |  4 ++--
 parasol_cpu/src/proc/ops/casting.rs     |  8 ++++----
 parasol_cpu/src/proc/ops/comparisons.rs |  4 ++--
 parasol_cpu/src/proc/ops/loadi.rs       |  8 ++++----
 parasol_cpu/src/proc/ops/mod.rs         |  9 +++++++++
 parasol_cpu/src/proc/ops/neg.rs         |  4 ++--
 parasol_cpu/src/proc/ops/not.rs         |  4 ++--
 parasol_cpu/src/proc/ops/or.rs          |  4 ++--
 parasol_cpu/src/proc/ops/sub.rs         |  4 ++--
 parasol_cpu/src/proc/ops/xor.rs         |  6 +++---
 12 files changed, 47 insertions(+), 32 deletions(-)

diff --git a/mux_circuits/src/util.rs b/mux_circuits/src/util.rs
index 2051b18..af58366 100644
--- a/mux_circuits/src/util.rs
+++ b/mux_circuits/src/util.rs
@@ -31,7 +31,11 @@ pub fn arbitrary_width_borrowing_sub(
     borrow: u128,
     width: u32,
 ) -> (u128, u128) {
-    let diff_mask = (0x1 << width) - 1;
+    let diff_mask = if width < 128 {
+        (0x1 << width) - 1
+    } else {
+        u128::MAX
+    };
 
     let (diff, borrow) = borrowing_sub(lhs, rhs, borrow != 0);
 
diff --git a/parasol_cpu/src/proc/ops/add.rs b/parasol_cpu/src/proc/ops/add.rs
index e2381fb..53656c1 100644
--- a/parasol_cpu/src/proc/ops/add.rs
+++ b/parasol_cpu/src/proc/ops/add.rs
@@ -2,7 +2,7 @@ use parasol_runtime::circuits::add::add_circuit;
 
 use crate::{
     Ciphertext, Error, Register, Result, check_register_width,
-    proc::{DispatchIsaOp, fhe_processor::FheProcessor, ops::make_parent_op},
+    proc::{DispatchIsaOp, fhe_processor::FheProcessor, ops::{make_parent_op, width_mask}},
     register_to_l1glwe_by_trivial_lift,
     tomasulo::{registers::RobEntryRef, tomasulo_processor::RetirementInfo},
     unwrap_registers,
@@ -35,7 +35,7 @@ impl FheProcessor {
                 },
             ) = (a, b)
             {
-                let mask = (0x1 << width1) - 1;
+                let mask = width_mask(*width1);
 
                 *dst = Register::Plaintext {
                     val: val1.wrapping_add(*val2) & mask,
@@ -178,12 +178,14 @@ impl FheProcessor {
 
 /// Add two plaintext numbers together, returning the sum and the carry out.
 fn add_with_carry(a: u128, b: u128, carry_in: u128, width: u32) -> (u128, u128) {
-    let sum_mask = (0x1 << width) - 1;
+    let (sum, overflow_b) = a.overflowing_add(b);
+    let (sum, overflow_carry) = sum.overflowing_add(carry_in);
 
-    let full_sum = a.wrapping_add(b).wrapping_add(carry_in);
+    let carry = if width < 128 {
+        (sum >> width) & 1
+    } else {
+        (overflow_b || overflow_carry) as u128
+    };
 
-    let sum = full_sum & sum_mask;
-    let carry = (full_sum >> width) & 1;
-
-    (sum, carry)
+    (sum & width_mask(width), carry)
 }
diff --git a/parasol_cpu/src/proc/ops/and.rs b/parasol_cpu/src/proc/ops/and.rs
index f933080..d0fa54b 100644
--- a/parasol_cpu/src/proc/ops/and.rs
+++ b/parasol_cpu/src/proc/ops/and.rs
@@ -9,7 +9,7 @@ use crate::{
     unwrap_registers,
 };
 
-use super::make_parent_op;
+use super::{make_parent_op, width_mask};
 
 impl FheProcessor {
     /// Execute an and instruction, where each element in the vector is a bit.
@@ -35,7 +35,7 @@ impl FheProcessor {
                 },
             ) = (a, b)
             {
-                let mask = (0x1 << width) - 1;
+                let mask = width_mask(*width);
 
                 *dst = Register::Plaintext {
                     val: val1 & val2 & mask,
diff --git a/parasol_cpu/src/proc/ops/casting.rs b/parasol_cpu/src/proc/ops/casting.rs
index bf7d654..578b946 100644
--- a/parasol_cpu/src/proc/ops/casting.rs
+++ b/parasol_cpu/src/proc/ops/casting.rs
@@ -4,7 +4,7 @@ use parasol_concurrency::AtomicRefCell;
 
 use crate::{
     Ciphertext, Register, Result,
-    proc::{DispatchIsaOp, fhe_processor::FheProcessor},
+    proc::{DispatchIsaOp, fhe_processor::FheProcessor, ops::width_mask},
     tomasulo::{registers::RobEntryRef, tomasulo_processor::RetirementInfo},
     unwrap_registers,
 };
@@ -80,8 +80,8 @@ impl FheProcessor {
                             if val >> (width - 1) == 0 {
                                 *val
                             } else {
-                                let old_mask = (1 << width) - 1;
-                                let new_mask = (1 << new_width) - 1;
+                                let old_mask = width_mask(*width);
+                                let new_mask = width_mask(new_width);
                                 (val | !old_mask) & new_mask
                             }
                         } else {
@@ -153,7 +153,7 @@ impl FheProcessor {
 
             match src {
                 Register::Plaintext { val, width: _ } => {
-                    let mask = (0x1 << new_width) - 1;
+                    let mask = width_mask(new_width);
                     *dst = Register::Plaintext {
                         val: (*val) & mask,
                         width: new_width,
diff --git a/parasol_cpu/src/proc/ops/comparisons.rs b/parasol_cpu/src/proc/ops/comparisons.rs
index 4a26566..fc4db6a 100644
--- a/parasol_cpu/src/proc/ops/comparisons.rs
+++ b/parasol_cpu/src/proc/ops/comparisons.rs
@@ -12,14 +12,14 @@ use crate::{
     unwrap_registers,
 };
 
-use super::make_parent_op;
+use super::{make_parent_op, width_mask};
 
 fn to_signed(val: u128, width: u32) -> i128 {
     let sign = 1 << (width - 1);
     if sign & val == 0 {
         val as i128
     } else {
-        (!((sign << 1) - 1) | val) as i128
+        (!width_mask(width) | val) as i128
     }
 }
 
diff --git a/parasol_cpu/src/proc/ops/loadi.rs b/parasol_cpu/src/proc/ops/loadi.rs
index 82adae1..0e348f6 100644
--- a/parasol_cpu/src/proc/ops/loadi.rs
+++ b/parasol_cpu/src/proc/ops/loadi.rs
@@ -1,6 +1,6 @@
 use crate::{
     Error, Register, Result,
-    proc::{DispatchIsaOp, fhe_processor::FheProcessor},
+    proc::{DispatchIsaOp, fhe_processor::FheProcessor, ops::width_mask},
     tomasulo::{registers::RobEntryRef, tomasulo_processor::RetirementInfo},
     unwrap_registers,
 };
@@ -24,15 +24,15 @@ impl FheProcessor {
             // the number -90 in 2's complement with 8 bit will be 0xA6, but
             // in the encoding we have 32 bit for the immediate so it's
             // 0xFFFFFFA6, not 0x000000A6
-            let in_range_unsigned = (imm as u64) < (1 << width);
-            let in_range_signed_neg = imm >= 0xFFFFFFFF << (width - 1);
+            let in_range_unsigned = width >= 32 || imm < (1 << width);
+            let in_range_signed_neg = width >= 32 || imm >= 0xFFFFFFFF << (width - 1);
 
             if !in_range_unsigned && !in_range_signed_neg {
                 return Err(Error::out_of_range(instruction_id, pc));
             }
 
             *dst = Register::Plaintext {
-                val: imm as u128 & ((1 << width) - 1),
+                val: imm as u128 & width_mask(width),
                 width,
             };
 
diff --git a/parasol_cpu/src/proc/ops/mod.rs b/parasol_cpu/src/proc/ops/mod.rs
index 22ac6ab..e952f24 100644
--- a/parasol_cpu/src/proc/ops/mod.rs
+++ b/parasol_cpu/src/proc/ops/mod.rs
@@ -128,6 +128,15 @@ pub fn make_parent_op(retirement_info: &RetirementInfo<DispatchIsaOp>) -> Arc<Co
     }))
 }
 
+/// The value whose `width` least significant bits are set.
+pub(crate) fn width_mask(width: u32) -> u128 {
+    if width < 128 {
+        (0x1u128 << width) - 1
+    } else {
+        u128::MAX
+    }
+}
+
 pub(crate) fn is_invalid_load_store_alignment(addr: Ptr32, num_bytes: u32) -> bool {
     num_bytes == 0 || addr.0 % num_bytes != 0 || num_bytes > 16 || !num_bytes.is_power_of_two()
 }
diff --git a/parasol_cpu/src/proc/ops/neg.rs b/parasol_cpu/src/proc/ops/neg.rs
index 2091e21..38f719a 100644
--- a/parasol_cpu/src/proc/ops/neg.rs
+++ b/parasol_cpu/src/proc/ops/neg.rs
@@ -1,6 +1,6 @@
 use crate::{
     Ciphertext, Register, Result,
-    proc::{DispatchIsaOp, fhe_processor::FheProcessor},
+    proc::{DispatchIsaOp, fhe_processor::FheProcessor, ops::width_mask},
     tomasulo::{registers::RobEntryRef, tomasulo_processor::RetirementInfo},
     unwrap_registers,
 };
@@ -23,7 +23,7 @@ impl FheProcessor {
                     val: val1,
                     width: width1,
                 } => {
-                    let mask = (0x1 << width1) - 1;
+                    let mask = width_mask(*width1);
 
                     *dst = Register::Plaintext {
                         val: val1.wrapping_neg() & mask,
diff --git a/parasol_cpu/src/proc/ops/not.rs b/parasol_cpu/src/proc/ops/not.rs
index 41afcac..88fe3b3 100644
--- a/parasol_cpu/src/proc/ops/not.rs
+++ b/parasol_cpu/src/proc/ops/not.rs
@@ -5,7 +5,7 @@ use parasol_runtime::{FheCircuit, FheEdge, FheOp};
 
 use crate::{
     Ciphertext, Error, Register, Result,
-    proc::{DispatchIsaOp, fhe_processor::FheProcessor, ops::make_parent_op},
+    proc::{DispatchIsaOp, fhe_processor::FheProcessor, ops::{make_parent_op, width_mask}},
     tomasulo::{registers::RobEntryRef, tomasulo_processor::RetirementInfo},
     unwrap_registers,
 };
@@ -25,7 +25,7 @@ impl FheProcessor {
 
             match src {
                 Register::Plaintext { val, width } => {
-                    let mask = (0x1 << width) - 1;
+                    let mask = width_mask(*width);
 
                     *dst = Register::Plaintext {
                         val: (!val) & mask,
diff --git a/parasol_cpu/src/proc/ops/or.rs b/parasol_cpu/src/proc/ops/or.rs
index 839e515..d20d0c7 100644
--- a/parasol_cpu/src/proc/ops/or.rs
+++ b/parasol_cpu/src/proc/ops/or.rs
@@ -9,7 +9,7 @@ use crate::{
     unwrap_registers,
 };
 
-use super::make_parent_op;
+use super::{make_parent_op, width_mask};
 
 impl FheProcessor {
     /// Execute an or instruction, where each element in the vector is a bit.
@@ -35,7 +35,7 @@ impl FheProcessor {
                 },
             ) = (a, b)
             {
-                let mask = (0x1 << width) - 1;
+                let mask = width_mask(*width);
 
                 *dst = Register::Plaintext {
                     val: (val1 | val2) & mask,
diff --git a/parasol_cpu/src/proc/ops/sub.rs b/parasol_cpu/src/proc/ops/sub.rs
index d885f6a..af36a55 100644
--- a/parasol_cpu/src/proc/ops/sub.rs
+++ b/parasol_cpu/src/proc/ops/sub.rs
@@ -3,7 +3,7 @@ use parasol_runtime::circuits::sub_circuit;
 
 use crate::{
     Ciphertext, Error, Register, Result, check_register_width,
-    proc::{DispatchIsaOp, fhe_processor::FheProcessor, ops::make_parent_op},
+    proc::{DispatchIsaOp, fhe_processor::FheProcessor, ops::{make_parent_op, width_mask}},
     register_to_l1glwe_by_trivial_lift,
     tomasulo::{registers::RobEntryRef, tomasulo_processor::RetirementInfo},
     unwrap_registers,
@@ -36,7 +36,7 @@ impl FheProcessor {
                 },
             ) = (a, b)
             {
-                let mask = (0x1 << width1) - 1;
+                let mask = width_mask(*width1);
 
                 *dst = Register::Plaintext {
                     val: val1.wrapping_sub(*val2) & mask,
diff --git a/parasol_cpu/src/proc/ops/xor.rs b/parasol_cpu/src/proc/ops/xor.rs
index fc49af5..70cac7e 100644
--- a/parasol_cpu/src/proc/ops/xor.rs
+++ b/parasol_cpu/src/proc/ops/xor.rs
@@ -5,7 +5,7 @@ use parasol_runtime::{FheCircuit, FheEdge, FheOp};
 
 use crate::{
     Ciphertext, Register, Result, check_register_width,
-    proc::{DispatchIsaOp, fhe_processor::FheProcessor, ops::make_parent_op},
+    proc::{DispatchIsaOp, fhe_processor::FheProcessor, ops::{make_parent_op, width_mask}},
     register_to_l1glwe_by_trivial_lift,
     tomasulo::{registers::RobEntryRef, tomasulo_processor::RetirementInfo},
     unwrap_registers,
@@ -38,10 +38,10 @@ impl FheProcessor {
                 },
             ) = (a, b)
             {
-                let mask = (0x1 << width1) - 1;
+                let mask = width_mask(*width1);
 
                 *dst = Register::Plaintext {
-                    val: val1 ^ val2 & mask,
+                    val: (val1 ^ val2) & mask,
                     width: *width1,
                 };
 
-- 
2.43.0


From 7527d6297c136c961e63e4ef675eacf519385658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:04 +0000
Subject: [PATCH 31/49] fix: shifts and rotations by amounts at or above the
 width

---
 parasol_cpu/src/proc/ops/bitshift.rs | 50 +++++++++++++++++++---------
 1 file changed, 34 insertions(+), 16 deletions(-)

diff --git a/parasol_cpu/src/proc/ops/bitshift.rs b/parasol_cpu/src/proc/ops/bitshift.rs
index 2edef37..bbe43c8 100644
--- a/parasol_cpu/src/proc/ops/bitshift.rs
+++ b/parasol_cpu/src/proc/ops/bitshift.rs
@@ -15,47 +15,65 @@ use crate::{
     unwrap_registers,
 };
 
-use super::make_parent_op;
+use super::{make_parent_op, width_mask};
+
+fn shift_left_arbitrary_width(val: u128, shift: u128, width: u32) -> u128 {
+    if shift < width as u128 {
+        (val << shift) & width_mask(width)
+    } else {
+        0
+    }
+}
+
+fn shift_right_arbitrary_width(val: u128, shift: u128, width: u32) -> u128 {
+    if shift < width as u128 { val >> shift } else { 0 }
+}
 
 fn arithmetic_shift_right_arbitrary_width(val: u128, shift: u128, width: u32) -> u128 {
-    let right = val >> shift;
+    let shift = shift.min(width as u128) as u32;
+    let right = shift_right_arbitrary_width(val, shift as u128, width);
 
     // check if the number if positive
     if (0x1 << (width - 1)) & val == 0 {
         right
     } else {
-        let signs = ((0x1 << (shift + 1)) - 1) << (width as u128 - shift);
+        let signs = width_mask(width) & !width_mask(width - shift);
         signs | right
     }
 }
 
 fn rotate_right_arbitrary_width(val: u128, shift: u128, width: u32) -> u128 {
-    let mask = (0x1 << width) - 1;
+    let shift = shift % width as u128;
 
-    let left = val << (width as u128 - shift);
-    let right = val >> shift;
+    let left = shift_left_arbitrary_width(val, width as u128 - shift, width);
+    let right = shift_right_arbitrary_width(val, shift, width);
 
-    (left | right) & mask
+    left | right
 }
 
 fn rotate_left_arbitrary_width(val: u128, shift: u128, width: u32) -> u128 {
-    let mask = (0x1 << width) - 1;
+    let shift = shift % width as u128;
 
-    let left = val << shift;
-    let right = val >> (width as u128 - shift);
+    let left = shift_left_arbitrary_width(val, shift, width);
+    let right = shift_right_arbitrary_width(val, width as u128 - shift, width);
 
-    (left | right) & mask
+    left | right
 }
 
 fn encrypted_value_plain_shift(
     c: &[Arc<AtomicRefCell<L1GlweCiphertext>>],
-    shift: u32,
+    shift: u128,
     l1glwe_zero: &L1GlweCiphertext,
     dir: ShiftDirection,
     mode: ShiftMode,
 ) -> Vec<Arc<AtomicRefCell<L1GlweCiphertext>>> {
     let mut result = c.to_owned();
 
+    let shift = match mode {
+        ShiftMode::Rotation => shift % result.len() as u128,
+        ShiftMode::Logical | ShiftMode::Arithmetic => shift.min(result.len() as u128),
+    };
+
     let old_msb = result.last().unwrap().clone();
 
     // The processor is little endian, so a right shift is a left rotation.
@@ -92,7 +110,7 @@ type ShiftOperation = fn(u128, u128, u32) -> u128;
 // (c, shift, l1glwe_zero) -> Vec<Arc<AtomicRefCell<L1GlweCiphertext>>>
 type ShiftOperationCiphertext = fn(
     &[Arc<AtomicRefCell<L1GlweCiphertext>>],
-    u32,
+    u128,
     &L1GlweCiphertext,
 ) -> Vec<Arc<AtomicRefCell<L1GlweCiphertext>>>;
 
@@ -133,7 +151,7 @@ impl FheProcessor {
                         width: _,
                     },
                 ) => {
-                    let output = plain_shift(c, *shift as u32, &self.aux_data.l1glwe_zero);
+                    let output = plain_shift(c, *shift, &self.aux_data.l1glwe_zero);
 
                     *dst = Register::Ciphertext(Ciphertext::L1Glwe { data: output });
 
@@ -201,7 +219,7 @@ impl FheProcessor {
             dst,
             src,
             shift,
-            |val, shift, _| val >> shift,
+            shift_right_arbitrary_width,
             |c, shift, l1glwe_zero| {
                 encrypted_value_plain_shift(
                     c,
@@ -267,7 +285,7 @@ impl FheProcessor {
             dst,
             src,
             shift,
-            |val, shift, _| val << shift,
+            shift_left_arbitrary_width,
             |c, shift, l1glwe_zero| {
                 encrypted_value_plain_shift(
                     c,
-- 
2.43.0


From 27748db238ffc35474b9b4195c3d4979eee2bca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:04 +0000
Subject: [PATCH 32/49] fix: shifts by an encrypted amount narrower than the
 value, rotations at other widths

---
 parasol_cpu/src/proc/fhe_processor.rs | 10 +++---
 parasol_cpu/src/proc/ops/bitshift.rs  | 44 +++++++++++++++++++++++++++
 2 files changed, 49 insertions(+), 5 deletions(-)

diff --git a/parasol_cpu/src/proc/fhe_processor.rs b/parasol_cpu/src/proc/fhe_processor.rs
index 5cb02a4..7cc6f80 100644
--- a/parasol_cpu/src/proc/fhe_processor.rs
+++ b/parasol_cpu/src/proc/fhe_processor.rs
@@ -799,19 +799,19 @@ impl Tomasulo for FheProcessor {
                 self.xor(retirement_info, dst, a, b, instruction_id, pc);
             }
             Shr(dst, src, shift) => {
-                self.shr(retirement_info, dst, src, shift);
+                self.shr(retirement_info, dst, src, shift, instruction_id, pc);
             }
             Shra(dst, src, shift) => {
-                self.shra(retirement_info, dst, src, shift);
+                self.shra(retirement_info, dst, src, shift, instruction_id, pc);
             }
             Shl(dst, src, shift) => {
-                self.shl(retirement_info, dst, src, shift);
+                self.shl(retirement_info, dst, src, shift, instruction_id, pc);
             }
             Rotr(dst, src, shift) => {
-                self.rotr(retirement_info, dst, src, shift);
+                self.rotr(retirement_info, dst, src, shift, instruction_id, pc);
             }
             Rotl(dst, src, shift) => {
-                self.rotl(retirement_info, dst, src, shift);
+                self.rotl(retirement_info, dst, src, shift, instruction_id, pc);
             }
             Add(dst, a, b) => {
                 self.add(retirement_info, dst, a, b, instruction_id, pc);
diff --git a/parasol_cpu/src/proc/ops/bitshift.rs b/parasol_cpu/src/proc/ops/bitshift.rs
index bbe43c8..0e2cb6e 100644
--- a/parasol_cpu/src/proc/ops/bitshift.rs
+++ b/parasol_cpu/src/proc/ops/bitshift.rs
@@ -122,9 +122,12 @@ impl FheProcessor {
         dst: RobEntryRef<Register>,
         src: RobEntryRef<Register>,
         shift: RobEntryRef<Register>,
+        mode: ShiftMode,
         plain_operation: ShiftOperation,
         plain_shift: ShiftOperationCiphertext,
         circuit_gen: fn(usize, usize) -> MuxCircuit,
+        instruction_id: usize,
+        pc: u32,
     ) {
         let mut shift_impl = || -> Result<()> {
             unwrap_registers!((mut dst) (src) (shift));
@@ -165,6 +168,22 @@ impl FheProcessor {
                     )?;
 
                     let input_width = c.len();
+
+                    // The circuits can only rotate power of two widths.
+                    if mode == ShiftMode::Rotation && !input_width.is_power_of_two() {
+                        return Err(Error::unsupported_width(instruction_id, pc));
+                    }
+
+                    // The circuits need enough bits to represent every shift smaller than
+                    // the input's width.
+                    let mut c_shift = c_shift.to_owned();
+
+                    while (0x1usize << c_shift.len().min(8)) < input_width.max(2) {
+                        c_shift.push(Arc::new(AtomicRefCell::new(
+                            self.aux_data.l1glwe_zero.clone(),
+                        )));
+                    }
+
                     let shift_width = c_shift.len();
 
                     let mut graph = FheCircuit::new();
@@ -213,12 +232,15 @@ impl FheProcessor {
         dst: RobEntryRef<Register>,
         src: RobEntryRef<Register>,
         shift: RobEntryRef<Register>,
+        instruction_id: usize,
+        pc: u32,
     ) {
         self.shift_operation(
             retirement_info,
             dst,
             src,
             shift,
+            ShiftMode::Logical,
             shift_right_arbitrary_width,
             |c, shift, l1glwe_zero| {
                 encrypted_value_plain_shift(
@@ -237,6 +259,8 @@ impl FheProcessor {
                     ShiftMode::Logical,
                 )
             },
+            instruction_id,
+            pc,
         )
     }
 
@@ -246,12 +270,15 @@ impl FheProcessor {
         dst: RobEntryRef<Register>,
         src: RobEntryRef<Register>,
         shift: RobEntryRef<Register>,
+        instruction_id: usize,
+        pc: u32,
     ) {
         self.shift_operation(
             retirement_info,
             dst,
             src,
             shift,
+            ShiftMode::Arithmetic,
             arithmetic_shift_right_arbitrary_width,
             |c, shift, l1glwe_zero| {
                 encrypted_value_plain_shift(
@@ -270,6 +297,8 @@ impl FheProcessor {
                     ShiftMode::Arithmetic,
                 )
             },
+            instruction_id,
+            pc,
         )
     }
 
@@ -279,12 +308,15 @@ impl FheProcessor {
         dst: RobEntryRef<Register>,
         src: RobEntryRef<Register>,
         shift: RobEntryRef<Register>,
+        instruction_id: usize,
+        pc: u32,
     ) {
         self.shift_operation(
             retirement_info,
             dst,
             src,
             shift,
+            ShiftMode::Logical,
             shift_left_arbitrary_width,
             |c, shift, l1glwe_zero| {
                 encrypted_value_plain_shift(
@@ -303,6 +335,8 @@ impl FheProcessor {
                     ShiftMode::Logical,
                 )
             },
+            instruction_id,
+            pc,
         )
     }
 
@@ -312,12 +346,15 @@ impl FheProcessor {
         dst: RobEntryRef<Register>,
         src: RobEntryRef<Register>,
         shift: RobEntryRef<Register>,
+        instruction_id: usize,
+        pc: u32,
     ) {
         self.shift_operation(
             retirement_info,
             dst,
             src,
             shift,
+            ShiftMode::Rotation,
             rotate_right_arbitrary_width,
             |c, shift, l1glwe_zero| {
                 encrypted_value_plain_shift(
@@ -336,6 +373,8 @@ impl FheProcessor {
                     ShiftMode::Rotation,
                 )
             },
+            instruction_id,
+            pc,
         )
     }
 
@@ -345,12 +384,15 @@ impl FheProcessor {
         dst: RobEntryRef<Register>,
         src: RobEntryRef<Register>,
         shift: RobEntryRef<Register>,
+        instruction_id: usize,
+        pc: u32,
     ) {
         self.shift_operation(
             retirement_info,
             dst,
             src,
             shift,
+            ShiftMode::Rotation,
             rotate_left_arbitrary_width,
             |c, shift, l1glwe_zero| {
                 encrypted_value_plain_shift(
@@ -369,6 +411,8 @@ impl FheProcessor {
                     ShiftMode::Rotation,
                 )
             },
+            instruction_id,
+            pc,
         )
     }
 }
-- 
2.43.0


From 971119b66d742091f9f62c6122b60b0dfcc36ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:04 +0000
Subject: [PATCH 33/49] fix: negating an encrypted register

---
 parasol_cpu/src/proc/ops/neg.rs | 36 ++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/parasol_cpu/src/proc/ops/neg.rs b/parasol_cpu/src/proc/ops/neg.rs
index 38f719a..08feeb2 100644
--- a/parasol_cpu/src/proc/ops/neg.rs
+++ b/parasol_cpu/src/proc/ops/neg.rs
@@ -1,6 +1,8 @@
+use parasol_runtime::circuits::sub_circuit;
+
 use crate::{
-    Ciphertext, Register, Result,
-    proc::{DispatchIsaOp, fhe_processor::FheProcessor, ops::width_mask},
+    Ciphertext, Error, Register, Result,
+    proc::{DispatchIsaOp, fhe_processor::FheProcessor, ops::{make_parent_op, trivially_encrypt_value_l1glwe, width_mask}},
     tomasulo::{registers::RobEntryRef, tomasulo_processor::RetirementInfo},
     unwrap_registers,
 };
@@ -15,7 +17,7 @@ impl FheProcessor {
         _instruction_id: usize,
         _pc: u32,
     ) {
-        let neg_impl = || -> Result<()> {
+        let mut neg_impl = || -> Result<()> {
             unwrap_registers!((mut dst) (src));
 
             match src {
@@ -32,15 +34,29 @@ impl FheProcessor {
 
                     FheProcessor::retire(&retirement_info, Ok(()));
                 }
-                Register::Ciphertext(Ciphertext::L1Glwe { data: _c1 }) => {
-                    todo!()
-                    // let output = add_l1glwe_cipher_cipher(c1, c2);
+                Register::Ciphertext(Ciphertext::L1Glwe { data }) => {
+                    let zero = trivially_encrypt_value_l1glwe(
+                        0,
+                        data.len() as u32,
+                        &self.aux_data.l1glwe_zero,
+                        &self.aux_data.l1glwe_one,
+                    );
 
-                    // *dst = Register::Ciphertext(Ciphertext::L1GlweCiphertext { data: output });
-                }
-                _ => {
-                    todo!()
+                    let (graph, output) =
+                        sub_circuit(data.len(), &zero, data, None, &self.aux_data.enc);
+
+                    let parent_op = make_parent_op(&retirement_info);
+
+                    self.aux_data
+                        .uop_processor
+                        .spawn_graph(&graph, &self.aux_data.flow, parent_op);
+
+                    // There is a borrow out bit that we will ignore
+                    *dst = Register::Ciphertext(Ciphertext::L1Glwe {
+                        data: output[0..output.len() - 1].to_owned(),
+                    });
                 }
+                _ => return Err(Error::EncryptionMismatch),
             };
 
             Ok(())
-- 
2.43.0


From f2efea4d32351bea965630f9e08be5a068943aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:04 +0000
Subject: [PATCH 34/49] fix: storing a register at its own address and
 registers narrower than the store

---
 parasol_cpu/src/proc/ops/store.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/parasol_cpu/src/proc/ops/store.rs b/parasol_cpu/src/proc/ops/store.rs
index e448547..161aa80 100644
--- a/parasol_cpu/src/proc/ops/store.rs
+++ b/parasol_cpu/src/proc/ops/store.rs
@@ -1,3 +1,7 @@
+use std::sync::Arc;
+
+use parasol_concurrency::AtomicRefCell;
+
 use crate::{
     Byte, Error, Memory, Ptr32, Register, Result,
     proc::{DispatchIsaOp, fhe_processor::FheProcessor, ops::is_invalid_load_store_alignment},
@@ -20,10 +24,7 @@ impl FheProcessor {
         pc: u32,
     ) {
         let store_impl = || -> Result<()> {
-            let mut dst = dst.entry_force_mut();
-            let dst = &mut **dst;
-
-            unwrap_registers!((src));
+            unwrap_registers!((dst)(src));
 
             match dst {
                 Register::Plaintext { val: ptr, width: _ } => {
@@ -44,9 +45,18 @@ impl FheProcessor {
                             }
                             Register::Ciphertext(val) => {
                                 let val = val.try_into_l1glwe()?;
-                                let val = &val[8 * i as usize..8 * i as usize + 8];
 
-                                Byte::try_from(val.to_owned()).unwrap()
+                                // As with plaintexts, bits past the register's width are zero.
+                                let bits = (8 * i as usize..8 * i as usize + 8)
+                                    .map(|bit| match val.get(bit) {
+                                        Some(x) => x.clone(),
+                                        None => Arc::new(AtomicRefCell::new(
+                                            self.aux_data.l1glwe_zero.clone(),
+                                        )),
+                                    })
+                                    .collect::<Vec<_>>();
+
+                                Byte::try_from(bits).unwrap()
                             }
                         };
 
-- 
2.43.0


From 196a6237336edd470a562823333159bd4185967b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:04 +0000
Subject: [PATCH 35/49] fix: loads and stores of widths that are no whole
 number of bytes

---
 parasol_cpu/src/proc/fhe_processor.rs | 6 +++++-
 parasol_cpu/src/proc/ops/load.rs      | 6 +++++-
 parasol_cpu/src/proc/ops/mod.rs       | 4 ++++
 parasol_cpu/src/proc/ops/store.rs     | 6 +++++-
 4 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/parasol_cpu/src/proc/fhe_processor.rs b/parasol_cpu/src/proc/fhe_processor.rs
index 7cc6f80..258aa9c 100644
--- a/parasol_cpu/src/proc/fhe_processor.rs
+++ b/parasol_cpu/src/proc/fhe_processor.rs
@@ -9,7 +9,7 @@ use crate::{
     unwrap_registers,
 };
 
-use super::{ops::is_invalid_load_store_alignment, *};
+use super::{ops::{is_invalid_load_store_alignment, is_invalid_load_store_width}, *};
 
 use log::{debug, error, trace};
 
@@ -171,6 +171,10 @@ impl FheProcessor {
                 Register::Plaintext { val: ptr, width: _ } => {
                     let base_addr = *ptr as u32;
 
+                    if is_invalid_load_store_width(width) {
+                        return Err(Error::unsupported_width(inst_id, pc));
+                    }
+
                     let num_bytes = width / 8;
 
                     let base_addr = Ptr32::from(base_addr).try_signed_offset(offset)?;
diff --git a/parasol_cpu/src/proc/ops/load.rs b/parasol_cpu/src/proc/ops/load.rs
index 5441177..c104189 100644
--- a/parasol_cpu/src/proc/ops/load.rs
+++ b/parasol_cpu/src/proc/ops/load.rs
@@ -1,6 +1,6 @@
 use crate::{
     Byte, Ciphertext, Error, Memory, Ptr32, Register, Result,
-    proc::{DispatchIsaOp, fhe_processor::FheProcessor, ops::is_invalid_load_store_alignment},
+    proc::{DispatchIsaOp, fhe_processor::FheProcessor, ops::{is_invalid_load_store_alignment, is_invalid_load_store_width}},
     tomasulo::{registers::RobEntryRef, tomasulo_processor::RetirementInfo},
     unwrap_registers,
 };
@@ -24,6 +24,10 @@ impl FheProcessor {
 
             match src {
                 Register::Plaintext { val: ptr, width: _ } => {
+                    if is_invalid_load_store_width(width) {
+                        return Err(Error::unsupported_width(instruction_id, pc));
+                    }
+
                     let num_bytes = width / 8;
 
                     let base_addr = Ptr32::from(*ptr as u32).try_signed_offset(offset)?;
diff --git a/parasol_cpu/src/proc/ops/mod.rs b/parasol_cpu/src/proc/ops/mod.rs
index e952f24..d6d4e16 100644
--- a/parasol_cpu/src/proc/ops/mod.rs
+++ b/parasol_cpu/src/proc/ops/mod.rs
@@ -137,6 +137,10 @@ pub(crate) fn width_mask(width: u32) -> u128 {
     }
 }
 
+pub(crate) fn is_invalid_load_store_width(width: u32) -> bool {
+    width == 0 || width % 8 != 0
+}
+
 pub(crate) fn is_invalid_load_store_alignment(addr: Ptr32, num_bytes: u32) -> bool {
     num_bytes == 0 || addr.0 % num_bytes != 0 || num_bytes > 16 || !num_bytes.is_power_of_two()
 }
diff --git a/parasol_cpu/src/proc/ops/store.rs b/parasol_cpu/src/proc/ops/store.rs
index 161aa80..ad7d408 100644
--- a/parasol_cpu/src/proc/ops/store.rs
+++ b/parasol_cpu/src/proc/ops/store.rs
@@ -4,7 +4,7 @@ use parasol_concurrency::AtomicRefCell;
 
 use crate::{
     Byte, Error, Memory, Ptr32, Register, Result,
-    proc::{DispatchIsaOp, fhe_processor::FheProcessor, ops::is_invalid_load_store_alignment},
+    proc::{DispatchIsaOp, fhe_processor::FheProcessor, ops::{is_invalid_load_store_alignment, is_invalid_load_store_width}},
     tomasulo::{registers::RobEntryRef, tomasulo_processor::RetirementInfo},
     unwrap_registers,
 };
@@ -30,6 +30,10 @@ impl FheProcessor {
                 Register::Plaintext { val: ptr, width: _ } => {
                     let base_addr = *ptr as u32;
 
+                    if is_invalid_load_store_width(width) {
+                        return Err(Error::unsupported_width(instruction_id, pc));
+                    }
+
                     let num_bytes = width / 8;
 
                     let base_addr = Ptr32::from(base_addr).try_signed_offset(offset)?;
-- 
2.43.0


From 07811f0040170ec4e8cecd19d41eefed618f84a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:10 +0000
Subject: [PATCH 36/49] fix: an instruction refused while being dispatched is
 not waited for

---
 parasol_cpu/src/proc/fhe_processor.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parasol_cpu/src/proc/fhe_processor.rs b/parasol_cpu/src/proc/fhe_processor.rs
index 258aa9c..b8510fc 100644
--- a/parasol_cpu/src/proc/fhe_processor.rs
+++ b/parasol_cpu/src/proc/fhe_processor.rs
@@ -357,7 +357,6 @@ impl FheProcessor {
         scoreboard_entry.set_instruction(&disp_inst);
 
         self.current_instruction += 1;
-        self.instructions_inflight += 1;
 
         // Increment our dependency count to 1 to prevent any dependents
         // from issuing our new instruction until we've finished processing
@@ -373,6 +372,9 @@ impl FheProcessor {
             pc,
         )?;
 
+        // From here on the instruction will be executed and retired.
+        self.instructions_inflight += 1;
+
         for dep in deps.into_iter().flatten() {
             // If we take a dependency on ourself, we somehow fucked up.
             assert_ne!(dep.id, scoreboard_entry.id);
-- 
2.43.0


From e3ec204f3c819746f9e3b02f481bd46c255c80c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:10 +0000
Subject: [PATCH 37/49] fix: addresses and branch conditions are read once they
 have been computed

---
 parasol_cpu/src/proc/fhe_processor.rs | 80 ++++++++++++++++++++-------
 1 file changed, 60 insertions(+), 20 deletions(-)

diff --git a/parasol_cpu/src/proc/fhe_processor.rs b/parasol_cpu/src/proc/fhe_processor.rs
index b8510fc..65cfc3b 100644
--- a/parasol_cpu/src/proc/fhe_processor.rs
+++ b/parasol_cpu/src/proc/fhe_processor.rs
@@ -320,6 +320,15 @@ impl FheProcessor {
 
         inst.validate(self.current_instruction, pc)?;
 
+        // Addresses and branch conditions are read while dispatching.
+        match inst {
+            IsaOp::Load(_, addr, _, _) => self.wait_for_register(addr, options)?,
+            IsaOp::Store(addr, _, _, _) => self.wait_for_register(addr, options)?,
+            IsaOp::BranchNonZero(cond, _) => self.wait_for_register(cond, options)?,
+            IsaOp::BranchZero(cond, _) => self.wait_for_register(cond, options)?,
+            _ => {}
+        };
+
         let srcs = (&self.registers, ());
 
         if options.log_instruction_execution {
@@ -406,6 +415,29 @@ impl FheProcessor {
         Ok((next_pc, gas))
     }
 
+    /// Process instructions until the one producing the given register's value (if any) has
+    /// executed.
+    fn wait_for_register(
+        &mut self,
+        register: RegisterName<Register>,
+        options: &RunProgramOptions,
+    ) -> Result<()> {
+        if let Some(producer) = self.registers.get_instruction(register) {
+            // Executing an instruction takes it out of its scoreboard entry.
+            while producer.instruction.borrow().is_some() {
+                let ready = self.ready_instructions.1.recv().unwrap();
+
+                self.process_instruction_operation(ready, options);
+            }
+        }
+
+        // If an instruction faulted, the register may hold no value.
+        match self.aux_data.fault.get() {
+            Some(e) => Err(e.clone()),
+            None => Ok(()),
+        }
+    }
+
     fn execute_ready_instructions(&mut self, blocking: bool, options: &RunProgramOptions) {
         // Finally, attempt to execute any ready instructions
         loop {
@@ -439,29 +471,37 @@ impl FheProcessor {
                 trace!("Instructions remaining {}", self.instructions_inflight);
             }
 
-            match ready {
-                InstructionOperation::Retire(Ok(v)) => {
-                    if options.log_instruction_execution {
-                        debug!("retired id={} pc={}", v.id, v.pc);
-                    }
+            self.process_instruction_operation(ready, options);
+        }
+    }
 
-                    self.instructions_inflight -= 1;
+    fn process_instruction_operation(
+        &mut self,
+        operation: InstructionOperation<DispatchIsaOp>,
+        options: &RunProgramOptions,
+    ) {
+        match operation {
+            InstructionOperation::Retire(Ok(v)) => {
+                if options.log_instruction_execution {
+                    debug!("retired id={} pc={}", v.id, v.pc);
                 }
-                InstructionOperation::Retire(Err(e)) => {
-                    error!("retire error e={e}");
 
-                    // This should already be set in `retire`, but let's do this for safety
-                    // just in case we later add another sender codepath to the retirement channel.
-                    let _ = self.aux_data.fault.set(e);
-                    self.instructions_inflight -= 1;
-                }
-                InstructionOperation::Exec(v) => {
-                    self.exec_instruction(
-                        v.clone(),
-                        self.make_retirement_info(&v, &self.aux_data.fault),
-                        options,
-                    );
-                }
+                self.instructions_inflight -= 1;
+            }
+            InstructionOperation::Retire(Err(e)) => {
+                error!("retire error e={e}");
+
+                // This should already be set in `retire`, but let's do this for safety
+                // just in case we later add another sender codepath to the retirement channel.
+                let _ = self.aux_data.fault.set(e);
+                self.instructions_inflight -= 1;
+            }
+            InstructionOperation::Exec(v) => {
+                self.exec_instruction(
+                    v.clone(),
+                    self.make_retirement_info(&v, &self.aux_data.fault),
+                    options,
+                );
             }
         }
     }
-- 
2.43.0


From 1900ad245c3ff75323ac7f698bbdf14b34a7d395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:10 +0000
Subject: [PATCH 38/49] fix: the gas limit bounds the gas of the whole program

---
 parasol_cpu/src/proc/fhe_processor.rs | 56 +++++++++++++--------------
 1 file changed, 26 insertions(+), 30 deletions(-)

diff --git a/parasol_cpu/src/proc/fhe_processor.rs b/parasol_cpu/src/proc/fhe_processor.rs
index 65cfc3b..091113d 100644
--- a/parasol_cpu/src/proc/fhe_processor.rs
+++ b/parasol_cpu/src/proc/fhe_processor.rs
@@ -129,6 +129,9 @@ where
     ),
 
     pub debug_handlers: Vec<DebugHandler>,
+
+    /// The gas used by the instructions executed so far.
+    gas_used: u32,
 }
 
 impl FheProcessor {
@@ -143,6 +146,7 @@ impl FheProcessor {
             instructions_inflight: 0,
             ready_instructions: mpsc::channel(),
             debug_handlers: vec![],
+            gas_used: 0,
         }
     }
 
@@ -315,7 +319,7 @@ impl FheProcessor {
         inst: IsaOp,
         pc: u32,
         options: &RunProgramOptions,
-    ) -> Result<(u32, u32)> {
+    ) -> Result<u32> {
         use crate::tomasulo::{GetDeps, ToDispatchedOp};
 
         inst.validate(self.current_instruction, pc)?;
@@ -355,14 +359,6 @@ impl FheProcessor {
         let disp_inst =
             inst.to_dispatched_op(srcs, scoreboard_entry.clone(), self.current_instruction, pc)?;
 
-        let gas = self.compute_gas(&disp_inst);
-
-        if let Some(gas_limit) = options.gas_limit {
-            if gas > gas_limit {
-                return Err(Error::OutOfGas(gas, gas_limit));
-            }
-        }
-
         scoreboard_entry.set_instruction(&disp_inst);
 
         self.current_instruction += 1;
@@ -410,9 +406,7 @@ impl FheProcessor {
         // Execute any ready instructions (possibly including the one we just dispatched)
         self.execute_ready_instructions(false, options);
 
-        let next_pc = self.next_program_counter(disp_inst, pc)?;
-
-        Ok((next_pc, gas))
+        self.next_program_counter(disp_inst, pc)
     }
 
     /// Process instructions until the one producing the given register's value (if any) has
@@ -647,6 +641,7 @@ impl FheProcessor {
         }
 
         self.debug_handlers = vec![];
+        self.gas_used = 0;
 
         // Clear any fault
         self.aux_data.fault = Arc::new(OnceLock::new());
@@ -685,8 +680,6 @@ impl FheProcessor {
         args: &CallData<T>,
         options: &RunProgramOptions,
     ) -> Result<(u32, T)> {
-        let gas_limit = options.gas_limit();
-
         self.reset()?;
         let return_data = self.set_up_function_call(memory, args)?;
         self.aux_data.memory = Some(memory.clone());
@@ -694,7 +687,6 @@ impl FheProcessor {
 
         let mut run_program_impl = || {
             self.pc = initial_pc.0;
-            let mut gas = 0;
 
             loop {
                 // If an async error occurred, stop issuing new instructions.
@@ -708,10 +700,7 @@ impl FheProcessor {
                 let pc_result = self.dispatch_instruction(inst, self.pc, options);
 
                 match pc_result {
-                    Ok((next_pc, used_gas)) => {
-                        gas += used_gas;
-                        self.pc = next_pc;
-                    }
+                    Ok(next_pc) => self.pc = next_pc,
                     Err(e) => match e {
                         // Halt isn't a true error, but rather we ran out of instructions
                         // to execute.
@@ -721,18 +710,14 @@ impl FheProcessor {
                 }
             }
 
-            Ok::<_, Error>(gas)
+            Ok::<_, Error>(())
         };
 
-        let gas = match run_program_impl() {
-            Ok(gas) => gas,
-            Err(e) => {
-                // Attempt to overwrite the current fault. If the frontend returned
-                // an error due to a previous fault, this will fail, but whatever.
-                let _ = self.aux_data.fault.set(e);
-                gas_limit.unwrap_or_default()
-            }
-        };
+        if let Err(e) = run_program_impl() {
+            // Attempt to overwrite the current fault. If the frontend returned
+            // an error due to a previous fault, this will fail, but whatever.
+            let _ = self.aux_data.fault.set(e);
+        }
 
         self.wait(options);
 
@@ -745,7 +730,7 @@ impl FheProcessor {
         }
 
         self.try_capture_return_value(memory, args, return_data)
-            .map(|ret_val| (gas, ret_val))
+            .map(|ret_val| (self.gas_used, ret_val))
     }
 
     /// Runs the given program using the passed user `data` as arguments.
@@ -801,6 +786,17 @@ impl Tomasulo for FheProcessor {
             return;
         }
 
+        // The cost depends on the instruction's operands, which are only known by now.
+        self.gas_used = self.gas_used.saturating_add(self.compute_gas(&instruction));
+
+        if let Some(gas_limit) = options.gas_limit {
+            if self.gas_used > gas_limit {
+                let err = Error::OutOfGas(self.gas_used, gas_limit);
+                FheProcessor::retire(&retirement_info, Err(err));
+                return;
+            }
+        }
+
         match instruction {
             Load(dst, src, width, offset) => {
                 self.load(
-- 
2.43.0


From 06961328186b8abf6d6db1cc5d7cb983f02723bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:01 +0000
Subject: [PATCH 39/49] fix: running a program takes its call data off the
 stack again

---
 parasol_cpu/src/memory/mod.rs         |  5 +++++
 parasol_cpu/src/proc/fhe_processor.rs | 20 ++++++++++++++++++--
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/parasol_cpu/src/memory/mod.rs b/parasol_cpu/src/memory/mod.rs
index 131b5ab..0c94cc0 100644
--- a/parasol_cpu/src/memory/mod.rs
+++ b/parasol_cpu/src/memory/mod.rs
@@ -502,6 +502,11 @@ impl Memory {
         *self.stack_ptr.lock().unwrap()
     }
 
+    /// Set the current stack pointer, e.g. back to what it was before a call.
+    pub(crate) fn set_stack_ptr(&self, stack_ptr: Ptr32) {
+        *self.stack_ptr.lock().unwrap() = stack_ptr;
+    }
+
     /// Allocates `len / PAGE_SIZE` pages starting at `virtual_address`.
     ///
     /// # Remarks
diff --git a/parasol_cpu/src/proc/fhe_processor.rs b/parasol_cpu/src/proc/fhe_processor.rs
index 091113d..cce1c0a 100644
--- a/parasol_cpu/src/proc/fhe_processor.rs
+++ b/parasol_cpu/src/proc/fhe_processor.rs
@@ -679,13 +679,29 @@ impl FheProcessor {
         initial_pc: Ptr32,
         args: &CallData<T>,
         options: &RunProgramOptions,
+    ) -> Result<(u32, T)> {
+        let stack_ptr = memory.stack_ptr();
+        let result = self.run_program_impl(memory, initial_pc, args, options);
+
+        // Take the call data off the stack.
+        memory.set_stack_ptr(stack_ptr);
+
+        result
+    }
+
+    fn run_program_impl<T: ToArg>(
+        &mut self,
+        memory: &Arc<Memory>,
+        initial_pc: Ptr32,
+        args: &CallData<T>,
+        options: &RunProgramOptions,
     ) -> Result<(u32, T)> {
         self.reset()?;
         let return_data = self.set_up_function_call(memory, args)?;
         self.aux_data.memory = Some(memory.clone());
         self.debug_handlers = options.debug_handlers.clone();
 
-        let mut run_program_impl = || {
+        let mut issue_instructions = || {
             self.pc = initial_pc.0;
 
             loop {
@@ -713,7 +729,7 @@ impl FheProcessor {
             Ok::<_, Error>(())
         };
 
-        if let Err(e) = run_program_impl() {
+        if let Err(e) = issue_instructions() {
             // Attempt to overwrite the current fault. If the frontend returned
             // an error due to a previous fault, this will fail, but whatever.
             let _ = self.aux_data.fault.set(e);
-- 
2.43.0


From 86c847912806338ba2be14a2aadd69c67359ed34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:01 +0000
Subject: [PATCH 40/49] fix: call data is aligned for arguments of more than 16
 bytes

---
 parasol_cpu/src/proc/args.rs          | 16 ++++++++++++++++
 parasol_cpu/src/proc/fhe_processor.rs |  2 +-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/parasol_cpu/src/proc/args.rs b/parasol_cpu/src/proc/args.rs
index 61742a7..f2b9c09 100644
--- a/parasol_cpu/src/proc/args.rs
+++ b/parasol_cpu/src/proc/args.rs
@@ -533,6 +533,22 @@ impl<T> CallData<T> {
 
         offset
     }
+
+    /// The alignment of the call data: 16 bytes, or what the arguments and return value need.
+    pub(crate) fn alignment(&self) -> usize {
+        let return_alignment = if self.return_value.size > 0 {
+            self.return_value.alignment
+        } else {
+            1
+        };
+
+        self.args
+            .iter()
+            .map(|x| x.alignment)
+            .chain([16, return_alignment])
+            .max()
+            .unwrap()
+    }
 }
 
 #[cfg(test)]
diff --git a/parasol_cpu/src/proc/fhe_processor.rs b/parasol_cpu/src/proc/fhe_processor.rs
index cce1c0a..84e7ffd 100644
--- a/parasol_cpu/src/proc/fhe_processor.rs
+++ b/parasol_cpu/src/proc/fhe_processor.rs
@@ -585,7 +585,7 @@ impl FheProcessor {
 
         memory.try_push_arg_onto_stack(&Arg {
             bytes: vec![Byte::Plaintext(0); call_data_size],
-            alignment: 16,
+            alignment: args.alignment(),
         })?;
 
         let sp = memory.stack_ptr();
-- 
2.43.0


From eb5eaf43e3c6c996f50e794913f4e4a5ddb55960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:01 +0000
Subject: [PATCH 41/49] fix: reading an array argument back strips its
 elements' padding

---
 parasol_cpu/src/proc/args.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/parasol_cpu/src/proc/args.rs b/parasol_cpu/src/proc/args.rs
index f2b9c09..3d7aee1 100644
--- a/parasol_cpu/src/proc/args.rs
+++ b/parasol_cpu/src/proc/args.rs
@@ -305,16 +305,16 @@ impl<const N: usize, T: ToArg> ToArg for [T; N] {
             return Ok(as_vec.unwrap_or_else(|_| unreachable!()));
         }
 
+        if data.len() != Self::size() {
+            return Err(Error::TypeSizeMismatch);
+        }
+
         let as_vec = data
             // Strip off the padding and recreate the Ts
             .chunks(T::size().next_multiple_of(T::alignment()))
-            .map(|x| T::try_from_bytes(x.to_owned()))
+            .map(|x| T::try_from_bytes(x[..T::size()].to_owned()))
             .collect::<Result<Vec<_>>>()?;
 
-        if as_vec.len() != N {
-            return Err(Error::TypeSizeMismatch);
-        }
-
         Ok(as_vec.try_into().unwrap_or_else(|_| unreachable!()))
     }
 }
-- 
2.43.0


From 43d1684b476bab679a6e721a9663247ad405bb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:19 +0000
Subject: [PATCH 42/49] fix: merging equal multiplexers that use one input
 twice

A node that feeds another on several wires appears several times among its
neighbours. Its duplicate was then removed repeatedly, with its wires moved
each time; and wires were moved to nodes already removed in the same pass.
---
 mux_circuits/src/opt.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/mux_circuits/src/opt.rs b/mux_circuits/src/opt.rs
index 21029ed..4e2ef47 100644
--- a/mux_circuits/src/opt.rs
+++ b/mux_circuits/src/opt.rs
@@ -336,10 +336,18 @@ pub(crate) fn common_subexpression_elimination<O: Operation, E: Clone + Copy + E
         let mut visited_nodes =
             HashMap::<(NodeIndex, Option<NodeIndex>, Option<NodeIndex>, &O), NodeIndex>::new();
 
+        // A child appears once per edge among the neighbors, but must be considered once.
+        let mut seen_nodes = HashSet::new();
+        let mut removed_nodes = HashSet::new();
+
         // Look through out immediate children. If we find any of the
         // type that share an edge with another node, consolidate them into
         // one and fix up their outputs.
         for e in query.neighbors_directed(index, Direction::Outgoing) {
+            if !seen_nodes.insert(e) {
+                continue;
+            }
+
             // Unwrapping is okay because index e is a node in the graph.
             let child_node = query.get_node(e).unwrap();
 
@@ -349,6 +357,10 @@ pub(crate) fn common_subexpression_elimination<O: Operation, E: Clone + Copy + E
                 let node_to_add = TransformNodeIndex::NodeIndex(node_to_add);
 
                 for e in query.edges_directed(removed_node, Direction::Outgoing) {
+                    if removed_nodes.contains(&e.target()) {
+                        continue;
+                    }
+
                     let edge = TransformNodeIndex::NodeIndex(e.target());
                     let info = e.weight();
 
@@ -358,6 +370,7 @@ pub(crate) fn common_subexpression_elimination<O: Operation, E: Clone + Copy + E
                 transforms.push(Transform::RemoveNode(TransformNodeIndex::NodeIndex(
                     removed_node,
                 )));
+                removed_nodes.insert(removed_node);
             };
 
             let child_op = child_node;
-- 
2.43.0


From 6925e2e0d64792024a8461d8adda325c3b0ecf13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:19 +0000
Subject: [PATCH 43/49] fix: evaluating a multiplexer circuit gives its outputs
 in order

---
 mux_circuits/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mux_circuits/src/lib.rs b/mux_circuits/src/lib.rs
index 6ce161b..37ae328 100644
--- a/mux_circuits/src/lib.rs
+++ b/mux_circuits/src/lib.rs
@@ -506,7 +506,7 @@ pub fn test_mux_circuit(circuit: &MuxCircuit, inputs: &[Bit]) -> Vec<Bit> {
         })
         .collect::<Vec<_>>();
 
-    outputs.sort();
+    outputs.sort_by_key(|(_, idx)| *idx);
     outputs.iter().map(|(x, _)| Bit(data[x.index()])).collect()
 }
 
-- 
2.43.0


From 42cac257786f742b538330c34516da5f242a2a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:52 +0000
Subject: [PATCH 44/49] fix: multiplying keeps the nodes of the circuit built
 so far

---
 .../fluent/dynamic_generic_int_graph_nodes.rs | 42 +++++++------------
 1 file changed, 16 insertions(+), 26 deletions(-)

diff --git a/parasol_runtime/src/fluent/dynamic_generic_int_graph_nodes.rs b/parasol_runtime/src/fluent/dynamic_generic_int_graph_nodes.rs
index f674268..5cb3648 100644
--- a/parasol_runtime/src/fluent/dynamic_generic_int_graph_nodes.rs
+++ b/parasol_runtime/src/fluent/dynamic_generic_int_graph_nodes.rs
@@ -6,7 +6,7 @@ use mux_circuits::{
     sub::full_subtractor,
 };
 use petgraph::stable_graph::NodeIndex;
-use std::marker::PhantomData;
+use std::{collections::HashSet, marker::PhantomData};
 
 use crate::{
     Encryption, FheEdge, FheOp, L1GgswCiphertext, L1GlweCiphertext,
@@ -14,7 +14,6 @@ use crate::{
         BitNode, CiphertextOps, DynamicGenericInt, FheCircuitCtx, Muxable,
         PackedDynamicGenericIntGraphNode, Sign,
     },
-    prune,
 };
 
 /// A collection of graph nodes resulting from FHE operations over dynamic generic integers (e.g. the
@@ -484,35 +483,26 @@ impl<'a, V: Sign> DynamicGenericIntGraphNodes<'a, L1GgswCiphertext, V> {
 
         let mut circuit_mut = ctx.circuit.borrow_mut();
 
-        // TODO: introduce a mul_lo so we don't have to do this pruning in the first place.
-        let existing_outputs = circuit_mut
-            .node_indices()
-            .filter(|x| {
-                let node_type = matches!(
-                    circuit_mut.node_weight(*x).unwrap(),
-                    FheOp::OutputGgsw1(_)
-                        | FheOp::OutputGlev1(_)
-                        | FheOp::OutputGlwe1(_)
-                        | FheOp::OutputLwe0(_)
-                        | FheOp::OutputLwe1(_)
-                );
-
-                node_type
-                    && circuit_mut
-                        .neighbors_directed(*x, petgraph::Direction::Outgoing)
-                        .count()
-                        == 0
-            })
-            .collect::<Vec<_>>();
+        let existing = circuit_mut.node_indices().collect::<HashSet<_>>();
 
         let (lo, _hi) = V::append_multiply::<OutCt>(&mut circuit_mut, &a, &b);
 
-        let to_keep = [lo.clone(), existing_outputs].concat();
+        // TODO: introduce a mul_lo so we don't have to do this pruning in the first place.
+        //
+        // Remove what only the high word needs. Nodes keep their indices, as callers hold on to
+        // those they have already created.
+        let mut needed = HashSet::new();
+        let mut queue = lo.clone();
+
+        while let Some(x) = queue.pop() {
+            if !existing.contains(&x) && needed.insert(x) {
+                queue.extend(circuit_mut.neighbors_directed(x, petgraph::Direction::Incoming));
+            }
+        }
 
-        let (pruned, rename) = prune(&circuit_mut, &to_keep);
-        circuit_mut.graph = pruned;
+        circuit_mut.retain_nodes(|_, x| existing.contains(&x) || needed.contains(&x));
 
-        let lo = lo.into_iter().map(|x| *rename.get(&x).unwrap());
+        let lo = lo.into_iter();
 
         DynamicGenericIntGraphNodes::from_nodes(lo, &ctx.allocator)
     }
-- 
2.43.0


From 42c23e9d581a777996d77a5821bb35b42aa5f1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:53 +0000
Subject: [PATCH 45/49] fix: trivial GLEV bits in circuits

---
 parasol_runtime/src/fluent/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parasol_runtime/src/fluent/mod.rs b/parasol_runtime/src/fluent/mod.rs
index 2eb68b9..dbded84 100644
--- a/parasol_runtime/src/fluent/mod.rs
+++ b/parasol_runtime/src/fluent/mod.rs
@@ -50,8 +50,8 @@ pub use uint::*;
 pub struct FheCircuitCtx {
     /// The underlying [`FheCircuit`].
     pub circuit: AtomicRefCell<FheCircuit>,
-    one_cache: AtomicRefCell<[Option<NodeIndex>; 4]>,
-    zero_cache: AtomicRefCell<[Option<NodeIndex>; 4]>,
+    one_cache: AtomicRefCell<[Option<NodeIndex>; 5]>,
+    zero_cache: AtomicRefCell<[Option<NodeIndex>; 5]>,
     allocator: Bump,
 }
 
@@ -66,8 +66,8 @@ impl FheCircuitCtx {
     pub fn new() -> Self {
         Self {
             circuit: AtomicRefCell::new(FheCircuit::new()),
-            one_cache: AtomicRefCell::new([None; 4]),
-            zero_cache: AtomicRefCell::new([None; 4]),
+            one_cache: AtomicRefCell::new([None; 5]),
+            zero_cache: AtomicRefCell::new([None; 5]),
             allocator: Bump::new(),
         }
     }
-- 
2.43.0


From 39f10913dd5a4daec0c38743f125eae060795ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:53 +0000
Subject: [PATCH 46/49] fix: multiplying operands of which only the longer is
 partitioned

---
 parasol_runtime/src/circuits/mul.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/parasol_runtime/src/circuits/mul.rs b/parasol_runtime/src/circuits/mul.rs
index 7185e79..a9a6f1b 100644
--- a/parasol_runtime/src/circuits/mul.rs
+++ b/parasol_runtime/src/circuits/mul.rs
@@ -130,9 +130,9 @@ fn mul_impl<OutCt: Muxable>(
 
         let adder_inputs = hi
             .iter()
-            .zip(a_hi_b_lo.iter().take(a_lo_len))
+            .zip(a_hi_b_lo.iter().take(b_lo_len))
             .flat_map(|(x, y)| [*x, *y])
-            .chain(a_hi_b_lo.iter().skip(a_lo_len).copied())
+            .chain(a_hi_b_lo.iter().skip(b_lo_len).copied())
             .map(|x| {
                 insert_ciphertext_conversion(
                     uop_graph,
@@ -143,11 +143,13 @@ fn mul_impl<OutCt: Muxable>(
             }) // Convert the ciphertexts back to GGSW
             .collect::<Vec<_>>();
 
+        // The product fits, so there's never a carry out.
         let sum_out = uop_graph.insert_mux_circuit(&adder, &adder_inputs, OutCt::MUX_MODE);
+        let sum_out = &sum_out[..a_hi_len + b_lo_len];
 
         assert_eq!(lo.len() + sum_out.len(), a.len() + b.len());
 
-        [lo, &sum_out].concat()
+        [lo, sum_out].concat()
     } else {
         // If both operands have high and low pieces, recursively compute the 4
         // partial products and reduce.
-- 
2.43.0


From 30077efbb3811cb35ce929ef941a03898447f77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:06 +0000
Subject: [PATCH 47/49] fix: reducing partial products that are GLEV
 ciphertexts

---
 parasol_runtime/src/circuits/mul.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parasol_runtime/src/circuits/mul.rs b/parasol_runtime/src/circuits/mul.rs
index a9a6f1b..ca4fa1c 100644
--- a/parasol_runtime/src/circuits/mul.rs
+++ b/parasol_runtime/src/circuits/mul.rs
@@ -182,7 +182,7 @@ fn mul_impl<OutCt: Muxable>(
                 insert_ciphertext_conversion(
                     uop_graph,
                     x,
-                    CiphertextType::L1GlweCiphertext,
+                    OutCt::CIPHERTEXT_TYPE,
                     CiphertextType::L1GgswCiphertext,
                 )
             })
-- 
2.43.0


From 3edcb4fed667cbf9fd3cf46c12f946089e74a44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:06 +0000
Subject: [PATCH 48/49] fix: comparing signed integers of different widths

---
 .../fluent/dynamic_generic_int_graph_nodes.rs | 30 +++++++++----------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/parasol_runtime/src/fluent/dynamic_generic_int_graph_nodes.rs b/parasol_runtime/src/fluent/dynamic_generic_int_graph_nodes.rs
index 5cb3648..5ba7784 100644
--- a/parasol_runtime/src/fluent/dynamic_generic_int_graph_nodes.rs
+++ b/parasol_runtime/src/fluent/dynamic_generic_int_graph_nodes.rs
@@ -218,15 +218,15 @@ impl<'a, V: Sign> DynamicGenericIntGraphNodes<'a, L1GgswCiphertext, V> {
         let max_len = m.max(n);
         let mux_circuit = V::gen_compare_circuit(max_len, gt, eq);
 
-        let zero = ctx.circuit.borrow_mut().add_node(FheOp::ZeroGgsw1);
+        // Extend the shorter operand as its sign demands.
+        let a = self.resize(ctx, max_len);
+        let b = other.resize(ctx, max_len);
 
-        let interleaved = self
+        let interleaved = a
             .bits
             .iter()
-            .zip(other.bits.iter())
+            .zip(b.bits.iter())
             .flat_map(|(a, b)| [a.node, b.node])
-            .chain(self.bits.iter().skip(m).flat_map(|x| [x.node, zero]))
-            .chain(other.bits.iter().skip(n).flat_map(|x| [zero, x.node]))
             .collect::<Vec<_>>();
 
         let cmp_result = ctx.circuit.borrow_mut().insert_mux_circuit(
@@ -257,15 +257,15 @@ impl<'a, V: Sign> DynamicGenericIntGraphNodes<'a, L1GgswCiphertext, V> {
         let max_len = m.max(n);
         let mux_circuit = compare_equal(max_len);
 
-        let zero = ctx.circuit.borrow_mut().add_node(FheOp::ZeroGgsw1);
+        // Extend the shorter operand as its sign demands.
+        let a = self.resize(ctx, max_len);
+        let b = other.resize(ctx, max_len);
 
-        let interleaved = self
+        let interleaved = a
             .bits
             .iter()
-            .zip(other.bits.iter())
+            .zip(b.bits.iter())
             .flat_map(|(a, b)| [a.node, b.node])
-            .chain(self.bits.iter().skip(m).flat_map(|x| [x.node, zero]))
-            .chain(other.bits.iter().skip(n).flat_map(|x| [zero, x.node]))
             .collect::<Vec<_>>();
 
         let eq = ctx.circuit.borrow_mut().insert_mux_circuit(
@@ -296,15 +296,15 @@ impl<'a, V: Sign> DynamicGenericIntGraphNodes<'a, L1GgswCiphertext, V> {
         let max_len = m.max(n);
         let mux_circuit = compare_not_equal(max_len);
 
-        let zero = ctx.circuit.borrow_mut().add_node(FheOp::ZeroGgsw1);
+        // Extend the shorter operand as its sign demands.
+        let a = self.resize(ctx, max_len);
+        let b = other.resize(ctx, max_len);
 
-        let interleaved = self
+        let interleaved = a
             .bits
             .iter()
-            .zip(other.bits.iter())
+            .zip(b.bits.iter())
             .flat_map(|(a, b)| [a.node, b.node])
-            .chain(self.bits.iter().skip(m).flat_map(|x| [x.node, zero]))
-            .chain(other.bits.iter().skip(n).flat_map(|x| [zero, x.node]))
             .collect::<Vec<_>>();
 
         let eq = ctx.circuit.borrow_mut().insert_mux_circuit(
-- 
2.43.0


From e25aead1f9092963a16bc2f525252a5cd0731e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:40 +0000
Subject: [PATCH 49/49] fix: plaintexts of integers wider than 128 bits

---
 parasol_runtime/src/fluent/int.rs  | 14 ++++++++++----
 parasol_runtime/src/fluent/uint.rs |  8 +++++---
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/parasol_runtime/src/fluent/int.rs b/parasol_runtime/src/fluent/int.rs
index 57e8372..03e5ba6 100644
--- a/parasol_runtime/src/fluent/int.rs
+++ b/parasol_runtime/src/fluent/int.rs
@@ -19,17 +19,22 @@ pub struct Signed;
 
 impl PlaintextOps for i128 {
     fn assert_in_bounds(&self, bits: usize) {
+        if bits >= 128 {
+            return;
+        }
+
         let max_val = ((0x1u128 << (bits - 1)) - 1).cast_signed();
         let min_val = -(0x1u128 << (bits - 1)).cast_signed();
 
-        assert!(bits == 128 || *self <= max_val);
-        assert!(bits == 128 || *self >= min_val);
+        assert!(*self <= max_val);
+        assert!(*self >= min_val);
     }
 
     fn from_bits<I: Iterator<Item = bool>>(bits: I) -> Self {
         let mut num_bits = 0;
 
-        let mut val = bits.enumerate().fold(0i128, |s, (i, x)| {
+        // Bits beyond the plaintext type's don't matter.
+        let mut val = bits.take(128).enumerate().fold(0i128, |s, (i, x)| {
             num_bits += 1;
             s | ((x as i128) << i)
         });
@@ -45,7 +50,8 @@ impl PlaintextOps for i128 {
     }
 
     fn to_bits(&self, len: usize) -> impl Iterator<Item = bool> {
-        (0..len).map(|i| ((*self >> i) & 0x1) == 0x1)
+        // Sign extend when there are more bits than in the plaintext type.
+        (0..len).map(|i| ((*self >> i.min(127)) & 0x1) == 0x1)
     }
 }
 
diff --git a/parasol_runtime/src/fluent/uint.rs b/parasol_runtime/src/fluent/uint.rs
index f81e38d..aff9109 100644
--- a/parasol_runtime/src/fluent/uint.rs
+++ b/parasol_runtime/src/fluent/uint.rs
@@ -19,16 +19,18 @@ pub struct Unsigned;
 
 impl PlaintextOps for u128 {
     fn assert_in_bounds(&self, bits: usize) {
-        assert!(bits == 128 || *self < 0x1 << bits);
+        assert!(bits >= 128 || *self < 0x1 << bits);
     }
 
     fn from_bits<I: Iterator<Item = bool>>(iter: I) -> Self {
-        iter.enumerate()
+        // Bits beyond the plaintext type's don't matter.
+        iter.take(128)
+            .enumerate()
             .fold(0u128, |s, (i, x)| s | ((x as u128) << i))
     }
 
     fn to_bits(&self, len: usize) -> impl Iterator<Item = bool> {
-        (0..len).map(|i| ((*self >> i) & 0x1) == 0x1)
+        (0..len).map(|i| i < 128 && ((*self >> i) & 0x1) == 0x1)
     }
 }
 
-- 
2.43.0

