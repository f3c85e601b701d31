From ae05399eb7b00ba1e1a33481fe2dc75339fff2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:03 +0000
Subject: [PATCH 1/3] fix: vector byte swaps are implemented for SSSE3

The SSSE3 target of unicode-simd's utf16/utf32 swap_endianness reached
unreachable!() on x86 CPUs without AVX2: u16x8_bswap, u32x4_bswap and
u64x2_bswap asked for SSE4.1 although pshufb is an SSSE3 instruction.
---
 crates/vsimd/src/simd128.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/crates/vsimd/src/simd128.rs b/crates/vsimd/src/simd128.rs
index 867eca3..4fb20b9 100644
--- a/crates/vsimd/src/simd128.rs
+++ b/crates/vsimd/src/simd128.rs
@@ -1,13 +1,10 @@
 #![allow(clippy::missing_transmute_annotations)]
 
-use crate::isa::{NEON, SSE2, SSE41, WASM128};
+use crate::isa::{NEON, SSE2, SSE41, SSSE3, WASM128};
 use crate::unified;
 use crate::vector::V128;
 use crate::SIMD64;
 
-#[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
-use crate::isa::SSSE3;
-
 #[cfg(any(
     any(target_arch = "x86", target_arch = "x86_64"),
     any(all(feature = "unstable", target_arch = "arm"), target_arch = "aarch64"),
@@ -643,10 +640,10 @@ pub unsafe trait SIMD128: SIMD64 {
         }
     }
 
-    /// T1: SSE41, NEON, WASM128
+    /// T1: SSSE3, NEON, WASM128
     #[inline(always)]
     fn u16x8_bswap(self, a: V128) -> V128 {
-        if matches_isa!(Self, SSE41 | WASM128) {
+        if matches_isa!(Self, SSSE3 | WASM128) {
             return self.u8x16_swizzle(a, crate::bswap::SHUFFLE_U16X8);
         }
 
@@ -661,10 +658,10 @@ pub unsafe trait SIMD128: SIMD64 {
         }
     }
 
-    /// T1: SSE41, NEON, WASM128
+    /// T1: SSSE3, NEON, WASM128
     #[inline(always)]
     fn u32x4_bswap(self, a: V128) -> V128 {
-        if matches_isa!(Self, SSE41 | WASM128) {
+        if matches_isa!(Self, SSSE3 | WASM128) {
             return self.u8x16_swizzle(a, crate::bswap::SHUFFLE_U32X4);
         }
 
@@ -679,10 +676,10 @@ pub unsafe trait SIMD128: SIMD64 {
         }
     }
 
-    /// T1: SSE41, NEON, WASM128
+    /// T1: SSSE3, NEON, WASM128
     #[inline(always)]
     fn u64x2_bswap(self, a: V128) -> V128 {
-        if matches_isa!(Self, SSE41 | WASM128) {
+        if matches_isa!(Self, SSSE3 | WASM128) {
             return self.u8x16_swizzle(a, crate::bswap::SHUFFLE_U64X2);
         }
 
-- 
2.43.0


From 862e4b92d7a6114df495ed050c1158494c9235a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:03 +0000
Subject: [PATCH 2/3] fix: par_encode returns Err when dst is too short

The documented error was only returned on the sequential path; large
inputs panicked in the slice index instead.
---
 crates/base64-simd/src/parallel.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/base64-simd/src/parallel.rs b/crates/base64-simd/src/parallel.rs
index 285860e..08c6c9a 100644
--- a/crates/base64-simd/src/parallel.rs
+++ b/crates/base64-simd/src/parallel.rs
@@ -21,8 +21,10 @@ impl Base64 {
         }
 
         let encoded_len = encoded_length_unchecked(src.len(), self.config);
+        ensure!(dst.len() >= encoded_len);
+
         let dst = unsafe { dst.into_uninit_slice() };
-        let dst = &mut dst[..encoded_len]; // panic?
+        let dst = &mut dst[..encoded_len];
 
         let chunks = (b + p) / p;
 
-- 
2.43.0


From 63f73345a986e3d1e61d5c5e91b72eed885e84aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:43 +0000
Subject: [PATCH 3/3] Verification hook: hide x86 features from detection (cfg
 vsimd_verif, off by default)

---
 crates/vsimd/src/isa.rs | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/crates/vsimd/src/isa.rs b/crates/vsimd/src/isa.rs
index 95dba94..e9f5949 100644
--- a/crates/vsimd/src/isa.rs
+++ b/crates/vsimd/src/isa.rs
@@ -1,3 +1,5 @@
+#![allow(unknown_lints, unexpected_cfgs)] // cfg(vsimd_verif)
+
 use crate::{SIMD128, SIMD256, SIMD64};
 
 pub unsafe trait InstructionSet: Copy + 'static {
@@ -133,8 +135,34 @@ macro_rules! is_feature_detected {
     }};
 }
 
+/// Verification hook, off by default: lets a test process pretend that the CPU lacks x86 features.
+#[cfg(vsimd_verif)]
+#[doc(hidden)]
+pub mod verif {
+    use core::sync::atomic::{AtomicUsize, Ordering};
+
+    const LEVELS: [&str; 4] = ["sse2", "ssse3", "sse4.1", "avx2"];
+
+    static LEVEL: AtomicUsize = AtomicUsize::new(LEVELS.len());
+
+    /// Hides every feature above the first `level` ones of sse2, ssse3, sse4.1 and avx2.
+    /// To be called before the first use of a SIMD function.
+    #[inline]
+    pub fn set_x86_level(level: usize) {
+        LEVEL.store(level, Ordering::SeqCst);
+    }
+
+    pub(super) fn is_hidden(feature: &str) -> bool {
+        LEVELS.iter().skip(LEVEL.load(Ordering::SeqCst)).any(|&f| f == feature)
+    }
+}
+
 macro_rules! x86_is_enabled {
     ($feature:tt) => {{
+        #[cfg(vsimd_verif)]
+        if verif::is_hidden($feature) {
+            return false;
+        }
         #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
         {
             is_feature_detected!($feature)
-- 
2.43.0

