From ea364f92122ef1589596752671337221bec0b744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:10 +0000
Subject: [PATCH 1/6] fix: ChaCha RNG get_block_pos must not overflow after the
 block counter wraps

---
 chacha20/src/rng.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/chacha20/src/rng.rs b/chacha20/src/rng.rs
index d8c2824..b4abd56 100644
--- a/chacha20/src/rng.rs
+++ b/chacha20/src/rng.rs
@@ -252,7 +252,10 @@ macro_rules! impl_chacha_rng {
                 let counter = self.core.core.get_block_pos();
                 let offset = self.core.word_offset();
                 if offset != 0 {
-                    counter - u64::from(BUF_BLOCKS) + offset as u64 / u64::from(BLOCK_WORDS)
+                    // The block counter wraps around at the end of the keystream.
+                    counter
+                        .wrapping_sub(u64::from(BUF_BLOCKS))
+                        .wrapping_add(offset as u64 / u64::from(BLOCK_WORDS))
                 } else {
                     counter
                 }
-- 
2.43.0


From db0052e7b084cecb1c08d7078283d1543abc9886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:10 +0000
Subject: [PATCH 2/6] fix: Salsa20 backend must not overflow when generating
 the last keystream block

---
 salsa20/src/backends/soft.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salsa20/src/backends/soft.rs b/salsa20/src/backends/soft.rs
index caf2693..7c3c0fd 100644
--- a/salsa20/src/backends/soft.rs
+++ b/salsa20/src/backends/soft.rs
@@ -22,7 +22,7 @@ impl<R: Unsigned> StreamCipherBackend for Backend<'_, R> {
     fn gen_ks_block(&mut self, block: &mut Block<Self>) {
         let res = run_rounds::<R>(&self.0.state);
 
-        self.0.set_block_pos(self.0.get_block_pos() + 1);
+        self.0.set_block_pos(self.0.get_block_pos().wrapping_add(1));
 
         for (chunk, val) in block.chunks_exact_mut(4).zip(res.iter()) {
             chunk.copy_from_slice(&val.to_le_bytes());
-- 
2.43.0


From d5008b3d8e5fc05e31817967616d4e286907ca36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:33 +0000
Subject: [PATCH 3/6] fix: use a 64-bit counter for all blocks of an SSE2 or
 NEON RNG batch

With the 32-bit counter variant SSE2 wrapped the counter inside a batch of
four blocks but carried between batches, and NEON always wrapped, unlike the
portable and AVX2 backends.
---
 chacha20/src/backends/neon.rs | 5 +++--
 chacha20/src/backends/sse2.rs | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/chacha20/src/backends/neon.rs b/chacha20/src/backends/neon.rs
index 147ebac..1eab88c 100644
--- a/chacha20/src/backends/neon.rs
+++ b/chacha20/src/backends/neon.rs
@@ -10,7 +10,7 @@ use crate::{Rounds, STATE_WORDS, Variant};
 use core::{arch::aarch64::*, marker::PhantomData};
 
 #[cfg(feature = "rng")]
-use crate::ChaChaCore;
+use crate::{ChaChaCore, variants::Legacy};
 
 #[cfg(feature = "cipher")]
 use crate::chacha::Block;
@@ -99,7 +99,8 @@ where
     R: Rounds,
     V: Variant,
 {
-    let mut backend = Backend::<R, V>::new(&mut core.state);
+    // RNGs use a 64-bit counter whatever the variant, same as the other backends
+    let mut backend = Backend::<R, Legacy>::new(&mut core.state);
 
     backend.write_par_ks_blocks(buffer);
 
diff --git a/chacha20/src/backends/sse2.rs b/chacha20/src/backends/sse2.rs
index f6479a1..c780971 100644
--- a/chacha20/src/backends/sse2.rs
+++ b/chacha20/src/backends/sse2.rs
@@ -9,7 +9,7 @@
 use crate::{Rounds, Variant};
 
 #[cfg(feature = "rng")]
-use crate::ChaChaCore;
+use crate::{ChaChaCore, variants::Legacy};
 
 #[cfg(feature = "cipher")]
 use crate::{STATE_WORDS, chacha::Block};
@@ -117,7 +117,8 @@ where
     V: Variant,
 {
     let state_ptr = core.state.as_ptr().cast::<__m128i>();
-    let mut backend = Backend::<R, V> {
+    // RNGs use a 64-bit counter whatever the variant, same as the other backends
+    let mut backend = Backend::<R, Legacy> {
         v: [
             _mm_loadu_si128(state_ptr.add(0)),
             _mm_loadu_si128(state_ptr.add(1)),
-- 
2.43.0


From 80399aa82782bc7faaa77c8ed9288bbd3c7a1bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:33 +0000
Subject: [PATCH 4/6] fix: seed the 32-bit counter RNG core with a nonce of the
 right length

SeedableRng::from_seed of ChaChaCore<R, Ietf> always panicked.
---
 chacha20/src/rng.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/chacha20/src/rng.rs b/chacha20/src/rng.rs
index b4abd56..0e47e63 100644
--- a/chacha20/src/rng.rs
+++ b/chacha20/src/rng.rs
@@ -37,7 +37,9 @@ impl<R: Rounds, V: Variant> SeedableRng for ChaChaCore<R, V> {
 
     #[inline]
     fn from_seed(seed: Self::Seed) -> Self {
-        ChaChaCore::new_internal(&seed, &[0u8; 8])
+        // The nonce takes what the counter leaves of the last state row
+        let nonce_len = 16 - size_of::<V::Counter>();
+        ChaChaCore::new_internal(&seed, &[0u8; 12][..nonce_len])
     }
 }
 
-- 
2.43.0


From cf7e1a798b76dc8cf0f2fe330d3d2fdafce398f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 5/6] fix: the SSE2 backend must not use an SSE4.1 instruction

_mm_extract_epi32 is pextrd, which a CPU with SSE2 only does not have.
---
 chacha20/src/backends/sse2.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/chacha20/src/backends/sse2.rs b/chacha20/src/backends/sse2.rs
index c780971..5357b46 100644
--- a/chacha20/src/backends/sse2.rs
+++ b/chacha20/src/backends/sse2.rs
@@ -51,7 +51,7 @@ where
 
     state[12] = _mm_cvtsi128_si32(backend.v[3]) as u32;
     if size_of::<V::Counter>() == 8 {
-        state[13] = _mm_extract_epi32(backend.v[3], 1) as u32;
+        state[13] = _mm_cvtsi128_si32(_mm_srli_si128(backend.v[3], 4)) as u32;
     }
 }
 
@@ -131,7 +131,7 @@ where
     backend.gen_ks_blocks(buffer);
 
     core.state[12] = _mm_cvtsi128_si32(backend.v[3]) as u32;
-    core.state[13] = _mm_extract_epi32(backend.v[3], 1) as u32;
+    core.state[13] = _mm_cvtsi128_si32(_mm_srli_si128(backend.v[3], 4)) as u32;
 }
 
 #[cfg(feature = "rng")]
-- 
2.43.0


From 99481bc36574d5a49312bcef72af0b3aa23e41c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:36 +0000
Subject: [PATCH 6/6] fix: leave NEON to little-endian AArch64

The NEON backend reinterprets word vectors as byte and double-word vectors,
which on aarch64_be yields byte-swapped keystream blocks and carries that
propagate the wrong way. Use the portable backend there.
---
 chacha20/src/backends.rs | 3 ++-
 chacha20/src/lib.rs      | 2 +-
 chacha20/src/rng.rs      | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/chacha20/src/backends.rs b/chacha20/src/backends.rs
index f6305b2..945762e 100644
--- a/chacha20/src/backends.rs
+++ b/chacha20/src/backends.rs
@@ -24,7 +24,8 @@ cfg_if! {
                 pub(crate) mod sse2;
             }
         }
-    } else if #[cfg(all(target_arch = "aarch64", target_feature = "neon"))] {
+    } else if #[cfg(all(target_arch = "aarch64", target_endian = "little", target_feature = "neon"))] {
+        // assumes that the first byte of a vector is the lowest one of its first word
         pub(crate) mod neon;
     } else {
         pub(crate) mod soft;
diff --git a/chacha20/src/lib.rs b/chacha20/src/lib.rs
index dbf726c..b8ab51a 100644
--- a/chacha20/src/lib.rs
+++ b/chacha20/src/lib.rs
@@ -286,7 +286,7 @@ impl<R: Rounds, V: Variant> StreamCipherCore for ChaChaCore<R, V> {
                         }
                     }
                 }
-            } else if #[cfg(all(target_arch = "aarch64", target_feature = "neon"))] {
+            } else if #[cfg(all(target_arch = "aarch64", target_endian = "little", target_feature = "neon"))] {
                 // SAFETY: we have used conditional compilation to ensure NEON is available
                 unsafe {
                     backends::neon::inner::<R, _, V>(&mut self.state, f);
diff --git a/chacha20/src/rng.rs b/chacha20/src/rng.rs
index 0e47e63..594ca6b 100644
--- a/chacha20/src/rng.rs
+++ b/chacha20/src/rng.rs
@@ -82,7 +82,7 @@ impl<R: Rounds, V: Variant> Generator for ChaChaCore<R, V> {
                         }
                     }
                 }
-            } else if #[cfg(all(target_arch = "aarch64", target_feature = "neon"))] {
+            } else if #[cfg(all(target_arch = "aarch64", target_endian = "little", target_feature = "neon"))] {
                 // SAFETY: we have used conditional compilation to ensure NEON is available
                 unsafe {
                     backends::neon::rng_inner::<R, V>(self, buffer);
-- 
2.43.0

