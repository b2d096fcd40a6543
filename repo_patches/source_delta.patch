From 3a0b6fc4622b38e0abde62f4169ff52f2a51cdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:15 +0000
Subject: [PATCH 01/35] fix: define vmaxq_u8/u16/u32 and vminq_u8/u16/u32 on
 unsigned vectors

They were defined on signed vectors, so they compared with the wrong order and,
as overloads of the declared functions, had no C linkage and could not be linked.
---
 neon_sim.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 0e015e7..dc1d775 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -1239,9 +1239,9 @@ int32x4_t vmaxq_s32(int32x4_t N, int32x4_t M)
     return D;
 }
 
-int8x16_t vmaxq_u8(int8x16_t N, int8x16_t M)
+uint8x16_t vmaxq_u8(uint8x16_t N, uint8x16_t M)
 {
-    int8x16_t D;
+    uint8x16_t D;
     for (int i = 0; i < 16; i++)
     {
         D.val[i] = N.val[i] > M.val[i] ? N.val[i] : M.val[i];
@@ -1249,9 +1249,9 @@ int8x16_t vmaxq_u8(int8x16_t N, int8x16_t M)
     return D;
 }
 
-int16x8_t vmaxq_u16(int16x8_t N, int16x8_t M)
+uint16x8_t vmaxq_u16(uint16x8_t N, uint16x8_t M)
 {
-    int16x8_t D;
+    uint16x8_t D;
     for (int i = 0; i < 8; i++)
     {
         D.val[i] = N.val[i] > M.val[i] ? N.val[i] : M.val[i];
@@ -1259,9 +1259,9 @@ int16x8_t vmaxq_u16(int16x8_t N, int16x8_t M)
     return D;
 }
 
-int32x4_t vmaxq_u32(int32x4_t N, int32x4_t M)
+uint32x4_t vmaxq_u32(uint32x4_t N, uint32x4_t M)
 {
-    int32x4_t D;
+    uint32x4_t D;
     for (int i = 0; i < 4; i++)
     {
         D.val[i] = N.val[i] > M.val[i] ? N.val[i] : M.val[i];
@@ -3683,9 +3683,9 @@ int32x4_t vminq_s32(int32x4_t N, int32x4_t M)
     return D;
 }
 
-int8x16_t vminq_u8(int8x16_t N, int8x16_t M)
+uint8x16_t vminq_u8(uint8x16_t N, uint8x16_t M)
 {
-    int8x16_t D;
+    uint8x16_t D;
     for (int i = 0; i < 16; i++)
     {
         D.val[i] = N.val[i] < M.val[i] ? N.val[i] : M.val[i];
@@ -3693,9 +3693,9 @@ int8x16_t vminq_u8(int8x16_t N, int8x16_t M)
     return D;
 }
 
-int16x8_t vminq_u16(int16x8_t N, int16x8_t M)
+uint16x8_t vminq_u16(uint16x8_t N, uint16x8_t M)
 {
-    int16x8_t D;
+    uint16x8_t D;
     for (int i = 0; i < 8; i++)
     {
         D.val[i] = N.val[i] < M.val[i] ? N.val[i] : M.val[i];
@@ -3703,9 +3703,9 @@ int16x8_t vminq_u16(int16x8_t N, int16x8_t M)
     return D;
 }
 
-int32x4_t vminq_u32(int32x4_t N, int32x4_t M)
+uint32x4_t vminq_u32(uint32x4_t N, uint32x4_t M)
 {
-    int32x4_t D;
+    uint32x4_t D;
     for (int i = 0; i < 4; i++)
     {
         D.val[i] = N.val[i] < M.val[i] ? N.val[i] : M.val[i];
-- 
2.43.0


From a6663a940821f941f244a5f3efc404a0c0aebbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:15 +0000
Subject: [PATCH 02/35] fix: define veor_u32, vld2_s32 and vsub_f64 under their
 declared names

They were misspelt as ver_u32, vld_s32 and vsub_f32(float64x1_t), so the declared
functions did not link.
---
 neon_sim.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index dc1d775..fc940d5 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -233,7 +233,7 @@ uint32x2x2_t vld2_u32(uint32_t const* ptr)
     }
     return r;
 }
-int32x2x2_t vld_s32(int32_t const* ptr)
+int32x2x2_t vld2_s32(int32_t const* ptr)
 {
     int32x2x2_t r;
     for (int i = 0; i < 2; i++)
@@ -1869,7 +1869,7 @@ float32x2_t vsub_f32(float32x2_t N, float32x2_t M)
     return D;
 }
 
-float64x1_t vsub_f32(float64x1_t N, float64x1_t M)
+float64x1_t vsub_f64(float64x1_t N, float64x1_t M)
 {
     float64x1_t D;
     for (size_t i = 0; i < 1; i++)
@@ -5317,7 +5317,7 @@ uint16x4_t veor_u16(uint16x4_t a, uint16x4_t b)
     return r;
 }
 
-uint32x2_t ver_u32(uint32x2_t a, uint32x2_t b)
+uint32x2_t veor_u32(uint32x2_t a, uint32x2_t b)
 {
     uint32x2_t r;
     for (int i = 0; i < 2; i++)
-- 
2.43.0


From 4091e52c8591655a7d4f27c4ee8dc300b733b838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:15 +0000
Subject: [PATCH 03/35] fix: take 64-bit first operands in vsubl_s32 and
 vsubl_u32, as declared

---
 neon_sim.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index fc940d5..5ce5878 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -2256,7 +2256,7 @@ int32x4_t vsubl_s16(int16x4_t N, int16x4_t M)
     return D;
 }
 
-int64x2_t vsubl_s32(int32x4_t N, int32x2_t M)
+int64x2_t vsubl_s32(int32x2_t N, int32x2_t M)
 {
     int64x2_t D;
     for (size_t i = 0; i < 2; i++)
@@ -2286,7 +2286,7 @@ uint32x4_t vsubl_u16(uint16x4_t N, uint16x4_t M)
     return D;
 }
 
-uint64x2_t vsubl_u32(uint32x4_t N, uint32x2_t M)
+uint64x2_t vsubl_u32(uint32x2_t N, uint32x2_t M)
 {
     uint64x2_t D;
     for (size_t i = 0; i < 2; i++)
-- 
2.43.0


From 39b255e915de608c05098c1e6b58269159198e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:15 +0000
Subject: [PATCH 04/35] fix: name vsubhn_s32/s64/u32/u64 as declared and return
 the high half

---
 neon_sim.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 5ce5878..3a0c0a3 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -1974,22 +1974,22 @@ int8x8_t vsubhn_s16(int16x8_t N, int16x8_t M)
     return D;
 }
 
-int16x4_t vsubn_s32(int32x4_t N, int32x4_t M)
+int16x4_t vsubhn_s32(int32x4_t N, int32x4_t M)
 {
     int16x4_t D;
     for (size_t i = 0; i < 4; i++)
     {
-        D.val[i] = (N.val[i] - M.val[i]) >> 8;
+        D.val[i] = (N.val[i] - M.val[i]) >> 16;
     }
     return D;
 }
 
-int32x2_t vsubn_s64(int64x2_t N, int64x2_t M)
+int32x2_t vsubhn_s64(int64x2_t N, int64x2_t M)
 {
     int32x2_t D;
     for (size_t i = 0; i < 2; i++)
     {
-        D.val[i] = (N.val[i] - M.val[i]) >> 8;
+        D.val[i] = (N.val[i] - M.val[i]) >> 32;
     }
     return D;
 }
@@ -2004,22 +2004,22 @@ uint8x8_t vsubhn_u16(uint16x8_t N, uint16x8_t M)
     return D;
 }
 
-uint16x4_t vsubn_u32(uint32x4_t N, uint32x4_t M)
+uint16x4_t vsubhn_u32(uint32x4_t N, uint32x4_t M)
 {
     uint16x4_t D;
     for (size_t i = 0; i < 4; i++)
     {
-        D.val[i] = (N.val[i] - M.val[i]) >> 8;
+        D.val[i] = (N.val[i] - M.val[i]) >> 16;
     }
     return D;
 }
 
-uint32x2_t vsubn_u64(uint64x2_t N, uint64x2_t M)
+uint32x2_t vsubhn_u64(uint64x2_t N, uint64x2_t M)
 {
     uint32x2_t D;
     for (size_t i = 0; i < 2; i++)
     {
-        D.val[i] = (N.val[i] - M.val[i]) >> 8;
+        D.val[i] = (N.val[i] - M.val[i]) >> 32;
     }
     return D;
 }
-- 
2.43.0


From e8ba4a4c5d9ab040cf747d27a96652d93fb1a4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:15 +0000
Subject: [PATCH 05/35] fix: store the fourth vector at element 4*i+3 in
 vst4_u8 and vst4_u32

vst4_u8 wrote one byte past the end of the buffer, vst4_u32 overwrote the third vector.
---
 neon_sim.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 3a0c0a3..0543f18 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -1112,7 +1112,7 @@ void vst4_u8(uint8_t* ptr, uint8x8x4_t val)
         ptr[4 * i + 0] = val.val[0].val[i];
         ptr[4 * i + 1] = val.val[1].val[i];
         ptr[4 * i + 2] = val.val[2].val[i];
-        ptr[4 * i + 4] = val.val[3].val[i];
+        ptr[4 * i + 3] = val.val[3].val[i];
     }
 }
 void vst4_u16(uint16_t* ptr, uint16x4x4_t val)
@@ -1132,7 +1132,7 @@ void vst4_u32(uint32_t* ptr, uint32x2x4_t val)
         ptr[4 * i + 0] = val.val[0].val[i];
         ptr[4 * i + 1] = val.val[1].val[i];
         ptr[4 * i + 2] = val.val[2].val[i];
-        ptr[4 * i + 2] = val.val[3].val[i];
+        ptr[4 * i + 3] = val.val[3].val[i];
     }
 }
 
-- 
2.43.0


From d39df6aef5c1d5bf4aa711d54f59788e2b394a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:15 +0000
Subject: [PATCH 06/35] fix: take the high half of the sum in
 vaddhn_high_s32/s64/u32/u64

---
 neon_sim.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 0543f18..49588e3 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -1513,7 +1513,7 @@ int16x8_t vaddhn_high_s32(int16x4_t r, int32x4_t a, int32x4_t b)
     for (int i = 0; i < 4; i++)
         ret.val[i] = r.val[i];
     for (int i = 0; i < 4; i++)
-        ret.val[i + 4] = (int16_t)((a.val[i] + b.val[i]) >> 4);
+        ret.val[i + 4] = (int16_t)((a.val[i] + b.val[i]) >> 16);
     return ret;
 }
 
@@ -1523,7 +1523,7 @@ int32x4_t vaddhn_high_s64(int32x2_t r, int64x2_t a, int64x2_t b)
     for (int i = 0; i < 2; i++)
         ret.val[i] = r.val[i];
     for (int i = 0; i < 2; i++)
-        ret.val[i + 2] = (int32_t)((a.val[i] + b.val[i]) >> 2);
+        ret.val[i + 2] = (int32_t)((a.val[i] + b.val[i]) >> 32);
     return ret;
 }
 
@@ -1543,7 +1543,7 @@ uint16x8_t vaddhn_high_u32(uint16x4_t r, uint32x4_t a, uint32x4_t b)
     for (int i = 0; i < 4; i++)
         ret.val[i] = r.val[i];
     for (int i = 0; i < 4; i++)
-        ret.val[i + 4] = (uint16_t)((a.val[i] + b.val[i]) >> 4);
+        ret.val[i + 4] = (uint16_t)((a.val[i] + b.val[i]) >> 16);
     return ret;
 }
 
@@ -1553,7 +1553,7 @@ uint32x4_t vaddhn_high_u64(uint32x2_t r, uint64x2_t a, uint64x2_t b)
     for (int i = 0; i < 2; i++)
         ret.val[i] = r.val[i];
     for (int i = 0; i < 2; i++)
-        ret.val[i + 2] = (uint32_t)((a.val[i] + b.val[i]) >> 2);
+        ret.val[i + 2] = (uint32_t)((a.val[i] + b.val[i]) >> 32);
     return ret;
 }
 #endif // __aarch64__
-- 
2.43.0


From 2411afc90ef45a7b26e6c92a8737e952fed9e7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:15 +0000
Subject: [PATCH 07/35] fix: compute the 64-bit rounding constant of
 vrsubhn_s64/u64 in 64 bits

---
 neon_sim.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 49588e3..904f364 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -2650,7 +2650,7 @@ int32x2_t vrsubhn_s64(int64x2_t N, int64x2_t M)
 {
     int32x2_t D;
     const int64_t shift = 32;
-    const int64_t delta = (1 << (shift - 1));
+    const int64_t delta = ((int64_t)1 << (shift - 1));
     for (int i = 0; i < 2; i++)
     {
         D.val[i] = (N.val[i] - M.val[i] + delta) >> shift;
@@ -2686,7 +2686,7 @@ uint32x2_t vrsubhn_u64(uint64x2_t N, uint64x2_t M)
 {
     uint32x2_t D;
     const uint64_t shift = 32;
-    const uint64_t delta = (1 << (shift - 1));
+    const uint64_t delta = ((uint64_t)1 << (shift - 1));
     for (int i = 0; i < 2; i++)
     {
         D.val[i] = (N.val[i] - M.val[i] + delta) >> shift;
-- 
2.43.0


From 873624200ecdd4ae70f38a3d8cac76e0bdee5494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:15 +0000
Subject: [PATCH 08/35] fix: halve the exact 33-bit difference in
 vhsub(q)_s32/u32

---
 neon_sim.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 904f364..fc55c09 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -2050,7 +2050,7 @@ int32x2_t vhsub_s32(int32x2_t N, int32x2_t M)
     int32x2_t D;
     for (int i = 0; i < 2; i++)
     {
-        D.val[i] = (N.val[i] - M.val[i]) >> 1;
+        D.val[i] = ((int64_t)N.val[i] - M.val[i]) >> 1;
     }
     return D;
 }
@@ -2080,7 +2080,7 @@ uint32x2_t vhsub_u32(uint32x2_t N, uint32x2_t M)
     uint32x2_t D;
     for (int i = 0; i < 2; i++)
     {
-        D.val[i] = (N.val[i] - M.val[i]) >> 1;
+        D.val[i] = ((uint64_t)N.val[i] - M.val[i]) >> 1;
     }
     return D;
 }
@@ -2111,7 +2111,7 @@ int32x4_t vhsubq_s32(int32x4_t N, int32x4_t M)
     int32x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = (N.val[i] - M.val[i]) >> 1;
+        D.val[i] = ((int64_t)N.val[i] - M.val[i]) >> 1;
     }
     return D;
 }
@@ -2141,7 +2141,7 @@ uint32x4_t vhsubq_u32(uint32x4_t N, uint32x4_t M)
     uint32x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = (N.val[i] - M.val[i]) >> 1;
+        D.val[i] = ((uint64_t)N.val[i] - M.val[i]) >> 1;
     }
     return D;
 }
-- 
2.43.0


From b5f6275db434ca1cc0d6cc530b37a411c66ace19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:15 +0000
Subject: [PATCH 09/35] fix: widen before adding in vaddl_high_s32/u32

---
 neon_sim.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index fc55c09..9f2805a 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -1697,7 +1697,7 @@ int64x2_t vaddl_high_s32(int32x4_t a, int32x4_t b)
     const int ofs = 4 / 2;
     for (int i = 0; i < 2; i++)
     {
-        r.val[i] =  a.val[ofs + i] + b.val[ofs + i];
+        r.val[i] =  (int64_t)a.val[ofs + i] + b.val[ofs + i];
     }
     return r;
 }
@@ -1730,7 +1730,7 @@ uint64x2_t vaddl_high_u32(uint32x4_t a, uint32x4_t b)
     const int ofs = 4 / 2;
     for (int i = 0; i < 2; i++)
     {
-        r.val[i] =  a.val[ofs + i] + b.val[ofs + i];
+        r.val[i] =  (uint64_t)a.val[ofs + i] + b.val[ofs + i];
     }
     return r;
 }
-- 
2.43.0


From 6e7e3dd0f379afc1a7851b68c27beed2401cadd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:15 +0000
Subject: [PATCH 10/35] fix: multiply at 64 bits in vmull, vmull_n, vmlal and
 vmlsl of 32-bit lanes

---
 neon_sim.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 9f2805a..f1da72f 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -2971,7 +2971,7 @@ uint64x2_t vmull_u32(uint32x2_t a, uint32x2_t b)
     uint64x2_t r;
     for (int i = 0; i < 2; i++)
     {
-        r.val[i] =  a.val[i] * b.val[i];
+        r.val[i] =  (uint64_t)a.val[i] * b.val[i];
     }
     return r;
 }
@@ -2999,7 +2999,7 @@ int64x2_t vmull_s32(int32x2_t a, int32x2_t b)
     int64x2_t r;
     for (int i = 0; i < 2; i++)
     {
-        r.val[i] =  a.val[i] * b.val[i];
+        r.val[i] =  (int64_t)a.val[i] * b.val[i];
     }
     return r;
 }
@@ -3020,7 +3020,7 @@ int64x2_t vmull_n_s32(int32x2_t N, int32_t M)
     int64x2_t D;
     for (int i = 0; i < 2; i++)
     {
-        D.val[i] = N.val[i] * M;
+        D.val[i] = (int64_t)N.val[i] * M;
     }
     return D;
 }
@@ -3040,7 +3040,7 @@ uint64x2_t vmull_n_u32(uint32x2_t N, uint32_t M)
     uint64x2_t D;
     for (int i = 0; i < 2; i++)
     {
-        D.val[i] = N.val[i] * M;
+        D.val[i] = (uint64_t)N.val[i] * M;
     }
     return D;
 }
@@ -3090,7 +3090,7 @@ int64x2_t vmlal_s32(int64x2_t N, int32x2_t M, int32x2_t P)
     int64x2_t D;
     for (int i = 0; i < 2; i++)
     {
-        D.val[i] = N.val[i] + (M.val[i] * P.val[i]);
+        D.val[i] = N.val[i] + ((int64_t)M.val[i] * P.val[i]);
     }
     return D;
 }
@@ -3120,7 +3120,7 @@ uint64x2_t vmlal_u32(uint64x2_t N, uint32x2_t M, uint32x2_t P)
     uint64x2_t D;
     for (int i = 0; i < 2; i++)
     {
-        D.val[i] = N.val[i] + (M.val[i] * P.val[i]);
+        D.val[i] = N.val[i] + ((uint64_t)M.val[i] * P.val[i]);
     }
     return D;
 }
@@ -3151,7 +3151,7 @@ int64x2_t vmlsl_s32(int64x2_t N, int32x2_t M, int32x2_t P)
     int64x2_t D;
     for (int i = 0; i < 2; i++)
     {
-        D.val[i] = N.val[i] - (M.val[i] * P.val[i]);
+        D.val[i] = N.val[i] - ((int64_t)M.val[i] * P.val[i]);
     }
     return D;
 }
@@ -3181,7 +3181,7 @@ uint64x2_t vmlsl_u32(uint64x2_t N, uint32x2_t M, uint32x2_t P)
     uint64x2_t D;
     for (int i = 0; i < 2; i++)
     {
-        D.val[i] = N.val[i] - (M.val[i] * P.val[i]);
+        D.val[i] = N.val[i] - ((uint64_t)M.val[i] * P.val[i]);
     }
     return D;
 }
-- 
2.43.0


From 99c5bfa51e166d4830803040c904ec0bd571b3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:15 +0000
Subject: [PATCH 11/35] fix: saturate vqsub(q)_s64/u64 without going through
 double

Double has 53 significant bits, so large differences lost their low bits.
---
 neon_sim.cpp | 32 ++++++++++----------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index f1da72f..f02e6b6 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -2218,18 +2218,17 @@ int64x1_t vqsub_s64(int64x1_t N, int64x1_t M)
     int64x1_t D;
     for (size_t i = 0; i < 1; i++)
     {
-        double temp = (double)N.val[i] - (double)M.val[i];
-        if (temp > (double)(INT64_MAX))
+        if (M.val[i] < 0 && N.val[i] > INT64_MAX + M.val[i])
         {
             D.val[i] = INT64_MAX;
         }
-        else if (temp < INT64_MIN)
+        else if (M.val[i] > 0 && N.val[i] < INT64_MIN + M.val[i])
         {
             D.val[i] = INT64_MIN;
         }
         else
         {
-            D.val[i] = temp;
+            D.val[i] = N.val[i] - M.val[i];
         }
     }
     return D;
@@ -2428,18 +2427,13 @@ uint64x1_t vqsub_u64(uint64x1_t N, uint64x1_t M)
     uint64x1_t D;
     for (size_t i = 0; i < 1; i++)
     {
-        double temp = (double)N.val[i] - (double)M.val[i];
-        if (temp > (double)(UINT64_MAX))
-        {
-            D.val[i] = UINT64_MAX;
-        }
-        else if (temp < 0)
+        if (N.val[i] < M.val[i])
         {
             D.val[i] = 0;
         }
         else
         {
-            D.val[i] = temp;
+            D.val[i] = N.val[i] - M.val[i];
         }
     }
     return D;
@@ -2517,18 +2511,17 @@ int64x2_t vqsubq_s64(int64x2_t N, int64x2_t M)
     int64x2_t D;
     for (size_t i = 0; i < 2; i++)
     {
-        double temp = (double)N.val[i] - (double)M.val[i];
-        if (temp > (double)(INT64_MAX))
+        if (M.val[i] < 0 && N.val[i] > INT64_MAX + M.val[i])
         {
             D.val[i] = INT64_MAX;
         }
-        else if (temp < INT64_MIN)
+        else if (M.val[i] > 0 && N.val[i] < INT64_MIN + M.val[i])
         {
             D.val[i] = INT64_MIN;
         }
         else
         {
-            D.val[i] = temp;
+            D.val[i] = N.val[i] - M.val[i];
         }
     }
     return D;
@@ -2605,18 +2598,13 @@ uint64x2_t vqsubq_u64(uint64x2_t N, uint64x2_t M)
     uint64x2_t D;
     for (size_t i = 0; i < 2; i++)
     {
-        double temp = (double)N.val[i] - (double)M.val[i];
-        if (temp > (double)(UINT64_MAX))
-        {
-            D.val[i] = UINT64_MAX;
-        }
-        else if (temp < 0)
+        if (N.val[i] < M.val[i])
         {
             D.val[i] = 0;
         }
         else
         {
-            D.val[i] = temp;
+            D.val[i] = N.val[i] - M.val[i];
         }
     }
     return D;
-- 
2.43.0


From a56668e7255595564f508873dc375867761db092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:15 +0000
Subject: [PATCH 12/35] fix: return the truncated shift in vqshrun_n_s32/s64

The result was computed with the rounding of vqrshrun and then never stored.
---
 neon_sim.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index f02e6b6..aa51cac 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -3887,7 +3887,7 @@ uint16x4_t vqshrun_n_s32(int32x4_t v, const int n)
     uint16x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        int32_t temp = (v.val[i] + (1 << (n - 1))) >> n;
+        int32_t temp = v.val[i] >> n;
         if (temp > UINT16_MAX)
         {
             temp = UINT16_MAX;
@@ -3896,6 +3896,7 @@ uint16x4_t vqshrun_n_s32(int32x4_t v, const int n)
         {
             temp = 0;
         }
+        D.val[i] = temp;
     }
     return D;
 }
@@ -3911,7 +3912,7 @@ uint32x2_t vqshrun_n_s64(int64x2_t v, const int n)
     uint32x2_t D;
     for (int i = 0; i < 2; i++)
     {
-        int64_t temp = (v.val[i] + (1 << (n - 1))) >> n;
+        int64_t temp = v.val[i] >> n;
         if (temp > UINT32_MAX)
         {
             temp = UINT32_MAX;
@@ -3920,6 +3921,7 @@ uint32x2_t vqshrun_n_s64(int64x2_t v, const int n)
         {
             temp = 0;
         }
+        D.val[i] = temp;
     }
     return D;
 }
-- 
2.43.0


From 5c19e1ed2665b7f505964bafd7ca46fff21ad3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:15 +0000
Subject: [PATCH 13/35] fix: clamp vqshrn_n_s64 at 64 bits

---
 neon_sim.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index aa51cac..7ee5b08 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -6013,7 +6013,7 @@ int32x2_t vqshrn_n_s64(int64x2_t a, const int n)
     int32x2_t r;
     for (int i = 0; i < 2; i++)
     {
-        r.val[i] =  std::min<int32_t>(std::max<int64_t>(a.val[i] >> n, INT32_MIN), INT32_MAX);
+        r.val[i] =  std::min<int64_t>(std::max<int64_t>(a.val[i] >> n, INT32_MIN), INT32_MAX);
     }
     return r;
 }
-- 
2.43.0


From 54ca5b6334bab78f20dc00abfba36fd9ebf4c35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:15 +0000
Subject: [PATCH 14/35] fix: do not shift the accumulator in vsraq_n_s32

---
 neon_sim.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 7ee5b08..61b10be 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -3966,7 +3966,7 @@ int32x4_t vsraq_n_s32(int32x4_t a, int32x4_t b, const int n)
     int32x4_t r;
     for (int i = 0; i < 4; i++)
     {
-        r.val[i] =  (a.val[i] >> n) + (b.val[i] >> n);
+        r.val[i] =  a.val[i] + (b.val[i] >> n);
     }
     return r;
 }
-- 
2.43.0


From 9fb1324135842c029e4f91ad5cce09612201fb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:15 +0000
Subject: [PATCH 15/35] fix: accept shifts up to 16 in vshr_n_u16

---
 neon_sim.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 61b10be..623e85f 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -3757,9 +3757,9 @@ int8x8_t vshrn_n_s16(int16x8_t a, const int n)
 
 uint16x4_t vshr_n_u16(uint16x4_t v, const int n)
 {
-    if (n < 1 || n > 8)
+    if (n < 1 || n > 16)
     {
-        fprintf(stderr, "%s: param n not in range [1, 8]\n", __FUNCTION__);
+        fprintf(stderr, "%s: param n not in range [1, 16]\n", __FUNCTION__);
         abort();
     }
 
-- 
2.43.0


From c5cda2012e362bae6a844eca01e4554199abfe7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:15 +0000
Subject: [PATCH 16/35] fix: select bit by bit in vbslq_f32

---
 neon_sim.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 623e85f..d7c27a1 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -3733,7 +3733,11 @@ float32x4_t vbslq_f32(uint32x4_t mask, float32x4_t a, float32x4_t b)
     float32x4_t r;
     for (int i = 0; i < 4; i++)
     {
-        r.val[i] =  mask.val[i] ? a.val[i] : b.val[i];
+        uint32_t x, y, z;
+        memcpy(&x, &a.val[i], sizeof(x));
+        memcpy(&y, &b.val[i], sizeof(y));
+        z = (mask.val[i] & x) | (~mask.val[i] & y);
+        memcpy(&r.val[i], &z, sizeof(z));
     }
     return r;
 }
-- 
2.43.0


From b3b9f27586799f6db22e54607e88d141b7afb962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:15 +0000
Subject: [PATCH 17/35] fix: return zero for out-of-range indices in vqtbl1_u8

---
 neon_sim.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index d7c27a1..6f26da2 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -4729,7 +4729,7 @@ uint8x8_t vqtbl1_u8(uint8x16_t t, uint8x8_t idx)
     uint8x8_t r;
     for (int i = 0; i < 8; i++)
     {
-        r.val[i] =  t.val[idx.val[i]];
+        r.val[i] =  idx.val[i] < 16 ? t.val[idx.val[i]] : 0;
     }
     return r;
 }
-- 
2.43.0


From ea9b6df6f7881db96b590856f29832d7fe6219d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:16 +0000
Subject: [PATCH 18/35] fix: stay inside the 8 lanes in vrev32_s8

---
 neon_sim.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 6f26da2..7c561cd 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -5660,7 +5660,7 @@ uint8x16_t vrev16q_u8(uint8x16_t vec)
 int8x8_t vrev32_s8(int8x8_t vec)
 {
     int8x8_t r;
-    for (int i = 0; i < 16; i += 4)
+    for (int i = 0; i < 8; i += 4)
     {
         r.val[i + 0] = vec.val[i + 3];
         r.val[i + 1] = vec.val[i + 2];
-- 
2.43.0


From be0c568fc7584a4e02ab49152424308dc5f9da58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:16 +0000
Subject: [PATCH 19/35] fix: reverse both halves in vrev64q_s8 and vrev64q_s16

---
 neon_sim.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 7c561cd..e6dc0d2 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -5852,7 +5852,7 @@ float32x2_t vrev64_f32(float32x2_t vec)
 int8x16_t vrev64q_s8(int8x16_t vec)
 {
     int8x16_t r;
-    for (int i = 0; i < 8; i += 8)
+    for (int i = 0; i < 16; i += 8)
     {
         r.val[i + 0] = vec.val[i + 7];
         r.val[i + 1] = vec.val[i + 6];
@@ -5869,7 +5869,7 @@ int8x16_t vrev64q_s8(int8x16_t vec)
 int16x8_t vrev64q_s16(int16x8_t vec)
 {
     int16x8_t r;
-    for (int i = 0; i < 4; i += 4)
+    for (int i = 0; i < 8; i += 4)
     {
         r.val[i + 0] = vec.val[i + 3];
         r.val[i + 1] = vec.val[i + 2];
-- 
2.43.0


From 942658b1b7c492030d3bf0cacf8de1fd535eb257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:16 +0000
Subject: [PATCH 20/35] fix: propagate NaN and order signed zeros in float max
 and min

---
 neon_sim.cpp | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index e6dc0d2..3bb8cef 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -7,6 +7,7 @@
 #include <math.h>
 
 #include <algorithm>
+#include <cmath>
 #include <string>
 
 ////// Load
@@ -1269,12 +1270,25 @@ uint32x4_t vmaxq_u32(uint32x4_t N, uint32x4_t M)
     return D;
 }
 
+// FMAX and FMIN: NaN if either operand is NaN, and -0 is below +0
+static float fmax_lane(float a, float b)
+{
+    if (a != a || b != b) return a + b;
+    if (a == b) return std::signbit(a) ? b : a;
+    return a > b ? a : b;
+}
+static float fmin_lane(float a, float b)
+{
+    if (a != a || b != b) return a + b;
+    if (a == b) return std::signbit(a) ? a : b;
+    return a < b ? a : b;
+}
 float32x4_t vmaxq_f32(float32x4_t N, float32x4_t M)
 {
     float32x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] > M.val[i] ? N.val[i] : M.val[i];
+        D.val[i] = fmax_lane(N.val[i], M.val[i]);
     }
     return D;
 }
@@ -3566,16 +3580,16 @@ uint8x8_t vget_high_u8(uint8x16_t a)
 float32x2_t vpmax_f32(float32x2_t a, float32x2_t b)
 {
     float32x2_t r;
-    r.val[0] = a.val[0] > a.val[1] ? a.val[0] : a.val[1];
-    r.val[1] = b.val[0] > b.val[1] ? b.val[0] : b.val[1];
+    r.val[0] = fmax_lane(a.val[0], a.val[1]);
+    r.val[1] = fmax_lane(b.val[0], b.val[1]);
     return r;
 }
 
 float32x2_t vpmin_f32(float32x2_t a, float32x2_t b)
 {
     float32x2_t r;
-    r.val[0] = a.val[0] < a.val[1] ? a.val[0] : a.val[1];
-    r.val[1] = b.val[0] < b.val[1] ? b.val[0] : b.val[1];
+    r.val[0] = fmin_lane(a.val[0], a.val[1]);
+    r.val[1] = fmin_lane(b.val[0], b.val[1]);
     return r;
 }
 
@@ -3706,7 +3720,7 @@ float32x4_t vminq_f32(float32x4_t N, float32x4_t M)
     float32x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] < M.val[i] ? N.val[i] : M.val[i];
+        D.val[i] = fmin_lane(N.val[i], M.val[i]);
     }
     return D;
 }
-- 
2.43.0


From a9b86c0f20629212f79509425e89ee0c7e686ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:16 +0000
Subject: [PATCH 21/35] fix: saturate float to integer conversions, and round
 in vcvtnq_s32_f32

---
 neon_sim.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 3bb8cef..165000b 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -4233,12 +4233,26 @@ float32x4_t vcvtq_f32_s32(int32x4_t a)
     return r;
 }
 
+// FCVTZS and FCVTZU: truncate, saturate, NaN gives 0
+static int32_t f32_to_s32(float v)
+{
+    if (v != v) return 0;
+    if (v >= 2147483648.0f) return INT32_MAX;
+    if (v < -2147483648.0f) return INT32_MIN;
+    return (int32_t)v;
+}
+static uint32_t f32_to_u32(float v)
+{
+    if (v != v || v <= 0.0f) return 0;
+    if (v >= 4294967296.0f) return UINT32_MAX;
+    return (uint32_t)v;
+}
 int32x4_t vcvtq_s32_f32(float32x4_t a)
 {
     int32x4_t r;
     for (int i = 0; i < 4; i++)
     {
-        r.val[i] =  a.val[i];
+        r.val[i] =  f32_to_s32(a.val[i]);
     }
     return r;
 }
@@ -4248,7 +4262,7 @@ uint32x4_t vcvtq_u32_f32(float32x4_t a)
     uint32x4_t r;
     for (int i = 0; i < 4; i++)
     {
-        r.val[i] =  a.val[i];
+        r.val[i] =  f32_to_u32(a.val[i]);
     }
     return r;
 }
@@ -4258,7 +4272,7 @@ int32x4_t vcvtnq_s32_f32(float32x4_t a)
     int32x4_t r;
     for (int i = 0; i < 4; i++)
     {
-        r.val[i] =  a.val[i];
+        r.val[i] =  f32_to_s32(nearbyintf(a.val[i]));
     }
     return r;
 }
-- 
2.43.0


From b01014b4ab5eab8025c22ce9fffa91df08969ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:16 +0000
Subject: [PATCH 22/35] fix: round vrecpsq_f32 once and return 2 for infinity
 times zero

---
 neon_sim.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 165000b..4da217a 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -4368,7 +4368,14 @@ float32x4_t vrecpsq_f32(float32x4_t a, float32x4_t b)
     float32x4_t r;
     for (int i = 0; i < 4; i++)
     {
-        r.val[i] =  2.0 - (a.val[i] * b.val[i]);
+        if ((std::isinf(a.val[i]) && b.val[i] == 0.0f) || (a.val[i] == 0.0f && std::isinf(b.val[i])))
+        {
+            r.val[i] = 2.0f;
+        }
+        else
+        {
+            r.val[i] = fmaf(-a.val[i], b.val[i], 2.0f);
+        }
     }
     return r;
 }
-- 
2.43.0


From 75a5a16544a4f44f5e29ccdd52bbc3640772d78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:16 +0000
Subject: [PATCH 23/35] fix: handle zero, infinity, NaN and subnormals in the
 reciprocal estimate

---
 neon_sim.cpp | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 4da217a..f1c613e 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -4315,10 +4315,38 @@ uint32_t RecipEstimate(uint32_t a)
 float FPRecipEstimate(float operand)
 {
     float_parts parts{operand};
-    parts.exp = 253 - parts.exp;
+    if (parts.exp == 0xff)
+    {
+        if (parts.fraction != 0) return operand + operand; // NaN
+        return std::copysign(0.0f, operand);
+    }
+    int exp = parts.exp;
+    if (exp == 0)
+    {
+        // zero, and subnormals whose reciprocal overflows
+        if (parts.fraction < (1u << 21)) return std::copysign(INFINITY, operand);
+        // normalize the other subnormals
+        if (parts.fraction & (1u << 22))
+        {
+            parts.fraction <<= 1;
+        }
+        else
+        {
+            exp = -1;
+            parts.fraction <<= 2;
+        }
+    }
     uint32_t scaled = 0x100 | ((parts.fraction >> 15) & 0xFF);
     uint32_t estimate = RecipEstimate(scaled);
     parts.fraction = (estimate & 0xff) << 15;
+    int result_exp = 253 - exp;
+    if (result_exp <= 0)
+    {
+        // the result is subnormal: shift the implicit bit in
+        parts.fraction = (parts.fraction | (1u << 23)) >> (1 - result_exp);
+        result_exp = 0;
+    }
+    parts.exp = result_exp;
     return float(parts);
 }
 
-- 
2.43.0


From 3c9139ffa8dc9cd7d4d9b2d69c6a4c18555531fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:14 +0000
Subject: [PATCH 24/35] fix: wrap in vadd(q) and vsub(q) of s32 and s64 without
 signed overflow

---
 neon_sim.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index f1c613e..dd74bbb 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -1321,7 +1321,7 @@ int32x2_t vadd_s32(int32x2_t N, int32x2_t M)
     int32x2_t D;
     for (size_t i = 0; i < 2; i++)
     {
-        D.val[i] = N.val[i] + M.val[i];
+        D.val[i] = (uint32_t)N.val[i] + (uint32_t)M.val[i];
     }
     return D;
 }
@@ -1329,7 +1329,7 @@ int32x2_t vadd_s32(int32x2_t N, int32x2_t M)
 int64x1_t vadd_s64(int64x1_t N, int64x1_t M)
 {
     int64x1_t D;
-    D.val[0] = N.val[0] + M.val[0];
+    D.val[0] = (uint64_t)N.val[0] + (uint64_t)M.val[0];
     return D;
 }
 
@@ -1599,7 +1599,7 @@ int32x4_t vaddq_s32(int32x4_t N, int32x4_t M)
     int32x4_t D;
     for (size_t i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] + M.val[i];
+        D.val[i] = (uint32_t)N.val[i] + (uint32_t)M.val[i];
     }
     return D;
 }
@@ -1609,7 +1609,7 @@ int64x2_t vaddq_s64(int64x2_t N, int64x2_t M)
     int64x2_t D;
     for (size_t i = 0; i < 2; i++)
     {
-        D.val[i] = N.val[i] + M.val[i];
+        D.val[i] = (uint64_t)N.val[i] + (uint64_t)M.val[i];
     }
     return D;
 }
@@ -1823,7 +1823,7 @@ int32x2_t vsub_s32(int32x2_t N, int32x2_t M)
     int32x2_t D;
     for (size_t i = 0; i < 2; i++)
     {
-        D.val[i] = N.val[i] - M.val[i];
+        D.val[i] = (uint32_t)N.val[i] - (uint32_t)M.val[i];
     }
     return D;
 }
@@ -1832,7 +1832,7 @@ int64x1_t vsub_s64(int64x1_t N, int64x1_t M)
     int64x1_t D;
     for (size_t i = 0; i < 1; i++)
     {
-        D.val[i] = N.val[i] - M.val[i];
+        D.val[i] = (uint64_t)N.val[i] - (uint64_t)M.val[i];
     }
     return D;
 }
@@ -1917,7 +1917,7 @@ int32x4_t vsubq_s32(int32x4_t N, int32x4_t M)
     int32x4_t D;
     for (size_t i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] - M.val[i];
+        D.val[i] = (uint32_t)N.val[i] - (uint32_t)M.val[i];
     }
     return D;
 }
@@ -1926,7 +1926,7 @@ int64x2_t vsubq_s64(int64x2_t N, int64x2_t M)
     int64x2_t D;
     for (size_t i = 0; i < 2; i++)
     {
-        D.val[i] = N.val[i] - M.val[i];
+        D.val[i] = (uint64_t)N.val[i] - (uint64_t)M.val[i];
     }
     return D;
 }
-- 
2.43.0


From b75aa89568aa3ffcaf579e338a4529405cec64e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:15 +0000
Subject: [PATCH 25/35] fix: multiply s32 and u16 lanes without signed overflow

uint16_t operands are promoted to int, so 0xffff * 0xffff overflows.
---
 neon_sim.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index dd74bbb..8eae8fb 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -2722,7 +2722,7 @@ int32x2_t vmul_s32(int32x2_t N, int32x2_t M)
     int32x2_t D;
     for (int i = 0; i < 2; i++)
     {
-        D.val[i] = N.val[i] * M.val[i];
+        D.val[i] = (uint32_t)N.val[i] * (uint32_t)M.val[i];
     }
     return D;
 }
@@ -2742,7 +2742,7 @@ uint16x4_t vmul_u16(uint16x4_t N, uint16x4_t M)
     uint16x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] * M.val[i];
+        D.val[i] = (uint32_t)N.val[i] * (uint32_t)M.val[i];
     }
     return D;
 }
@@ -2781,7 +2781,7 @@ int32x4_t vmulq_s32(int32x4_t N, int32x4_t M)
     int32x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] * M.val[i];
+        D.val[i] = (uint32_t)N.val[i] * (uint32_t)M.val[i];
     }
     return D;
 }
@@ -2799,7 +2799,7 @@ uint16x8_t vmulq_u16(uint16x8_t N, uint16x8_t M)
     uint16x8_t D;
     for (int i = 0; i < 8; i++)
     {
-        D.val[i] = N.val[i] * M.val[i];
+        D.val[i] = (uint32_t)N.val[i] * (uint32_t)M.val[i];
     }
     return D;
 }
@@ -2839,7 +2839,7 @@ int32x2_t vmul_n_s32(int32x2_t N, int32_t M)
     int32x2_t D;
     for (int i = 0; i < 2; i++)
     {
-        D.val[i] = N.val[i] * M;
+        D.val[i] = (uint32_t)N.val[i] * (uint32_t)M;
     }
     return D;
 }
@@ -2849,7 +2849,7 @@ uint16x4_t vmul_n_u16(uint16x4_t N, uint16_t M)
     uint16x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] * M;
+        D.val[i] = (uint32_t)N.val[i] * (uint32_t)M;
     }
     return D;
 }
@@ -2902,7 +2902,7 @@ int32x4_t vmulq_n_s32(int32x4_t N, int32_t M)
     int32x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] * M;
+        D.val[i] = (uint32_t)N.val[i] * (uint32_t)M;
     }
     return D;
 }
@@ -2912,7 +2912,7 @@ uint16x8_t vmulq_n_u16(uint16x8_t N, uint16_t M)
     uint16x8_t D;
     for (int i = 0; i < 8; i++)
     {
-        D.val[i] = N.val[i] * M;
+        D.val[i] = (uint32_t)N.val[i] * (uint32_t)M;
     }
     return D;
 }
@@ -3214,7 +3214,7 @@ int32x4_t vmlaq_s32(int32x4_t N, int32x4_t M, int32x4_t P)
     int32x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] + M.val[i] * P.val[i];
+        D.val[i] = (uint32_t)N.val[i] + (uint32_t)M.val[i] * (uint32_t)P.val[i];
     }
     return D;
 }
@@ -3234,7 +3234,7 @@ uint16x8_t vmlaq_u16(uint16x8_t N, uint16x8_t M, uint16x8_t P)
     uint16x8_t D;
     for (int i = 0; i < 8; i++)
     {
-        D.val[i] = N.val[i] + M.val[i] * P.val[i];
+        D.val[i] = N.val[i] + (uint32_t)M.val[i] * P.val[i];
     }
     return D;
 }
-- 
2.43.0


From 9226bc24ec06a8a1d463c81e5c7dee575764ed3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:15 +0000
Subject: [PATCH 26/35] fix: multiply u16 lanes without signed overflow in the
 long forms

---
 neon_sim.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 8eae8fb..51db1d5 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -2964,7 +2964,7 @@ uint32x4_t vmull_u16(uint16x4_t a, uint16x4_t b)
     uint32x4_t r;
     for (int i = 0; i < 4; i++)
     {
-        r.val[i] =  a.val[i] * b.val[i];
+        r.val[i] =  (uint32_t)a.val[i] * b.val[i];
     }
     return r;
 }
@@ -3032,7 +3032,7 @@ uint32x4_t vmull_n_u16(uint16x4_t N, uint16_t M)
     uint32x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] * M;
+        D.val[i] = (uint32_t)N.val[i] * M;
     }
     return D;
 }
@@ -3112,7 +3112,7 @@ uint32x4_t vmlal_u16(uint32x4_t N, uint16x4_t M, uint16x4_t P)
     uint32x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] + (M.val[i] * P.val[i]);
+        D.val[i] = N.val[i] + ((uint32_t)M.val[i] * P.val[i]);
     }
     return D;
 }
@@ -3173,7 +3173,7 @@ uint32x4_t vmlsl_u16(uint32x4_t N, uint16x4_t M, uint16x4_t P)
     uint32x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] - (M.val[i] * P.val[i]);
+        D.val[i] = N.val[i] - ((uint32_t)M.val[i] * P.val[i]);
     }
     return D;
 }
-- 
2.43.0


From 4acddebc41a8e85fc09d5514a0f4f4835565f81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:15 +0000
Subject: [PATCH 27/35] fix: wrap the accumulator of vmlal, vmlsl, vaddw and
 vsubw without signed overflow

---
 neon_sim.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 51db1d5..0292dfa 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -1396,7 +1396,7 @@ int32x4_t vaddw_s16(int32x4_t a, int16x4_t b)
     int32x4_t r;
     for (int i = 0; i < 4; i++)
     {
-        r.val[i] =  a.val[i] + b.val[i];
+        r.val[i] =  (uint32_t)a.val[i] + (uint32_t)b.val[i];
     }
     return r;
 }
@@ -1406,7 +1406,7 @@ int64x2_t vaddw_s32(int64x2_t a, int32x2_t b)
     int64x2_t r;
     for (int i = 0; i < 2; i++)
     {
-        r.val[i] =  a.val[i] + b.val[i];
+        r.val[i] =  (uint64_t)a.val[i] + (uint64_t)b.val[i];
     }
     return r;
 }
@@ -1459,7 +1459,7 @@ int32x4_t vaddw_high_s16(int32x4_t a, int16x8_t b)
     const int ofs = 4;
     for (int i = 0; i < 4; i++)
     {
-        r.val[i] =  a.val[i] + b.val[ofs + i];
+        r.val[i] =  (uint32_t)a.val[i] + (uint32_t)b.val[ofs + i];
     }
     return r;
 }
@@ -1470,7 +1470,7 @@ int64x2_t vaddw_high_s32(int64x2_t a, int32x4_t b)
     const int ofs = 2;
     for (int i = 0; i < 2; i++)
     {
-        r.val[i] =  a.val[i] + b.val[ofs + i];
+        r.val[i] =  (uint64_t)a.val[i] + (uint64_t)b.val[ofs + i];
     }
     return r;
 }
@@ -2325,7 +2325,7 @@ int32x4_t vsubw_s16(int32x4_t N, int16x4_t M)
     int32x4_t D;
     for (size_t i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] - (int32_t)(M.val[i]);
+        D.val[i] = (uint32_t)N.val[i] - (uint32_t)(M.val[i]);
     }
     return D;
 }
@@ -2335,7 +2335,7 @@ int64x2_t vsubw_s32(int64x2_t N, int32x2_t M)
     int64x2_t D;
     for (size_t i = 0; i < 2; i++)
     {
-        D.val[i] = N.val[i] - (int64_t)(M.val[i]);
+        D.val[i] = (uint64_t)N.val[i] - (uint64_t)(M.val[i]);
     }
     return D;
 }
@@ -3082,7 +3082,7 @@ int32x4_t vmlal_s16(int32x4_t N, int16x4_t M, int16x4_t P)
     int32x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] + (M.val[i] * P.val[i]);
+        D.val[i] = (uint32_t)N.val[i] + (uint32_t)(M.val[i] * P.val[i]);
     }
     return D;
 }
@@ -3092,7 +3092,7 @@ int64x2_t vmlal_s32(int64x2_t N, int32x2_t M, int32x2_t P)
     int64x2_t D;
     for (int i = 0; i < 2; i++)
     {
-        D.val[i] = N.val[i] + ((int64_t)M.val[i] * P.val[i]);
+        D.val[i] = (uint64_t)N.val[i] + (uint64_t)((int64_t)M.val[i] * P.val[i]);
     }
     return D;
 }
@@ -3143,7 +3143,7 @@ int32x4_t vmlsl_s16(int32x4_t N, int16x4_t M, int16x4_t P)
     int32x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] - (M.val[i] * P.val[i]);
+        D.val[i] = (uint32_t)N.val[i] - (uint32_t)(M.val[i] * P.val[i]);
     }
     return D;
 }
@@ -3153,7 +3153,7 @@ int64x2_t vmlsl_s32(int64x2_t N, int32x2_t M, int32x2_t P)
     int64x2_t D;
     for (int i = 0; i < 2; i++)
     {
-        D.val[i] = N.val[i] - ((int64_t)M.val[i] * P.val[i]);
+        D.val[i] = (uint64_t)N.val[i] - (uint64_t)((int64_t)M.val[i] * P.val[i]);
     }
     return D;
 }
-- 
2.43.0


From 0364c75db02c882b74ee63cbc1dba165ccbc50e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:15 +0000
Subject: [PATCH 28/35] fix: wrap the sum in vaddhn_high, vsubhn and vrsubhn
 without signed overflow

---
 neon_sim.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 0292dfa..f40f7af 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -1527,7 +1527,7 @@ int16x8_t vaddhn_high_s32(int16x4_t r, int32x4_t a, int32x4_t b)
     for (int i = 0; i < 4; i++)
         ret.val[i] = r.val[i];
     for (int i = 0; i < 4; i++)
-        ret.val[i + 4] = (int16_t)((a.val[i] + b.val[i]) >> 16);
+        ret.val[i + 4] = (int16_t)(((uint32_t)a.val[i] + (uint32_t)b.val[i]) >> 16);
     return ret;
 }
 
@@ -1537,7 +1537,7 @@ int32x4_t vaddhn_high_s64(int32x2_t r, int64x2_t a, int64x2_t b)
     for (int i = 0; i < 2; i++)
         ret.val[i] = r.val[i];
     for (int i = 0; i < 2; i++)
-        ret.val[i + 2] = (int32_t)((a.val[i] + b.val[i]) >> 32);
+        ret.val[i + 2] = (int32_t)(((uint64_t)a.val[i] + (uint64_t)b.val[i]) >> 32);
     return ret;
 }
 
@@ -1993,7 +1993,7 @@ int16x4_t vsubhn_s32(int32x4_t N, int32x4_t M)
     int16x4_t D;
     for (size_t i = 0; i < 4; i++)
     {
-        D.val[i] = (N.val[i] - M.val[i]) >> 16;
+        D.val[i] = ((uint32_t)N.val[i] - (uint32_t)M.val[i]) >> 16;
     }
     return D;
 }
@@ -2003,7 +2003,7 @@ int32x2_t vsubhn_s64(int64x2_t N, int64x2_t M)
     int32x2_t D;
     for (size_t i = 0; i < 2; i++)
     {
-        D.val[i] = (N.val[i] - M.val[i]) >> 32;
+        D.val[i] = ((uint64_t)N.val[i] - (uint64_t)M.val[i]) >> 32;
     }
     return D;
 }
@@ -2643,7 +2643,7 @@ int16x4_t vrsubhn_s32(int32x4_t N, int32x4_t M)
     const int32_t delta = (1 << (shift - 1));
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = (N.val[i] - M.val[i] + delta) >> shift;
+        D.val[i] = ((uint32_t)N.val[i] - (uint32_t)M.val[i] + delta) >> shift;
     }
     return D;
 }
@@ -2655,7 +2655,7 @@ int32x2_t vrsubhn_s64(int64x2_t N, int64x2_t M)
     const int64_t delta = ((int64_t)1 << (shift - 1));
     for (int i = 0; i < 2; i++)
     {
-        D.val[i] = (N.val[i] - M.val[i] + delta) >> shift;
+        D.val[i] = ((uint64_t)N.val[i] - (uint64_t)M.val[i] + delta) >> shift;
     }
     return D;
 }
-- 
2.43.0


From 49b304d720982ad924825fefb0cebe575a1c82ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:15 +0000
Subject: [PATCH 29/35] fix: shift without undefined behaviour in vshlq_n_s32
 and vsraq_n_s32

A left shift of a negative value and a right shift by 32 are undefined.
---
 neon_sim.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index f40f7af..3f17f56 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -3984,7 +3984,7 @@ int32x4_t vsraq_n_s32(int32x4_t a, int32x4_t b, const int n)
     int32x4_t r;
     for (int i = 0; i < 4; i++)
     {
-        r.val[i] =  a.val[i] + (b.val[i] >> n);
+        r.val[i] =  (uint32_t)a.val[i] + (uint32_t)(b.val[i] >> (n < 32 ? n : 31));
     }
     return r;
 }
@@ -3995,7 +3995,7 @@ int32x4_t vshlq_n_s32(int32x4_t M, const int n)
     int32x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = M.val[i] << n;
+        D.val[i] = (uint32_t)M.val[i] << n;
     }
     return D;
 }
-- 
2.43.0


From c3bd4f888f44d1e73afdd7942e8bdf0405d03586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:28 +0000
Subject: [PATCH 30/35] fix: reject the out-of-range position 8 in vext_u8 and
 vextq_u16

---
 neon_sim.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 3f17f56..9f7aa4e 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -4802,9 +4802,9 @@ uint8x8_t vext_u8(uint8x8_t a, uint8x8_t b, const int n)
 {
     uint8x8_t r;
     int len = 8;
-    if (n > 8 || n < 0)
+    if (n > 7 || n < 0)
     {
-        fprintf(stderr, "%s: param n is not in range [0, 8]\n", __FUNCTION__);
+        fprintf(stderr, "%s: param n is not in range [0, 7]\n", __FUNCTION__);
         abort();
     }
     for (int i = 0; i < len - n; i++)
@@ -4863,9 +4863,9 @@ uint16x8_t vextq_u16(uint16x8_t a, uint16x8_t b, const int n)
 {
     uint16x8_t r;
     int len = 8;
-    if (n > 8 || n < 0)
+    if (n > 7 || n < 0)
     {
-        fprintf(stderr, "%s: param n is not in range [0, 8]\n", __FUNCTION__);
+        fprintf(stderr, "%s: param n is not in range [0, 7]\n", __FUNCTION__);
         abort();
     }
     for (int i = 0; i < len - n; i++)
-- 
2.43.0


From ddbbb19641db1fe620670554b33cfab1c1328dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:28 +0000
Subject: [PATCH 31/35] fix: check the lane of vld1_lane_s8/u8 and
 vst4q_lane_f32

An invalid lane wrote or read outside the vector.
---
 neon_sim.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 9f7aa4e..ccbec98 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -638,6 +638,11 @@ float32x4_t vld1q_dup_f32(float32_t const* ptr)
 
 int8x8_t vld1_lane_s8(int8_t const* ptr, int8x8_t src, const int lane)
 {
+    if (lane < 0 || lane > 7)
+    {
+        fprintf(stderr, "%s: param lane not in range [0, 7]\n", __FUNCTION__);
+        abort();
+    }
     int8x8_t r;
     for (int i = 0; i < 8; i++)
     {
@@ -649,6 +654,11 @@ int8x8_t vld1_lane_s8(int8_t const* ptr, int8x8_t src, const int lane)
 
 uint8x8_t vld1_lane_u8(uint8_t const* ptr, uint8x8_t src, const int lane)
 {
+    if (lane < 0 || lane > 7)
+    {
+        fprintf(stderr, "%s: param lane not in range [0, 7]\n", __FUNCTION__);
+        abort();
+    }
     uint8x8_t r;
     for (int i = 0; i < 8; i++)
     {
@@ -1203,6 +1213,11 @@ void vst4q_u32(uint32_t* ptr, uint32x4x4_t val)
 // vst4q_lane
 void vst4q_lane_f32(float32_t* ptr, float32x4x4_t val, const int lane)
 {
+    if (lane < 0 || lane > 3)
+    {
+        fprintf(stderr, "%s: param lane not in range [0, 3]\n", __FUNCTION__);
+        abort();
+    }
     for (int i = 0; i < 4; i++)
     {
         ptr[i] = val.val[i].val[lane];
-- 
2.43.0


From 2f0086efb6d76dd3cac1c254fc80e4770f9ab3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:29 +0000
Subject: [PATCH 32/35] fix: check the lane of vget_lane and vgetq_lane

Only vgetq_lane_f32 did, the others read outside the vector.
---
 neon_sim.cpp | 50 ++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 50 insertions(+)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index ccbec98..6edc56e 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -3610,6 +3610,11 @@ float32x2_t vpmin_f32(float32x2_t a, float32x2_t b)
 
 float32_t vget_lane_f32(float32x2_t v, const int lane)
 {
+    if (lane < 0 || lane > 1)
+    {
+        fprintf(stderr, "%s: param lane not in range [0, 1]\n", __FUNCTION__);
+        abort();
+    }
     return v.val[lane];
 }
 
@@ -3626,46 +3631,91 @@ float32_t vgetq_lane_f32(float32x4_t v, int lane)
 // vgetq_lane_type
 uint8_t vgetq_lane_u8(uint8x16_t v, const int lane)
 {
+    if (lane < 0 || lane > 15)
+    {
+        fprintf(stderr, "%s: param lane not in range [0, 15]\n", __FUNCTION__);
+        abort();
+    }
     return v.val[lane];
 }
 
 uint16_t vgetq_lane_u16(uint16x8_t v, const int lane)
 {
+    if (lane < 0 || lane > 7)
+    {
+        fprintf(stderr, "%s: param lane not in range [0, 7]\n", __FUNCTION__);
+        abort();
+    }
     return v.val[lane];
 }
 
 uint32_t vgetq_lane_u32(uint32x4_t v, const int lane)
 {
+    if (lane < 0 || lane > 3)
+    {
+        fprintf(stderr, "%s: param lane not in range [0, 3]\n", __FUNCTION__);
+        abort();
+    }
     return v.val[lane];
 }
 
 uint64_t vgetq_lane_u64(uint64x2_t v, const int lane)
 {
+    if (lane < 0 || lane > 1)
+    {
+        fprintf(stderr, "%s: param lane not in range [0, 1]\n", __FUNCTION__);
+        abort();
+    }
     return v.val[lane];
 }
 
 int8_t vgetq_lane_s8(int8x16_t v, const int lane)
 {
+    if (lane < 0 || lane > 15)
+    {
+        fprintf(stderr, "%s: param lane not in range [0, 15]\n", __FUNCTION__);
+        abort();
+    }
     return v.val[lane];
 }
 
 int16_t vgetq_lane_s16(int16x8_t v, const int lane)
 {
+    if (lane < 0 || lane > 7)
+    {
+        fprintf(stderr, "%s: param lane not in range [0, 7]\n", __FUNCTION__);
+        abort();
+    }
     return v.val[lane];
 }
 
 int32_t vgetq_lane_s32(int32x4_t v, const int lane)
 {
+    if (lane < 0 || lane > 3)
+    {
+        fprintf(stderr, "%s: param lane not in range [0, 3]\n", __FUNCTION__);
+        abort();
+    }
     return v.val[lane];
 }
 
 int64_t vgetq_lane_s64(int64x2_t v, const int lane)
 {
+    if (lane < 0 || lane > 1)
+    {
+        fprintf(stderr, "%s: param lane not in range [0, 1]\n", __FUNCTION__);
+        abort();
+    }
     return v.val[lane];
 }
 
 float64_t vgetq_lane_f64(float64x2_t v, const int lane)
 {
+    if (lane < 0 || lane > 1)
+    {
+        fprintf(stderr, "%s: param lane not in range [0, 1]\n", __FUNCTION__);
+        abort();
+    }
     return v.val[lane];
 }
 
-- 
2.43.0


From da34f59d0b143094c794b6b119e2563cda9d20b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:29 +0000
Subject: [PATCH 33/35] fix: check the shift amount of vrshrn_n, vsraq_n,
 vshlq_n, vshll_n and vqshrn_n

---
 neon_sim.cpp | 50 ++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 50 insertions(+)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 6edc56e..0c548c2 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -4035,6 +4035,11 @@ uint8x8_t vqrshrun_n_s16(int16x8_t v, const int n)
 
 uint8x8_t vrshrn_n_u16(uint16x8_t a, const int n)
 {
+    if (n < 1 || n > 8)
+    {
+        fprintf(stderr, "%s: param n not in range [1, 8]\n", __FUNCTION__);
+        abort();
+    }
     uint8x8_t r;
     const int delta = (1 << (n - 1));
     for (int i = 0; i < 8; i++)
@@ -4046,6 +4051,11 @@ uint8x8_t vrshrn_n_u16(uint16x8_t a, const int n)
 
 int32x4_t vsraq_n_s32(int32x4_t a, int32x4_t b, const int n)
 {
+    if (n < 1 || n > 32)
+    {
+        fprintf(stderr, "%s: param n not in range [1, 32]\n", __FUNCTION__);
+        abort();
+    }
     int32x4_t r;
     for (int i = 0; i < 4; i++)
     {
@@ -4057,6 +4067,11 @@ int32x4_t vsraq_n_s32(int32x4_t a, int32x4_t b, const int n)
 // shift left
 int32x4_t vshlq_n_s32(int32x4_t M, const int n)
 {
+    if (n < 0 || n > 31)
+    {
+        fprintf(stderr, "%s: param n not in range [0, 31]\n", __FUNCTION__);
+        abort();
+    }
     int32x4_t D;
     for (int i = 0; i < 4; i++)
     {
@@ -4067,6 +4082,11 @@ int32x4_t vshlq_n_s32(int32x4_t M, const int n)
 
 uint16x8_t vshll_n_u8(uint8x8_t a, const int n)
 {
+    if (n < 0 || n > 7)
+    {
+        fprintf(stderr, "%s: param n not in range [0, 7]\n", __FUNCTION__);
+        abort();
+    }
     uint16x8_t r;
     for (int i = 0; i < 8; i++)
     {
@@ -6122,6 +6142,11 @@ float64x2_t vdivq_f64(float64x2_t a, float64x2_t b)
 // saturated shift right and narrow
 int8x8_t vqshrn_n_s16(int16x8_t a, const int n)
 {
+    if (n < 1 || n > 8)
+    {
+        fprintf(stderr, "%s: param n not in range [1, 8]\n", __FUNCTION__);
+        abort();
+    }
     int8x8_t r;
     for (int i = 0; i < 8; i++)
     {
@@ -6132,6 +6157,11 @@ int8x8_t vqshrn_n_s16(int16x8_t a, const int n)
 
 int16x4_t vqshrn_n_s32(int32x4_t a, const int n)
 {
+    if (n < 1 || n > 16)
+    {
+        fprintf(stderr, "%s: param n not in range [1, 16]\n", __FUNCTION__);
+        abort();
+    }
     int16x4_t r;
     for (int i = 0; i < 4; i++)
     {
@@ -6142,6 +6172,11 @@ int16x4_t vqshrn_n_s32(int32x4_t a, const int n)
 
 int32x2_t vqshrn_n_s64(int64x2_t a, const int n)
 {
+    if (n < 1 || n > 32)
+    {
+        fprintf(stderr, "%s: param n not in range [1, 32]\n", __FUNCTION__);
+        abort();
+    }
     int32x2_t r;
     for (int i = 0; i < 2; i++)
     {
@@ -6152,6 +6187,11 @@ int32x2_t vqshrn_n_s64(int64x2_t a, const int n)
 
 uint8x8_t vqshrn_n_u16(uint16x8_t a, const int n)
 {
+    if (n < 1 || n > 8)
+    {
+        fprintf(stderr, "%s: param n not in range [1, 8]\n", __FUNCTION__);
+        abort();
+    }
     uint8x8_t r;
     for (int i = 0; i < 8; i++)
     {
@@ -6162,6 +6202,11 @@ uint8x8_t vqshrn_n_u16(uint16x8_t a, const int n)
 
 uint16x4_t vqshrn_n_u32(uint32x4_t a, const int n)
 {
+    if (n < 1 || n > 16)
+    {
+        fprintf(stderr, "%s: param n not in range [1, 16]\n", __FUNCTION__);
+        abort();
+    }
     uint16x4_t r;
     for (int i = 0; i < 4; i++)
     {
@@ -6172,6 +6217,11 @@ uint16x4_t vqshrn_n_u32(uint32x4_t a, const int n)
 
 uint32x2_t vqshrn_n_u64(uint64x2_t a, const int n)
 {
+    if (n < 1 || n > 32)
+    {
+        fprintf(stderr, "%s: param n not in range [1, 32]\n", __FUNCTION__);
+        abort();
+    }
     uint32x2_t r;
     for (int i = 0; i < 2; i++)
     {
-- 
2.43.0


From 27e1791c95fc873902485b036e125061022a8a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:36 +0000
Subject: [PATCH 34/35] fix: do not allocate memory in the reciprocal estimate

---
 neon_sim.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index 0c548c2..a27a6b6 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -4376,8 +4376,9 @@ struct float_parts
 
     int exp_bits[8];
     int fraction_bits[23];
-    std::string exp_bits_str = std::string(8, '0');
-    std::string fraction_bits_str = std::string(23, '0');
+    // plain arrays: a float_parts must not allocate
+    char exp_bits_str[8 + 1];
+    char fraction_bits_str[23 + 1];
 
 private:
     void int32_to_binary(int data, int* bits, int n = 32)
@@ -4455,6 +4456,8 @@ float_parts::float_parts(float v)
     {
         fraction_bits_str[i] = fraction_bits[i] + '0';
     }
+    exp_bits_str[8] = '\0';
+    fraction_bits_str[23] = '\0';
 }
 
 float_parts::operator float() const
-- 
2.43.0


From 3861ebe61ea0215a68cd2cc20b2ce39a7a09c917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:06 +0000
Subject: [PATCH 35/35] fix: round the product in vmlaq_f32 and vmlaq_n_f32 on
 its own, so that compilers that contract within an expression do not fuse it

---
 neon_sim.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/neon_sim.cpp b/neon_sim.cpp
index a27a6b6..7eec087 100644
--- a/neon_sim.cpp
+++ b/neon_sim.cpp
@@ -3269,7 +3269,8 @@ float32x4_t vmlaq_f32(float32x4_t N, float32x4_t M, float32x4_t P)
     float32x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = N.val[i] + M.val[i] * P.val[i];
+        float32_t product = M.val[i] * P.val[i]; // rounded on its own: multiply and add are not fused
+        D.val[i] = N.val[i] + product;
     }
     return D;
 }
@@ -3280,7 +3281,8 @@ float32x4_t vmlaq_n_f32(float32x4_t a, float32x4_t b, float32_t c)
     float32x4_t D;
     for (int i = 0; i < 4; i++)
     {
-        D.val[i] = a.val[i] + b.val[i] * c;
+        float32_t product = b.val[i] * c; // rounded on its own: multiply and add are not fused
+        D.val[i] = a.val[i] + product;
     }
     return D;
 }
-- 
2.43.0

