From cacc3f9394cbc97bc9092eb1a3b971466d78f491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:17 +0000
Subject: [PATCH 01/14] fix: rle8_sh bounds too small, compressor guarded by
 another codec's bounds

rle8_sh_bounds ignored block header overhead (a single byte already needs 15 bytes), so the data growing
upwards and the header growing downwards collided. Sizes whose bounds are not representable are rejected.
---
 src/rle_sh.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/rle_sh.c b/src/rle_sh.c
index f113437..c03fd72 100644
--- a/src/rle_sh.c
+++ b/src/rle_sh.c
@@ -92,7 +92,10 @@ inline void rle8_sh_consume_bits(rle8_sh_read_header *pHeader, const int8_t bits
 
 uint32_t rle8_sh_bounds(const uint32_t size)
 {
-  return size + sizeof(uint32_t) * 2 + 1 + sizeof(uint32_t);
+  if (size > (1 << 30))
+    return 0;
+
+  return size + size / 64 + sizeof(uint32_t) * 2 + 1 + sizeof(uint32_t) + 16; // a copy block header can add up to two bytes per ~256 bytes.
 }
 
 inline void rle8_sh_encoded_copy(IN const uint8_t *pBlockStart, OUT uint8_t **ppOut, const size_t copyCount, rle8_sh_header_state *pHeader, const uint8_t lastRleSymbol, uint8_t *pSecondMostImportant, uint8_t *pThirdMostImportant, uint8_t *pLastOccuredSymbol)
@@ -268,7 +271,7 @@ inline void rle8_sh_copy(IN const uint8_t *pBlockStart, OUT uint8_t **ppOut, con
 
 uint32_t rle8_sh_compress(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle8_mmtf128_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle8_sh_bounds(inSize) == 0 || outSize < rle8_sh_bounds(inSize))
     return 0;
 
   uint32_t *pFileHeader = (uint32_t *)pOut;
-- 
2.43.0


From 3fda1a913de6567e9f7849d2fef4a7e66a588b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:17 +0000
Subject: [PATCH 02/14] fix: rle8_mmtf128_compress_bounds too small,
 unsupported sizes accepted

The stream has an 8 byte file header in front of the block headers, n + 8 bytes are exceeded by incompressible data.
Also reject input sizes for which the bounds function reports 0 rather than accepting any output size.
---
 src/rle8_mmtf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rle8_mmtf.c b/src/rle8_mmtf.c
index c5cb7ca..02dc44a 100644
--- a/src/rle8_mmtf.c
+++ b/src/rle8_mmtf.c
@@ -28,7 +28,7 @@ uint32_t rle8_mmtf128_compress_bounds(const uint32_t inSize)
   if (inSize > (1 << 30))
     return 0;
 
-  return inSize + sizeof(uint8_t) + sizeof(uint8_t) + sizeof(uint8_t) + sizeof(uint32_t) + 1;
+  return inSize + sizeof(uint32_t) * 2 + sizeof(uint32_t) * 2 + 16; // file header, block headers & some slack for the last block.
 }
 
 uint32_t rle8_mmtf256_compress_bounds(const uint32_t inSize)
@@ -152,7 +152,7 @@ inline static uint8_t *bitpack_encode3_simple_sse2_unaligned_m128i(const __m128i
 
 uint32_t rle8_mmtf128_compress(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle8_mmtf128_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle8_mmtf128_compress_bounds(inSize) == 0 || outSize < rle8_mmtf128_compress_bounds(inSize))
     return 0;
 
   uint32_t *pHeader = (uint32_t *)pOut;
-- 
2.43.0


From 3503a11761d11bb30c50cc4089cf2940b7f847ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:17 +0000
Subject: [PATCH 03/14] fix: rle_compress_bounds can be exceeded by crafted
 inputs

Runs are considered worth encoding based on the small header size. If they follow a range that needs the large range
field, each of those blocks expands by up to four bytes, which the constant overhead can not account for.
---
 src/rle8_extreme_cpu.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rle8_extreme_cpu.c b/src/rle8_extreme_cpu.c
index 5c17905..97a5e06 100644
--- a/src/rle8_extreme_cpu.c
+++ b/src/rle8_extreme_cpu.c
@@ -24,7 +24,7 @@ uint32_t rle_compress_bounds(const uint32_t inSize)
   if (inSize > (1 << 30))
     return 0;
 
-  return inSize + (16 + 4 + 1 + 4 + 1 + 64) * 2 + (3 * 4) + 1;
+  return inSize + inSize / 32 + (16 + 4 + 1 + 4 + 1 + 64) * 2 + (3 * 4) + 1; // `inSize / 32`: runs that are barely worth encoding following copy ranges that don't fit into the small range field.
 }
 
 //////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 2e4646c41aa88287d96dcd3e02fb03924e065ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:17 +0000
Subject: [PATCH 04/14] fix: reject inputs larger than the supported maximum in
 all rle_compress_bounds compressors

rle_compress_bounds returns 0 for unsupported sizes, hence `outSize < rle_compress_bounds(inSize)` accepted every
output buffer for those and wrote past its end.
---
 src/rle128_extreme_cpu.h               | 2 +-
 src/rle24_extreme_cpu.h                | 2 +-
 src/rle24_extreme_cpu_encode.h         | 2 +-
 src/rle48_extreme_cpu.h                | 2 +-
 src/rle48_extreme_cpu_encode.h         | 2 +-
 src/rle8_extreme_cpu.h                 | 4 ++--
 src/rleX_Xsl.h                         | 4 ++--
 src/rleX_Xsl_multibyte_encoder.h       | 2 +-
 src/rleX_Xsl_short.h                   | 6 +++---
 src/rleX_Xsl_short_multibyte_encoder.h | 2 +-
 src/rleX_extreme_cpu.h                 | 2 +-
 src/rleX_extreme_cpu_encode.h          | 2 +-
 12 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/rle128_extreme_cpu.h b/src/rle128_extreme_cpu.h
index 006952d..651719a 100644
--- a/src/rle128_extreme_cpu.h
+++ b/src/rle128_extreme_cpu.h
@@ -31,7 +31,7 @@
 
 uint32_t CONCAT3(rle128_, CODEC, _compress)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-	if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+	if (pIn == NULL || inSize == 0 || pOut == NULL || rle_compress_bounds(inSize) == 0 || outSize < rle_compress_bounds(inSize))
 		return 0;
 
 	size_t index = 0;
diff --git a/src/rle24_extreme_cpu.h b/src/rle24_extreme_cpu.h
index a453a1b..6e99e45 100644
--- a/src/rle24_extreme_cpu.h
+++ b/src/rle24_extreme_cpu.h
@@ -54,7 +54,7 @@
 
 uint32_t CONCAT3(rle24_, CODEC, _compress)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle_compress_bounds(inSize) == 0 || outSize < rle_compress_bounds(inSize))
     return 0;
 
   _DetectCPUFeatures();
diff --git a/src/rle24_extreme_cpu_encode.h b/src/rle24_extreme_cpu_encode.h
index 5fac1a6..09151e5 100644
--- a/src/rle24_extreme_cpu_encode.h
+++ b/src/rle24_extreme_cpu_encode.h
@@ -17,7 +17,7 @@
 #endif
 uint32_t CONCAT3(rle24_, CODEC, FUNC_NAME)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle_compress_bounds(inSize) == 0 || outSize < rle_compress_bounds(inSize))
     return 0;
 
   size_t index = 0;
diff --git a/src/rle48_extreme_cpu.h b/src/rle48_extreme_cpu.h
index 17d79a2..ad8c6a5 100644
--- a/src/rle48_extreme_cpu.h
+++ b/src/rle48_extreme_cpu.h
@@ -54,7 +54,7 @@
 
 uint32_t CONCAT3(rle48_, CODEC, _compress)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle_compress_bounds(inSize) == 0 || outSize < rle_compress_bounds(inSize))
     return 0;
 
   _DetectCPUFeatures();
diff --git a/src/rle48_extreme_cpu_encode.h b/src/rle48_extreme_cpu_encode.h
index 82321b6..591a7b2 100644
--- a/src/rle48_extreme_cpu_encode.h
+++ b/src/rle48_extreme_cpu_encode.h
@@ -17,7 +17,7 @@
 #endif
 uint32_t CONCAT3(rle48_, CODEC, FUNC_NAME)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle_compress_bounds(inSize) == 0 || outSize < rle_compress_bounds(inSize))
     return 0;
 
   size_t index = 0;
diff --git a/src/rle8_extreme_cpu.h b/src/rle8_extreme_cpu.h
index 097b5f2..3e32979 100644
--- a/src/rle8_extreme_cpu.h
+++ b/src/rle8_extreme_cpu.h
@@ -85,7 +85,7 @@ static void CONCAT3(rle8, CODEC, decompress_single_avx512f)(IN const uint8_t *pI
 
 uint32_t CONCAT3(rle8, CODEC, multi_compress)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle_compress_bounds(inSize) == 0 || outSize < rle_compress_bounds(inSize))
     return 0;
 
   rle_extreme_t header;
@@ -345,7 +345,7 @@ uint32_t CONCAT3(rle8, CODEC, multi_compress)(IN const uint8_t *pIn, const uint3
 
 uint32_t CONCAT3(rle8, CODEC, single_compress)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle_compress_bounds(inSize) == 0 || outSize < rle_compress_bounds(inSize))
     return 0;
 
   rle_extreme_t header;
diff --git a/src/rleX_Xsl.h b/src/rleX_Xsl.h
index 217936e..aa7f7ff 100644
--- a/src/rleX_Xsl.h
+++ b/src/rleX_Xsl.h
@@ -268,7 +268,7 @@ bool CONCAT3(CONCAT3(_rle, TYPE_SIZE, _), CODEC, process_symbol)(IN const uint8_
 #if TYPE_SIZE == 8
 uint32_t CONCAT3(CONCAT3(rle, TYPE_SIZE, _), CODEC, compress)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle_compress_bounds(inSize) == 0 || outSize < rle_compress_bounds(inSize))
     return 0;
 
   ((uint32_t *)pOut)[0] = (uint32_t)inSize;
@@ -507,7 +507,7 @@ static int64_t CONCAT3(CONCAT3(rle, TYPE_SIZE, _), CODEC, compress_avx2)(IN cons
 
 uint32_t CONCAT3(CONCAT3(rle, TYPE_SIZE, _), CODEC, compress)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle_compress_bounds(inSize) == 0 || outSize < rle_compress_bounds(inSize))
     return 0;
 
   _DetectCPUFeatures();
diff --git a/src/rleX_Xsl_multibyte_encoder.h b/src/rleX_Xsl_multibyte_encoder.h
index 2792827..06685cb 100644
--- a/src/rleX_Xsl_multibyte_encoder.h
+++ b/src/rleX_Xsl_multibyte_encoder.h
@@ -17,7 +17,7 @@ __attribute__((target("avx2")))
 #endif
 uint32_t CONCAT3(CONCAT3(rle, TYPE_SIZE, _), CODEC, FUNC_NAME)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle_compress_bounds(inSize) == 0 || outSize < rle_compress_bounds(inSize))
     return 0;
 
   ((uint32_t *)pOut)[0] = (uint32_t)inSize;
diff --git a/src/rleX_Xsl_short.h b/src/rleX_Xsl_short.h
index 1553dc0..6869e0b 100644
--- a/src/rleX_Xsl_short.h
+++ b/src/rleX_Xsl_short.h
@@ -380,7 +380,7 @@ uint8_t rle8_single_compress_get_approx_optimal_symbol_avx2(IN const uint8_t *pI
 
 uint32_t CONCAT3(rle8_, CODEC, compress)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle_compress_bounds(inSize) == 0 || outSize < rle_compress_bounds(inSize))
     return 0;
 
   ((uint32_t *)pOut)[0] = (uint32_t)inSize;
@@ -684,7 +684,7 @@ static int64_t CONCAT3(rle8_, CODEC, compress_avx2)(IN const uint8_t *pIn, const
 
 uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, compress))(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle_compress_bounds(inSize) == 0 || outSize < rle_compress_bounds(inSize))
     return 0;
 
   _DetectCPUFeatures();
@@ -745,7 +745,7 @@ size_t CONCAT3(rleX_Xsl_short_get_match_length, CODEC, TYPE_SIZE)(const uintXX_t
 
 uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, compress_greedy))(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle_compress_bounds(inSize) == 0 || outSize < rle_compress_bounds(inSize))
     return 0;
 
   ((uint32_t *)pOut)[0] = (uint32_t)inSize;
diff --git a/src/rleX_Xsl_short_multibyte_encoder.h b/src/rleX_Xsl_short_multibyte_encoder.h
index e971f8f..ace7406 100644
--- a/src/rleX_Xsl_short_multibyte_encoder.h
+++ b/src/rleX_Xsl_short_multibyte_encoder.h
@@ -17,7 +17,7 @@ __attribute__((target("avx2")))
 #endif
 uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, FUNC_NAME))(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle_compress_bounds(inSize) == 0 || outSize < rle_compress_bounds(inSize))
     return 0;
 
   ((uint32_t *)pOut)[0] = (uint32_t)inSize;
diff --git a/src/rleX_extreme_cpu.h b/src/rleX_extreme_cpu.h
index 49b5125..3815a7b 100644
--- a/src/rleX_extreme_cpu.h
+++ b/src/rleX_extreme_cpu.h
@@ -46,7 +46,7 @@
 
 uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, _compress))(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle_compress_bounds(inSize) == 0 || outSize < rle_compress_bounds(inSize))
     return 0;
 
   _DetectCPUFeatures();
diff --git a/src/rleX_extreme_cpu_encode.h b/src/rleX_extreme_cpu_encode.h
index bab39a5..06dc4ed 100644
--- a/src/rleX_extreme_cpu_encode.h
+++ b/src/rleX_extreme_cpu_encode.h
@@ -13,7 +13,7 @@ __attribute__((target("avx2")))
 #endif
 uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, ENCODE_FUNC_NAME))(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle_compress_bounds(inSize) == 0 || outSize < rle_compress_bounds(inSize))
     return 0;
 
   size_t index = 0;
-- 
2.43.0


From e6b1da2626927e9b7634bc8a404223c1e971721a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:41 +0000
Subject: [PATCH 05/14] fix: low entropy statistics count the last run as a
 single block

A long last run of an otherwise mostly non-repeating symbol selected that symbol for run length encoding, expanding the
data past the compress bounds.
---
 src/rle8_low_entropy_cpu.c       | 4 ++--
 src/rle8_low_entropy_short_cpu.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rle8_low_entropy_cpu.c b/src/rle8_low_entropy_cpu.c
index d5ee063..ee0dfdb 100644
--- a/src/rle8_low_entropy_cpu.c
+++ b/src/rle8_low_entropy_cpu.c
@@ -293,7 +293,7 @@ bool rle8_low_entropy_get_compress_info(IN const uint8_t *pIn, const uint32_t in
     }
 
     prob[lastSymbol] += count;
-    pcount[lastSymbol]++;
+    pcount[lastSymbol] += (count / 255) + 1;
 
     for (size_t i = 0; i < 256; i++)
       if (pcount[i] > 0)
@@ -380,7 +380,7 @@ bool rle8_low_entropy_get_compress_info_only_max_frequency(IN const uint8_t * pI
     }
 
     prob[lastSymbol] += count;
-    pcount[lastSymbol]++;
+    pcount[lastSymbol] += (count / 255) + 1;
 
     size_t maxBytesSaved = 0;
     size_t maxBytesSavedIndexIndex = 0;
diff --git a/src/rle8_low_entropy_short_cpu.c b/src/rle8_low_entropy_short_cpu.c
index d02033c..0d4ae45 100644
--- a/src/rle8_low_entropy_short_cpu.c
+++ b/src/rle8_low_entropy_short_cpu.c
@@ -575,7 +575,7 @@ bool rle8_low_entropy_short_get_compress_info(IN const uint8_t *pIn, const uint3
     }
 
     prob[lastSymbol] += count;
-    pcount[lastSymbol]++;
+    pcount[lastSymbol] += (count / ULTRA_MAX_BLOCK_LENGTH) + 1;
 
     for (size_t i = 0; i < 256; i++)
       if (pcount[i] > 0)
@@ -662,7 +662,7 @@ bool rle8_low_entropy_short_get_compress_info_only_max_frequency(IN const uint8_
     }
 
     prob[lastSymbol] += count;
-    pcount[lastSymbol]++;
+    pcount[lastSymbol] += (count / ULTRA_MAX_BLOCK_LENGTH) + 1;
 
     size_t maxBytesSaved = 0;
     size_t maxBytesSavedIndexIndex = 0;
-- 
2.43.0


From 375ae9315cba045a452e0e81e3a0463a2fda9e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:41 +0000
Subject: [PATCH 06/14] fix: low entropy compress bounds wrap around and miss
 the last block's overhead

Closes to 2^32 the bounds wrapped around and any output buffer was accepted, 256 different symbols with a run at the
end exceeded them by a byte.
---
 src/rle8_low_entropy_cpu.c       | 11 ++++++++---
 src/rle8_low_entropy_short_cpu.c | 11 ++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/rle8_low_entropy_cpu.c b/src/rle8_low_entropy_cpu.c
index ee0dfdb..86a76c8 100644
--- a/src/rle8_low_entropy_cpu.c
+++ b/src/rle8_low_entropy_cpu.c
@@ -5,12 +5,17 @@
 
 uint32_t rle8_low_entropy_compress_bounds(const uint32_t inSize)
 {
-  return inSize + (256 / 8) + 1 + 256 + sizeof(uint32_t) * 2;
+  const uint64_t bounds = (uint64_t)inSize + (256 / 8) + 1 + 256 + sizeof(uint32_t) * 2 + 8; // the last block can expand by a few bytes.
+
+  if (bounds > UINT32_MAX)
+    return 0;
+
+  return (uint32_t)bounds;
 }
 
 uint32_t rle8_low_entropy_compress(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle8_low_entropy_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle8_low_entropy_compress_bounds(inSize) == 0 || outSize < rle8_low_entropy_compress_bounds(inSize))
     return 0;
 
   rle8_low_entropy_compress_info_t compressInfo;
@@ -51,7 +56,7 @@ uint32_t rle8_low_entropy_compress(IN const uint8_t *pIn, const uint32_t inSize,
 
 uint32_t rle8_low_entropy_compress_only_max_frequency(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle8_low_entropy_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle8_low_entropy_compress_bounds(inSize) == 0 || outSize < rle8_low_entropy_compress_bounds(inSize))
     return 0;
 
   rle8_low_entropy_compress_info_t compressInfo;
diff --git a/src/rle8_low_entropy_short_cpu.c b/src/rle8_low_entropy_short_cpu.c
index 0d4ae45..7e52cc1 100644
--- a/src/rle8_low_entropy_short_cpu.c
+++ b/src/rle8_low_entropy_short_cpu.c
@@ -15,12 +15,17 @@ bool rle8_low_entropy_short_get_compress_info_only_max_frequency(IN const uint8_
 
 uint32_t rle8_low_entropy_short_compress_bounds(const uint32_t inSize)
 {
-  return inSize + (256 / 8) + 1 + 256 + sizeof(uint32_t) * 2;
+  const uint64_t bounds = (uint64_t)inSize + (256 / 8) + 1 + 256 + sizeof(uint32_t) * 2 + 8; // the last block can expand by a few bytes.
+
+  if (bounds > UINT32_MAX)
+    return 0;
+
+  return (uint32_t)bounds;
 }
 
 uint32_t rle8_low_entropy_short_compress(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle8_low_entropy_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle8_low_entropy_short_compress_bounds(inSize) == 0 || outSize < rle8_low_entropy_short_compress_bounds(inSize))
     return 0;
 
   rle8_low_entropy_compress_info_t compressInfo;
@@ -61,7 +66,7 @@ uint32_t rle8_low_entropy_short_compress(IN const uint8_t *pIn, const uint32_t i
 
 uint32_t rle8_low_entropy_short_compress_only_max_frequency(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle8_low_entropy_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle8_low_entropy_short_compress_bounds(inSize) == 0 || outSize < rle8_low_entropy_short_compress_bounds(inSize))
     return 0;
 
   rle8_low_entropy_compress_info_t compressInfo;
-- 
2.43.0


From dc01f2331581d405a979a6198d7bc702945ae748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:41 +0000
Subject: [PATCH 07/14] fix: rle8m_compress_bounds wraps around and misses the
 sub section overhead

Every sub section splits runs and ends with a block that can expand, which exceeded the bounds with many sub sections.
---
 src/rle8_low_entropy_cpu.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/rle8_low_entropy_cpu.c b/src/rle8_low_entropy_cpu.c
index 86a76c8..af49767 100644
--- a/src/rle8_low_entropy_cpu.c
+++ b/src/rle8_low_entropy_cpu.c
@@ -130,12 +130,17 @@ uint32_t rle8_low_entropy_decompress(IN const uint8_t *pIn, const uint32_t inSiz
 
 uint32_t rle8m_compress_bounds(const uint32_t subSections, const uint32_t inSize)
 {
-  return inSize + (256 / 8) + 1 + 256 + sizeof(uint32_t) * (2 + subSections - 1 + 1);
+  const uint64_t bounds = (uint64_t)inSize + (256 / 8) + 1 + 256 + sizeof(uint32_t) * (2 + (uint64_t)subSections) + 8 * (uint64_t)subSections; // every sub section can expand by a few bytes.
+
+  if (bounds > UINT32_MAX)
+    return 0;
+
+  return (uint32_t)bounds;
 }
 
 uint32_t rle8m_compress(const uint32_t subSections, IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle8m_compress_bounds(subSections, inSize) || subSections == 0)
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle8m_compress_bounds(subSections, inSize) == 0 || outSize < rle8m_compress_bounds(subSections, inSize) || subSections == 0)
     return 0;
 
   rle8_low_entropy_compress_info_t compressInfo;
-- 
2.43.0


From dfafc5bce638b350aeb53ba2d61589d611e08653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:41 +0000
Subject: [PATCH 08/14] fix: rle8m_decompress decodes past the end of the
 stream

The last section was decoded up to the end of the input buffer rather than the end of the stream.
---
 src/rle8_low_entropy_cpu.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rle8_low_entropy_cpu.c b/src/rle8_low_entropy_cpu.c
index af49767..7f0185d 100644
--- a/src/rle8_low_entropy_cpu.c
+++ b/src/rle8_low_entropy_cpu.c
@@ -248,7 +248,7 @@ uint32_t rle8m_decompress(IN const uint8_t *pIn, const uint32_t inSize, OUT uint
 
   // Decode last section.
   {
-    const uint8_t *pEnd = pIn + inSize;
+    const uint8_t *pEnd = pIn + expectedInSize;
 
     const uint32_t size = rle8_low_entropy_decompress_with_info(pCIn, pEnd, &decompressInfo, pOut, (uint32_t)remainingSize);
 
-- 
2.43.0


From ee935cafebc5c400a838cf83849d5f703a18fdef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:29 +0000
Subject: [PATCH 09/14] fix: AVX2 / AVX-512 / FMA reported without OS support
 for the register state

AVX requires both the XMM and YMM state to be enabled by the OS, AVX2 and FMA3 require AVX, AVX-512 additionally the opmask
and ZMM state. Otherwise the decoders fault with an illegal instruction.
---
 src/simd_platform.c | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/src/simd_platform.c b/src/simd_platform.c
index eef735e..6a1b91c 100644
--- a/src/simd_platform.c
+++ b/src/simd_platform.c
@@ -60,6 +60,7 @@ void _DetectCPUFeatures()
   int32_t info[4];
   cpuid(info, 0);
   int32_t idCount = info[0];
+  bool osAVX512Support = false;
 
   if (idCount >= 0x1)
   {
@@ -72,7 +73,8 @@ void _DetectCPUFeatures()
     if (osUsesXSAVE_XRSTORE && cpuAVXSuport)
     {
       uint64_t xcrFeatureMask = _xgetbv(_XCR_XFEATURE_ENABLED_MASK);
-      avxSupported = (xcrFeatureMask & 0x6) != 0;
+      avxSupported = (xcrFeatureMask & 0x6) == 0x6; // XMM & YMM state.
+      osAVX512Support = (xcrFeatureMask & 0xE6) == 0xE6; // opmask & ZMM state as well.
     }
 
     sseSupported = (cpuInfo[3] & (1 << 25)) != 0;
@@ -81,7 +83,7 @@ void _DetectCPUFeatures()
     ssse3Supported = (cpuInfo[2] & (1 << 9)) != 0;
     sse41Supported = (cpuInfo[2] & (1 << 19)) != 0;
     sse42Supported = (cpuInfo[2] & (1 << 20)) != 0;
-    fma3Supported = (cpuInfo[2] & (1 << 12)) != 0;
+    fma3Supported = avxSupported && (cpuInfo[2] & (1 << 12)) != 0;
     aesNiSupported = (cpuInfo[2] & (1 << 25)) != 0;
   }
 
@@ -90,22 +92,22 @@ void _DetectCPUFeatures()
     int32_t cpuInfo[4];
     cpuid(cpuInfo, 7);
 
-    avx2Supported = (cpuInfo[1] & (1 << 5)) != 0;
-    avx512FSupported = (cpuInfo[1] & 1 << 16) != 0;
-    avx512PFSupported = (cpuInfo[1] & 1 << 26) != 0;
-    avx512ERSupported = (cpuInfo[1] & 1 << 27) != 0;
-    avx512CDSupported = (cpuInfo[1] & 1 << 28) != 0;
-    avx512BWSupported = (cpuInfo[1] & 1 << 30) != 0;
-    avx512DQSupported = (cpuInfo[1] & 1 << 17) != 0;
-    avx512VLSupported = (cpuInfo[1] & 1 << 31) != 0;
-    avx512IFMASupported = (cpuInfo[1] & 1 << 21) != 0;
-    avx512VBMISupported = (cpuInfo[2] & 1 << 1) != 0;
-    avx512VNNISupported = (cpuInfo[2] & 1 << 11) != 0;
-    avx512VBMI2Supported = (cpuInfo[2] & 1 << 6) != 0;
-    avx512POPCNTDQSupported = (cpuInfo[2] & 1 << 14) != 0;
-    avx512BITALGSupported = (cpuInfo[2] & 1 << 12) != 0;
-    avx5124VNNIWSupported = (cpuInfo[3] & 1 << 2) != 0;
-    avx5124FMAPSSupported = (cpuInfo[3] & 1 << 3) != 0;
+    avx2Supported = avxSupported && (cpuInfo[1] & (1 << 5)) != 0;
+    avx512FSupported = osAVX512Support && (cpuInfo[1] & 1 << 16) != 0;
+    avx512PFSupported = osAVX512Support && (cpuInfo[1] & 1 << 26) != 0;
+    avx512ERSupported = osAVX512Support && (cpuInfo[1] & 1 << 27) != 0;
+    avx512CDSupported = osAVX512Support && (cpuInfo[1] & 1 << 28) != 0;
+    avx512BWSupported = osAVX512Support && (cpuInfo[1] & 1 << 30) != 0;
+    avx512DQSupported = osAVX512Support && (cpuInfo[1] & 1 << 17) != 0;
+    avx512VLSupported = osAVX512Support && (cpuInfo[1] & 1 << 31) != 0;
+    avx512IFMASupported = osAVX512Support && (cpuInfo[1] & 1 << 21) != 0;
+    avx512VBMISupported = osAVX512Support && (cpuInfo[2] & 1 << 1) != 0;
+    avx512VNNISupported = osAVX512Support && (cpuInfo[2] & 1 << 11) != 0;
+    avx512VBMI2Supported = osAVX512Support && (cpuInfo[2] & 1 << 6) != 0;
+    avx512POPCNTDQSupported = osAVX512Support && (cpuInfo[2] & 1 << 14) != 0;
+    avx512BITALGSupported = osAVX512Support && (cpuInfo[2] & 1 << 12) != 0;
+    avx5124VNNIWSupported = osAVX512Support && (cpuInfo[3] & 1 << 2) != 0;
+    avx5124FMAPSSupported = osAVX512Support && (cpuInfo[3] & 1 << 3) != 0;
   }
 
   _CpuFeaturesDetected = true;
-- 
2.43.0


From fb1adbecb54cff486bd586369ec420eee82136fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:59 +0000
Subject: [PATCH 10/14] fix: low entropy decoders corrupt data if all 256
 symbols are run length encoded

The number of run length encoded symbols was counted in a uint8_t, hence 256 of them wrapped around to 0 and the compressed
data was copied to the output verbatim.
---
 src/rle8_low_entropy_cpu.c       | 2 +-
 src/rle8_low_entropy_short_cpu.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rle8_low_entropy_cpu.c b/src/rle8_low_entropy_cpu.c
index 7f0185d..55d64ad 100644
--- a/src/rle8_low_entropy_cpu.c
+++ b/src/rle8_low_entropy_cpu.c
@@ -947,7 +947,7 @@ uint32_t rle8_low_entropy_decompress_with_info(IN const uint8_t *pIn, IN const u
 
   const uint8_t *pPreEnd = pEnd - 256;
 
-  uint8_t rleSymbolCount = 0;
+  uint32_t rleSymbolCount = 0;
 
   for (size_t i = 0; i < 256; i++)
     rleSymbolCount += rle[i];
diff --git a/src/rle8_low_entropy_short_cpu.c b/src/rle8_low_entropy_short_cpu.c
index 7e52cc1..c282e04 100644
--- a/src/rle8_low_entropy_short_cpu.c
+++ b/src/rle8_low_entropy_short_cpu.c
@@ -452,7 +452,7 @@ uint32_t rle8_low_entropy_short_decompress_with_info(IN const uint8_t *pIn, IN c
 
   const uint8_t *pPreEnd = pEnd - 256;
 
-  uint8_t rleSymbolCount = 0;
+  uint32_t rleSymbolCount = 0;
 
   for (size_t i = 0; i < 256; i++)
     rleSymbolCount += rle[i];
-- 
2.43.0


From 1a17fd071474e6d4835af6d34ea8fbd8fb6a64b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:46 +0000
Subject: [PATCH 11/14] fix: bitpack_encode3_sse2_unaligned_m128i packs the
 same blocks twice if 4 or 5 remain after groups of 6

---
 src/bitpack.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bitpack.h b/src/bitpack.h
index 7f7e5cd..97feb35 100644
--- a/src/bitpack.h
+++ b/src/bitpack.h
@@ -425,6 +425,8 @@ inline uint8_t * bitpack_encode3_sse2_unaligned_m128i(const __m128i *pIn, uint8_
     const __m128i p1 = _mm_loadu_si128(pIn + 1);
     const __m128i p2 = _mm_loadu_si128(pIn + 2);
 
+    pIn += 3;
+
     const __m128i p01p = _mm_or_si128(p0, _mm_slli_epi16(p1, 3));
     const __m128i p2p = _mm_slli_epi16(_mm_and_si128(p2, patternLow2), 6);
 
-- 
2.43.0


From dd5bdb9826e826eba2d2a1fc9a625720d7325601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:46 +0000
Subject: [PATCH 12/14] fix: --test validates the previous codec's output if a
 decoder writes nothing

---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 89de070..a72194c 100644
--- a/src/main.c
+++ b/src/main.c
@@ -944,7 +944,7 @@ int main(int argc, char **pArgv)
         for (size_t i = compressedSize; i < compressedBufferSize; i++)
           pCompressedData[i] = ~pCompressedData[i];
 
-        memset(pDecompressedData, 0, decompressedSize);
+        memset(pDecompressedData, 0, fileSize);
       }
 
       if (noDelays)
-- 
2.43.0


From 907788bbe01c9c5ade8aa46b776f68e482e3e2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:46 +0000
Subject: [PATCH 13/14] fix: fuzzer overlooks differences outside of the top
 bit of a byte

---
 src/rle_fuzz.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rle_fuzz.c b/src/rle_fuzz.c
index d786f95..3a80a01 100644
--- a/src/rle_fuzz.c
+++ b/src/rle_fuzz.c
@@ -481,7 +481,7 @@ bool MemoryEquals(const uint8_t *pBufferA, const uint8_t *pBufferB, const size_t
       for (; offset < endInSimd; offset += sizeof(__m256i))
         cmp[0] = _mm256_or_si256(cmp[0], _mm256_xor_si256(_mm256_load_si256((__m256i *)(pBufferA + offset)), _mm256_load_si256((__m256i *)(pBufferB + offset))));
 
-      if (_mm256_movemask_epi8(cmp[0]) != 0)
+      if (!_mm256_testz_si256(cmp[0], cmp[0]))
         return false;
     }
     else
@@ -507,7 +507,7 @@ bool MemoryEquals(const uint8_t *pBufferA, const uint8_t *pBufferB, const size_t
       for (; offset < endInSimd; offset += sizeof(__m256i))
         cmp[0] = _mm256_or_si256(cmp[0], _mm256_xor_si256(_mm256_loadu_si256((__m256i *)(pBufferA + offset)), _mm256_loadu_si256((__m256i *)(pBufferB + offset))));
 
-      if (_mm256_movemask_epi8(cmp[0]) != 0)
+      if (!_mm256_testz_si256(cmp[0], cmp[0]))
         return false;
     }
   }
-- 
2.43.0


From d1b6d7026de4fcabdb8e1e4901e44de7cf155d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:19 +0000
Subject: [PATCH 14/14] fix: rle8_mmtf128_compress output depends on an
 uninitialised register

---
 src/rle8_mmtf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rle8_mmtf.c b/src/rle8_mmtf.c
index 02dc44a..8f6513d 100644
--- a/src/rle8_mmtf.c
+++ b/src/rle8_mmtf.c
@@ -179,7 +179,7 @@ uint32_t rle8_mmtf128_compress(IN const uint8_t *pIn, const uint32_t inSize, OUT
     const __m128i hi5BitMask = _mm_set1_epi8((uint8_t)0b11111000);
     const __m128i hi6BitMask = _mm_set1_epi8((uint8_t)0b11111100);
 
-    __m128i currentBitMask = _mm_undefined_si128();
+    __m128i currentBitMask = _mm_setzero_si128();
     //__m128i lastOut = _mm_xor_si128(_mm_set1_epi8((int8_t)-1), _mm_loadu_si128((const __m128i *)pIn));
 
     uint8_t *pLastHeader = pOut;
-- 
2.43.0

