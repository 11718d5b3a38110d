From 90473e6499d8719d2bfb08f2d115f0f515242cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:18 +0000
Subject: [PATCH 01/11] fix: KeccakP-1600-times8 AVX512: let the
 4-round-unrolled KangarooTwelve leaf functions compile

---
 .../AVX512/KeccakP-1600-times8-SIMD512.c           | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lib/low/KeccakP-1600-times8/AVX512/KeccakP-1600-times8-SIMD512.c b/lib/low/KeccakP-1600-times8/AVX512/KeccakP-1600-times8-SIMD512.c
index 9784f5a..ffd56e3 100644
--- a/lib/low/KeccakP-1600-times8/AVX512/KeccakP-1600-times8-SIMD512.c
+++ b/lib/low/KeccakP-1600-times8/AVX512/KeccakP-1600-times8-SIMD512.c
@@ -1208,6 +1208,9 @@ size_t KeccakP1600times8_12rounds_FastLoop_Absorb(KeccakP1600times8_SIMD512_stat
 void KeccakP1600times8_KT128ProcessLeaves(const unsigned char *input, unsigned char *output)
 {
     KeccakP_DeclareVars;
+    #if (KeccakP1600times8_unrolling < 12)
+    unsigned int i;
+    #endif
     unsigned int j;
     const uint64_t *outputAsLanes = (const uint64_t *)output;
     __m256i index;
@@ -1219,14 +1222,14 @@ void KeccakP1600times8_KT128ProcessLeaves(const unsigned char *input, unsigned c
     index = LOAD8_32(7*(chunkSize / 8), 6*(chunkSize / 8), 5*(chunkSize / 8), 4*(chunkSize / 8), 3*(chunkSize / 8), 2*(chunkSize / 8), 1*(chunkSize / 8), 0*(chunkSize / 8));
     for(j = 0; j < (chunkSize - KT128_rateInBytes); j += KT128_rateInBytes) {
         XORdata21(_, index, (const uint64_t *)input);
-        rounds12
+        rounds12;
         input += KT128_rateInBytes;
     }
 
     XORdata16(_, index, (const uint64_t *)input);
     XOReq(_me, CONST_64(0x0BULL));
     XOReq(_sa, CONST_64(0x8000000000000000ULL));
-    rounds12
+    rounds12;
 
     index = LOAD8_32(7*4, 6*4, 5*4, 4*4, 3*4, 2*4, 1*4, 0*4);
     STORE_SCATTER8_64(outputAsLanes+0, index, _ba);
@@ -1238,6 +1241,9 @@ void KeccakP1600times8_KT128ProcessLeaves(const unsigned char *input, unsigned c
 void KeccakP1600times8_KT256ProcessLeaves(const unsigned char *input, unsigned char *output)
 {
     KeccakP_DeclareVars;
+    #if (KeccakP1600times8_unrolling < 12)
+    unsigned int i;
+    #endif
     unsigned int j;
     const uint64_t *outputAsLanes = (const uint64_t *)output;
     __m256i index;
@@ -1249,14 +1255,14 @@ void KeccakP1600times8_KT256ProcessLeaves(const unsigned char *input, unsigned c
     index = LOAD8_32(7*(chunkSize / 8), 6*(chunkSize / 8), 5*(chunkSize / 8), 4*(chunkSize / 8), 3*(chunkSize / 8), 2*(chunkSize / 8), 1*(chunkSize / 8), 0*(chunkSize / 8));
     for(j = 0; j < (chunkSize - KT256_rateInBytes); j += KT256_rateInBytes) {
         XORdata17(_, index, (const uint64_t *)input);
-        rounds12
+        rounds12;
         input += KT256_rateInBytes;
     }
 
     XORdata4(_, index, (const uint64_t *)input);
     XOReq(_bu, CONST_64(0x0BULL));
     XOReq(_me, CONST_64(0x8000000000000000ULL));
-    rounds12
+    rounds12;
 
     index = LOAD8_32(7*8, 6*8, 5*8, 4*8, 3*8, 2*8, 1*8, 0*8);
     STORE_SCATTER8_64(outputAsLanes+0, index, _ba);
-- 
2.43.0


From 34bf147cfb7cf235630f92eedccaa8d7255b87a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:16 +0000
Subject: [PATCH 02/11] fix: Xoodyak SSE2: decrypt in place correctly when
 several full blocks are given

---
 .../Xoodoo/SSE2/Xoodyak-full-block-SIMD128.c  | 25 ++++++++++---------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/lib/low/Xoodoo/SSE2/Xoodyak-full-block-SIMD128.c b/lib/low/Xoodoo/SSE2/Xoodyak-full-block-SIMD128.c
index 3306823..e9054ac 100644
--- a/lib/low/Xoodoo/SSE2/Xoodyak-full-block-SIMD128.c
+++ b/lib/low/Xoodoo/SSE2/Xoodyak-full-block-SIMD128.c
@@ -321,6 +321,7 @@ size_t Xoodyak_DecryptFullBlocks(Xoodoo_align128plain32_state *state, const uint
 
     State2Vars(state);
     do {
+        uint64_t i1 = *((const uint64_t*)(I+16)); /* read before O is written, as O may be equal to I */
         Round(_rc12);
         Round(_rc11);
         Round(_rc10);
@@ -336,30 +337,30 @@ size_t Xoodyak_DecryptFullBlocks(Xoodoo_align128plain32_state *state, const uint
         o0 = XOR128(a0, LOAD128u(I[0]));
 #if defined(__SSE41__) || defined(__SSE4_1__)
 #if defined(__i386__) || defined(_M_IX86)
-        *((uint32_t*)(O+16)) = *((uint32_t*)(I+16)) ^ _mm_extract_epi32(a1, 0);
-        *((uint32_t*)(O+20)) = *((uint32_t*)(I+20)) ^ _mm_extract_epi32(a1, 1);
-        a1 = _mm_insert_epi32(a1, *((uint32_t*)(I+16)), 0);
-        a1 = _mm_insert_epi32(a1, *((uint32_t*)(I+20)), 1);
+        *((uint32_t*)(O+16)) = (uint32_t)i1 ^ _mm_extract_epi32(a1, 0);
+        *((uint32_t*)(O+20)) = (uint32_t)(i1 >> 32) ^ _mm_extract_epi32(a1, 1);
+        a1 = _mm_insert_epi32(a1, (uint32_t)i1, 0);
+        a1 = _mm_insert_epi32(a1, (uint32_t)(i1 >> 32), 1);
 #else
-        *((uint64_t*)(O+16)) = *((uint64_t*)(I+16)) ^ _mm_extract_epi64(a1, 0);
-        a1 = _mm_insert_epi64(a1, *((uint64_t*)(I+16)), 0);
+        *((uint64_t*)(O+16)) = i1 ^ _mm_extract_epi64(a1, 0);
+        a1 = _mm_insert_epi64(a1, i1, 0);
 #endif
 #else
 #if defined(__i386__) || defined(_M_IX86)
-        *((uint32_t*)(O+16)) = *((uint32_t*)(I+16)) ^ _mm_cvtsi128_si32(a1);
-        *((uint32_t*)(O+20)) = *((uint32_t*)(I+20)) ^ _mm_cvtsi128_si32(_mm_srli_si128(a1,4));
+        *((uint32_t*)(O+16)) = (uint32_t)i1 ^ _mm_cvtsi128_si32(a1);
+        *((uint32_t*)(O+20)) = (uint32_t)(i1 >> 32) ^ _mm_cvtsi128_si32(_mm_srli_si128(a1,4));
         a1 = _mm_set_epi32(
             // preserve high words
             _mm_cvtsi128_si32(_mm_srli_si128(a1,12), 3),
             _mm_cvtsi128_si32(_mm_srli_si128(a1,8), 2),
-            *((uint32_t*)(I+20)),
-            *((uint32_t*)(I+16)));
+            (uint32_t)(i1 >> 32),
+            (uint32_t)i1);
 #else
-        *((uint64_t*)(O+16)) = *((uint64_t*)(I+16)) ^ _mm_cvtsi128_si64(a1);
+        *((uint64_t*)(O+16)) = i1 ^ _mm_cvtsi128_si64(a1);
         a1 = _mm_set_epi64x(
             // preserve high words
              _mm_cvtsi128_si64(_mm_srli_si128(a1,8)),
-            *((uint64_t*)(I+16)));
+            i1);
 #endif
 #endif
         STORE128u(O[0], o0);
-- 
2.43.0


From 6f91d1a4ed181a690eae71251ecbb7fc6d049be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:59 +0000
Subject: [PATCH 03/11] fix: Xoodyak AVX512: decrypt in place correctly when
 several full blocks are given

---
 lib/low/Xoodoo/AVX512/Xoodyak-full-block-SIMD512.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lib/low/Xoodoo/AVX512/Xoodyak-full-block-SIMD512.c b/lib/low/Xoodoo/AVX512/Xoodyak-full-block-SIMD512.c
index c5275d8..8096539 100644
--- a/lib/low/Xoodoo/AVX512/Xoodyak-full-block-SIMD512.c
+++ b/lib/low/Xoodoo/AVX512/Xoodyak-full-block-SIMD512.c
@@ -298,6 +298,7 @@ size_t Xoodyak_DecryptFullBlocks(Xoodoo_align128plain32_state *state, const uint
 
     State2Vars(state);
     do {
+        uint64_t i1 = *((const uint64_t*)(I+16)); /* read before O is written, as O may be equal to I */
         Round(_rc12);
         Round(_rc11);
         Round(_rc10);
@@ -312,13 +313,13 @@ size_t Xoodyak_DecryptFullBlocks(Xoodoo_align128plain32_state *state, const uint
         Round(_rc1);
         o0 = XOR(a0, LOAD128u(I[0]));
 #if defined(__i386__) || defined(_M_IX86)
-        *((uint32_t*)(O+16)) = *((uint32_t*)(I+16)) ^ _mm_extract_epi32(a1, 0);
-        *((uint32_t*)(O+20)) = *((uint32_t*)(I+20)) ^ _mm_extract_epi32(a1, 1);
-        a1 = _mm_insert_epi32(a1, *((uint32_t*)(I+16)), 0);
-        a1 = _mm_insert_epi32(a1, *((uint32_t*)(I+20)), 1);
+        *((uint32_t*)(O+16)) = (uint32_t)i1 ^ _mm_extract_epi32(a1, 0);
+        *((uint32_t*)(O+20)) = (uint32_t)(i1 >> 32) ^ _mm_extract_epi32(a1, 1);
+        a1 = _mm_insert_epi32(a1, (uint32_t)i1, 0);
+        a1 = _mm_insert_epi32(a1, (uint32_t)(i1 >> 32), 1);
 #else
-        *((uint64_t*)(O+16)) = *((uint64_t*)(I+16)) ^ _mm_extract_epi64(a1, 0);
-        a1 = _mm_insert_epi64(a1, *((uint64_t*)(I+16)), 0);
+        *((uint64_t*)(O+16)) = i1 ^ _mm_extract_epi64(a1, 0);
+        a1 = _mm_insert_epi64(a1, i1, 0);
 #endif
         STORE128u(O[0], o0);
         a0 = XOR(a0, o0); 
-- 
2.43.0


From 9b5aafa72e383f7419c5088f3ade3eab28ee20ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:32 +0000
Subject: [PATCH 04/11] fix: SP800-185: strip unused bits of a partial last
 byte of customization and key

---
 lib/high/Keccak/SP800-185/SP800-185.inc | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/lib/high/Keccak/SP800-185/SP800-185.inc b/lib/high/Keccak/SP800-185/SP800-185.inc
index 0c6d4c8..ba797a5 100644
--- a/lib/high/Keccak/SP800-185/SP800-185.inc
+++ b/lib/high/Keccak/SP800-185/SP800-185.inc
@@ -64,8 +64,13 @@ int cSHAKE_Initialize(cSHAKE_Instance *csk, BitLength outputBitLen, const BitSeq
         /* Absorb encode_string(customization) */
         if (KeccakWidth1600_SpongeAbsorb(&csk->sponge, encbuf, left_encode(encbuf, customBitLen)) != 0)
             return 1;
-        if (KeccakWidth1600_SpongeAbsorb(&csk->sponge, customization, (customBitLen + 7) / 8) != 0) /* allowed to be a bit string, as zero padding is following */
+        if (KeccakWidth1600_SpongeAbsorb(&csk->sponge, customization, customBitLen / 8) != 0) /* allowed to be a bit string, as zero padding is following */
             return 1;
+        if ((customBitLen & 7) != 0) {
+            encbuf[0] = customization[customBitLen / 8] & ((1 << (customBitLen & 7)) - 1); /* strip unwanted bits */
+            if (KeccakWidth1600_SpongeAbsorb(&csk->sponge, encbuf, 1) != 0)
+                return 1;
+        }
             
         /* Zero padding up to rate */
         if ( csk->sponge.byteIOIndex != 0 ) {
@@ -175,8 +180,13 @@ int KMAC_Initialize(KMAC_Instance *km, const BitSequence *key, BitLength keyBitL
     if (cSHAKE_Update(&km->csi, buffer, bufferLen*8) != 0)
         return 1;
     keyByteLen = (keyBitLen + 7) / 8;
-    if (cSHAKE_Update(&km->csi, key, keyByteLen*8) != 0)
+    if (cSHAKE_Update(&km->csi, key, keyBitLen/8*8) != 0)
         return 1;
+    if ((keyBitLen & 7) != 0) {
+        buffer[0] = key[keyBitLen / 8] & ((1 << (keyBitLen & 7)) - 1); /* strip unwanted bits */
+        if (cSHAKE_Update(&km->csi, buffer, 8) != 0)
+            return 1;
+    }
     bufferLen = (bufferLen + keyByteLen) % rateInBytes; /* zero padding */
     if (bufferLen != 0) {
         bufferLen = rateInBytes - bufferLen;
@@ -320,8 +330,13 @@ int ParallelHash_Initialize(ParallelHash_Instance *phi, size_t blockByteLen,
     /* Absorb string_encode(customization) */
     if (KeccakWidth1600_SpongeAbsorb(&phi->finalNode, encbuf, left_encode(encbuf, customBitLen)) != 0)
         return 1;
-    if (KeccakWidth1600_SpongeAbsorb(&phi->finalNode, customization, (customBitLen + 7) / 8) != 0)
+    if (KeccakWidth1600_SpongeAbsorb(&phi->finalNode, customization, customBitLen / 8) != 0)
         return 1;
+    if ((customBitLen & 7) != 0) {
+        encbuf[0] = customization[customBitLen / 8] & ((1 << (customBitLen & 7)) - 1); /* strip unwanted bits */
+        if (KeccakWidth1600_SpongeAbsorb(&phi->finalNode, encbuf, 1) != 0)
+            return 1;
+    }
         
     /* Zero padding up to rate */
     if ( phi->finalNode.byteIOIndex != 0 ) {
-- 
2.43.0


From 56edbc369a0402d13d7eb4eeb24707b138fab34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:31 +0000
Subject: [PATCH 05/11] fix: ParallelHash: no overflow when comparing the input
 length with several huge blocks

---
 lib/high/Keccak/SP800-185/SP800-185.inc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/high/Keccak/SP800-185/SP800-185.inc b/lib/high/Keccak/SP800-185/SP800-185.inc
index ba797a5..e685347 100644
--- a/lib/high/Keccak/SP800-185/SP800-185.inc
+++ b/lib/high/Keccak/SP800-185/SP800-185.inc
@@ -247,7 +247,7 @@ int KMAC(const BitSequence *key, BitLength keyBitLen, const BitSequence *input,
 #define ParallelHash_Squeeze      JOIN(ParallelHash,_Squeeze)
 
 #define ParallelSpongeFastLoop( Parallellism ) \
-    while ( inputByteLen >= Parallellism * phi->blockLen ) { \
+    while ( (inputByteLen / Parallellism) >= phi->blockLen ) { \
         KeccakP1600times##Parallellism##_states states; \
         unsigned char intermediate[Parallellism*capacityInBytes]; \
         size_t localBlockLen = phi->blockLen; \
@@ -273,7 +273,7 @@ int KMAC(const BitSequence *key, BitLength keyBitLen, const BitSequence *input,
     }
 
 #define ParallelSpongeLoop( Parallellism ) \
-    while ( inputByteLen >= Parallellism * phi->blockLen ) { \
+    while ( (inputByteLen / Parallellism) >= phi->blockLen ) { \
         KeccakP1600times##Parallellism##_states states; \
         unsigned char intermediate[Parallellism*capacityInBytes]; \
         size_t localBlockLen = phi->blockLen; \
-- 
2.43.0


From e7baa14fa2422524de4f8b34ce90a9157f8c3ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:51 +0000
Subject: [PATCH 06/11] fix: duplex: count the queued input bytes when limiting
 the bits of delimitedSigmaEnd

---
 lib/high/Keccak/KeccakDuplex.inc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/high/Keccak/KeccakDuplex.inc b/lib/high/Keccak/KeccakDuplex.inc
index cdacc0a..66d692c 100644
--- a/lib/high/Keccak/KeccakDuplex.inc
+++ b/lib/high/Keccak/KeccakDuplex.inc
@@ -60,8 +60,8 @@ int Duplexing(DuplexInstance *instance, const unsigned char *sigmaBegin, unsigne
         return 1;
     if ((instance->byteInputIndex+sigmaBeginByteLen)*8 > rho_max)
         return 1;
-    if (rho_max - sigmaBeginByteLen*8 < 7) {
-        unsigned int maxBitsInDelimitedSigmaEnd = rho_max - sigmaBeginByteLen*8;
+    if (rho_max - (instance->byteInputIndex+sigmaBeginByteLen)*8 < 7) {
+        unsigned int maxBitsInDelimitedSigmaEnd = rho_max - (instance->byteInputIndex+sigmaBeginByteLen)*8;
         if (delimitedSigmaEnd >= (1 << (maxBitsInDelimitedSigmaEnd+1)))
             return 1;
     }
-- 
2.43.0


From c4bc8691c7f0c045799f85840f2b2eb19fc24b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:51 +0000
Subject: [PATCH 07/11] fix: duplex: write nothing before the output buffer
 when no further output is asked for

---
 lib/high/Keccak/KeccakDuplex.inc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/high/Keccak/KeccakDuplex.inc b/lib/high/Keccak/KeccakDuplex.inc
index 66d692c..9732642 100644
--- a/lib/high/Keccak/KeccakDuplex.inc
+++ b/lib/high/Keccak/KeccakDuplex.inc
@@ -161,7 +161,7 @@ int DuplexingGetFurtherOutput(DuplexInstance *instance, unsigned char *output, u
 
     SnP_ExtractBytes(&instance->state, output, instance->byteOutputIndex, outputByteLen);
     instance->byteOutputIndex += outputByteLen;
-    if (instance->byteOutputIndex*8 > instance->rate) {
+    if ((outputByteLen > 0) && (instance->byteOutputIndex*8 > instance->rate)) {
         unsigned char mask = (1 << (instance->rate % 8)) - 1;
         output[outputByteLen-1] &= mask;
     }
@@ -175,7 +175,7 @@ int DuplexingGetFurtherOutputAndAdd(DuplexInstance *instance, const unsigned cha
 
     SnP_ExtractAndAddBytes(&instance->state, input, output, instance->byteOutputIndex, outputByteLen);
     instance->byteOutputIndex += outputByteLen;
-    if (instance->byteOutputIndex*8 > instance->rate) {
+    if ((outputByteLen > 0) && (instance->byteOutputIndex*8 > instance->rate)) {
         unsigned char mask = (1 << (instance->rate % 8)) - 1;
         output[outputByteLen-1] &= mask;
     }
-- 
2.43.0


From c93bea6dc838905874ec0817851a379ba96f3a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:51 +0000
Subject: [PATCH 08/11] fix: Kravatte: ignore the bits of the last byte of a
 string beyond its bit length

---
 lib/high/Kravatte/Kravatte.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/high/Kravatte/Kravatte.c b/lib/high/Kravatte/Kravatte.c
index 6cd49d1..b3192f1 100644
--- a/lib/high/Kravatte/Kravatte.c
+++ b/lib/high/Kravatte/Kravatte.c
@@ -328,7 +328,7 @@ static const unsigned char * Kra_Compress( unsigned char *k, unsigned char *x, c
         message += messageByteLen;
         *messageBitLen %= 8;
         if (*messageBitLen != 0) /* padding */
-            KeccakP1600_AddByte(&state, *message++ | (1 << *messageBitLen), (unsigned int)messageByteLen);
+            KeccakP1600_AddByte(&state, (*message++ & ((1 << *messageBitLen) - 1)) | (1 << *messageBitLen), (unsigned int)messageByteLen);
         else
             KeccakP1600_AddByte(&state, 1, (unsigned int)messageByteLen);
         KeccakP1600_Permute_Nrounds(&state, 6);
-- 
2.43.0


From cc4d548c66f295b09c51d03491070fac4a2a80ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:51 +0000
Subject: [PATCH 09/11] fix: Xoofff: ignore the bits of the last byte of a
 string beyond its bit length

---
 lib/high/Xoofff/Xoofff.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/high/Xoofff/Xoofff.c b/lib/high/Xoofff/Xoofff.c
index 5069627..2205a62 100644
--- a/lib/high/Xoofff/Xoofff.c
+++ b/lib/high/Xoofff/Xoofff.c
@@ -430,7 +430,7 @@ static const unsigned char * Xoodoo_CompressBlocks( unsigned char *k, unsigned c
         message += messageByteLen;
         *messageBitLen %= 8;
         if (*messageBitLen != 0) /* padding */
-            Xoodoo_AddByte(&state, *message++ | (1 << *messageBitLen), messageByteLen);
+            Xoodoo_AddByte(&state, (*message++ & ((1 << *messageBitLen) - 1)) | (1 << *messageBitLen), messageByteLen);
         else
             Xoodoo_AddByte(&state, 1, messageByteLen);
         Xoodoo_Permute_6rounds(&state);
-- 
2.43.0


From 3b084bf5995e08e0004261e10ac6573ac029c1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:47 +0000
Subject: [PATCH 10/11] fix: SANE: ignore the bits of the last byte of data
 beyond its bit length (Kravatte, Xoofff)

---
 lib/high/Kravatte/KravatteModes.c | 4 ++--
 lib/high/Xoofff/XoofffModes.c     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/high/Kravatte/KravatteModes.c b/lib/high/Kravatte/KravatteModes.c
index 50cc5f7..4a1753b 100644
--- a/lib/high/Kravatte/KravatteModes.c
+++ b/lib/high/Kravatte/KravatteModes.c
@@ -151,11 +151,11 @@ static int Kravatte_SANE_AddToHistory(Kravatte_SANE_Instance *kp, const BitSeque
         dataBitLen = 2;
     }
     else if (dataBitLen <= 6) {
-        lastByte[0] = (BitSequence)(*data | (appendix << dataBitLen) | (kp->e << (dataBitLen + 1)));
+        lastByte[0] = (BitSequence)((*data & ((1 << dataBitLen) - 1)) | (appendix << dataBitLen) | (kp->e << (dataBitLen + 1)));
         dataBitLen += 2;
     }
     else { /* dataBitLen == 7 */
-        lastByte[0] = (BitSequence)(*data | (appendix << 7));
+        lastByte[0] = (BitSequence)((*data & 0x7F) | (appendix << 7));
         if ( Kra(&kp->kravatte, lastByte, 8, KRAVATTE_FLAG_NONE) != 0) {
             return 1;
         }
diff --git a/lib/high/Xoofff/XoofffModes.c b/lib/high/Xoofff/XoofffModes.c
index bc6180b..232e9f5 100644
--- a/lib/high/Xoofff/XoofffModes.c
+++ b/lib/high/Xoofff/XoofffModes.c
@@ -278,11 +278,11 @@ static int XoofffSANE_AddToHistory(XoofffSANE_Instance *xp, const BitSequence *d
         dataBitLen = 2;
     }
     else if (dataBitLen <= 6) {
-        lastByte[0] = (BitSequence)(*data | (appendix << dataBitLen) | (xp->e << (dataBitLen + 1)));
+        lastByte[0] = (BitSequence)((*data & ((1 << dataBitLen) - 1)) | (appendix << dataBitLen) | (xp->e << (dataBitLen + 1)));
         dataBitLen += 2;
     }
     else { /* dataBitLen == 7 */
-        lastByte[0] = (BitSequence)(*data | (appendix << 7));
+        lastByte[0] = (BitSequence)((*data & 0x7F) | (appendix << 7));
         if ( Xoofff_Compress(&xp->xoofff, lastByte, 8, Xoofff_FlagNone) != 0) {
             return 1;
         }
-- 
2.43.0


From c3d33567b715082358de64e7bddde5c787822f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:53 +0000
Subject: [PATCH 11/11] fix: cSHAKE: leave the unused bits of a customization
 string as the existing test vectors have them

---
 lib/high/Keccak/SP800-185/SP800-185.inc | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/lib/high/Keccak/SP800-185/SP800-185.inc b/lib/high/Keccak/SP800-185/SP800-185.inc
index e685347..c1aed55 100644
--- a/lib/high/Keccak/SP800-185/SP800-185.inc
+++ b/lib/high/Keccak/SP800-185/SP800-185.inc
@@ -64,13 +64,8 @@ int cSHAKE_Initialize(cSHAKE_Instance *csk, BitLength outputBitLen, const BitSeq
         /* Absorb encode_string(customization) */
         if (KeccakWidth1600_SpongeAbsorb(&csk->sponge, encbuf, left_encode(encbuf, customBitLen)) != 0)
             return 1;
-        if (KeccakWidth1600_SpongeAbsorb(&csk->sponge, customization, customBitLen / 8) != 0) /* allowed to be a bit string, as zero padding is following */
+        if (KeccakWidth1600_SpongeAbsorb(&csk->sponge, customization, (customBitLen + 7) / 8) != 0) /* allowed to be a bit string, as zero padding is following */
             return 1;
-        if ((customBitLen & 7) != 0) {
-            encbuf[0] = customization[customBitLen / 8] & ((1 << (customBitLen & 7)) - 1); /* strip unwanted bits */
-            if (KeccakWidth1600_SpongeAbsorb(&csk->sponge, encbuf, 1) != 0)
-                return 1;
-        }
             
         /* Zero padding up to rate */
         if ( csk->sponge.byteIOIndex != 0 ) {
-- 
2.43.0

